"""What each check verifies."""
P = {
 'C01': dict(roots=['Signal::push_back(Sample)', 'Signal::push_back(double,double)', 'Signal::Signal()', 'Signal::Signal(Signal)',
                    'Signal::Signal(vector<Sample>)', 'Signal::Signal(vector<double>,vector<double>)']),
 'C02': dict(modes=('R',), roots=['Sample::interpolate(double)', 'Sample::time_intersect(Sample)', 'Signal::interpolate(double,unsigned long)',
                    'Signal::time_intersect(Sample,unsigned long)',
                    'Signal::push_back(Sample)', 'Signal::push_back(double,double)', 'Signal::Signal()', 'Signal::Signal(Signal)',
                    'Signal::Signal(vector<Sample>)', 'Signal::Signal(vector<double>,vector<double>)']),
 'C03': dict(roots=['Signal::begin_time()', 'Signal::end_time()', 'Signal::front()', 'Signal::back()', 'Signal::at_idx(unsigned long)',
                    'Signal::size()', 'Signal::empty()', 'Signal::begin()', 'Signal::end()', 'Signal::rbegin()', 'Signal::rend()',
                    'Signal::begin_at(double)', 'Signal::end_at(double)', 'Signal::at(double)']),
 'C04': dict(roots=['synchronize(SignalPtr,SignalPtr)']),
 'C07': dict(roots=['RobustnessOp::operator()(Predicate)', 'operator<(Predicate,double)', 'operator<=(Predicate,double)', 'operator>(Predicate,double)', 'operator>=(Predicate,double)']),
 'C08': dict(modes=('R',), roots=['RobustnessOp::operator()(NotPtr)', 'RobustnessOp::operator()(AndPtr)', 'RobustnessOp::operator()(OrPtr)',
                    'compute_elementwise_min(SignalPtr,SignalPtr,bool)', 'compute_elementwise_max(SignalPtr,SignalPtr,bool)'], cuts=['compute(Expr,RobustnessOp)']),
 'C09': dict(modes=('R',), roots=['RobustnessOp::operator()(AlwaysPtr)', 'RobustnessOp::operator()(EventuallyPtr)'], cuts=['compute(Expr,RobustnessOp)']),
 'C10': dict(modes=('R',), roots=['RobustnessOp::operator()(AlwaysPtr)', 'RobustnessOp::operator()(EventuallyPtr)'], cuts=['compute(Expr,RobustnessOp)']),
 'C11': dict(modes=('R',), roots=['RobustnessOp::operator()(UntilPtr)'], cuts=['compute(Expr,RobustnessOp)']),
 'C12': dict(modes=('R',), roots=['compute_robustness(Expr,map<string,SignalPtr>,bool)'],
             cuts=['compute_elementwise_min(vector<SignalPtr>,bool)', 'compute_elementwise_max(vector<SignalPtr>,bool)', 'compute_min_seq(SignalPtr)', 'compute_max_seq(SignalPtr)',
                   'compute_min_seq(SignalPtr,double,double)', 'compute_max_seq(SignalPtr,double,double)', 'compute_until(SignalPtr,SignalPtr)',
                   'Signal::push_back(Sample)', 'Signal::push_back(double,double)', 'Signal::Signal()', 'Signal::Signal(Signal)', 'Signal::Signal(vector<Sample>)',
                   'Signal::begin_time()', 'Signal::end_time()']),
 'C13': dict(modes=('I',), roots=['compute_robustness(Expr,map<string,SignalPtr>,bool)']),
 'C05': dict(roots=['Signal::simplify()']),
 'C06': dict(modes=('R',), roots=['Signal::resize(double,double,double)', 'Signal::shift(double)', 'Signal::resize_shift(double,double,double,double)']),
 'C15': dict(modes=('R',), roots=['operator~(Expr)', 'operator&(Expr,Expr)', 'operator|(Expr,Expr)', 'Not(Expr)', 'And(vector<Expr>)', 'Or(vector<Expr>)',
                    'Implies(Expr,Expr)', 'Xor(Expr,Expr)', 'Iff(Expr,Expr)']),
 'C16': dict(roots=['Interval::Interval()', 'Interval::Interval(double,double)', 'Interval::Interval(unsigned long long,unsigned long long)',
                    'And::And(vector<Expr>)', 'Or::Or(vector<Expr>)', 'Not::Not(Expr)', 'And(vector<Expr>)', 'Or(vector<Expr>)', 'Not(Expr)', 'Const(bool)', 'Predicate(string)',
                    'Predicate::Predicate(string,ComparisonOp,double)', 'operator<(Predicate,double)', 'operator<=(Predicate,double)', 'operator>(Predicate,double)', 'operator>=(Predicate,double)',
                    'Always::Always(Expr)', 'Always::Always(Expr,Interval)', 'Eventually::Eventually(Expr)', 'Eventually::Eventually(Expr,Interval)',
                    'Until::Until(Expr,Expr)', 'Until::Until(Expr,Expr,Interval)', 'Always(Expr)', 'Always(Expr,Interval)', 'Eventually(Expr)', 'Eventually(Expr,Interval)',
                    'Until(Expr,Expr)', 'Until(Expr,Expr,Interval)']),
 'C14': dict(modes=('I',), roots=None),
}
# everything that works on signals, traces and formulas
P['C14']['roots'] = sorted(set(sum((P[c]['roots'] for c in P if P[c]['roots']), [])) | {'Sample::area(double)', 'Signal::area(double,unsigned long)',
    'operator<(Sample,Sample)', 'operator>(Sample,Sample)', 'operator<=(Sample,Sample)', 'operator>=(Sample,Sample)', 'operator-(Sample)'})

P['C17'] = dict(modes=('I',), frame=True, only='(?i)^(frame|an input is modified|a signal that may be shared|the result is a signal that may)',
    roots=sorted(set(sum((P[c]['roots'] for c in ('C04', 'C05', 'C06', 'C15', 'C16')), [])) | {'compute_robustness(Expr,map<string,SignalPtr>,bool)', 'Signal::at(double)', 'Signal::Signal(Signal)'}))

# the specification language
BUILDERS = ['%s(Expr)' % n for n in ('Not', 'Always', 'Eventually')] + ['%s(vector<Expr>)' % n for n in ('And', 'Or')] + ['%s(Expr,Expr)' % n for n in ('Implies', 'Iff', 'Xor', 'Until')]
OPERATORS = ['rule %sTerm' % n for n in ('Not', 'And', 'Or', 'Implies', 'Iff', 'Xor', 'Always', 'Eventually', 'Until')]
TERM = ['action<Term>::match(%s,GlobalParserState,ParserState)' % i for i in ('string_input<lf_crlf,string>', 'file_input<lf_crlf>')]
PARSER = dict(modes=('I',), det=True, sp=True, tus=('ast', 'parser'),
    note='The grammar (the C++ types of grammar.hpp) is read from the source; what the combinators of the PEGTL do (seq, sor, star, plus, until, must, if_must, at, not_at, disable, opt, one, string, classes, identifier, eolf, eof, when actions run) is trusted as stated in vc/rules.py. ',
    trusted=['the PEGTL: its combinators and character classes mean what vc/rules.py and module Pegtl say, a control class that raises only in must, actions run as documented',
             'std::stol and std::stod of a text that begins with a numeral: modules Spec and Stol (dval is the nearest double, not specified further)',
             'the text of a file is what file_input reads'],
    assumptions=['the functions that build formulas are functions of their operands (f_not, f_and, ... in module Spec); what they build is C15 and C16',
                 'assertions of the code are compiled out (NDEBUG)'])
P['C18'] = dict(PARSER, roots=['rule PredicateTerm'] + TERM, cuts=OPERATORS)
P['C19'] = dict(PARSER, roots=TERM, cuts=BUILDERS + ['rule PredicateTerm'], modes=('I', 'R'),
    mode_R=dict(roots=BUILDERS, cuts=[], tags=['C15'], sp=False, det=False))
P['C20'] = dict(PARSER, roots=['from_string(string_view)', 'from_file(path)'], cuts=OPERATORS + ['rule PredicateTerm'])
