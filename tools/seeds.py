"""Planted bugs: (file, old text, new text) and a demonstration that passes without and fails with them."""
H = 'src/include/signal_tl/signal.hpp'; S = 'src/core/signal.cc'
M = 'src/robust_semantics/minmax.cc'; R = 'src/robust_semantics/classic_robustness.cc'; A = 'src/include/signal_tl/ast.hpp'; AC = 'src/core/ast.cc'
PA = 'src/parser/actions.hpp'; PG = 'src/parser/grammar.hpp'; PP = 'src/parser/parser.cc'
PPRE = '''static bool reads(const std::string& t) { try { return parser::from_string(t) != nullptr; } catch (const std::exception&) { return false; } }
static bool as(const std::string& t, const std::string& n, ast::Predicate p) {
  try { auto s = parser::from_string(t); auto q = std::get_if<ast::Predicate>(&s->assertions.at(n)); return q && *q == p; } catch (const std::exception&) { return false; }
}
'''
SEEDS = {
 'c01-equal-time': dict(property='C01', edits=[(S, 'if (sample.time <= this->end_time()) {', 'if (sample.time < this->end_time()) {')],
   needs='appending a sample at exactly the last time stamp', breaks='a sample that is not later than the last one is accepted',
   demo='''
    auto s = mk({{0, 1}, {1, 2}}); bool thrown = false;
    try { s->push_back(1, 5); } catch (const std::invalid_argument&) { thrown = true; }
    EXPECT(thrown); EXPECT(is(s, {{0, 1}, {1, 2}}));'''),
 'c01-points-times': dict(property='C01', edits=[(H, 'if (points.size() != times.size()) {', 'if (points.size() > times.size()) {')],
   needs='fewer points than times given to the constructor', breaks='different numbers of points and times are accepted, the rest of the times is dropped',
   demo='''
    bool thrown = false;
    try { Signal s(std::vector<double>{1, 2}, std::vector<double>{0, 1, 2}); } catch (const std::invalid_argument&) { thrown = true; }
    EXPECT(thrown); thrown = false;
    try { Signal s(std::vector<double>{1, 2, 3}, std::vector<double>{0, 1}); } catch (const std::invalid_argument&) { thrown = true; }
    EXPECT(thrown);'''),
 'c02-intersect-times': dict(property='C02', edits=[(H, '(point.derivative * point.time)', '(point.derivative * time)')],
   needs='the intersection of two lines given by samples at different times (the library itself only uses equal times)',
   breaks='the intersection time of two lines is wrong',
   demo='''
    Sample a{0, 0, 1}, b{2, 2, -1};
    double t = a.time_intersect(b); EXPECT(near(a.interpolate(t), b.interpolate(t)));
    EXPECT(near(a.time_intersect(b), 2.0));'''),
 'c03-begin-at': dict(property='C03', edits=[(H, '''    constexpr auto comp_op = [](const Sample& a, const Sample& b) {
      return a.time < b.time;''', '''    constexpr auto comp_op = [](const Sample& a, const Sample& b) {
      return a.time <= b.time;''')],
   needs='iterating from a time that is exactly a sample time after the first', breaks='iteration skips the sample at that time',
   demo='''
    auto s = mk({{0, 1}, {1, 2}, {2, 5}});
    EXPECT(s->begin_at(1.0) - s->begin() == 1); EXPECT(s->begin_at(0.5) - s->begin() == 1); EXPECT(s->begin_at(2.0) - s->begin() == 2);'''),
 'c04-close-times': dict(property='C04', edits=[(S, 'if (i->time == j->time) {', 'if (std::abs(i->time - j->time) < 1e-9) {'),
     (S, '#include <algorithm>    // for lower_bound, max', '#include <algorithm>    // for lower_bound, max\n#include <cmath>        // for abs')],
   needs='two time stamps closer than 1e-9 in the two signals', breaks='the two results have different time stamps, one of them is lost',
   demo='''
    auto a = mk({{0, 0}, {1, 1}, {2, 0}}), b = mk({{0, 0}, {1 + 1e-10, 5}, {2, 0}});
    auto [x, y] = synchronize(a, b);
    EXPECT(x->size() == 4 && y->size() == 4);
    for (size_t i = 0; i < x->size(); i++) EXPECT(x->at_idx(i).time == y->at_idx(i).time);'''),

 'c07-lt-side': dict(property='C07', edits=[(R, """      case ast::ComparisonOp::GE:
      case ast::ComparisonOp::GT:
""", """      case ast::ComparisonOp::GE:
      case ast::ComparisonOp::GT:
      case ast::ComparisonOp::LT:
"""), (R, """      case ast::ComparisonOp::LE:
      case ast::ComparisonOp::LT:
""", """      case ast::ComparisonOp::LE:
""")], needs='a predicate with a strict less-than', breaks='x < c gets the robustness of x > c',
   demo="""
    auto x = mk({{0, 1}, {2, 5}}); Trace tr{{"x", x}};
    EXPECT(is(compute_robustness(Expr(ast::Predicate{"x", ast::ComparisonOp::LT, 3}), tr), {{0, 2}, {2, -2}}));"""),
 'c07-missing-name': dict(property='C07', edits=[(R, "  const auto& x = trace.at(e.name);", """  const auto it = trace.lower_bound(e.name);
  if (it == trace.end()) {
    throw std::out_of_range("no signal with this name");
  }
  const auto& x = it->second;""")], needs='a predicate over a name that is missing while a later name is in the trace', breaks='another signal is used instead of failing',
   demo="""
    auto x = mk({{0, 1}, {2, 5}}); Trace tr{{"b", x}, {"d", x}}; bool thrown = false;
    EXPECT(compute_robustness(atom("d"), tr)->size() == 2);
    try { compute_robustness(atom("c"), tr); } catch (const std::out_of_range&) { thrown = true; }
    EXPECT(thrown);"""),
 'c08-fold-last': dict(property='C08', edits=[(M, """      std::next(xs.cbegin()),
      xs.cend(),
      xs.at(0),""", """      std::next(xs.cbegin()),
      std::prev(xs.cend(), xs.size() > 4 ? 1 : 0),
      xs.at(0),""")], needs='five or more operands, the last one deciding', breaks='the last operand of a long conjunction is ignored',
   demo="""
    Trace tr; std::vector<Expr> es;
    for (int i = 0; i < 6; i++) { std::string n(1, char('a' + i)); tr[n] = mk({{0, 10.0 - i}, {1, 10.0 - i}}); es.push_back(atom(n)); }
    auto r = compute_robustness(signal_tl::And(es), tr);
    EXPECT(is(r, {{0, 5}, {1, 5}}));
    r = compute_robustness(signal_tl::Or(es), tr); EXPECT(is(r, {{0, 10}, {1, 10}}));"""),
 'c09-plateau': dict(property='C09', edits=[(M, """    opt = (comp(*i, opt)) ? *i : opt;
    z.push_back({i->time, opt.value});""", """    opt = (comp(*i, opt)) ? *i : opt;
    if (z.size() > 2 && z.back().value == opt.value && z[z.size() - 2].value == opt.value && i->value != opt.value) continue;
    z.push_back({i->time, opt.value});""")], needs='three sample times in a row with the same optimum', breaks='sample times are left out of the result',
   demo="""
    auto x = mk({{0, 5}, {1, 4}, {2, 6}, {3, 3}, {4, 2}, {5, 7}, {6, 1}}); Trace tr{{"x", x}};
    EXPECT(is(compute_robustness(signal_tl::Always(atom("x")), tr), {{0, 1}, {1, 1}, {2, 1}, {3, 1}, {4, 1}, {5, 1}, {6, 1}}));
    EXPECT(compute_robustness(signal_tl::Eventually(atom("x")), tr)->size() == 7);"""),
 'c10-int-bounds': dict(property='C10', edits=[(A, "      b = static_cast<double>(*b_pval);", "      b = static_cast<double>(static_cast<int>(*b_pval));")],
   needs='an integer bound larger than 2^31', breaks='the bound used is not the one given',
   demo="""
    ast::Interval i(1ull, 5000000000ull); EXPECT(i.as_double().second == 5e9);
    auto x = mk({{0, 1}, {1, 2}, {4e9, -3}, {4.5e9, 8}}); Trace tr{{"x", x}};
    auto r = compute_robustness(signal_tl::Always(atom("x"), i), tr); EXPECT(r->at_idx(0).value == -3);"""),
 'c10-zero-to-inf': dict(property='C10', edits=[(A, "return start_zero && end_inf;", "return start_zero || end_inf;")],
   needs='an interval [0,b] or [a,inf)', breaks='bounds are ignored',
   demo="""
    auto x = mk({{0, 1}, {1, 2}, {4, -3}, {5, 8}}); Trace tr{{"x", x}};
    auto r = compute_robustness(signal_tl::Always(atom("x"), ast::Interval(0.0, 1.0)), tr); EXPECT(is(r, {{0, 1}, {1, 1.0 / 3}, {4, -3}, {5, 8}}));"""),
 'c11-until-bounded': dict(property='C11', edits=[(R, "  if (std::isinf(b) && a == 0) {", "  if (std::isinf(b)) {")],
   needs='until over [a,inf) with a > 0', breaks='a bounded until is evaluated as an unbounded one',
   demo="""
    auto x = mk({{0, 1}, {1, 2}}); Trace tr{{"x", x}}; bool thrown = false;
    try { compute_robustness(signal_tl::Until(atom("x"), atom("x"), ast::Interval(1.0, INF)), tr); } catch (const not_implemented_error&) { thrown = true; }
    EXPECT(thrown);
    EXPECT(compute_robustness(signal_tl::Until(atom("x"), atom("x")), tr)->size() == 2);"""),
 'c12-const-end': dict(property='C12', edits=[(R, "      end    = std::max(end, s->end_time());", "      end    = (s->begin_time() <= begin) ? s->end_time() : std::max(end, s->end_time());")],
   needs='the signal that begins first (in name order) is not the one that ends last', breaks='a constant ends too early',
   demo="""
    Trace tr{{"a", mk({{2, 0}, {9, 0}})}, {"b", mk({{1, 0}, {5, 0}})}};
    EXPECT(is(compute_robustness(Expr(ast::Const{true}), tr), {{1, INF}, {9, INF}}));"""),

 'c08-fold-sync': dict(property='C08', edits=[(M, "        return compute_minmax_pair(a, b, comp, synchronized);\n      });", "        return compute_minmax_pair(a, b, comp, synchronized || a->size() == b->size());\n      });")],
   needs='three or more operands with equally many samples at different times', breaks='samples at different times are compared with each other',
   demo="""
    Trace tr{{"a", mk({{0, 5}, {1, 0}, {4, 5}})}, {"b", mk({{0, 9}, {2, -1}, {4, 9}})}, {"c", mk({{0, 7}, {3, 7}, {4, 7}})}};
    auto r = compute_robustness(signal_tl::And({atom("a"), atom("b"), atom("c")}), tr);
    for (double t = 0; t <= 4; t += 0.5) EXPECT(near(r->at(t).value, std::min({tr["a"]->at(t).value, tr["b"]->at(t).value, tr["c"]->at(t).value})));"""),
 'c13-sync-time': dict(property='C13', edits=[(S, "      yv.push_back(Sample{i->time, std::prev(j)->interpolate(i->time)});", """      const auto& from = *std::prev(j);
      const double gap = i->time - from.time;
      yv.push_back(Sample{from.time + gap, from.interpolate(i->time)});""")],
   needs='time stamps whose difference is rounded', breaks='a time stamp of a synchronized signal is not the one of the operand',
   demo="""
    auto a = mk({{-3, 0}, {1e-17, 1}, {2e-17, 2}, {5, 0}}), b = mk({{-3, 0}, {5, 5}});
    auto [x, y] = synchronize(a, b);
    for (size_t i = 0; i < x->size(); i++) EXPECT(x->at_idx(i).time == y->at_idx(i).time);
    EXPECT(y->size() == 4);"""),
 'c13-seq-time': dict(property='C13', edits=[(M, "    z.push_back({i->time, opt.value});", "    z.push_back({x->end_time() - (x->end_time() - i->time), opt.value});")],
   needs='time stamps that are very close together compared with the length of the trace', breaks='the evaluation of always throws',
   demo="""
    auto a = mk({{0, 0}, {1e-17, 1}, {2e-17, 2}, {5, 0}}); Trace tr{{"x", a}};
    auto r = compute_robustness(signal_tl::Always(atom("x")), tr);
    for (size_t i = 0; i < a->size(); i++) EXPECT(a->at_idx(i).time == r->at_idx(i).time);"""),

 'c05-plateau-end': dict(property='C05', edits=[(S, "  if (this->end_time() != sig->end_time()) {\n    sig->push_back(this->back());", "  if (!sig->empty() && this->back().value != sig->back().value) {\n    sig->push_back(this->back());")],
   needs='a signal that ends with a constant piece', breaks='the simplified signal ends earlier than the original',
   demo="""
    auto s = mk({{0, 1}, {1, 3}, {2, 3}, {5, 3}})->simplify();
    EXPECT(s->begin_time() == 0 && s->end_time() == 5); EXPECT(s->at(4).value == 3); EXPECT(s->at(0.5).value == 2);"""),
 'c05-slope-change': dict(property='C05', edits=[(S, "sig->back().derivative != d)", "sig->back().derivative * d < 0)")],
   needs='a constant piece in the middle of a signal', breaks='the sample at its end is dropped, values before and after it change',
   demo="""
    auto a = mk({{0, 0}, {1, 1}, {2, 1}, {3, 4}, {4, 4}}); auto s = a->simplify();
    for (double t = 0; t <= 4; t += 0.25) EXPECT(near(a->at(t).value, s->at(t).value));"""),
 'c06-shift-slope': dict(property='C06', edits=[(S, "  for (auto& s : sig->samples) { s.time += dt; }\n", "  for (auto& s : sig->samples) { s = Sample{s.time + dt, s.value}; }\n")],
   needs='the value of a shifted signal between two samples', breaks='values between the samples of a shifted signal are not interpolated',
   demo="""
    auto a = mk({{0, 0}, {2, 4}, {3, 1}}); auto s = a->shift(10);
    EXPECT(s->at(10).value == 0 && s->at(12).value == 4 && s->at(13).value == 1); EXPECT(near(s->at(11).value, 2)); EXPECT(near(s->at(12.5).value, 2.5));"""),
 'c06-negative-shift': dict(property='C06', edits=[(S, "  for (auto& s : out->samples) { s.time += dt; }", "  if (out->begin_time() + dt < 0) { dt = -out->begin_time(); } // time starts at 0\n  for (auto& s : out->samples) { s.time += dt; }")],
   needs='resizing and shifting to before time 0', breaks='the result is shifted by less than asked for',
   demo="""
    auto a = mk({{0, 0}, {2, 4}, {3, 1}});
    EXPECT(is(a->resize_shift(0, 2, 0, -1), {{-1, 0}, {1, 4}})); EXPECT(is(a->resize_shift(0, 2, 0, 1), {{1, 0}, {3, 4}}));"""),
 'c14-sync-end': dict(property='C14', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS ', edits=[(S, "while (i != x->end() && j != y->end()) {", "while (i != x->end()) {")],
   needs='the second signal ends before the first one', breaks='samples after the last one are read',
   demo="""
    for (int k = 1; k < 40; k++) { std::vector<std::pair<double, double>> v, w; for (int i = 0; i < k; i++) { v.push_back({1.0 * i, 1.0}); w.push_back({1.0 * i, 2.0}); }
      v.push_back({100, 1}); auto r = synchronize(mk(v), mk(w)); EXPECT(std::get<0>(r)->size() == size_t(k)); EXPECT(std::get<1>(r)->size() == size_t(k)); }"""),
 'c14-pair-start': dict(property='C14', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS ', edits=[(M, "      if (last_chosen == Chosen::Y) {", "      if (last_chosen != Chosen::X) {")],
   needs='the first samples of two signals, the first signal being the optimum there', breaks='samples before the first ones are read',
   demo="""
    for (int k = 1; k < 40; k++) { std::vector<std::pair<double, double>> v, w; for (int i = 0; i < k; i++) { v.push_back({1.0 * i, 1.0}); w.push_back({1.0 * i, 2.0}); }
      auto r = minmax::compute_elementwise_min(mk(v), mk(w)); EXPECT(r->size() == size_t(k)); }"""),
 'c14-at-idx': dict(property='C14', flags='-D_GLIBCXX_ASSERTIONS -fsanitize=address ', edits=[(H, "    return this->samples.at(i);", "    return this->samples[i];")],
   needs='an index that is not less than the size', breaks='memory after the samples is read instead of throwing',
   demo="""
    auto a = mk({{0, 1}, {1, 2}}); bool thrown = false; EXPECT(a->at_idx(1).value == 2);
    try { (void)a->at_idx(2); } catch (const std::out_of_range&) { thrown = true; }
    EXPECT(thrown);"""),
 'c15-implies-const': dict(property='C15', edits=[(AC, "  return (~x) | (y);", "  if (const auto c = std::get_if<ast::Const>(&x)) {\n    return c->value ? y : Expr{*c};\n  }\n  return (~x) | (y);")],
   needs='an implication whose left side is the constant false', breaks='it becomes false instead of true',
   demo="""
    auto e = signal_tl::Implies(Expr(ast::Const{false}), atom("x")); auto c = std::get_if<ast::Const>(&e); EXPECT(c && c->value);
    EXPECT(std::get_if<ast::Predicate>(&(const Expr&)signal_tl::Implies(Expr(ast::Const{true}), atom("x"))) != nullptr);"""),
 'c15-or-seam': dict(property='C15', edits=[(AC, """          [](const Const) {}, // false is the identity
          [&args](const OrPtr& e) {
            args.reserve(
                args.size() +
                static_cast<size_t>(std::distance(e->args.begin(), e->args.end())));
            args.insert(args.end(), e->args.begin(), e->args.end());""", """          [](const Const) {}, // false is the identity
          [&args](const OrPtr& e) {
            args.reserve(
                args.size() +
                static_cast<size_t>(std::distance(e->args.begin(), e->args.end())));
            // Do not repeat the operand where the two disjunctions meet.
            const bool same = e->args.front().index() == args.back().index() && e->args.front().index() > 2;
            args.insert(args.end(), e->args.begin() + (same ? 1 : 0), e->args.end());""")],
   needs='joining two disjunctions, the first ending and the second beginning with the same kind of compound operand', breaks='an operand is lost',
   demo="""
    auto n = [](const char* s) { return signal_tl::And({atom(s), atom("z")}); };
    Expr e = (atom("a") | n("b")) | (n("c") | atom("d")); auto p = std::get_if<ast::OrPtr>(&e); EXPECT(p && (*p)->args.size() == 4);
    e = (atom("a") | atom("b")) | (atom("c") | atom("d")); p = std::get_if<ast::OrPtr>(&e); EXPECT(p && (*p)->args.size() == 4);"""),
 'c16-interval-limits': dict(property='C16', edits=[(A, "    if (a < 0 || b < 0) {", "    if (a < 0 || b < 0 || std::isinf(b)) {")],
   needs='an interval that is given with an infinite upper bound', breaks='[a,inf) is rejected',
   demo="""
    ast::Interval i(1.0, INF); EXPECT(i.as_double().first == 1 && i.as_double().second == INF); ast::Interval j(0.0, 2.0); EXPECT(j.as_double().second == 2);"""),
 'c16-until-default': dict(property='C16', edits=[(AC, "  return std::make_shared<ast::Until>(std::move(arg1), std::move(arg2));", "  return std::make_shared<ast::Until>(\n      std::move(arg1), std::move(arg2), ast::Interval{0.0, std::numeric_limits<double>::max()});")],
   needs='an until without interval, whose bounds are then used', breaks='the interval is not [0,inf)',
   demo="""
    auto e = signal_tl::Until(atom("x"), atom("y")); auto u = std::get<ast::UntilPtr>(e); EXPECT(u->interval.is_zero_to_inf()); EXPECT(u->interval.as_double().second == INF);"""),
 'c17-and-in-place': dict(property='C17', edits=[(AC, """    return *c_ptr;
  }
  std::vector<Expr> args{lhs->args};

  std::visit(
      overloaded{
          [&args](const auto e) { args.push_back(e); },
          [](const Const) {}, // true is the identity""", """    return *c_ptr;
  }
  auto& args = lhs->args; // appended to below

  std::visit(
      overloaded{
          [&args](const auto e) { args.push_back(e); },
          [](const Const) {}, // true is the identity""")],
   needs='using a conjunction again after it was combined with another formula', breaks='the operand of & gets the other operands too',
   demo="""
    Expr a = atom("a") & atom("b"); Expr b = a & atom("c");
    EXPECT(std::get<ast::AndPtr>(b)->args.size() == 3); EXPECT(std::get<ast::AndPtr>(a)->args.size() == 2);"""),
 'c17-extend': dict(property='C17', edits=[(R, "  const auto& x = trace.at(e.name);\n", "  const auto& x = trace.at(e.name);\n  if (!x->empty() && x->end_time() < max_time) {\n    x->push_back(max_time, x->back().value); // the last value is held\n  }\n"), (R, "    const double v = sample.value;\n", "    const double v{sample.value};\n")],
   needs='signals that end at different times', breaks='the signals in the trace are extended by the evaluation',
   demo="""
    Trace tr{{"a", mk({{0, 1}, {2, 3}})}, {"b", mk({{0, 1}, {5, 3}})}};
    (void)compute_robustness(Expr(atom("a") | atom("b")), tr);
    EXPECT(is(tr["a"], {{0, 1}, {2, 3}})); EXPECT(is(tr["b"], {{0, 1}, {5, 3}}));"""),

 'c18-turned-le': dict(property='C18', parser=True, edits=[(PA, """        case ast::ComparisonOp::LE:
          comparison_type = ast::ComparisonOp::GE;""", """        case ast::ComparisonOp::LE:
          comparison_type = ast::ComparisonOp::GT;""")],
   needs='(<= c x), with the constant first', breaks='the turned comparison is strict', pre=PPRE,
   demo="""
    EXPECT(as("(assert p (<= 1 x))", "p", ast::Predicate{"x", ast::ComparisonOp::GE, 1}));
    EXPECT(as("(assert p (< 1 x))", "p", ast::Predicate{"x", ast::ComparisonOp::GT, 1}));
    EXPECT(as("(assert p (<= x 1))", "p", ast::Predicate{"x", ast::ComparisonOp::LE, 1}));"""),
 'c18-narrow': dict(property='C18', parser=True, edits=[(PA, "    long int val           = std::stol(in.string());", "    long int val           = std::stoi(in.string());")],
   needs='an integer constant of 2^31 or more', breaks='the specification is rejected', pre=PPRE,
   demo="""
    EXPECT(as("(assert p (> x 2147483647))", "p", ast::Predicate{"x", ast::ComparisonOp::GT, 2147483647.0}));
    EXPECT(as("(assert p (> x 3000000000))", "p", ast::Predicate{"x", ast::ComparisonOp::GT, 3e9}));"""),
 'c18-exponent': dict(property='C18', parser=True, edits=[(PG, """                                   decimal_seq,
                                   peg::opt<peg::one<'.'>>,
                                   exponent<peg::one<'e', 'E'>>>>,""", """                                   decimal_seq,
                                   peg::one<'.'>,
                                   exponent<peg::one<'e', 'E'>>>>,""")],
   needs='a constant with exponent and without a point', breaks='1e3 is read as 1 and a name e3', pre=PPRE,
   demo="""
    EXPECT(as("(assert p (> x 1.5e3))", "p", ast::Predicate{"x", ast::ComparisonOp::GT, 1500}));
    EXPECT(as("(assert p (> x 1e3))", "p", ast::Predicate{"x", ast::ComparisonOp::GT, 1000}));"""),
 'c18-kept-name': dict(property='C18', parser=True, edits=[(PG, "struct PredicateForm2 : peg::seq<Numeral, Identifier> {};", "struct PredicateForm2 : peg::seq<Numeral, peg::opt<Identifier>> {};"),
     (PA, "    ParserState new_local_state{};\n", "    ParserState new_local_state{};\n    new_local_state.identifiers = state.identifiers;\n")],
   needs='a predicate that has no name, in an assertion', breaks='the predicate is accepted with the name of the assertion', pre=PPRE,
   demo="""
    EXPECT(!reads("(assert p (> 3))")); EXPECT(reads("(assert p (> 3 x))"));"""),
 'c19-three': dict(property='C19', parser=True, edits=[(PG, "struct NaryTail : peg::plus<Term> {};", "struct NaryTail : peg::seq<Term, Term, peg::opt<Term>> {};")],
   needs='and/or with more than three operands', breaks='the specification is rejected', pre=PPRE,
   demo="""
    EXPECT(reads("(assert p (and (> x 1) (> y 1) (> z 1)))")); EXPECT(reads("(assert p (and (> x 1) (> y 1) (> z 1) (> w 1)))"));"""),
 'c19-until-order': dict(property='C19', parser=True, edits=[(PG, "struct UntilTerm : peg::if_must<KwUntil, Term, Term> {};", "struct UntilTerm : peg::if_must<KwUntil, NaryTail> {};"),
     (PA, """struct action<UntilTerm> {
  static void apply0(GlobalParserState&, ParserState& state) {
    // We expect the state to contain exactly 2 terms
    assert(state.terms.size() == 2);
    auto rhs = state.terms.back();
    state.terms.pop_back();
""", """struct action<UntilTerm> {
  static void apply0(GlobalParserState&, ParserState& state) {
    if (state.terms.size() < 2) {
      throw std::logic_error("expected 2 terms");
    }
    auto rhs = state.terms.back();
    state.terms.pop_back();
""")],
   needs='until with three operands', breaks='the specification is accepted and the first operand is lost', pre=PPRE,
   demo="""
    EXPECT(reads("(assert p (until (> x 1) (> y 1)))")); EXPECT(!reads("(assert p (until (> x 1) (> y 1) (> z 1)))")); EXPECT(!reads("(assert p (until (> x 1)))"));"""),
 'c19-double-parens': dict(property='C19', parser=True, edits=[(PA, "    new_local_state.level = state.level + 1;\n", "    new_local_state.level = state.level + 1;\n    new_local_state.identifiers = state.identifiers;\n")],
   needs='a term in parentheses of its own, directly in a command', breaks='the name of the command is taken for the term', pre=PPRE,
   demo="""
    EXPECT(reads("(assert p (not (> x 1)))")); EXPECT(reads("(assert p ((not (> x 1))))"));"""),
 'c19-depth': dict(property='C19', parser=True, edits=[(PA, "    new_local_state.level = state.level + 1;\n", "    new_local_state.level = state.level + 1;\n    if (new_local_state.level > 32) {\n      throw peg::parse_error(\"formula is nested too deep\", in);\n    }\n")],
   needs='a formula that is nested more than 32 levels deep', breaks='the specification is rejected', pre=PPRE,
   demo="""
    for (int n : {3, 20, 40, 100}) {
      std::string t = "(> x 1)"; for (int i = 0; i < n; i++) t = "(not " + t + ")";
      EXPECT(reads("(assert p " + t + ")"));
    }"""),
 'c20-redefine-alike': dict(property='C20', parser=True, edits=[(PA, """    const auto [it, check] = global_state.formulas.insert({id, expr});
    if (!check) {""", """    const auto [it, check] = global_state.formulas.insert({id, expr});
    if (!check && it->second.index() != expr.index()) {""")],
   needs='a second definition of a name with a formula of the same kind', breaks='the second definition is accepted and lost', pre=PPRE,
   demo="""
    EXPECT(!reads("(define-formula a (> x 1)) (define-formula a true)")); EXPECT(!reads("(define-formula a (> x 1)) (define-formula a (> y 2))"));
    EXPECT(reads("(define-formula a (> x 1)) (assert a (> y 2))"));"""),
 'c20-assertion-term': dict(property='C20', parser=True, edits=[(PA, "      state.terms.push_back(global_state.formulas.at(state.identifiers.back()));\n", """      const auto& name = state.identifiers.back();
      const auto known = global_state.formulas.find(name);
      state.terms.push_back(
          (known != global_state.formulas.end()) ? known->second :
                                                   global_state.assertions.at(name));
""")],
   needs='using the name of an assertion as a term', breaks='a name that is not defined is accepted', pre=PPRE,
   demo="""
    EXPECT(!reads("(assert a (> x 1)) (assert b (not a))")); EXPECT(reads("(define-formula a (> x 1)) (assert b (not a))")); EXPECT(!reads("(assert b (not a))"));"""),
 'c20-shared-tables': dict(property='C20', parser=True, edits=[(PP, """    assert(top_local_state.level == 0);
""", """    assert(top_local_state.level == 0);
    for (const auto& [name, formula] : global_state.assertions) {
      global_state.formulas.insert({name, formula});
    }
""")],
   needs='looking at the definitions of a specification with assertions', breaks='the definitions contain the assertions too', pre=PPRE,
   demo="""
    auto s = parser::from_string("(define-formula a (> x 1)) (assert b (not a))"); EXPECT(s->formulas.size() == 1 && s->formulas.count("a")); EXPECT(s->assertions.size() == 1 && s->assertions.count("b"));"""),
 'c20-keyword-prefix': dict(property='C20', parser=True, edits=[(PG, """struct KwTrue : Keyword<TAO_PEGTL_STRING("true")> {};""", """struct KwTrue : Symbol<TAO_PEGTL_STRING("true")> {};""")],
   needs='a name that begins with "true" is used as a term', breaks='it is read as the constant', pre=PPRE,
   demo="""
    EXPECT(reads("(define-formula tru (> x 1)) (assert b tru)")); EXPECT(reads("(define-formula truex (> x 1)) (assert b truex)"));"""),
}
