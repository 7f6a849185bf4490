"""The contracts: what each function of the library guarantees to its callers.

Clauses starting with `R:' hold for doubles taken as real numbers, `I:' for IEEE doubles with arbitrary
results of arithmetic, `Cnn:' only for that check; the others hold for both."""
from gen import Contract as C, Loop as L

K = {}

# ---------------------------------------------------------------- samples
K['Sample::interpolate(double)'] = C(ensures=['R: result = interp this p0'])
K['Sample::time_intersect(Sample)'] = C(
    requires=['R: this.derivative <> p0.derivative'],
    ensures=['R: result = isect this.derivative this.value this.time p0.derivative p0.value p0.time',
             'C02: interp this result = interp p0 result'], ruses=['Arith'])
K['Sample::area(double)'] = C()
K['operator<(Sample,Sample)'] = C(ensures=['R: result <-> p0.value <. p1.value'])
K['operator>(Sample,Sample)'] = C(ensures=['R: result <-> p0.value >. p1.value'])
K['operator<=(Sample,Sample)'] = C(ensures=['R: result <-> p0.value <=. p1.value'])
K['operator>=(Sample,Sample)'] = C(ensures=['R: result <-> p0.value >=. p1.value'])
K['operator-(Sample)'] = C(ensures=['result.time = p0.time', 'R: result.value = -. p0.value', 'R: result.derivative = -. p0.derivative'])

# ---------------------------------------------------------------- signals
K['Signal::begin_time()'] = C(ensures=['result = begt this'])
K['Signal::end_time()'] = C(ensures=['result = endt this'])
K['Signal::interpolate(double,unsigned long)'] = C(
    ensures=['p1 < len this', 'R: result = interp (nth this p1) p0'], raises={'Out_of_range': ['p1 >= len this']})
K['Signal::time_intersect(Sample,unsigned long)'] = C(
    requires=['R: p1 < len this -> (nth this p1).derivative <> p0.derivative'],
    ensures=['p1 < len this', 'R: result = isect (nth this p1).derivative (nth this p1).value (nth this p1).time p0.derivative p0.value p0.time'],
    raises={'Out_of_range': ['p1 >= len this']}, ruses=['Arith'])
K['Signal::area(double,unsigned long)'] = C(ensures=['p1 < len this'], raises={'Out_of_range': ['p1 >= len this']})
K['Signal::front()'] = C(requires=['len this > 0'], ensures=['result = nth this 0'])
K['Signal::back()'] = C(requires=['len this > 0'], ensures=['result = nth this (len this - 1)'])
K['Signal::at_idx(unsigned long)'] = C(ensures=['p0 < len this', 'result = nth this p0'], raises={'Out_of_range': ['p0 >= len this']})
K['Signal::size()'] = C(ensures=['result = len this'])
K['Signal::empty()'] = C(ensures=['result <-> len this = 0'])
K['Signal::begin()'] = C(ensures=['result = 0'])
K['Signal::end()'] = C(ensures=['result = len this'])
K['Signal::rbegin()'] = C(ensures=['result = len this'])
K['Signal::rend()'] = C(ensures=['result = 0'])
K['Signal::begin_at(double)'] = C(ensures=[
    '0 <= result <= len this', 'forall i [nth this i]. 0 <= i < result -> (nth this i).time <. p0',
    'result < len this -> p0 <=. (nth this result).time', 'result > 0 -> (nth this (result - 1)).time <. p0'], requires=['I: fin p0'], iter_ret=True)
K['Signal::end_at(double)'] = C(ensures=[
    '0 <= result <= len this', 'forall i [nth this i]. result <= i < len this -> (nth this i).time >. p0',
    'result > 0 -> (nth this (result - 1)).time <=. p0', 'result < len this -> (nth this result).time >. p0'], requires=['I: fin p0'], iter_ret=True,
    loops=[L({'it': ('pos', 'sseq')}, ['forall i. {it} <= i < len this -> (nth this i).time >. p0'], variant='{it}')])
K['Signal::at(double)'] = C(
    requires=['I: fin p0'],
    ensures=['indom this p0', 'R: result.time = p0', 'I: result.time = p0', 'R: result.value = value_at this p0'],
    raises={'Invalid_argument': ['not (indom this p0)']}, ruses=['Values'])

PB = dict(
    ensures=['pushed (old !this) {t} {v} !this', 'len (old !this) > 0 -> endt (old !this) <. {t}'],
    raises={'Invalid_argument': ['len !this > 0 /\\ {t} <=. endt !this', '!this = old !this']})
def sub(d, **k):
    def f(x):
        if isinstance(x, str):
            for a, b in k.items(): x = x.replace('{%s}' % a, b)
            return x
        if isinstance(x, list): return [f(y) for y in x]
        if isinstance(x, dict): return {a: f(y) for a, y in x.items()}
        return x
    return f(d)
K['Signal::push_back(Sample)'] = C(requires=['I: fin p0.time'], **sub(PB, t='p0.time', v='p0.value'))
K['Signal::push_back(double,double)'] = C(requires=['I: fin p0'], **sub(PB, t='p0', v='p1'))

K['Signal::Signal()'] = C(ensures=['len result = 0'], fresh=True)
CP = [L({'this': ('var', 'sseq'), 'k': ('pos', 'sseq')},
        ['good {this}', 'len {this} = {k}',
         'forall i [nth {this} i | nth p0 i]. 0 <= i < {k} -> (nth {this} i).time = (nth p0 i).time /\\ (nth {this} i).value = (nth p0 i).value',
         'incr p0 {k}']),
      L({'this': ('var', 'sseq'), 'k': ('var', 'int')},
        ['good {this}', 'len {this} = {k}', '0 <= {k} <= len p0',
         'forall i [nth {this} i | nth p0 i]. 0 <= i < {k} -> (nth {this} i).time = (nth p0 i).time /\\ (nth {this} i).value = (nth p0 i).value',
         'incr p0 {k}'])]
K['Signal::Signal(Signal)'] = C(ensures=['samepoints p0 result'], loops=CP, fresh=True)
K['Signal::Signal(vector<Sample>)'] = C(
    requires=['I: forall i. 0 <= i < len p0 -> fin (nth p0 i).time'],
    ensures=['samepoints p0 result', 'incr p0 (len p0)'], raises={'Invalid_argument': ['not (incr p0 (len p0))']}, loops=CP, fresh=True)
K['Signal::Signal(vector<double>,vector<double>)'] = C(
    requires=['I: forall i. 0 <= i < rseq_len p1 -> fin (rseq_nth p1 i)'],
    ensures=['rseq_len p0 = rseq_len p1 /\\ len result = rseq_len p0',
             'forall i. 0 <= i < len result -> (nth result i).time = rseq_nth p1 i /\\ (nth result i).value = rseq_nth p0 i'],
    raises={'Invalid_argument': ['rseq_len p0 <> rseq_len p1 \\/ not (forall i j. 0 <= i < j < rseq_len p1 -> rseq_nth p1 i <. rseq_nth p1 j)']},
    loops=[L({'this': ('var', 'sseq'), 'k': ('var', 'int')},
             ['good {this}', 'len {this} = {k}', '0 <= {k} <= rseq_len p0',
              'forall i. 0 <= i < {k} -> (nth {this} i).time = rseq_nth p1 i /\\ (nth {this} i).value = rseq_nth p0 i'])], fresh=True)

# ---------------------------------------------------------------- synchronize
RES = 'let (x, y) = (result.tup_sseq_sseq_0, result.tup_sseq_sseq_1) in '
K['synchronize(SignalPtr,SignalPtr)'] = C(
    ensures=['good result.tup_sseq_sseq_0 /\\ good result.tup_sseq_sseq_1',
             RES + 'sametimes x y', RES + 'synced x p0 p1', RES + 'synced y p0 p1',
             'R: ' + RES + 'samevalues x p0 /\\ samevalues y p1',
             'R: ' + RES + 'points x p0 /\\ points y p1'],
    loops=[L({'i': ('pos', 'sseq'), 'j': ('pos', 'sseq'), 'xv': ('var', 'sseq'), 'yv': ('var', 'sseq')},
             ['sametimes {xv} {yv}', 'syncing {xv} {i.c} {j.c} {i} {j}', 'syncing {yv} {i.c} {j.c} {i} {j}',
              'R: points {xv} {i.c}', 'R: points {yv} {j.c}',
              'I: forall k. 0 <= k < len {xv} -> fin (nth {xv} k).time'])],
    uses=['Sync$'], ruses=['Values', 'Resample'])

# ---------------------------------------------------------------- robustness
PRED = 'match p0.predicate_op with GT | GE -> {s}.value -. p0.predicate_rhs | LT | LE -> p0.predicate_rhs -. {s}.value end'
K['RobustnessOp::operator()(Predicate)'] = C(
    ensures=['tmap_has this.robustnessop_trace p0.predicate_name',
             'sametimes (tmap_at this.robustnessop_trace p0.predicate_name) result',
             'R: let x = tmap_at this.robustnessop_trace p0.predicate_name in forall i [nth result i]. 0 <= i < len result -> (nth result i).value = '
             + PRED.replace('{s}', '(nth x i)')],
    raises={'Out_of_range': ['not (tmap_has this.robustnessop_trace p0.predicate_name)']},
    loops=[L({'y': ('var', 'sseq'), 'k': ('pos', 'sseq')},
             ['good {y}', 'len {y} = {k}', 'forall i [nth {y} i | nth {k.c} i]. 0 <= i < {k} -> (nth {y} i).time = (nth {k.c} i).time',
              'R: forall i [nth {y} i]. 0 <= i < {k} -> (nth {y} i).value = ' + PRED.replace('{s}', '(nth {k.c} i)')])], fresh=True)

def pair(o):
    le = {'min': '<=.', 'max': '>=.'}[o]
    return C(requires=['p3 -> sametimes p0 p1'],
        ensures=['R: %spair p0 p1 result' % o, 'I: spans result p0 p1'],
        loops=[L({'o': ('var', 'sseq'), 'c': ('var', 'enum_chosen'), 'i': ('pos', 'sseq'), 'j': ('pos', 'sseq')},
             ['good {o}', '{i} = {j}',
              '({i} = 0 /\\ len {o} = 0 /\\ {c} = Enum_chosen_NONE) \\/ ({i} > 0 /\\ len {o} > 0 /\\ endt {o} = (nth {i.c} ({i} - 1)).time /\\ {c} <> Enum_chosen_NONE)',
              'R: %spicking {o} {i.c} {j.c} {i}' % o, 'I: kept {o} {i.c} {i}',
              'R: {i} > 0 -> ({c} = Enum_chosen_X <-> (nth {i.c} ({i} - 1)).value %s (nth {j.c} ({i} - 1)).value)' % le])],
        uses=['Sync$'], iuses=['KeptL'], ruses=['Arith', 'Values', 'Resample', '%sPairL' % o.capitalize()], drop=['Values', 'Resample', 'Arith', 'ArithBase', 'Sync$', 'pushed_def'])
K['compute_minmax_pair(SignalPtr,SignalPtr,less_equal,bool)'] = pair('min')
K['compute_minmax_pair(SignalPtr,SignalPtr,greater_equal,bool)'] = pair('max')

def vec(o):
    return C(requires=['p2 -> ssseq_len p0 <= 2', 'p2 -> ssseq_len p0 = 2 -> sametimes (ssseq_nth p0 0) (ssseq_nth p0 1)'],
        ensures=['R: ssseq_len p0 > 0 -> %snary p0 (ssseq_len p0) result' % o, 'I: ssseq_len p0 > 0 -> nspans p0 (ssseq_len p0) result'],
        loops=[L({'acc': ('var', 'sseq'), 'k': ('pos', 'ssseq')}, ['good {acc}', 'R: {k} > 0 /\\ %snary p0 {k} {acc}' % o, 'I: {k} > 0 /\\ nspans p0 {k} {acc}'])],
        ruses=['%sNaryL' % o.capitalize()], iuses=['KeptL'])
def seq(o):
    O = o.capitalize()
    return C(ensures=['sametimes p0 result', 'R: %stail p0 result' % o],
        loops=[L({'z': ('var', 'sseq'), 'opt': ('var', 'sample'), 'i': ('rpos', 'sseq')},
                 ['len {z} + {i} = len p0', '{i} < len p0',
                  'forall k [nth {z} k]. 0 <= k < len {z} -> (nth {z} k).time = (nth p0 (len p0 - 1 - k)).time',
                  'R: forall k [nth {z} k]. 0 <= k < len {z} -> %stailat p0 (len p0 - 1 - k) (nth {z} k).value' % o,
                  'R: %stailat p0 {i} {opt}.value' % o])],
        ruses=['%sSeqL' % O])
CL = '(let t = (nth {k.c} {k}).time in if endt p0 <. t +. $ then endt p0 else t +. $)'
def win(o):
    O = o.capitalize()
    return C(requires=['R: 0.0 <=. p1 <=. p2', 'I: not nan p1 /\\ not nan p2 /\\ 0.0 <=. p1 <=. p2'],
        ensures=['sametimes p0 result', 'R: %swinrel p1 p2 p0 result' % o],
        loops=[L({'z': ('var', 'sseq'), 'k': ('pos', 'sseq')},
                 ['good {z}', 'len {z} = {k}', 'forall i [nth {z} i | nth {k.c} i]. 0 <= i < {k} -> (nth {z} i).time = (nth {k.c} i).time',
                  'R: forall i [nth {z} i]. 0 <= i < {k} -> %swin p0 ((nth {z} i).time +. p1) ((nth {z} i).time +. p2) (nth {z} i).value' % o]),
                       L({'opt': ('var', 'sample'), 'i': ('pos', 'sseq'), 'k': ('outer', 'sseq')},
                 ['R: %swinning p0 %s %s {i.0} {i} {opt}.value' % (o, CL.replace('$', 'p1'), CL.replace('$', 'p2'))])],
        ruses=['Values', '%sSeqL' % O], drop=['Values', 'Arith', 'ArithBase', 'Resample', 'Sync$'])
for o, le in (('min', 'less_equal'), ('max', 'greater_equal')):
    K['compute_minmax_pair(vector<SignalPtr>,%s,bool)' % le] = vec(o)
    K['compute_minmax_seq(SignalPtr,%s)' % le] = seq(o)
    K['compute_minmax_seq(SignalPtr,double,double,%s)' % le] = win(o)
    K['compute_elementwise_%s(SignalPtr,SignalPtr,bool)' % o] = C(requires=['p2 -> sametimes p0 p1'], ensures=['R: %spair p0 p1 result' % o, 'I: spans result p0 p1'], iuses=['KeptL'])
    K['compute_elementwise_%s(vector<SignalPtr>,bool)' % o] = C(
        requires=['p1 -> ssseq_len p0 <= 2', 'p1 -> ssseq_len p0 = 2 -> sametimes (ssseq_nth p0 0) (ssseq_nth p0 1)'],
        ensures=['R: ssseq_len p0 > 0 -> %snary p0 (ssseq_len p0) result' % o, 'I: ssseq_len p0 > 0 -> nspans p0 (ssseq_len p0) result'], ruses=['%sNaryL' % o.capitalize()], iuses=['KeptL'])
    K['compute_%s_seq(SignalPtr)' % o] = C(ensures=['sametimes p0 result', 'R: %stail p0 result' % o], ruses=['%sSeqL' % o.capitalize()])
    K['compute_%s_seq(SignalPtr,double,double)' % o] = C(
        requires=['R: 0.0 <=. p1 <=. p2', 'I: not nan p1 /\\ not nan p2 /\\ 0.0 <=. p1 <=. p2'],
        ensures=['sametimes p0 result', 'R: %swinrel p1 p2 p0 result' % o], ruses=['%sSeqL' % o.capitalize()])

# ---------------------------------------------------------------- until
K['compute_until(SignalPtr,SignalPtr)'] = C(
    ensures=['synced result p0 p1', 'R: untilrel p0 p1 result'],
    loops=[L({'prev': ('var', 'real'), 'z': ('var', 'sseq'), 'i': ('rpos', 'sseq'), 'j': ('rpos', 'sseq')},
             ['len {z} + {i} = {i.0}', '{i} = {j}', '{i.0} = len {i.c} /\\ {j.0} = len {j.c} /\\ sametimes {i.c} {j.c}',
              'forall k [nth {z} k]. 0 <= k < len {z} -> (nth {z} k).time = (nth {i.c} (len {i.c} - 1 - k)).time',
              'R: forall k [nth {z} k]. 0 <= k < len {z} -> untilat p0 p1 {i.c} (len {i.c} - 1 - k) (nth {z} k).value',
              'R: untilat p0 p1 {i.c} {i} {prev}'])],
    uses=['Sync$'], ruses=['Resample', 'Values', 'RelL'], drop=['Values', 'Arith', 'ArithBase', 'pushed_def'])
K['compute_until(SignalPtr,SignalPtr,double,double)'] = C(ensures=['false'], raises={'Not_implemented': []})

# ---------------------------------------------------------------- intervals
NUM = ['result.tup_real_real_0 = num2r this.interval_low', 'result.tup_real_real_1 = num2r this.interval_high']
K['Interval::as_double()'] = C(ensures=NUM)
K['Interval::is_zero_to_inf()'] = C(ensures=['R: wfn this.interval_low this.interval_high -> (result <-> unb this)'])
K['Interval::has_value()'] = C(ensures=['R: wfn this.interval_low this.interval_high -> (result <-> not (unb this))'])

# ---------------------------------------------------------------- robustness of formulas
ROB = 'R: rob this.robustnessop_trace this.robustnessop_min_time this.robustnessop_max_time (%s p0) result'
ROBT = 'I: robt this.robustnessop_trace this.robustnessop_min_time this.robustnessop_max_time (%s p0) result'
OPREQ = ['wfe (%s p0)', 'I: fin this.robustnessop_min_time /\\ fin this.robustnessop_max_time']
FAILS = {'Out_of_range': ['R: missing this.robustnessop_trace (%s p0)'], 'Not_implemented': ['R: buntil (%s p0)']}
def op(t, e, props, **k):
    d = dict(uses=['WfL$'], iuses=['RobtL', 'KeptL', 'SyncI'], ruses=['RobL', 'FailL', 'RelL', 'MinSeqL', 'MaxSeqL', 'MinNaryL', 'MaxNaryL', 'MinOpt', 'MaxOpt', 'Values', 'SyncR', 'Resample'],
             drop=['Values', 'Arith', 'ArithBase', 'Resample', 'Sync$', 'MinOpt', 'MaxOpt', 'pushed_def'], group='rob',
             measure=lambda a, p, *_: '2 * size (%s %s)' % (e, a[1]))
    ens = (k.pop('ensures', None) or [ROB % e]) + [ROBT % e]
    d.update(k)
    K['RobustnessOp::operator()(%s)' % t] = C(requires=[x.replace('%s', e) for x in OPREQ], ensures=ens,
        raises={x: [c % e for c in cs] for x, cs in FAILS.items()}, **d)
TR = lambda f, l: [L({'ys': ('var', 'ssseq'), 'k': ('pos', 'elist')},
    ['ssseq_len {ys} = {k}', 'sgood {ys}',
     'R: forall i [ssseq_nth {ys} i | elist_nth {k.c} i]. 0 <= i < {k} -> rob this.robustnessop_trace this.robustnessop_min_time this.robustnessop_max_time (elist_nth {k.c} i) (ssseq_nth {ys} i)',
     'I: forall i [ssseq_nth {ys} i | elist_nth {k.c} i]. 0 <= i < {k} -> robt this.robustnessop_trace this.robustnessop_min_time this.robustnessop_max_time (elist_nth {k.c} i) (ssseq_nth {ys} i)'])]
op('NotPtr', 'ENot', 'C08', loops=[L({'z': ('var', 'sseq'), 'k': ('pos', 'sseq')},
    ['len {z} = {k}', 'forall i [nth {z} i | nth {k.c} i]. 0 <= i < {k} -> (nth {z} i).time = (nth {k.c} i).time',
     'R: forall i [nth {z} i]. 0 <= i < {k} -> (nth {z} i).value = -. (nth {k.c} i).value'])])
op('AndPtr', 'EAnd', 'C08', loops=TR('and_args', 'min'))
op('OrPtr', 'EOr', 'C08', loops=TR('or_args', 'max'))
def cases(e, f):
    r = ROB % e
    i = 'unb p0.%s_interval' % f
    return ['C09: %s -> %s' % (i, r[3:]), 'C10: not (%s) -> %s' % (i, r[3:]), 'C08,C11,C12: ' + r[3:]]
op('AlwaysPtr', 'EAlways', 'C09', ensures=cases('EAlways', 'always'))
op('EventuallyPtr', 'EEventually', 'C09', ensures=cases('EEventually', 'eventually'))
op('UntilPtr', 'EUntil', 'C11')
K['RobustnessOp::operator()(Const)'] = C(requires=['I: fin this.robustnessop_min_time /\\ fin this.robustnessop_max_time'],
    ensures=[ROB % 'EConst', ROBT % 'EConst'], ruses=['RobL', 'RelL'], iuses=['RobtL'])
K['compute(Expr,RobustnessOp)'] = C(
    requires=['wfe p0', 'I: fin p1.robustnessop_min_time /\\ fin p1.robustnessop_max_time'],
    ensures=['R: rob p1.robustnessop_trace p1.robustnessop_min_time p1.robustnessop_max_time p0 result', 'I: robt p1.robustnessop_trace p1.robustnessop_min_time p1.robustnessop_max_time p0 result'],
    raises={'Out_of_range': ['R: missing p1.robustnessop_trace p0'], 'Not_implemented': ['R: buntil p0']},
    iuses=['RobtL'], uses=['WfL$'], ruses=['RobL', 'FailL'], group='rob', measure=lambda a, p, *_: '2 * size %s + 1' % a[0],
    drop=['Values', 'Arith', 'ArithBase', 'Resample', 'Sync$', 'MinOpt', 'MaxOpt', 'pushed_def'])
K['compute_robustness(Expr,map<string,SignalPtr>,bool)'] = C(
    requires=['wfe p0', 'I: tmap_len p1 > 0'],
    ensures=['R: exists mn mx. extent p1 (tmap_len p1) mn mx /\\ rob p1 mn mx p0 result', 'I: exists mn mx. robt p1 mn mx p0 result'],
    raises={'Out_of_range': ['R: missing p1 p0'], 'Not_implemented': ['R: buntil p0']},
    loops=[L({}, ['R: extent p1 {k} {f}.minmaxtime_begin {f}.minmaxtime_end', 'I: {k} > 0 -> fin {f}.minmaxtime_begin /\\ fin {f}.minmaxtime_end',
                  'I: {k} = 0 -> {f}.minmaxtime_begin = infty /\\ {f}.minmaxtime_end = -. infty'])],
    iuses=['RobtL'], uses=['WfL$'], ruses=['RobL', 'FailL'], drop=['Values', 'Arith', 'ArithBase', 'Resample', 'Sync$', 'MinOpt', 'MaxOpt', 'pushed_def'])

# ---------------------------------------------------------------- simplify, resize, shift
K['Signal::simplify()'] = C(
    ensures=['R: agrees result this', 'subof result this (len this)', 'begt result = begt this /\\ endt result = endt this', 'len result = 0 <-> len this = 0'],
    loops=[L({'sig': ('var', 'sseq'), 'k': ('pos', 'sseq')}, ['good {sig}', 'R: follows {sig} this {k}', 'subof {sig} this {k}'])],
    uses=['SubL$'], ruses=['Values', 'SimpL'], drop=['Values', 'pushed_def'], fresh=True)
S0 = '(if indom this p0 then len {sig} = 0 else cut {sig} this p0 /\\ endt {sig} = p0 /\\ (nth {sig} 0).value = p2)'
SK = '(nth this ({k} - 1)).time'
RESIZED = 'cut %s this p0 /\\ endt %s = p1 /\\ (not (indom this p0) -> (nth %s 0).value = p2) /\\ (not (indom this p1) -> (nth %s (len %s - 1)).value = p2)'
K['Signal::resize(double,double,double)'] = C(
    requires=['I: fin p0 /\\ fin p1'],
    ensures=['R: p0 <. p1 -> ' + RESIZED.replace('%s', 'result'), 'p0 <. p1 -> begt result = p0 /\\ endt result = p1 /\\ len result > 0'],
    loops=[L({'sig': ('var', 'sseq'), 'k': ('pos', 'sseq')}, ['good {sig}',
        '{k} = 0 \\/ (' + SK + ' <. p0 /\\ ({k} = len this \\/ (nth this {k}).time <=. p0)) -> (if indom this p0 then len {sig} = 0 else len {sig} = 1 /\\ endt {sig} = p0)',
        'R: {k} = 0 \\/ (' + SK + ' <. p0 /\\ ({k} = len this \\/ (nth this {k}).time <=. p0)) -> ' + S0,
        '{k} > 0 -> p0 <=. ' + SK + ' \\/ ({k} < len this /\\ (nth this {k}).time >. p0) -> len {sig} > 0 /\\ (nth {sig} 0).time = p0 /\\ '
            'endt {sig} = (if ' + SK + ' <. p0 then p0 else if ' + SK + ' <. p1 then ' + SK + ' else p1)',
        'R: {k} > 0 -> p0 <=. ' + SK + ' \\/ ({k} < len this /\\ (nth this {k}).time >. p0) -> cut {sig} this p0',
        'R: {k} > 0 -> p0 <=. ' + SK + ' \\/ ({k} < len this /\\ (nth this {k}).time >. p0) -> not (indom this p0) -> (nth {sig} 0).value = p2',
        '{k} > 0 -> p0 <. p1 -> (nth this 0).time <=. p1'])],
    ruses=['Values', 'ResizeL'], drop=['Arith', 'ArithBase', 'pb_val1', 'pb_val2_l', 'val_seg_l', 'val_end', 'idx_seg', 'seg_uniq',
        'cut_in', 'cut_at', 'shift_good', 'shift_val', 'shifted_def', 'coh_def', 'samepoints_def', 'sametimes_def', 'incr_def', 'sseq_snoced_def', 'seg_val'], fresh=True)
K['Signal::shift(double)'] = C(ensures=['R: shifted this p0 result', 'R: forall t [value_at this t]. indom this t -> indom result (t +. p0) /\\ value_at result (t +. p0) = value_at this t', 'len result = len this'],
    loops=[L({'sig': ('var', 'sseq'), 'k': ('pos', 'sseq')}, ['len {sig} = len this',
        'forall i [nth {sig} i | nth this i]. 0 <= i < len this -> (nth {sig} i).value = (nth this i).value',
        'R: forall i [nth {sig} i | nth this i]. 0 <= i < {k} -> (nth {sig} i).time = (nth this i).time +. p0',
        'forall i [nth {sig} i | nth this i]. {k} <= i < len this -> (nth {sig} i).time = (nth this i).time',
        'R: forall i [nth {sig} i | nth this i]. 0 <= i < len this -> (nth {sig} i).derivative = (nth this i).derivative',
        'R: {k} = len {sig} -> shifted this p0 {sig}'])],
    ruses=['Values', 'ResizeL'], drop=['Arith', 'ArithBase', 'Values', 'pushed_def'], fresh=True, rgood=True)
K['Signal::resize_shift(double,double,double,double)'] = C(
    requires=['I: fin p0 /\\ fin p1'],
    ensures=['R: p0 <. p1 -> exists m. good m /\\ ' + RESIZED.replace('%s', 'm') + ' /\\ shifted m p3 result'],
    loops=[L({'sig': ('var', 'sseq'), 'k': ('pos', 'sseq')}, ['len {sig} = len {sig.0}',
        'R: forall i [nth {sig} i | nth {sig.0} i]. 0 <= i < len {sig} -> (nth {sig} i).value = (nth {sig.0} i).value /\\ (nth {sig} i).derivative = (nth {sig.0} i).derivative',
        'R: forall i [nth {sig} i | nth {sig.0} i]. 0 <= i < {k} -> (nth {sig} i).time = (nth {sig.0} i).time +. p3',
        'R: forall i [nth {sig} i | nth {sig.0} i]. {k} <= i < len {sig} -> (nth {sig} i).time = (nth {sig.0} i).time',
        'R: {k} = len {sig} -> shifted {sig.0} p3 {sig}'])],
    ruses=['Values', 'ResizeL'], drop=['Arith', 'ArithBase', 'Values', 'pushed_def'], fresh=True, rgood=True)

# ---------------------------------------------------------------- construction of formulas
IV = ['0.0 <=. p0 <. p1', 'I: not nan p0 /\\ not nan p1', 'result.interval_low = NReal p0 /\\ result.interval_high = NReal p1', 'wfn result.interval_low result.interval_high']
FULL = '{s}.interval_low = NReal 0.0 /\\ {s}.interval_high = NReal infty'
K['Interval::Interval()'] = C(ensures=[FULL.replace('{s}', 'result'), 'wfn result.interval_low result.interval_high'])
K['Interval::Interval(double,double)'] = C(ensures=IV, raises={'Invalid_argument': ['R: not (0.0 <=. p0 <. p1)', 'I: nan p0 \\/ nan p1 \\/ not (0.0 <=. p0 <. p1)']})
K['Interval::Interval(unsigned long long,unsigned long long)'] = C(
    ensures=['p0 < p1', 'result.interval_low = NInt p0 /\\ result.interval_high = NInt p1', 'wfn result.interval_low result.interval_high'],
    raises={'Invalid_argument': ['p1 <= p0']})
K['Const::Const(bool)'] = C(ensures=['result.const_value = p0'])
K['Predicate::Predicate(string,ComparisonOp,double)'] = C(ensures=['result = { predicate_name = p0; predicate_op = p1; predicate_rhs = p2 }'])
K['Not::Not(Expr)'] = C(ensures=['result.not_arg = p0'])
K['Const(bool)'] = C(ensures=['result.const_value = p0'])
K['Predicate(string)'] = C(ensures=['result.predicate_name = p0'])
for n, o in (('>', 'GT'), ('>=', 'GE'), ('<', 'LT'), ('<=', 'LE')):
    K['operator%s(Predicate,double)' % n] = C(ensures=['result = { predicate_name = p0.predicate_name; predicate_op = %s; predicate_rhs = p1 }' % o])
BOOL = dict(uses=['BoolL', 'WfL$'])
K['Not(Expr)'] = C(ensures=['match result with ENot a -> a.not_arg = p0 | EConst c -> (match p0 with EConst d -> c.const_value <> d.const_value | _ -> false end) | _ -> false end',
                            'C15: forall v. holds v result <-> not (holds v p0)', 'C15,C19,C20: wfe p0 -> wfe result'], **BOOL)
for n, q in (('And', '/\\'), ('Or', '\\/')):
    f = n.lower()
    K['%s::%s(vector<Expr>)' % (n, n)] = C(ensures=['elist_len p0 >= 2', 'esame result.%s_args p0' % f], raises={'Invalid_argument': ['elist_len p0 < 2']})
    K['%s(vector<Expr>)' % n] = C(ensures=['elist_len p0 >= 2', 'match result with E%s a -> esame a.%s_args p0 | _ -> false end' % (n, f),
        'C15: forall v. holds v result <-> (%s)' % ('forall i. 0 <= i < elist_len p0 -> holds v (elist_nth p0 i)' if n == 'And' else 'exists i. 0 <= i < elist_len p0 /\\ holds v (elist_nth p0 i)'),
        'C15,C19,C20: (forall i. 0 <= i < elist_len p0 -> wfe (elist_nth p0 i)) -> wfe result'],
        raises={'Invalid_argument': ['elist_len p0 < 2']}, **BOOL)
    K['%sHelper(%sPtr,Expr)' % (n, n)] = C(requires=['wfe (E%s p0)' % n, 'wfe p1'], ensures=['forall v. holds v result <-> (holds v (E%s p0) %s holds v p1)' % (n, q), 'wfe result'], **BOOL)
    K['operator%s(Expr,Expr)' % {'And': '&', 'Or': '|'}[n]] = C(requires=['wfe p0', 'wfe p1'], ensures=['forall v. holds v result <-> (holds v p0 %s holds v p1)' % q, 'wfe result'], **BOOL)
K['operator~(Expr)'] = C(requires=['wfe p0'], ensures=['forall v. holds v result <-> not (holds v p0)', 'wfe result'], **BOOL)
for n, f in (('Implies', 'holds v p0 -> holds v p1'), ('Xor', '(holds v p0 /\\ not (holds v p1)) \\/ (not (holds v p0) /\\ holds v p1)'), ('Iff', 'holds v p0 <-> holds v p1')):
    K['%s(Expr,Expr)' % n] = C(requires=['wfe p0', 'wfe p1'], ensures=['forall v. holds v result <-> (%s)' % f, 'wfe result'], **BOOL)
for n in ('Always', 'Eventually'):
    f = n.lower()
    K['%s::%s(Expr)' % (n, n)] = C(ensures=['result.%s_arg = p0' % f, FULL.replace('{s}', 'result.%s_interval' % f)])
    K['%s::%s(Expr,Interval)' % (n, n)] = C(ensures=['result.%s_arg = p0' % f, 'result.%s_interval = p1' % f])
    K['%s(Expr)' % n] = C(ensures=['match result with E%s a -> a.%s_arg = p0 /\\ %s | _ -> false end' % (n, f, FULL.replace('{s}', 'a.%s_interval' % f))])
    K['%s(Expr,Interval)' % n] = C(ensures=['match result with E%s a -> a.%s_arg = p0 /\\ a.%s_interval = p1 | _ -> false end' % (n, f, f)])
UA = '%s.until_args.tup_expr_expr_0 = p0 /\\ %s.until_args.tup_expr_expr_1 = p1'
K['Until::Until(Expr,Expr)'] = C(ensures=[UA.replace('%s', 'result'), FULL.replace('{s}', 'result.until_interval')])
K['Until::Until(Expr,Expr,Interval)'] = C(ensures=[UA.replace('%s', 'result'), 'result.until_interval = p2'])
K['Until(Expr,Expr)'] = C(ensures=['match result with EUntil a -> %s /\\ %s | _ -> false end' % (UA.replace('%s', 'a'), FULL.replace('{s}', 'a.until_interval'))])
K['Until(Expr,Expr,Interval)'] = C(ensures=['match result with EUntil a -> %s /\\ a.until_interval = p2 | _ -> false end' % UA.replace('%s', 'a')])

# ---------------------------------------------------------------- the specification language
S, POS = '(old !p0).itext', '(old !p0).ipos'
FS, AS = '(old !p1).globalparserstate_formulas', '(old !p1).globalparserstate_assertions'
OK, KEPT = 'okin !p0', '!p0 = old !p0'
F2 = ['level', 'result', 'primitive_result', 'identifiers', 'predicate_type', 'comparison_type', 'terms']
f2 = lambda f, o=False: ('(old !p2).parserstate_' if o else '(!p2).parserstate_') + f
def same2(*but): return ' /\\ '.join('%s = %s' % (f2(f), f2(f, True)) for f in F2 if f not in but)
def below(rank): return dict(group='grammar', measure=lambda a, p, *entry: '3 * (slen {0}.itext - {0}.ipos) + {1}'.format(('(old !%s)' if entry else '(!%s)') % a[0], rank))
NONE = {'result': 'None_opt_expr', 'primitive_result': 'None_opt_prim', 'predicate_type': 'None_opt_enum_predicatetype', 'comparison_type': 'None_opt_comparisonop'}
def fresh2(*but):
    return ' /\\ '.join(('%s = %s' % (f2(f), NONE[f]) if f in NONE else '%s_len %s = 0' % ({'identifiers': 'strseq', 'terms': 'elist'}[f], f2(f))) for f in F2 if f not in but and f != 'level')
GOT = lambda e: 'moved (old !p0) !p0 (%s)' % e
def rule(n, **k):
    d = dict(requires=[OK] + k.pop('requires', []), nogood=True); d.update(k)
    K['rule ' + n] = C(**d)
def token(n, f, ensures=(), cond=None, post=None, **k):
    """a rule without alternatives: the position after it is f"""
    rule(n, ensures=['result <-> %s' % (cond or '%s %s %s >= 0' % (f, S, POS)), 'result -> ' + GOT(post or '%s %s %s' % (f, S, POS)), 'not result -> ' + KEPT] + list(ensures), **k)
rule('LineComment', ensures=['result <-> ch %s %s = 59' % (S, POS), 'result -> ' + GOT('lineend %s (%s + 1)' % (S, POS)), 'not result -> ' + KEPT],
     loops=[L({}, ['(!p0).itext = ' + S, OK, 'lineend_body (!p0).itext (!p0).ipos = lineend %s (%s + 1)' % (S, POS)])])
rule('Skip', ensures=['result', GOT('skip %s %s' % (S, POS))],
     loops=[L({}, ['(!p0).itext = ' + S, OK, 'skip_body (!p0).itext (!p0).ipos = skip_body %s %s' % (S, POS)])])
token('decimal_seq', None, cond='isdigit (ch %s %s)' % (S, POS), post='digits %s %s' % (S, POS))
for n, f in (('LParen', 'lpar'), ('RParen', 'rpar'), ('KwNot', 'kw_not'), ('KwAnd', 'kw_and'), ('KwOr', 'kw_or'), ('KwImplies', 'kw_implies'), ('KwIff', 'kw_iff'),
             ('KwXor', 'kw_xor'), ('KwAlways', 'kw_always'), ('KwEventually', 'kw_eventually'), ('KwUntil', 'kw_until'), ('KwDefineFormula', 'kw_define'), ('KwAssert', 'kw_assert')):
    token(n, f)
KEEP1 = '!p1 = old !p1'
SET = lambda f, v: ['result -> %s = %s' % (f2(f), v), 'result -> ' + same2(f), 'not result -> !p2 = old !p2', KEEP1]
for n, f, o in (('LtSymbol', 'sym_lt', 'LT'), ('GtSymbol', 'sym_gt', 'GT'), ('LeSymbol', 'sym_le', 'LE'), ('GeSymbol', 'sym_ge', 'GE')):
    token(n, f, SET('comparison_type', 'Some_opt_comparisonop ' + o))
for n, f, v in (('KwTrue', 'kw_true', 'true'), ('KwFalse', 'kw_false', 'false')):
    token(n, f, SET('primitive_result', 'Some_opt_prim (PBool %s)' % v))
ID = lambda i, p: 'strseq_snoced %s (ssub %s (%s) (%s)) %s' % (f2('identifiers', True), S, p, i, f2('identifiers'))
token('Identifier', None, ['result -> ' + ID('ident %s %s' % (S, POS), POS), 'result -> ' + same2('identifiers'), 'not result -> !p2 = old !p2', KEEP1],
      cond='ident %s %s > %s' % (S, POS, POS), post='skip %s (ident %s %s)' % (S, S, POS))
ERR = lambda c: {'Parse_error': [c], 'Out_of_range': [c]}
# numbers
rule('DoubleLiteral', ensures=['result <-> dbl %s %s > %s' % (S, POS, POS), 'dbl %s %s >= 0' % (S, POS), 'not result -> %s /\\ !p2 = old !p2' % KEPT,
        'result -> ' + GOT('skip %s (dbl %s %s)' % (S, S, POS)), 'result -> dval_ok %s %s (dbl %s %s)' % (S, POS, S, POS),
        'result -> %s = Some_opt_prim (PReal (dval %s %s (dbl %s %s)))' % (f2('primitive_result'), S, POS, S, POS), 'result -> ' + same2('primitive_result'), KEEP1],
     raises={'Parse_error': ['dbl %s %s < 0' % (S, POS)], 'Out_of_range': ['let q = dbl %s %s in q > %s /\\ not dval_ok %s %s q' % (S, POS, POS, S, POS)]})
rule('IntegerLiteral', ensures=['let q = digits %s %s in result <-> q > %s' % (S, POS, POS), 'not result -> %s /\\ !p2 = old !p2' % KEPT,
        'result -> ' + GOT('skip %s (digits %s %s)' % (S, S, POS)), 'result -> decimal %s %s (digits %s %s) <= 9223372036854775807' % (S, POS, S, POS),
        'result -> %s = Some_opt_prim (PInt (decimal %s %s (digits %s %s)))' % (f2('primitive_result'), S, POS, S, POS), 'result -> ' + same2('primitive_result'), KEEP1],
     raises={'Out_of_range': ['let q = digits %s %s in q > %s /\\ decimal %s %s q > 9223372036854775807' % (S, POS, POS, S, POS)]})
rule('Numeral', ensures=['match numeral %s %s with NFail -> not result /\\ %s /\\ !p2 = old !p2 | NErr -> false | NOk q v -> result /\\ %s /\\ %s = Some_opt_prim v /\\ %s end'
        % (S, POS, KEPT, GOT('q'), f2('primitive_result'), same2('primitive_result')),
        'match numeral %s %s with NOk _ v -> (match v with PBool _ -> false | _ -> true end) | _ -> true end' % (S, POS), KEEP1],
     raises=ERR('numeral %s %s = NErr' % (S, POS)))
# predicates
FORM = 'let q = ident {s} {p} in if q > {p} then (match numeral {s} (skip {s} q) with NOk r v -> {yes1} | _ -> {no} end) else (match numeral {s} {p} with NOk r v -> let t = ident {s} r in if t > r then {yes2} else {no} | _ -> {no} end)'
def form(yes1, yes2, no):
    return FORM.replace('{s}', S).replace('{p}', POS).replace('{yes1}', yes1).replace('{yes2}', yes2).replace('{no}', no)
FY = lambda pos, a, b, ty: '(result /\\ %s /\\ %s /\\ %s = Some_opt_prim v /\\ %s = Some_opt_enum_predicatetype %s /\\ %s)' % (
    GOT(pos), ID(b, a), f2('primitive_result'), f2('predicate_type'), ty, same2('identifiers', 'primitive_result', 'predicate_type'))
rule('PredicateForm', requires=[fresh2('comparison_type')], ensures=[form(FY('r', POS, 'q', 'Enum_predicatetype_ONE'), FY('skip %s t' % S, 'r', 't', 'Enum_predicatetype_TWO'), 'not result'),
        'result -> match %s with Some_opt_prim (PInt _) | Some_opt_prim (PReal _) -> true | _ -> false end' % f2('primitive_result'), KEEP1],
     raises=ERR(form('false', 'false', 'true')))
# terms
def term(f, none='not result /\\ %s /\\ !p2 = old !p2' % KEPT):
    return ['match %s with PFail -> %s | PErr -> false | POk q e -> result /\\ %s /\\ %s = Some_opt_expr e /\\ wfe e end' % (f, none, GOT('q'), f2('result')),
            'result -> %s /\\ %s = %s' % (fresh2('result'), f2('level'), f2('level', True)), KEEP1]
WFS = 'forall k. emap_has (!p1).globalparserstate_formulas k -> wfe (emap_at (!p1).globalparserstate_formulas k)'
TU = dict(uses=['WfL$'])
rule('PredicateTerm', requires=[fresh2()], ensures=term('predterm %s %s' % (S, POS)), raises=ERR('predterm %s %s = PErr' % (S, POS)), **TU)
for n in ('Not', 'And', 'Or', 'Implies', 'Iff', 'Xor', 'Always', 'Eventually', 'Until'):
    kw = 'kw_%s %s %s' % (n.lower(), S, POS)
    f = 't_%s %s %s (%s)' % (n.lower(), S, FS, kw)
    rule(n + 'Term', requires=[fresh2(), WFS], ensures=['%s < 0 -> not result /\\ %s /\\ !p2 = old !p2' % (kw, KEPT)] +
         ['%s >= 0 -> %s' % (kw, x) for x in term(f)[:1]] + term(f)[1:], raises=ERR('%s >= 0 /\\ %s = PErr' % (kw, f)), **below(1), **TU)
ALLWF = 'forall i. 0 <= i < elist_len %s -> wfe (elist_nth %s i)' % (f2('terms'), f2('terms'))
TERM = 'term %s %s %s' % (S, FS, POS)
TERMS = 'terms %s %s %s %s' % (S, FS, POS, 'enil')
rule('NaryTail', requires=[fresh2(), WFS], ensures=['match %s with TErr -> false | TOk q l -> (result \\/ elist_len l = 0) /\\ (elist_len l >= 2 -> result) /\\ %s = l /\\ (result -> %s) end' % (TERMS, f2('terms'), GOT('q')),
        same2('terms'), KEEP1, ALLWF], raises=ERR(TERMS + ' = TErr'),
     loops=[L({}, ['(!p0).itext = ' + S, OK, POS + ' <= (!p0).ipos', 'elist_len %s > 0' % f2('terms'), '!p1 = old !p1', same2('terms'), ALLWF,
                   'terms_body (!p0).itext %s (!p0).ipos %s = terms_body %s %s %s enil' % (FS, f2('terms'), S, FS, POS)])], **below(3), **TU)
TM = 'term_body %s %s %s' % (S, FS, POS)
rule('Term', requires=[fresh2(), WFS], ensures=['match %s with PFail -> not result /\\ %s /\\ elist_len %s = 0 | PErr -> false | POk q e -> result /\\ %s /\\ elist_len %s = 1 /\\ elist_nth %s 0 = e /\\ wfe e end'
        % (TERM, KEPT, f2('terms'), GOT('q'), f2('terms'), f2('terms')), KEEP1], raises=ERR(TERM + ' = PErr'),
     pre=['assert { term (!p0).itext (!p1).globalparserstate_formulas (!p0).ipos = term_body (!p0).itext (!p1).globalparserstate_formulas (!p0).ipos };'], **below(1), **TU)
for i in ('string_input<lf_crlf,string>', 'file_input<lf_crlf>'):
    K['action<Term>::match(%s,GlobalParserState,ParserState)' % i] = C(requires=[OK, WFS],
        ensures=['match %s with PFail -> not result /\\ %s /\\ !p2 = old !p2 | PErr -> false | POk q e -> result /\\ %s /\\ elist_snoced %s e %s /\\ wfe e /\\ (%s) end' % (TERM, KEPT, GOT('q'), f2('terms', True), f2('terms'), same2('terms')), KEEP1],
        raises=ERR(TERM + ' = PErr'), nogood=True, **below(2))
# commands
COM = 'command %s %s %s %s' % (S, FS, AS, POS)
G1 = '(!p1).globalparserstate_formulas = g /\\ (!p1).globalparserstate_assertions = b'
COK = lambda x: 'result /\\ %s /\\ %s /\\ (%s) /\\ (%s)' % (GOT('q'), G1, fresh2(), WFS)
for n, c in (('Assertion', 'kw_assert %s %s' % (S, POS)), ('DefineFormula', 'kw_define %s %s' % (S, POS))):
    other = [] if n == 'Assertion' else ['kw_assert (!p0).itext (!p0).ipos < 0']
    rule(n, requires=[fresh2(), WFS] + other, ensures=['%s < 0 -> not result /\\ %s /\\ !p2 = old !p2 /\\ %s' % (c, KEPT, KEEP1),
        ] + ['%s >= 0 -> match %s with COk q g b -> %s | _ -> false end' % (c, COM, x) for x in ('result /\\ ' + GOT('q'), G1, fresh2())] +
        [c + ' >= 0 -> ' + WFS], raises=ERR('%s >= 0 /\\ %s = CErr' % (c, COM)))
rule('Command', requires=[fresh2(), WFS], ensures=['match %s with COk q g b -> %s | _ -> false end' % (COM, COK(0))], raises=ERR(COM + ' = CErr'))
LP = 'lpar %s %s' % (S, POS)
ACOM = 'command %s %s %s (%s)' % (S, FS, AS, LP)
rule('AnyCommand', requires=[fresh2(), WFS], ensures=['%s < 0 -> not result /\\ %s' % (LP, KEPT), '%s >= 0 -> match %s with COk r g b -> let q = rpar %s r in q >= 0 /\\ %s | _ -> false end' % (LP, ACOM, S, COK(0))],
     raises=ERR('%s >= 0 /\\ match %s with COk r _ _ -> rpar %s r < 0 | _ -> true end' % (LP, ACOM, S)))
CS = 'commands %s %s %s (skip %s %s)' % (S, FS, AS, S, POS)
rule('StatementList', requires=[fresh2(), WFS], ensures=['match %s with COk q g b -> result /\\ %s | _ -> not result end' % (CS, G1)], raises=ERR('match %s with COk _ _ _ -> false | _ -> true end' % CS),
     loops=[L({}, ['(!p0).itext = ' + S, OK, fresh2(), WFS, 'commands_body (!p0).itext (!p1).globalparserstate_formulas (!p1).globalparserstate_assertions (!p0).ipos = commands_body %s %s %s (skip %s %s)' % (S, FS, AS, S, POS)])])
rule('SpecificationFile', requires=[fresh2(), WFS], ensures=['result', 'match %s with COk q g b -> %s | _ -> false end' % (CS, G1)], raises=ERR('match %s with COk _ _ _ -> false | _ -> true end' % CS))
SPEC = lambda s: dict(ensures=['match spec %s with COk _ f a -> result.specification_formulas = f /\\ result.specification_assertions = a | _ -> false end' % s],
                      raises=ERR('match spec %s with COk _ _ _ -> false | _ -> true end' % s), nogood=True)
for i in ('string_input<lf_crlf,string>', 'file_input<lf_crlf>'):
    K['_parse(%s)' % i] = C(requires=[OK, '(!p0).ipos = 0'], **SPEC('(old !p0).itext'))
K['from_string(string_view)'] = C(**SPEC('p0'))
K['from_file(path)'] = C(**SPEC('(filetext p0)'))
for n in ('Not', 'Always', 'Eventually'): K['%s(Expr)' % n].det = 'f_%s p0' % n.lower()
for n in ('And', 'Or'): K['%s(vector<Expr>)' % n].det = 'f_%s p0' % n.lower()
for n in ('Implies', 'Iff', 'Xor', 'Until'): K['%s(Expr,Expr)' % n].det = 'f_%s p0 p1' % n.lower()
