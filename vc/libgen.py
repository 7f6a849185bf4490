"""Assembles lib/*.mlw: the theories of sequences and maps are instances of one text per kind."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))

SEQ = '''module Seq_%(s)s
  use int.Int
  use real.RealInfix
%(use)s%(type)s  function %(len)s %(s)s : int
  axiom %(s)s_len_nonneg: forall s. %(len)s s >= 0
  function %(nth)s %(s)s int : %(e)s
  val %(s)s_get (s: %(s)s) (i: int) : %(e)s
    requires { [@expl:index in range] 0 <= i < %(len)s s } ensures { result = %(nth)s s i }
  val %(s)s_length (s: %(s)s) : int ensures { result = %(len)s s }
  val %(s)s_empty () : %(s)s ensures { %(len)s result = 0 }
  opaque predicate %(s)s_snoced (s: %(s)s) (x: %(e)s) (r: %(s)s) =
    %(len)s r = %(len)s s + 1 /\\ (forall i [%(nth)s r i | %(nth)s s i]. 0 <= i < %(len)s s -> %(nth)s r i = %(nth)s s i) /\\ %(nth)s r (%(len)s s) = x
  val %(s)s_snoc (s: %(s)s) (x: %(e)s) : %(s)s
    ensures { %(len)s result = %(len)s s + 1 }
    ensures { forall i [%(nth)s result i | %(nth)s s i]. 0 <= i < %(len)s s -> %(nth)s result i = %(nth)s s i }
    ensures { %(nth)s result (%(len)s s) = x }
    ensures { %(s)s_snoced s x result }
  val %(s)s_set (s: %(s)s) (k: int) (x: %(e)s) : %(s)s
    requires { [@expl:index in range] 0 <= k < %(len)s s }
    ensures { %(len)s result = %(len)s s }
    ensures { forall i [%(nth)s result i | %(nth)s s i]. 0 <= i < %(len)s s -> i <> k -> %(nth)s result i = %(nth)s s i }
    ensures { %(nth)s result k = x }
  val %(s)s_pop (s: %(s)s) : %(s)s
    requires { [@expl:pop_back of an empty vector] %(len)s s > 0 }
    ensures { %(len)s result = %(len)s s - 1 }
    ensures { forall i [%(nth)s result i | %(nth)s s i]. 0 <= i < %(len)s s - 1 -> %(nth)s result i = %(nth)s s i }
  val %(s)s_append (s c: %(s)s) (b e: int) : %(s)s
    requires { [@expl:range of iterators] 0 <= b <= e <= %(len)s c }
    ensures { %(len)s result = %(len)s s + (e - b) }
    ensures { forall i [%(nth)s result i | %(nth)s s i]. 0 <= i < %(len)s s -> %(nth)s result i = %(nth)s s i }
    ensures { forall i [%(nth)s result i]. %(len)s s <= i < %(len)s result -> %(nth)s result i = %(nth)s c (b + (i - %(len)s s)) }
    ensures { forall i [%(nth)s c i]. b <= i < e -> %(nth)s result (%(len)s s + (i - b)) = %(nth)s c i }
    ensures { b = e -> result = s }
  val %(s)s_append_rev (s c: %(s)s) (b e: int) : %(s)s
    requires { [@expl:range of iterators] 0 <= e <= b <= %(len)s c }
    ensures { %(len)s result = %(len)s s + (b - e) }
    ensures { forall i [%(nth)s result i | %(nth)s s i]. 0 <= i < %(len)s s -> %(nth)s result i = %(nth)s s i }
    ensures { forall i [%(nth)s result i]. %(len)s s <= i < %(len)s result -> %(nth)s result i = %(nth)s c (b - 1 - (i - %(len)s s)) }
  val %(s)s_reverse (s: %(s)s) (b e: int) : %(s)s
    requires { [@expl:range of iterators] 0 <= b <= e <= %(len)s s }
    ensures { %(len)s result = %(len)s s }
    ensures { forall i [%(nth)s result i | %(nth)s s i]. 0 <= i < %(len)s s -> not (b <= i < e) -> %(nth)s result i = %(nth)s s i }
    ensures { forall i [%(nth)s result i]. b <= i < e -> %(nth)s result i = %(nth)s s (b + e - 1 - i) }
    ensures { forall i [%(nth)s s i]. b <= i < e -> %(nth)s result (b + e - 1 - i) = %(nth)s s i }
end
'''
MAP = '''module Map_%(s)s
  use int.Int
  use Str
%(use)s  type %(s)s
  function %(s)s_len %(s)s : int
  function %(s)s_key %(s)s int : string_t
  function %(s)s_val %(s)s int : %(e)s
  predicate %(s)s_has (m: %(s)s) (k: string_t) = exists i. 0 <= i < %(s)s_len m /\\ %(s)s_key m i = k
  function %(s)s_at %(s)s string_t : %(e)s
  axiom %(s)s_len_nonneg: forall m. %(s)s_len m >= 0
  axiom %(s)s_at_key: forall m i. 0 <= i < %(s)s_len m -> %(s)s_at m (%(s)s_key m i) = %(s)s_val m i
  val %(s)s_length (m: %(s)s) : int ensures { result = %(s)s_len m }
  val %(s)s_pkey (m: %(s)s) (i: int) : string_t requires { 0 <= i < %(s)s_len m } ensures { result = %(s)s_key m i }
  val %(s)s_pval (m: %(s)s) (i: int) : %(e)s requires { 0 <= i < %(s)s_len m } ensures { result = %(s)s_val m i }
  val %(s)s_phas (m: %(s)s) (k: string_t) : bool ensures { result <-> %(s)s_has m k }
  val %(s)s_pget (m: %(s)s) (k: string_t) : %(e)s requires { %(s)s_has m k } ensures { result = %(s)s_at m k }
  constant %(s)s_nil : %(s)s
  axiom %(s)s_nil_len: %(s)s_len %(s)s_nil = 0
  val %(s)s_empty () : %(s)s ensures { result = %(s)s_nil }
  function %(s)s_addf %(s)s string_t %(e)s : %(s)s
  val %(s)s_add (m: %(s)s) (k: string_t) (v: %(e)s) : %(s)s
    ensures { result = %(s)s_addf m k v }
    ensures { forall j. %(s)s_has result j <-> (j = k \\/ %(s)s_has m j) }
    ensures { forall j. j <> k -> %(s)s_has m j -> %(s)s_at result j = %(s)s_at m j }
    ensures { %(s)s_at result k = v }
end
'''
def opaque(s):
    """opaque predicate p (args) = body: a symbol with a defining axiom, triggered by the symbol only"""
    kw = r'(?:predicate|function|axiom|lemma|let|val|opaque|constant|type|use|clone|goal|\(\*)'
    def f(m):
        name, params, body = m.group(1), m.group(2), m.group(3)
        vs = ' '.join(x for g in re.findall(r'\(([^:()]*):', params) for x in g.split())
        b = ', '.join(re.sub(r'\s+', ' ', g).strip() for g in re.findall(r'\(([^()]*)\)', params))
        return '  predicate %s %s\n  axiom %s_def: forall %s [%s %s]. %s %s <-> (%s)\n' % (name, params, name, b, name, vs, name, vs, body.strip())
    bodies = {}
    def g(m):
        bodies[m.group(1)] = ([x for g in re.findall(r'\(([^:()]*):', m.group(2)) for x in g.split()], m.group(3).strip()); return m.group(0)
    re.sub(r'^  opaque predicate (\w+) ((?:\([^()]*\) ?)+)=\s*(.*?)\n(?=  %s |end\b)' % kw, g, s, flags=re.S | re.M)
    def unfold(m):
        args = [a.strip() for a in m.group(2).split(',')]
        ps, b = bodies[m.group(1)]
        d = dict(zip(ps, args))
        return re.sub(r"(?<![\w.'])[A-Za-z_][\w']*", lambda k: '(%s)' % d[k.group(0)] if k.group(0) in d else k.group(0), b)
    s = re.sub(r'\$UNFOLD\((\w+), ([^()]*)\)', unfold, s)
    return re.sub(r'^  opaque predicate (\w+) ((?:\([^()]*\) ?)+)=\s*(.*?)\n(?=  %s |end\b)' % kw, f, s, flags=re.S | re.M)
OPT = '''module Opt_%(e)s
%(use)s  %(decl)s
end
'''
def text(part=None):
    from ty import OPT_DECL
    out = []
    for f in ('base.mlw', 'types.mlw', 'signal.mlw', 'rob.mlw', 'minmax.mlw', 'forms.mlw', 'resize.mlw', 'bool.mlw', 'parser.mlw'):
        p = os.path.join(HERE, 'lib', f)
        if not os.path.exists(p): continue
        s = open(p).read()
        res = []
        for l in s.split('\n'):
            m = re.match(r'\$SEQ (\w+) (\w+) (\w+|-)( notype)?', l)
            if m:
                n, e, u, nt = m.groups()
                un = 'nth' if n == 'sseq' else n + '_nth'
                ln = 'len' if n == 'sseq' else n + '_len'
                res.append(SEQ % {'s': n, 'e': e, 'nth': un, 'len': ln, 'use': '' if u == '-' else '  use %s\n' % u,
                                  'type': '' if nt else '  type %s\n' % n})
                continue
            m = re.match(r'\$MAP (\w+) (\w+) (\w+)', l)
            if m:
                n, e, u = m.groups()
                res.append(MAP % {'s': n, 'e': e, 'use': '  use %s\n' % u})
                continue
            m = re.match(r'\$OPT (\w+) (\w+)', l)
            if m:
                e, u = m.groups()
                res.append(OPT % {'e': e, 'use': '  use %s\n' % u, 'decl': OPT_DECL.replace('$o', 'opt_' + e).replace('$e', e)})
                continue
            m = re.match(r'\$VARIANT (\w+) (.*)', l)
            if m:
                for c in m.group(2).split():
                    c, t = c.split(':')
                    res.append('  val is_%s (x: %s) : bool ensures { result <-> match x with %s _ -> true | _ -> false end }' % (c, m.group(1), c))
                    res.append('  val get_%s (x: %s) : %s requires { [@expl:alternative of the variant] match x with %s _ -> true | _ -> false end } ensures { x = %s result }' % (c, m.group(1), t, c, c))
                continue
            res.append(l)
        s = '\n'.join(res)
        # modules instantiated for both arithmetics
        def dup(m):
            t = m.group(0)
            return re.sub(r'\$(\w+)', r'\1R', t) + '\n' + re.sub(r'\$(\w+)', r'\1I', t)
        # modules instantiated for minimum and maximum
        def mm(m):
            t = m.group(0)
            return ''.join(t.replace('@O', o).replace('@C', c).replace('@LE', le).replace('@LT', lt) + '\n'
                           for o, c, le, lt in (('min', 'Min', '<=.', '<.'), ('max', 'Max', '>=.', '>.')))
        s = re.sub(r'module @C\w+\n.*?\nend\n', mm, s, flags=re.S)
        s = opaque(s)
        s = re.sub(r'module \$\w+\n.*?\nend\n', dup, s, flags=re.S)
        out.append(s)
    s = '\n'.join(out)
    # the laws of the arithmetic in one module, for their proof
    body = dict(re.findall(r'module (\w+)\n(.*?)\nend\n', s, flags=re.S))
    s += '\nmodule ArithAll\n%s\n%s\nend\n' % (body['ArithBase'], re.sub(r'  use .*\n', '', body['Arith']))
    # the axioms on the values of signals, for their proof
    s += '\nmodule ValuesAx\n%s\nend\n' % re.sub(r'  predicate seg (.*?) = .*', r'  predicate seg \1', re.sub(r'  let ghost .*?= \(\)(\n|$)', '', body['Values'], flags=re.S))
    # modules in order of their uses
    mods = re.findall(r'(?:\(\*[^()]*?\*\)\s*)?module (\w+)\n(.*?)\nend\n', s, flags=re.S)
    body = dict(mods); done = []; order = []
    def visit(n):
        if n in done: return
        done.append(n)
        for u in re.findall(r'(?:use|clone)(?: export)? (\w+)(?![\w.])', body[n]):
            if u in body: visit(u)
        order.append(n)
    for n, _ in mods: visit(n)
    return '\n'.join('module %s\n%s\nend\n' % (n, body[n]) for n in order)
def defined(t):
    """names a module defines"""
    n = re.findall(r'^\s*(?:type|with|function|predicate|val constant|val|constant|let rec ghost function|let ghost|exception) (\w+)', t, flags=re.M)
    for b in re.findall(r'^\s*(?:type|with) \w+ = (.*(?:\n\s+\|.*)*)', t, flags=re.M):
        if b.startswith('{'): n += re.findall(r'(\w+):', b)
        else: n += re.findall(r'(?:^|\|)\s*([A-Z]\w*)', b)
    return n
def axiom_names():
    """{module: names of its axioms}, without those modules that exist for the proofs only"""
    r = {}
    for m, b in re.findall(r'module (\w+)\n(.*?)\nend\n', text(), flags=re.S):
        if m.endswith(('Def', 'DefR', 'DefI', 'Impl', 'ImplR', 'ImplI', 'Ax', 'All', 'Help')): continue
        r[m] = re.findall(r'^  axiom (\w+)', b, flags=re.M)
    return r
def names():
    """{module: names}, with the names a module exports"""
    mods = dict(re.findall(r'module (\w+)\n(.*?)\nend\n', text(), flags=re.S))
    r = {}
    def f(m):
        if m not in r:
            r[m] = set(defined(mods[m]))
            for u in re.findall(r'use export (\w+)$', mods[m], flags=re.M):
                if u in mods: r[m] |= f(u)
        return r[m]
    for m in mods: f(m)
    return r
if __name__ == '__main__':
    print(text())
