"""Translation of extracted C++ functions to WhyML.

Every C++ operation becomes a call of a program function whose contract is in lib/*.mlw (or a
contract of this code base); nothing is approximated silently: a construct without a rule
raises Unsupported, which fails the obligation `translatable' of the function."""
import re
from fractions import Fraction
from ty import *

CONTAINER_CLS = ('std::vector',)
INTBITS = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
           'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}
EXC = {'std::invalid_argument': 'Invalid_argument', 'std::out_of_range': 'Out_of_range',
       'std::logic_error': 'Logic_error', 'std::runtime_error': 'Runtime_error',
       'signal_tl::not_implemented_error': 'Not_implemented',
       'tao::pegtl::parse_error': 'Parse_error', 'std::bad_variant_access': 'Bad_access',
       'std::bad_optional_access': 'Bad_access'}

class Ref:
    """a mutable variable"""
    def __init__(self, name, ty, ptr=False, fresh=False):
        self.name, self.ty, self.ptr, self.fresh, self.gen = name, ty, ptr, fresh, 0

class A:
    """an immutable value: the name of a WhyML variable or a constant"""
    def __init__(self, text, ty, fresh=False):
        self.text, self.ty, self.fresh = text, ty, fresh

class L:
    """an lvalue: root (Ref or A) and steps ('f', field, ty) / ('i', index text, ty)"""
    def __init__(self, root, steps=(), gen=None, ptr=None):
        self.root, self.steps = root, tuple(steps)
        self.gen = gen
    @property
    def ty(self):
        return self.steps[-1][2] if self.steps else self.root.ty
    def step(self, *s):
        gen = self.gen
        if s[0] == 'i' and gen is None and isinstance(self.root, Ref):
            gen = self.root.gen
        return L(self.root, self.steps + (s,), gen)
    def same(self, o):
        return self.root is o.root and self.steps == o.steps

class It:
    """an iterator: position `pos' (text or Ref) in the container `cont' (L)"""
    def __init__(self, cont, pos, rev=False, gen=None):
        self.cont, self.pos, self.rev = cont, pos, rev
        self.gen = gen if gen is not None else (cont.root.gen if isinstance(cont.root, Ref) else 0)

class Tup:
    def __init__(self, items): self.items = items
class Fn:
    """a callable: a lambda with its environment, a stateless std functor or a functor record"""
    def __init__(self, ops=None, env=None, this=None, std=None, caps=None):
        self.ops, self.env, self.this, self.std = ops, env, this, std
class VPtr:
    """result of get_if: pointer to alternative `ctor' of the variant value `v' (null if it is another)"""
    def __init__(self, v, ctor, ty): self.v, self.ctor, self.ty = v, ctor, ty
class AddrOf:
    def __init__(self, lv): self.lv = lv
class Back:
    """std::back_inserter"""
    def __init__(self, lv): self.lv = lv
class NullOpt: pass
class Opaque:
    """text for messages"""
    def __init__(self): self.ty = 'string_t'
class MapIt:
    def __init__(self, cont, end): self.cont, self.end = cont, end
class InsRes:
    def __init__(self, items): self.items = items
class Moved:
    def __init__(self, v): self.v = v
UNIT = A('()', 'unit')

def rlit(s):
    f = Fraction(s)
    if f.denominator == 1:
        return '%d.0' % f.numerator
    d = s if 'e' not in s.lower() else None
    if d is None:
        n = f.denominator
        k = 0
        while n % 10 == 0: n //= 10; k += 1
        # finite decimal expansion of a double
        e = 0
        x = f
        while x.denominator != 1:
            x *= 10; e += 1
        t = str(abs(x.numerator)).rjust(e + 1, '0')
        d = ('-' if f < 0 else '') + t[:-e] + '.' + t[-e:]
    return d

class Program:
    def __init__(self, tus, contracts):
        self.tus = tus            # name -> json
        self.byid = {}            # (tu, id) -> fn
        self.bykey = {}           # key -> (tu, fn)
        recs = {}
        for tu, d in tus.items():
            for r in d['recs']:
                recs.setdefault(r['n'], r)
            for f in d['fns']:
                self.byid[(tu, f['id'])] = f
                if f.get('body') is not None or f.get('ctor'):
                    k = fkey(f)
                    self.bykey.setdefault(k, (tu, f))
        self.recs = recs
        self.types = Types(recs)
        self.contracts = contracts
        import rules
        rules.install(self)

def fkey(f):
    n = base(f['n'])
    if n.startswith('operator'):
        n = 'operator' + f['n'].split('operator')[-1] if '<' not in f['n'].split('operator')[-1][2:] else n
    c = f.get('cls')
    pre = ''
    if c and c.get('k') == 'rec':
        pre = base(c['n'])
        ca = targs(c)
        if ca: pre += '<' + ','.join(tkey(a) for a in ca) + '>'
        pre += '::'
        if f.get('ctor'): n = base(c['n'])
    elif c and c.get('k') == 'lambda':
        pre = 'lambda::'
    ps = [p['t'] for p in f['params']] if 'params' in f else f['p']
    def pk(t):
        return tkey(t)
    return '%s%s(%s)' % (pre, n, ','.join(pk(t) for t in ps))

def mangle(k):
    k = k.replace('operator()', 'op_call').replace('operator&', 'op_and').replace('operator|', 'op_or') \
         .replace('operator~', 'op_not').replace('operator<=', 'op_le').replace('operator>=', 'op_ge') \
         .replace('operator<', 'op_lt').replace('operator>', 'op_gt').replace('operator-', 'op_minus') \
         .replace('operator==', 'op_eq').replace('operator!=', 'op_ne')
    return 'f_' + re.sub(r'_+', '_', re.sub(r'[^A-Za-z0-9]', '_', k)).strip('_')

def is_iter(t):
    if t is None: return False
    t = strip(t)
    return t['k'] == 'rec' and t['n'] in ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator')

class Inline:
    """frame of a function being translated (the function itself or one inlined into it)"""
    def __init__(self, ret, top): self.ret, self.top = ret, top; self.exc = None

class Tr:
    def __init__(self, prog, key, tags=None):
        self.prog, self.key = prog, key
        self.tu, self.fn = prog.bykey[key]
        self.ctr = prog.contracts.get(key)
        self.buf = []
        self.n = 0
        self.log = []
        self.callees = set()
        self.raised = set()
        self.loc = self.fn.get('l', '')
        self.loopno = 0
        self.outer = []
        self.stack = [key]
        self.tags = tags
        self.roleinfo = {}
        self.loops_seen = []
        self.assigned = []

    # ---- emission
    def fresh(self, s='t'):
        self.n += 1
        return '%s%d' % (s, self.n)
    def emit(self, s, what=None):
        self.buf.append('%s (*@ %s%s *)' % (s, self.loc, (' ' + what) if what else ''))
    def let(self, e, ty, s='t', fresh=False):
        v = self.fresh(s)
        self.emit('let %s = %s in' % (v, e))
        return A(v, ty, fresh)
    def sub(self, f):
        """runs f with a new buffer; returns (lines, result)"""
        b, self.buf = self.buf, []
        try:
            r = f()
            return self.buf, r
        finally:
            self.buf = b
    def fail(self, why):
        self.emit('assert { [@expl:%s] false };' % why, why)
    def vt(self, t):
        return self.prog.types.vt(t)

    # ---- places
    def chk(self, lv):
        if lv.gen is not None and isinstance(lv.root, Ref) and lv.root.gen != lv.gen:
            self.fail('a reference or iterator is used after the container has changed')
    def load(self, v):
        if isinstance(v, Moved): return self.load(v.v)
        if isinstance(v, A): return v
        if isinstance(v, L):
            self.chk(v)
            if isinstance(v.root, Ref):
                if not v.root.ty: raise Unsupported('uninitialised')
                cur = self.let('!' + v.root.name, v.root.ty)
            else:
                cur = v.root
            for s in v.steps:
                if s[0] == 'f':
                    cur = A('%s.%s' % (cur.text, s[1]), s[2])
                else:
                    cur = self.let('%s %s %s' % (seqfn(cur.ty, 'get'), cur.text, s[1]), s[2])
            return cur
        if isinstance(v, Tup):
            return self.pack(v)
        if isinstance(v, Opaque):
            return self.let('any string_t', 'string_t')
        raise Unsupported('value of %s' % type(v).__name__)
    def mktup(self, t, a):
        vs = [self.copy(self.ev(x)) for x in a]
        if len(vs) == 1 and len(targs(strip(t))) != 1: return vs[0]      # from another pair
        return Tup(vs)
    def pack(self, v):
        its = [self.load(x) for x in v.items]
        n = self.prog.types.tup([x.ty for x in its])
        return self.let('{ %s }' % '; '.join('%s_%d = %s' % (n, i, x.text) for i, x in enumerate(its)), n)
    def store(self, lv, a, struct=False):
        """assign the atom a to the lvalue"""
        if isinstance(lv, A) or not isinstance(lv, L) or not isinstance(lv.root, Ref):
            self.fail('an input is modified'); return
        self.chk(lv)
        r = lv.root
        if lv.steps or struct:
            if r.ptr and not r.fresh:
                self.fail('a signal that may be shared is modified')
        def upd(cur, steps):
            if not steps: return a.text
            s = steps[0]
            if s[0] == 'f':
                sub = upd(A('%s.%s' % (cur.text, s[1]), s[2]), steps[1:])
                return self.let('{ %s with %s = %s }' % (cur.text, s[1], sub), cur.ty).text
            e = self.let('%s %s %s' % (seqfn(cur.ty, 'get'), cur.text, s[1]), s[2]) if len(steps) > 1 else None
            sub = upd(e, steps[1:])
            return self.let('%s %s %s %s' % (seqfn(cur.ty, 'set'), cur.text, s[1], sub), cur.ty).text
        cur = self.let('!' + r.name, r.ty) if lv.steps else None
        t = upd(cur, lv.steps)
        self.emit('%s := %s;' % (r.name, t))
        self.log.append((r, 'struct' if struct else 'assign'))
        if struct: r.gen += 1

    def newref(self, name, a, ptr=False, fresh=False):
        n = self.fresh('v_%s_' % re.sub(r'\W', '_', name or 'x'))
        self.emit('let %s = ref %s in' % (n, a.text))
        r = Ref(n, a.ty, ptr, fresh)
        self.assigned.append(r)
        return r

    # ---- joining of values of branches
    def shape(self, v):
        if isinstance(v, (A, L, Opaque)): return ('a', v.ty)
        if isinstance(v, It): return ('it', v.cont, v.rev)
        if isinstance(v, Tup): return ('t',) + tuple(self.shape(x) for x in v.items)
        if isinstance(v, Moved): return self.shape(v.v)
        return ('x', v)
    def flat(self, v):
        """WhyML texts of the atoms of the value, and a function from such texts to the value"""
        if isinstance(v, Moved): v = v.v
        if isinstance(v, (A, L, Opaque)):
            a = self.load(v)
            if a.ty == 'unit': return [], (lambda ts: UNIT), ('u',)
            return [a.text], (lambda ts, ty=a.ty, fr=a.fresh: A(ts[0], ty, fr)), ('a', a.ty)
        if isinstance(v, It):
            p = self.posn(v)
            ck = (id(v.cont.root), v.cont.steps)
            return [p], (lambda ts: It(v.cont, ts[0], v.rev, v.gen)), ('it', ck, v.rev)
        if isinstance(v, Tup) and v.items and all(isinstance(x, (A, L, Opaque)) for x in v.items): v = self.pack(v); return self.flat(v)
        if isinstance(v, Tup):
            fs = [self.flat(x) for x in v.items]
            def mk(ts):
                out = []; i = 0
                for t, f, _ in fs:
                    out.append(f(ts[i:i + len(t)])); i += len(t)
                return Tup(out)
            return [x for f in fs for x in f[0]], mk, ('t',) + tuple(f[2] for f in fs)
        if v is None:
            return [], (lambda ts: None), ('u',)
        raise Unsupported('joining %s' % type(v).__name__)
    def join(self, branches, header):
        """branches: functions returning a value or None (exits). header(list of block texts) -> text."""
        outs = []
        for f in branches:
            def g(f=f):
                v = f()
                if v == 'exit': return 'exit'
                return self.flat(v)
            outs.append(self.sub(g))
        live = [r for _, r in outs if r != 'exit']
        if live:
            sh = live[0][2]
            for r in live:
                if r[2] != sh: raise Unsupported('branches with values of different kinds %s %s' % (sh, r[2]))
        blocks = []
        for lines, r in outs:
            end = 'absurd_exit' if r == 'exit' else ('()' if not r[0] else r[0][0] if len(r[0]) == 1 else '(%s)' % ', '.join(r[0]))
            if r == 'exit':
                end = None
            blocks.append((lines, end))
        if not live:
            self.emitblock(header, blocks, None)
            return 'exit'
        k = len(live[0][0])
        ns = [self.fresh('j') for _ in range(k)]
        self.emitblock(header, blocks, ns)
        return live[0][1](ns)
    def emitblock(self, header, blocks, ns):
        bs = []
        for lines, end in blocks:
            lines = list(lines)
            if end is None: self.dropsemi(lines, -1)
            else: lines.append(end)
            bs.append('begin\n' + '\n'.join(lines) + '\nend')
        t = header(bs)
        if ns is None or not ns:
            self.buf.append(t + ';')
        elif len(ns) == 1:
            self.buf.append('let %s = %s in' % (ns[0], t))
        else:
            self.buf.append('let (%s) = %s in' % (', '.join(ns), t))

    # ---- iterators
    def posn(self, it):
        if isinstance(it.pos, Ref):
            return self.let('!' + it.pos.name, 'int', 'p').text
        return it.pos
    def itchk(self, it):
        if isinstance(it.cont.root, Ref) and it.cont.root.gen != it.gen:
            self.fail('a reference or iterator is used after the container has changed')
    def deref(self, it):
        self.itchk(it)
        p = self.posn(it)
        if it.rev:
            p = self.let('%s - 1' % p, 'int', 'p').text
        return it.cont.step('i', p, ELT_OF[it.cont.ty])
    def length(self, lv):
        a = self.load(lv)
        return self.let('%s %s' % (seqfn(a.ty, 'length'), a.text), 'int', 'n').text
    def move(self, it, k):
        """position k (text) further"""
        p = self.posn(it)
        n = self.length(it.cont)
        return self.let('p_iter_move %s (%s(%s)) %s' % (p, '-' if it.rev else '', k, n), 'int', 'p').text
    def samecont(self, a, b):
        if not a.cont.same(b.cont):
            if isinstance(a.cont.root, A) and isinstance(b.cont.root, A):
                x = self.load(a.cont); y = self.load(b.cont)
                if x.text == y.text: return
            self.fail('iterators of different containers are compared')

    # ---- calls
    def lookup(self, f):
        """JSON of the function that the reference f names, or None"""
        g = self.prog.byid.get((self.tu, f['id']))
        if g is not None and g.get('body') is not None:
            return self.tu, g
        k = fkey(f)
        return self.prog.bykey.get(k)

    def callfn(self, f, this, args):
        """call of a repository function (this: L/A or None; args: values)"""
        got = self.lookup(f)
        k = fkey(got[1]) if got else fkey(f)
        c = self.prog.contracts.get(k)
        if got is None and c is None: raise Unsupported('function without body: ' + k)
        g = got[1] if got else f
        if c is not None and (c.iter_ret or not is_iter(g.get('ret'))):
            return self.callcontract(k, c, g, this, args)
        if k in self.stack: raise Unsupported('recursive function without contract: ' + k)
        return self.inline(got[0], g, this, args, k)

    def callcontract(self, k, c, g, this, args):
        self.callees.add(k)
        ps = g['params'] if 'params' in g else [{'t': t} for t in g['p']]
        texts = []; post = []
        if g.get('m') and not g.get('ctor') and not g.get('static'):
            if g.get('const'):
                texts.append(self.load(this).text)
            else:
                texts.append(self.refarg(this, post))
        for p, v in zip(ps, args):
            if is_stateless(p['t']): continue
            t = p['t']
            if t['k'] == 'ref' and not t.get('rv') and not strip(t).get('c'):
                texts.append(self.refarg(v, post))
            else:
                texts.append(self.load(v).text)
        it = not g.get('ctor') and is_iter(g['ret'])
        rt = 'int' if it else self.vt(g['cls']) if g.get('ctor') else self.vt(g['ret'])
        for x in c.raises:
            self.raised.add(x)
        if c.measure and self.ctr and self.ctr.group == c.group and c.group:
            # recursion: the measure of the callee is below that of this function
            m = c.measure(texts, self.prog)
            self.emit('assert { [@expl:termination] 0 <= %s < %s };' % (m, self.ctr.measure(self.ctr_args, self.prog, True)), 'recursion ends')
        e = '%s %s' % (mangle(k), ' '.join(texts) if texts else '()')
        if rt == 'unit':
            self.emit(e + ';', 'call of ' + k); r = UNIT
        else:
            v = self.fresh('r'); self.emit('let %s = %s in' % (v, e), 'call of ' + k)
            r = A(v, rt, c.fresh)
        for f in post: f()
        if it: return It(this if isinstance(this, L) else L(this), r.text, 'reverse' in str(strip(g['ret']).get('n')))
        return r
    def refarg(self, v, post):
        if isinstance(v, L) and isinstance(v.root, Ref):
            self.chk(v)
            if v.root.ptr and not v.root.fresh:
                self.fail('a signal that may be shared is modified')
            def fin(r=v.root):
                r.gen += 1; self.log.append((r, 'struct'))
            if not v.steps:
                post.append(fin)
                return v.root.name
            a = self.load(v)
            t = self.newref('tmp', a)
            def fin2():
                self.store(v, self.load(L(t)), struct=True)
            post.append(fin2)
            return t.name
        self.fail('an input is modified')
        a = self.load(v)
        return self.newref('tmp', a).name

    def inline(self, tu, g, this, args, k, env=None, thisv=None):
        otu, oenv, othis, oloc = self.tu, self.env, self.this, self.loc
        self.tu = tu
        self.env = dict(env) if env else {}
        self.this = this if thisv is None else thisv
        self.stack.append(k)
        if len(self.stack) > 30: raise Unsupported('inlining too deep: ' + k)
        try:
            for p, v in zip(g['params'], args):
                self.bindparam(p, v)
            if g.get('ctor'):
                return self.ctorbody(g)
            return self.body(g['body'], g['ret'], False)
        finally:
            self.tu, self.env, self.this, self.loc = otu, oenv, othis, oloc
            self.stack.pop()

    def bindparam(self, p, v):
        t = p['t']
        if t['k'] == 'ref':
            self.env[p['id']] = v
            return
        if isinstance(v, (Fn, It, VPtr, AddrOf, Back, NullOpt, MapIt, Tup)):
            if isinstance(v, It) and not t.get('c'):
                r = self.newref(p['n'], A(self.posn(v), 'int'))
                v = It(v.cont, r, v.rev, v.gen)
            self.env[p['id']] = v
            return
        a = self.load(v)
        if t.get('c'):
            self.env[p['id']] = a
        else:
            ptr = t['k'] == 'rec' and t['n'] in ('std::shared_ptr', 'std::unique_ptr')
            self.env[p['id']] = L(self.newref(p['n'], a, ptr, a.fresh))

    def ctorbody(self, g):
        """value of an inlined constructor"""
        rt = self.vt(g['cls'])
        if any(i.get('delegating') for i in g['inits']):
            d = [i for i in g['inits'] if i.get('delegating')][0]
            v = self.ev(d['e'])
            self.thisref = None
            r = self.newref('this', self.load(v))
        elif rt == 'sseq':
            r = None
            for i in g['inits']:
                if i.get('field') == 'samples':
                    r = self.newref('this', self.load(self.ev(i['e'])))
            if r is None: raise Unsupported('constructor of Signal without samples')
        else:
            fs = self.prog.types.records[rt]
            vals = {}
            for i in g['inits']:
                if 'field' not in i: raise Unsupported('base initialiser')
                vals[i['field']] = self.load(self.conv(self.ev(i['e']), None))
            miss = [f for f, _, _ in fs if f not in vals]
            if miss: raise Unsupported('fields without initialiser: %s' % miss)
            if not fs:
                r = self.newref('this', A('Mk_' + rt, rt))
            else:
                r = self.newref('this', A('{ %s }' % '; '.join('%s = %s' % (w, vals[f].text) for f, w, _ in fs), rt))
        self.this = L(r)
        if g.get('body'):
            self.body(g['body'], {'k': 'b', 'n': 'void'}, False)
        a = self.load(L(r))
        return A(a.text, a.ty, False)

    # ---- statements
    def body(self, b, ret, top):
        fr = Inline(ret, top)
        self.frames.append(fr)
        try:
            # tail form first; early returns from loops use `return' or a local exception
            if not top and self.needs_exc(b):
                return self.body_exc(b, fr)
            v = self.stmts([b], True)
            return v
        finally:
            self.frames.pop()

    def needs_exc(self, s, inloop=False):
        """is there a return that the tail form does not reach?"""
        return not self.tailok([s])
    def tailok(self, ss):
        for n, s in enumerate(ss):
            if s is None: continue
            k = s['k']
            if k == 'block':
                if self.has_ret(s):
                    return self.tailok(s['b'] + ss[n + 1:])
            elif k == 'if':
                if self.has_ret(s['x']) or self.has_ret(s.get('y')):
                    rest = ss[n + 1:]
                    ex, ey = self.exits(s['x']), self.exits(s.get('y'))
                    if ex or ey:
                        return self.tailok([s['x']] + ([] if ex else rest)) and self.tailok([s.get('y')] + ([] if ey else rest))
                    if not rest:
                        return self.tailok([s['x']]) and self.tailok([s.get('y')])
                    return False
            elif k == 'ret': return True
            elif k == 'switch':
                if self.has_ret(s):
                    gs, complete = self.cases(s)
                    rest = ss[n + 1:]
                    return all(self.tailok(list(st) + ([] if self.exits_list(st) else rest)) for _, st in gs) and self.tailok(rest)
            elif self.has_ret(s): return False
        return True
    def has_ret(self, s):
        if s is None: return False
        if isinstance(s, list): return any(self.has_ret(x) for x in s)
        k = s.get('k')
        if k == 'ret': return True
        if k == 'block': return any(self.has_ret(x) for x in s['b'])
        if k == 'if': return self.has_ret(s['x']) or self.has_ret(s.get('y'))
        if k in ('for', 'while', 'do', 'rfor', 'switch', 'case', 'default'): return self.has_ret(s['b'])
        return False
    def exits(self, s):
        if s is None: return False
        k = s['k']
        if k == 'ret': return True
        if k == 'expr': return s['e'] is not None and s['e'].get('k') == 'throw'
        if k == 'block': return self.exits_list(s['b'])
        if k == 'if': return self.exits(s['x']) and self.exits(s.get('y'))
        return False
    def exits_list(self, ss):
        return any(self.exits(x) for x in ss if x)

    def body_exc(self, b, fr):
        """inlined function with a return inside a loop: a local exception carries the value"""
        rt = self.vt(fr.ret)
        fr.exc = self.fresh('Ret')
        def f():
            v = self.stmts([b], True)
            if v == 'exit': return 'exit'
            if rt == 'unit': return A('()', 'unit')
            return self.load(v)
        lines, v = self.sub(f)
        t = 'exception %s%s in\n  try begin\n%s' % (fr.exc, '' if rt == 'unit' else ' ' + rt, '\n'.join(lines))
        if v == 'exit':
            self.dropsemi(lines, -1)
            t = 'exception %s%s in\n  try begin\n%s' % (fr.exc, '' if rt == 'unit' else ' ' + rt, '\n'.join(lines))
        else: t += '\n' + v.text
        n = self.fresh('r')
        if rt == 'unit':
            t += '\nend with %s -> () end' % fr.exc
            self.buf.append('begin %s end;' % t)
            return UNIT
        t += '\nend with %s x -> x end' % fr.exc
        self.buf.append('let %s = begin %s end in' % (n, t))
        return A(n, rt)

    def stmts(self, ss, tail):
        """returns the value of the function in tail mode (None when it is void), 'exit' if control never
        gets to the end"""
        for n, s in enumerate(ss):
            if s is None: continue
            if s.get('l'): self.loc = s['l']
            k = s['k']
            rest = ss[n + 1:]
            if k == 'block':
                if tail and self.has_ret(s):
                    return self.stmts(s['b'] + rest, tail)
                if self.exits(s) or self.has_brk(s):
                    return self.stmts(s['b'] + rest, tail)
                r = self.stmts(s['b'], False)
                if r == 'exit': return 'exit'
            elif k == 'null': pass
            elif k == 'expr':
                e = s['e']
                if e['k'] == 'throw':
                    self.throw(e); return 'exit'
                self.ev(e, discard=True)
            elif k == 'decl':
                for d in s['d']: self.decl(d)
            elif k == 'ret':
                v = self.retval(s)
                if tail: return v
                fr = self.frames[-1]
                if fr.top:
                    self.emit('return %s;' % self.retatom(v))
                elif fr.exc:
                    a = self.load(v) if v is not None else UNIT
                    self.emit('raise %s;' % (fr.exc if a.ty == 'unit' else '(%s %s)' % (fr.exc, a.text)))
                else: raise Unsupported('return')
                return 'exit'
            elif k == 'if':
                r = self.iff(s, rest, tail)
                if r is not None: return r[0]
            elif k == 'switch':
                r = self.switch(s, rest, tail)
                if r is not None: return r[0]
            elif k in ('for', 'while', 'rfor', 'do'):
                self.loop(s)
            elif k == 'break':
                self.emit('break;'); return 'exit'
            elif k == 'cont':
                self.emit('raise %s;' % self.conts[-1]); self.contused[-1] = True
                return 'exit'
            else:
                raise Unsupported('statement ' + k)
        return None
    def has_brk(self, s):
        if s is None: return False
        k = s.get('k')
        if k in ('break', 'cont'): return True
        if k == 'block': return any(self.has_brk(x) for x in s['b'])
        if k == 'if': return self.has_brk(s['x']) or self.has_brk(s.get('y'))
        return False

    def retval(self, s):
        e = s.get('e')
        if e is None: return None
        fr = self.frames[-1]
        if fr.ret['k'] == 'ref':
            return self.ev(e)
        v = self.ev(e, ret=True)
        if isinstance(v, AddrOf): raise Unsupported('pointer returned')
        v = self.conv(v, fr.ret)
        if isinstance(v, L): 
            ptr = isinstance(v.root, Ref) and v.root.ptr and not v.steps
            fresh = ptr and v.root.fresh
            a = self.load(v)
            v = A(a.text, a.ty, fresh)
        return v
    def retatom(self, v):
        if v is not None and is_iter(self.fn['ret']):
            if isinstance(v, Moved): v = v.v
            if not isinstance(v, It): raise Unsupported('iterator returned')
            self.itchk(v)
            if self.this is None or not v.cont.same(self.this): raise Unsupported('iterator of something else returned')
            return self.posn(v)
        if v is None or self.vt(self.fn['ret']) == 'unit': return '()'
        a = self.load(v)
        if self.ctr and self.ctr.fresh and not a.fresh:
            self.fail('the result is a signal that may be shared')
        return a.text

    def iff(self, s, rest, tail):
        if s.get('init'): self.decl_all(s['init'])
        if s.get('cv'):
            self.decl_all(s['cv'])
        c = self.cond(s['c'])
        x, y = s['x'], s.get('y')
        hr = self.has_ret(x) or self.has_ret(y)
        ex, ey = self.exits(x), self.exits(y)
        def hdr(bs): return 'if %s then %s else %s' % (c, bs[0], bs[1])
        def br(ss):
            def f():
                env = dict(self.env); gens = self.gens(); loc = self.loc
                try: return self.stmts([z for z in ss if z is not None], tail and True)
                finally:
                    self.env = env; self.branch_gens(gens); self.loc = loc
            return f
        if tail and hr and (ex or ey or not rest):
            xs = [x] + ([] if ex else rest)
            ys = [y] + ([] if ey else rest)
            g0 = self.gens()
            r = self.join([br(xs), br(ys)], hdr)
            return (r,)
        def br2(z):
            def f():
                env = dict(self.env); gens = self.gens(); loc = self.loc
                try:
                    r = self.stmts([z] if z is not None else [], False)
                    return 'exit' if r == 'exit' else UNIT
                finally:
                    self.env = env; self.loc = loc
            return f
        gens = self.gens()
        r = self.join([br2(x), br2(y)], hdr)
        if r == 'exit': return ('exit',)
        return None
    def gens(self): return None
    def branch_gens(self, g): pass

    def cases(self, s):
        """[(labels or None for default, statements)] of a switch"""
        b = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
        groups = []; cur = None
        def lab(st):
            nonlocal cur
            labels = []
            while st is not None and st['k'] in ('case', 'default'):
                labels.append(st['v'] if st['k'] == 'case' else None)
                st = st['b']
            return labels, st
        for st in b:
            if st['k'] in ('case', 'default'):
                labels, inner = lab(st)
                groups.append([labels, [inner] if inner else []])
            else:
                if not groups: raise Unsupported('statement before the first case')
                groups[-1][1].append(st)
        out = []
        for gi, (labels, sts) in enumerate(groups):
            body = []
            done = False
            for j in range(gi, len(groups)):
                for st in groups[j][1]:
                    if st['k'] == 'break': done = True; break
                    if st['k'] == 'block' and st['b'] and st['b'][-1]['k'] == 'break':
                        body.append({'k': 'block', 'b': st['b'][:-1], 'l': st.get('l')}); done = True; break
                    body.append(st)
                    if self.exits(st): done = True; break
                if done: break
            if any(self.has_brk(x) for x in body): raise Unsupported('break inside of a case')
            out.append((labels, body))
        return out, any(None in l for l, _ in groups)

    def switch(self, s, rest, tail):
        if s.get('init'): self.decl_all(s['init'])
        v = self.load(self.ev(s['c']))
        gs, hasdef = self.cases(s)
        hr = self.has_ret(s)
        dflt = [b for l, b in gs if None in l]
        norm = [(l, b) for l, b in gs if None not in l]
        intail = tail and hr
        enums = self.prog.types.enums.get(v.ty)
        covered = enums is not None and not dflt and len({x['n'] for l, _ in norm for x in l}) == len(enums)
        def build(i):
            if i == len(norm):
                b = dflt[0] if dflt else []
                if intail: return self.stmts(list(b) + ([] if self.exits_list(b) else rest), True)
                r = self.stmts(list(b), False)
                return 'exit' if r == 'exit' else UNIT
            l, b = norm[i]
            cs = []
            for x in l:
                y = self.load(self.ev(x))
                cs.append(self.let(self.eqtext(v, y), 'bool').text)
            c = ' || '.join(cs)
            def f():
                env = dict(self.env)
                try:
                    if intail: return self.stmts(list(b) + ([] if self.exits_list(b) else rest), True)
                    r = self.stmts(list(b), False)
                    return 'exit' if r == 'exit' else UNIT
                finally: self.env = env
            if covered and i == len(norm) - 1 :
                # all enumerators are covered (values outside of the enumeration are not considered)
                return f()
            return self.join([f, lambda: build(i + 1)], lambda bs: 'if %s then %s else %s' % (c, bs[0], bs[1]))
        r = build(0)
        if intail: return (r,)
        if r == 'exit': return ('exit',)
        return None

    def decl_all(self, s):
        for d in s['d']: self.decl(d)

    def decl(self, d):
        t = d.get('t')
        if d.get('bind') is not None:
            return self.bind(d)
        init = d.get('init')
        if t['k'] == 'ref':
            v = self.ev(init)
            self.env[d['id']] = v
            return
        if init is None: raise Unsupported('variable without initialiser')
        v = self.ev(init)
        v = self.conv(v, t)
        self.env[d['id']] = self.local(d['n'], t, v)
    def local(self, name, t, v):
        const = t.get('c')
        if isinstance(v, Moved): v = self.load(v)
        if isinstance(v, (Fn, VPtr, AddrOf, Back, MapIt, InsRes)): return v
        if isinstance(v, It):
            if const: return It(v.cont, self.posn(v), v.rev, v.gen)
            return It(v.cont, self.newref(name, A(self.posn(v), 'int')), v.rev, v.gen)
        if isinstance(v, Tup):
            return Tup([self.local('%s%d' % (name, i), dict(t), x) for i, x in enumerate(v.items)])
        ptr = t['k'] == 'rec' and t['n'] in ('std::shared_ptr', 'std::unique_ptr')
        srcfresh = isinstance(v, A) and v.fresh
        a = self.load(v)
        if const and not ptr: return a
        if const and ptr: return L(self.newref(name, a, ptr, srcfresh))
        return L(self.newref(name, a, ptr, srcfresh))

    def bind(self, d):
        t = d['t']
        v = self.ev(d['init'])
        if isinstance(v, Moved): v = v.v
        isref = t['k'] == 'ref'
        if isinstance(v, InsRes):
            for b, x in zip(d['bind'], v.items): self.env[b['id']] = x
            return
        if isinstance(v, Tup):
            if not isref:
                v = self.local('b', {**strip(t), 'c': t.get('c')} if t['k'] != 'ref' else t, v)
            for b, x in zip(d['bind'], v.items): self.env[b['id']] = x
            return
        if not isinstance(v, (A, L)): raise Unsupported('structured binding of %s' % type(v).__name__)
        if not isref:
            a = self.load(v)
            v = a if t.get('c') else L(self.newref('b', a))
        lv = v if isinstance(v, L) else L(v)
        for i, b in enumerate(d['bind']):
            self.env[b['id']] = self.field(lv, b.get('field'), i)

    def field(self, lv, name, i=None):
        ty = lv.ty
        T = self.prog.types
        if ty in T.tups:
            idx = i if i is not None else {'first': 0, 'second': 1}[name]
            return lv.step('f', '%s_%d' % (ty, idx), T.tups[ty][idx])
        if ty == 'sseq' and name == 'samples': return lv
        if ty in T.records:
            for f, w, fty in T.records[ty]:
                if f == name: return lv.step('f', w, fty)
        raise Unsupported('field %s of %s' % (name, ty))

    def throw(self, e):
        x = e.get('e')
        if x is None: raise Unsupported('rethrow')
        n = strip(x['t'])['n']
        if n not in EXC: raise Unsupported('exception ' + n)
        for a in x.get('a', []): self.msg(a)
        self.raised.add(EXC[n])
        self.emit('raise %s;' % EXC[n])
    def msg(self, e):
        """argument of an exception: evaluated as far as it is not only text"""
        try:
            b = self.buf; self.buf = []
            n = self.n
            self.ev(e)
            b.extend(self.buf)
        except Unsupported:
            pass
        finally:
            self.buf = b

    # ---- loops
    def loop(self, s):
        saved_n = self.n
        no = self.loopno
        # first pass: find what the loop modifies
        st = self.snap()
        known = set(map(id, self.assigned))
        log0 = self.log; self.log = []
        buf0 = self.buf; self.buf = []
        rl = self.raised.copy(); cl = self.callees.copy()
        seen0 = list(self.loops_seen)
        self.loopbody(s, None)
        mods = self.log; self.log = log0; self.buf = buf0
        self.n = saved_n; self.loopno = no; self.loops_seen = seen0
        self.restore(st)
        modrefs = []
        for r, k in mods:
            if id(r) in known and r not in modrefs: modrefs.append(r)
        for r, k in mods:
            if id(r) in known and k == 'struct': r.gen += 1
        self.loopbody(s, (modrefs, mods))
        self.log = self.log + [m for m in mods if id(m[0]) in known]
        for r, k in mods:
            if id(r) in known and k == 'struct': r.gen += 1
    def snap(self):
        return (dict(self.env), [(r, r.gen, r.fresh) for r in self.assigned], list(self.assigned))
    def restore(self, st):
        self.env = st[0]
        for r, g, f in st[1]:
            r.gen, r.fresh = g, f
        self.assigned = st[2]

    def loopbody(self, s, info):
        k = s['k']
        env0 = dict(self.env)
        pre = []
        its = []                      # (name of ref, container L or None, rev, ref)
        if k == 'rfor':
            if s.get('init'): self.stmts([s['init']], False)
            rng = self.ev(s['r'])
            if isinstance(rng, A): rng = L(rng)
            if not isinstance(rng, L): raise Unsupported('range of a for loop')
            if rng.ty not in ELT_OF: raise Unsupported('range-for over ' + rng.ty)
            if not isinstance(rng.root, Ref) and rng.steps:
                rng = L(self.load(rng))
            gen0 = rng.root.gen if isinstance(rng.root, Ref) else 0
            r = Ref(self.fresh('k'), 'int')
            self.emit('let %s = ref 0 in' % r.name)
            self.assigned.append(r)
            it = It(rng, r, False)
            def condf():
                n = self.length(rng)
                return 'p_ilt !%s %s' % (r.name, n)
            def bodyf():
                d = s['v']
                p = self.let('!' + r.name, 'int', 'p').text
                elt = rng.step('i', p, ELT_OF[rng.ty])
                if d.get('bind') is not None:
                    isref = d['t']['k'] == 'ref'
                    e = elt if isref else L(self.load(elt))
                    for i, b in enumerate(d['bind']): self.env[b['id']] = self.field(e, b.get('field'), i)
                elif d['t']['k'] == 'ref': self.env[d['id']] = elt
                else: self.env[d['id']] = self.local(d['n'], d['t'], self.load(elt))
                return self.stmts([s['b']], False)
            def stepf():
                if isinstance(rng.root, Ref) and rng.root.gen != gen0_now[0]:
                    self.fail('the container of a for loop changes while the loop runs')
                self.emit('%s := !%s + 1;' % (r.name, r.name)); self.log.append((r, 'inc'))
            gen0_now = [gen0]
            its.append(it)
        else:
            if k == 'for' and s.get('init'): self.stmts([s['init']], False)
            def condf():
                if s.get('c') is None or k == 'do': return 'true'
                return self.cond(s['c'])
            def bodyf():
                return self.stmts([s['b']], False)
            def stepf():
                if k == 'for' and s.get('inc'): self.ev(s['inc'], discard=True)
                if k == 'do':
                    c = self.cond(s['c'])
                    self.emit('if not %s then break;' % c)
            if s.get('cvbad'): raise Unsupported('declaration in the condition of a loop')
        before = set(map(id, self.assigned))
        no = self.loopno
        self.loopno += 1
        # positions: loop variables of iterator or integer type
        def cont_mods():
            return info[0] if info else []
        if info is not None and k != 'rfor':
            pass
        # second pass: the init of a for loop made new variables; find them in the log by name
        self.pending_loop = no
        condl, c = self.sub(condf)
        if k == 'rfor': gen0_now[0] = rng.root.gen if isinstance(rng.root, Ref) else 0
        cn = self.fresh('Cont')
        self.conts.append(cn); self.contused.append(False)
        log_before = len(self.log)
        def whole():
            o = list(its)
            if info is not None:
                for v in list(self.env.values()):
                    for x in (v.items if isinstance(v, Tup) else [v]):
                        if isinstance(x, It) and isinstance(x.pos, Ref) and any(x.pos is r for r in info[0]) and all(x.pos is not y.pos for y in o): o.append(x)
            self.outer.append(o)
            try: return bodyf()
            finally: self.outer.pop()
        envb = dict(self.env)
        bl, r1 = self.sub(whole)
        used = self.contused.pop(); self.conts.pop()
        self.env = dict(envb)
        sl, _ = self.sub(stepf)
        body_mods = self.log[log_before:]
        entry = []
        invs, variant, hints = self.invariants(no, its, [m for m in body_mods if id(m[0]) in before], s, entry, condl + [c])
        lines = []
        for e in entry: lines.append(e)
        head = 'while (%s) do' % ('\n'.join(condl) + '\n' + c if condl else c)
        lines.append(head)
        for label, t in invs:
            lines.append('  invariant { %s } (*@ %s invariant %s *)' % (t, s.get('l', ''), label))
        if variant: lines.append('  variant { %s } (*@ %s the loop ends *)' % (variant, s.get('l', '')))
        if used:
            lines.append('exception %s in try begin' % cn)
            lines += bl
            lines.append('() end with %s -> () end;' % cn if r1 != 'exit' else 'end with %s -> () end;' % cn)
            if r1 == 'exit':
                # drop the last semicolon of an exiting body
                self.dropsemi(lines, -2)
        else:
            lines += bl
            if r1 == 'exit': sl = []
        for label, t in hints:
            lines.append('assert { %s }; (*@ %s hint %s *)' % (t, s.get('l', ''), label))
        lines += sl
        lines.append('()' if not (r1 == 'exit' and not used) else '')
        if r1 == 'exit' and not used: self.dropsemi(lines, -2)
        lines.append('done;')
        self.buf += lines
        self.env = env0
    def dropsemi(self, lines, i):
        lines[i] = re.sub(r';(\s*\(\*@[^\n]*\*\))?\s*$', r'\1', lines[i])

    def invariants(self, no, its, mods, s, entry, cond=()):
        """invariants of loop number `no': automatic ones for positions, and those of the contract"""
        modrefs = []
        for r, k in mods:
            if r not in modrefs: modrefs.append(r)
        # iterators known in the environment whose position is modified
        poss = []
        seen = set()
        def add(it):
            if isinstance(it, It) and isinstance(it.pos, Ref) and it.pos in modrefs and id(it.pos) not in seen:
                seen.add(id(it.pos)); poss.append(it)
        for it in its: add(it)
        for v in list(self.env.values()):
            if isinstance(v, Tup):
                for x in v.items: add(x)
            add(v)
        invs = []
        var = []
        ent = {}
        def entryval(r):
            if r.name not in ent:
                e = self.fresh('e'); ent[r.name] = e
                entry.append('let ghost %s = !%s in' % (e, r.name))
            return ent[r.name]
        def ctext(lv):
            t = ('!' + lv.root.name) if isinstance(lv.root, Ref) else lv.root.text
            for st in lv.steps:
                if st[0] == 'f': t = '(%s).%s' % (t, st[1])
                else: raise Unsupported('container in a container')
            return '(%s)' % t if t.startswith('!') else t
        # bounds of positions in a condition p != e where e is computed before the loop
        lets = {}
        for l in cond:
            for m_ in re.finditer(r'let (\w+) = (!?\w*)', l): lets[m_.group(1)] = m_.group(2)
        bounds = {}
        for l in cond:
            for m_ in re.finditer(r'p_ine (\w+) (\w+)\b', l):
                for x, y in (m_.groups(), m_.groups()[::-1]):
                    if lets.get(x, '').startswith('!') and y not in lets: bounds[lets[x][1:]] = y
        for it in poss:
            b = bounds.get(it.pos.name)
            kinds = {k for r, k in mods if r is it.pos}
            if b and kinds == {'inc'}: invs.append(('up to the end of the range', '%s <= %s -> !%s <= %s' % (entryval(it.pos), b, it.pos.name, b)))
            if b and kinds == {'dec'}: invs.append(('down to the end of the range', '%s <= %s -> %s <= !%s' % (b, entryval(it.pos), b, it.pos.name)))
            c = ctext(it.cont)
            n = '%s %s' % (seqfn(it.cont.ty, 'len'), c)
            kinds = {k for r, k in mods if r is it.pos}
            p = '!' + it.pos.name
            invs.append(('position in range', '0 <= %s <= %s' % (p, n)))
            if kinds == {'inc'}:
                invs.append(('moves forward', '%s <= %s' % (entryval(it.pos), p)))
                var.append('(%s - %s)' % (n, p))
            elif kinds == {'dec'}:
                invs.append(('moves backward', '%s <= %s' % (p, entryval(it.pos))))
                var.append('(%s)' % p)
        ints = [r for r in modrefs if r.ty == 'int' and id(r) not in seen]
        for r in ints:
            kinds = {k for q, k in mods if q is r}
            if kinds == {'inc'}:
                invs.append(('moves forward', '%s <= !%s' % (entryval(r), r.name)))
                b = self.bound_of(s, r)
                if b:
                    invs.append(('up to the bound', '!%s <= (if %s <= %s then %s else %s)' % (r.name, entryval(r), b, b, entryval(r))))
                    var.append('((if %s <= %s then %s else %s) - !%s)' % (entryval(r), b, b, entryval(r), r.name))
            elif kinds == {'dec'}:
                invs.append(('moves backward', '!%s <= %s' % (r.name, entryval(r))))
                var.append('!' + r.name)
        variant = ' + '.join(var) if var else None
        hints = []
        if self.ctr and self.ctr.loops:
            spec = self.pick(no, poss, ints, modrefs)
            if spec is not None:
                L_, roles = spec
                m = {}
                for rn, o in roles.items():
                    if isinstance(o, It):
                        m[rn] = '!' + o.pos.name
                        m[rn + '.c'] = ctext(o.cont)
                        m[rn + '.0'] = lambda o=o: entryval(o.pos)
                    else:
                        m[rn] = '!' + o.name
                        m[rn + '.0'] = lambda o=o: entryval(o)
                def inst(t):
                    def rep(x):
                        if x.group(1) not in m: raise Unsupported('role ' + x.group(1))
                        v = m[x.group(1)]
                        v = v() if callable(v) else v
                        return '(%s)' % v if v.startswith('!') else v
                    return re.sub(r'\{([\w.]+)\}', rep, t)
                for i, (tags, t) in enumerate(L_.inv):
                    if self.tagok(tags): invs.append(('%d' % (i + 1), inst(t)))
                for i, (tags, t) in enumerate(L_.hints):
                    if self.tagok(tags): hints.append(('%d' % (i + 1), inst(t)))
                if L_.variant: variant = inst(L_.variant)
        return invs, variant, hints
    def tagok(self, tags):
        return self.tags is None or '*' in tags or (tags & self.tags)
    def bound_of(self, s, r):
        """text of the bound e of a loop `r < e' / `r != e' when e is an unmodified variable"""
        c = s.get('c')
        if c is None or c.get('k') != 'bin' or c['op'] not in ('<', '!='): return None
        x = c['x']
        while x['k'] == 'cast': x = x['e']
        if x['k'] != 'ref': return None
        v = self.env.get(x['id'])
        if not (isinstance(v, L) and v.root is r): return None
        y = c['y']
        while y['k'] == 'cast': y = y['e']
        if y['k'] == 'ref':
            w = self.env.get(y['id'])
            if isinstance(w, A): return w.text
            if isinstance(w, L) and isinstance(w.root, Ref) and not w.steps: return '!' + w.root.name
        if y['k'] == 'mcall' and base(y['f']['n']) == 'size':
            try:
                o = self.ev(y['o'])
            except Unsupported: return None
            if isinstance(o, AddrOf): o = o.lv
            if isinstance(o, A): o = L(o)
            if isinstance(o, L) and all(st[0] == 'f' for st in o.steps):
                t = ('!' + o.root.name) if isinstance(o.root, Ref) else o.root.text
                for st in o.steps: t = '(%s).%s' % (t, st[1])
                return '(%s (%s))' % (seqfn(o.ty, 'len'), t)
        return None
    def pick(self, no, poss, ints, modrefs):
        """the loop specification of the contract that fits loop number `no', with its roles bound"""
        for L_ in self.ctr.loops[no:no + 1] + self.ctr.loops[:no] + self.ctr.loops[no + 1:]:
            roles = {}
            ok = True
            ups = list(poss); vars_ = [r for r in modrefs if all(r is not it.pos for it in poss)]
            for rn, (kind, ty) in L_.roles.items():
                got = None
                if kind == 'outer':
                    for o in reversed(self.outer):
                        for it in o:
                            if it.cont.ty == ty and got is None and all(it.pos is not x.pos for x in poss): got = it
                elif kind in ('pos', 'rpos'):
                    for it in ups:
                        if it.cont.ty == ty and it.rev == (kind == 'rpos'): got = it; break
                    if got is not None: ups.remove(got)
                else:
                    for r in vars_:
                        if r.ty == ty: got = r; break
                    if got is not None: vars_.remove(got)
                if got is None: ok = False; break
                roles[rn] = got
            if ok: return L_, roles
        return None

    # ---- expressions
    def conv(self, v, t):
        """initialisation of an object of type t (None: unknown) with v"""
        if isinstance(v, Moved): return self.consume(v)
        return v
    def consume(self, v):
        """value moved out of an lvalue"""
        lv = v.v
        if not isinstance(lv, L): return lv
        a = self.load(lv)
        fr = isinstance(lv.root, Ref) and lv.root.ptr and not lv.steps and lv.root.fresh
        if isinstance(lv.root, Ref):
            if a.ty in ELT_OF and not (lv.root.ptr and not lv.steps):
                e = self.let(seqfn(a.ty, 'empty') + ' ()', a.ty)
            else:
                e = self.let('any %s' % a.ty, a.ty)
            self.store_raw(lv, e)
        return A(a.text, a.ty, fr)
    def store_raw(self, lv, e):
        p = lv.root.ptr; f = lv.root.fresh
        if not lv.steps: lv.root.ptr = False
        self.store(lv, e, struct=True)
        lv.root.ptr = p
    def copy(self, v, ret=False):
        """copy of an object: shared pointers become shared"""
        if isinstance(v, Moved): return self.consume(v)
        if isinstance(v, L):
            r = v.root
            a = self.load(v)
            if isinstance(r, Ref) and r.ptr and not v.steps:
                fr = r.fresh
                if ret: return A(a.text, a.ty, fr)
                r.fresh = False
                return A(a.text, a.ty, False)
            return A(a.text, a.ty, False)
        return v

    def cond(self, e):
        v = self.ev(e)
        if isinstance(v, VPtr): return self.let('is_%s %s' % (v.ctor, self.load(v.v).text), 'bool').text
        if isinstance(v, AddrOf): return 'true'
        a = self.load(v)
        if a.ty != 'bool':
            if a.ty == 'int': return self.let('p_ine %s 0' % a.text, 'bool').text
            raise Unsupported('condition of type ' + a.ty)
        return a.text

    def ev(self, e, discard=False, ret=False):
        if e.get('l'): self.loc = e['l']
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression ' + k)
        if k in ('ctor', 'init'): return m(e, ret)
        return m(e)

    def e_int(self, e):
        if self.is_real(e['t']): return A(rlit(e['v']), 'real')
        v = e['v']
        return A(v if not v.startswith('-') else '(%s)' % v, 'int')
    def e_float(self, e):
        t = rlit(e['v'])
        return A(t if not t.startswith('-') else '(-. %s)' % t[1:], 'real')
    def e_bool(self, e): return A('true' if e['v'] else 'false', 'bool')
    def e_str(self, e):
        return A('str_lit_%s' % re.sub(r'\W', lambda m: '%02x' % ord(m.group(0)), e['v']), 'string_t') if False else Opaque()
    def e_this(self, e):
        if self.this is None: raise Unsupported('this')
        return AddrOf(self.this)
    def e_nullptr(self, e): raise Unsupported('nullptr')
    def is_real(self, t):
        t = strip(t); return t['k'] == 'b' and t['n'] == 'double'

    def e_ref(self, e):
        dk = e['dk']
        if dk == 'enum':
            ty = self.vt(e['t'])
            return A(self.prog.types.enum_ctor(ty, e['n']), ty)
        if e['id'] in self.env: return self.env[e['id']]
        if dk == 'gvar':
            if e.get('q') == 'std::nullopt': return NullOpt()
            if 'init' in e: return self.load(self.ev(e['init']))
        raise Unsupported('variable %s' % e['n'])

    def e_mem(self, e):
        o = self.ev(e['e'])
        if isinstance(o, Moved): o = o.v
        if e['arrow']: o = self.star(o)
        if isinstance(o, Tup):
            return o.items[{'first': 0, 'second': 1}[e['n']]]
        if isinstance(o, InsRes):
            return o.items[{'first': 0, 'second': 1}[e['n']]]
        if isinstance(o, A): o = L(o)
        if not isinstance(o, L): raise Unsupported('member of %s' % type(o).__name__)
        return self.field(o, e['n'])

    def star(self, o):
        if isinstance(o, Moved): o = o.v
        if isinstance(o, AddrOf): return o.lv
        if isinstance(o, It): return self.deref(o)
        if isinstance(o, VPtr):
            return self.let('get_%s %s' % (o.ctor, self.load(o.v).text), o.ty)
        if isinstance(o, (L, A)): return o        # shared_ptr
        raise Unsupported('dereference of %s' % type(o).__name__)

    def e_un(self, e):
        op = e['op']
        if op == '*': return self.star(self.ev(e['e']))
        if op == '&': return AddrOf(self.ev(e['e']))
        if op == '!':
            c = self.cond(e['e'])
            return self.let('not %s' % c, 'bool')
        if op == '-':
            a = self.load(self.ev(e['e']))
            if a.ty == 'real': return self.let('p_neg %s' % a.text, 'real')
            if a.ty == 'int': return self.let('p_ineg %s' % a.text, 'int')
        if op == '+': return self.load(self.ev(e['e']))
        if op in ('++', '--'):
            v = self.ev(e['e'])
            if isinstance(v, It): return self.itinc(v, 1 if op == '++' else -1, e.get('post'))
            a = self.load(v)
            if a.ty != 'int': raise Unsupported(op + ' on ' + a.ty)
            uns = strip(e['t']).get('n', '').startswith('unsigned')
            b = self.let('%s %s 1' % ('p_iadd' if op == '++' else ('p_usub' if uns else 'p_isub'), a.text), 'int')
            self.store(v, b)
            self.log[-1:] = [(v.root, 'inc' if op == '++' else 'dec')] if not v.steps else self.log[-1:]
            return a if e.get('post') else v
        raise Unsupported('operator ' + op)

    def itinc(self, it, k, post):
        if not isinstance(it.pos, Ref): 
            if isinstance(it.pos, str): raise Unsupported('increment of a temporary iterator')
        self.itchk(it)
        old = self.posn(it)
        p = self.move(it, str(k))
        self.emit('%s := %s;' % (it.pos.name, p))
        self.log.append((it.pos, 'inc' if (k > 0) != it.rev else 'dec'))
        return It(it.cont, old, it.rev, it.gen) if post else it

    RB = {'+': 'p_add', '-': 'p_sub', '*': 'p_mul', '/': 'p_div', '<': 'p_lt', '<=': 'p_le', '>': 'p_gt', '>=': 'p_ge',
          '==': 'p_eq', '!=': 'p_ne'}
    IB = {'+': 'p_iadd', '-': 'p_isub', '*': 'p_imul', '/': 'p_idiv', '%': 'p_imod', '<': 'p_ilt', '<=': 'p_ile', '>': 'p_igt',
          '>=': 'p_ige', '==': 'p_ieq', '!=': 'p_ine'}
    def eqtext(self, a, b):
        if a.ty == 'real': return 'p_eq %s %s' % (a.text, b.text)
        if a.ty == 'int': return 'p_ieq %s %s' % (a.text, b.text)
        if a.ty == 'bool': return 'p_beq %s %s' % (a.text, b.text)
        if a.ty == b.ty and (a.ty in self.prog.types.enums or a.ty == 'string_t'): return 'eq_%s %s %s' % (a.ty, a.text, b.text)
        raise Unsupported('equality on %s and %s' % (a.ty, b.ty))
    def arith(self, op, a, b, t):
        cmp_ = op in ('<', '<=', '>', '>=', '==', '!=')
        if a.ty == 'real' and b.ty == 'real':
            return self.let('%s %s %s' % (self.RB[op], a.text, b.text), 'bool' if cmp_ else 'real')
        if a.ty == 'int' and b.ty == 'int':
            f = self.IB[op]
            if op == '-' and t is not None and strip(t).get('n', '').startswith('unsigned'): f = 'p_usub'
            return self.let('%s %s %s' % (f, a.text, b.text), 'bool' if cmp_ else 'int')
        if op in ('==', '!='):
            x = self.let(self.eqtext(a, b), 'bool')
            return x if op == '==' else self.let('not %s' % x.text, 'bool')
        raise Unsupported('operator %s on %s and %s' % (op, a.ty, b.ty))

    def e_bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            c = self.cond(e['x'])
            def f(): return A(self.cond(e['y']), 'bool')
            env = dict(self.env)
            lines, b = self.sub(f)
            self.env = env
            y = ('(' + '\n'.join(lines) + '\n' + b.text + ')') if lines else b.text
            t = ('if %s then %s else false' if op == '&&' else 'if %s then true else %s') % (c, y)
            v = self.fresh('t')
            self.buf.append('let %s = %s in' % (v, t))
            return A(v, 'bool')
        if op == ',':
            self.ev(e['x'], discard=True)
            return self.ev(e['y'])
        if op == '=':
            y = self.ev(e['y'])
            x = self.ev(e['x'])
            return self.assign(x, y)
        if op.endswith('=') and op not in ('==', '<=', '>=', '!='):
            x = self.ev(e['x'])
            b = self.load(self.ev(e['y']))
            a = self.load(x)
            # the operation is done in the type of the larger operand
            if a.ty == 'int' and b.ty == 'real': raise Unsupported('compound assignment with conversion')
            r = self.arith(op[:-1], a, b, e['t'])
            self.store(x, r)
            return x
        x = self.ev(e['x']); 
        if isinstance(x, L): x = self.load(x)
        y = self.ev(e['y'])
        if isinstance(x, It) or isinstance(y, It): return self.itop(op, x, y)
        if isinstance(x, (VPtr, AddrOf)): raise Unsupported('pointer comparison')
        return self.arith(op, self.load(x), self.load(y), e['t'])

    def itop(self, op, x, y):
        if isinstance(x, It) and isinstance(y, It):
            self.samecont(x, y)
            a, b = self.posn(x), self.posn(y)
            if op in ('==', '!=', '<', '<=', '>', '>='):
                if x.rev: a, b = b, a
                return self.let('%s %s %s' % (self.IB[op], a, b), 'bool')
            if op == '-':
                if x.rev: a, b = b, a
                return self.let('p_isub %s %s' % (a, b), 'int')
        elif isinstance(x, It) and op in ('+', '-'):
            k = self.load(y).text
            return It(x.cont, self.move(x, k if op == '+' else '(- %s)' % k), x.rev, x.gen)
        raise Unsupported('iterator operator ' + op)

    def assign(self, x, y):
        if isinstance(x, It):
            if not isinstance(y, It): raise Unsupported('iterator assignment')
            if isinstance(y, Moved): y = y.v
            self.samecont(x, y)
            if not isinstance(x.pos, Ref): raise Unsupported('assignment to a temporary iterator')
            p = self.posn(y)
            self.emit('%s := %s;' % (x.pos.name, p)); self.log.append((x.pos, 'assign'))
            # moves of one step keep their direction for the invariants
            return x
        if isinstance(x, AddrOf): raise Unsupported('pointer assignment')
        if not isinstance(x, L): raise Unsupported('assignment to %s' % type(x).__name__)
        a = self.copy(y) if not isinstance(y, Moved) else self.consume(y)
        if isinstance(a, NullOpt): a = A('None_' + x.ty, x.ty)
        a = self.load(a)
        if x.ty in self.prog.types.opts and a.ty != x.ty:
            b = self.tovariant(self.prog.types.opts[x.ty], a)
            if b.ty == self.prog.types.opts[x.ty]: a = self.let('Some_%s %s' % (x.ty, b.text), x.ty)
        a = self.tovariant(x.ty, a)
        if a.ty != x.ty: raise Unsupported('assignment of %s to %s' % (a.ty, x.ty))
        r = x.root
        struct = x.ty in ELT_OF
        if isinstance(r, Ref) and r.ptr and not x.steps:
            r.ptr = False
            self.store(x, a, struct); r.ptr = True
            r.fresh = r.fresh and a.fresh
        else:
            self.store(x, a, struct)
        return x
    def tovariant(self, ty, a):
        if a.ty != ty and ty in self.prog.types.variants:
            for c, t in self.prog.types.variants[ty]:
                if t == a.ty: return self.let('%s %s' % (c, a.text), ty)
        return a

    def e_cond(self, e):
        c = self.cond(e['c'])
        def br(z):
            def f():
                v = self.ev(z)
                if isinstance(v, Moved): v = self.consume(v)
                return v
            return f
        return self.join([br(e['x']), br(e['y'])], lambda bs: 'if %s then %s else %s' % (c, bs[0], bs[1]))

    def e_cast(self, e):
        ck = e['ck']
        if ck in ('UncheckedDerivedToBase', 'ArrayToPointerDecay', 'DerivedToBase'): return self.ev(e['e'])
        v = self.ev(e['e'])
        if ck == 'IntegralToFloating':
            a = self.load(v)
            if re.fullmatch(r'\d+', a.text): return A(a.text + '.0', 'real')
            if a.ty == 'bool': return self.let('if %s then 1.0 else 0.0' % a.text, 'real')
            return self.let('p_i2r %s' % a.text, 'real')
        if ck == 'IntegralCast':
            a = self.load(v)
            if a.ty == 'bool': return self.let('if %s then 1 else 0' % a.text, 'int')
            if a.ty != 'int': raise Unsupported('integral cast of ' + a.ty)
            su = strip(e['e']['t']).get('n', '').startswith('unsigned')
            du = strip(e['t']).get('n', '').startswith('unsigned')
            if re.fullmatch(r'\d+', a.text): return a
            sn, dn = strip(e['e']['t']).get('n', ''), strip(e['t']).get('n', '')
            sb, db = INTBITS.get(sn), INTBITS.get(dn)
            if strip(e['e']['t'])['k'] != 'enum' and (not sb or not db): raise Unsupported('integral cast of %s to %s' % (sn, dn))
            if sb and (db < sb or (db == sb and su and not du and sn != 'unsigned long')):
                lo, hi = (0, 2 ** db) if du else (-2 ** (db - 1), 2 ** (db - 1))
                return self.let('p_narrow (%d) %d %s' % (lo, hi, a.text), 'int')
            if du and not su:
                return self.let('p_tounsigned %s' % a.text, 'int')
            return a
        if ck in ('PointerToBoolean', 'IntegralToBoolean', 'UserDefinedConversion'):
            if isinstance(v, VPtr): return self.let('is_%s %s' % (v.ctor, self.load(v.v).text), 'bool')
            if isinstance(v, AddrOf): return A('true', 'bool')
            a = self.load(v)
            if a.ty == 'int': return self.let('p_ine %s 0' % a.text, 'bool')
        raise Unsupported('cast ' + ck)

    def e_index(self, e):
        raise Unsupported('array index')
    def e_stdinit(self, e):
        return self.ev(e['e'])
    def e_throw(self, e):
        raise Unsupported('throw inside of an expression')

    def e_lambda(self, e):
        env = dict(self.env)
        for c in e['caps']:
            if c.get('this'): continue
            if c.get('init') is not None: raise Unsupported('init capture')
            if not c['byref']:
                v = env.get(c['id'])
                if isinstance(v, L): env[c['id']] = self.copy(v)
        return Fn(ops=e['ops'], env=env, this=self.this)

    def e_zero(self, e):
        ty = self.vt(e['t'])
        if ty == 'real': return A('0.0', 'real')
        if ty == 'int': return A('0', 'int')
        if ty == 'bool': return A('false', 'bool')
        raise Unsupported('zero of ' + ty)

    def e_init(self, e, ret=False):
        t = strip(e['t'])
        a = e['a']
        if t['k'] == 'arr': return Tup([self.ev(x) for x in a])
        if t['k'] == 'rec' and base(t['n']) == 'overloaded' or (t['k'] == 'rec' and len(a) and all(strip(x['t'])['k'] == 'lambda' for x in a)):
            ops = []
            fs = [self.ev(x) for x in a]
            fs = [f.v if isinstance(f, Moved) else f for f in fs]
            return Fn(ops=[(o, f) for f in fs for o in f.ops], env='overloaded')
        if t['k'] != 'rec':
            if len(a) == 1: return self.copy(self.ev(a[0]))
            if not a: return self.e_zero(e)
            raise Unsupported('initialiser list')
        if is_stateless(t): return Fn(std=t['n'])
        n = t['n']
        if n in ('std::pair', 'std::tuple') : return self.mktup(t, a)
        ty = self.vt(t)
        fs = self.prog.types.records.get(ty)
        if fs is None: raise Unsupported('initialiser list of ' + ty)
        if not fs: return A('Mk_' + ty, ty)
        if len(a) != len(fs): raise Unsupported('initialiser list of ' + ty)
        vs = []
        for x, (f, w, fty) in zip(a, fs):
            v = self.copy(self.ev(x))
            vs.append(self.coerce(v, fty))
        return self.let('{ %s }' % '; '.join('%s = %s' % (w, v.text) for (f, w, fty), v in zip(fs, vs)), ty)

    def coerce(self, v, ty):
        """atom of the WhyML type ty"""
        if isinstance(v, NullOpt): return A('None_' + ty, ty)
        a = self.load(v)
        if a.ty == ty: return a
        a2 = self.tovariant(ty, a)
        if a2.ty == ty: return a2
        if ty in self.prog.types.opts:
            b = self.tovariant(self.prog.types.opts[ty], a)
            if b.ty == self.prog.types.opts[ty]: return self.let('Some_%s %s' % (ty, b.text), ty)
        raise Unsupported('%s where %s is expected' % (a.ty, ty))

    def e_ctor(self, e, ret=False):
        f = e['f']; a = e['a']
        t = strip(e['t'])
        if t['k'] == 'lambda':
            return self.ev(a[0])
        n = t['n'] if t['k'] == 'rec' else None
        if is_stateless(t): return Fn(std=n)
        if n in ('std::allocator', 'std::less'): return UNIT
        if n in ('std::basic_string', 'std::basic_string_view'):
            if len(a) == 1 or (len(a) == 2 and (f.get('copy') or f.get('move') or a[0]['k'] in ('cast', 'str'))):
                v = self.ev(a[0])
                if isinstance(v, (L, A)): return self.copy(v)
                if isinstance(v, Moved): return self.consume(v)
                return v
            if not a: return self.let('any string_t', 'string_t')
            return Opaque()
        if n is not None and (n.startswith('__gnu_cxx::__normal_iterator') or n.startswith('std::reverse_iterator') or n.startswith('std::_Rb_tree')):
            v = self.ev(a[0])
            if isinstance(v, Moved): v = v.v
            if isinstance(v, It):
                if n == 'std::reverse_iterator' and not (f.get('copy') or f.get('move')) and not v.rev:
                    return It(v.cont, self.posn(v), True, v.gen)
                return It(v.cont, self.posn(v), v.rev, v.gen)
            if isinstance(v, MapIt): return v
            raise Unsupported('iterator constructor')
        if f.get('copy') or f.get('move'):
            v = self.ev(a[0])
            if isinstance(v, (Fn, It, Tup, VPtr, Opaque, NullOpt)): return v
            if f.get('repo') and not f.get('implicit') and not f.get('defaulted'):
                got = self.lookup(f)
                if got is not None and not got[1].get('implicit') and not got[1].get('defaulted'):
                    if isinstance(v, Moved): v = v.v
                    return self.callfn(f, None, [v])
            return self.copy(v, ret)
        if f.get('repo') and not n.startswith('std::'):
            return self.callctor(f, t, [self.ev(x) for x in a])
        ty = self.vt(t)
        if ty == 'input_t':
            s = self.load(self.ev(a[0]))
            if s.ty != 'string_t': raise Unsupported('input')
            return self.let('p_input %s' % (s.text if n == 'tao::pegtl::string_input' else '(p_file %s)' % s.text), ty)
        if n in ('std::shared_ptr', 'std::unique_ptr'):
            if len(a) == 1:
                v = self.ev(a[0])
                return self.copy(v, ret)
            raise Unsupported('null pointer')
        if n == 'std::variant':
            if not a:
                c, t0 = self.prog.types.variants[ty][0]
                raise Unsupported('default variant')
            v = self.copy(self.ev(a[0]), ret)
            return self.coerce(v, ty)
        if n == 'std::optional':
            if not a: return A('None_' + ty, ty)
            return self.coerce(self.copy(self.ev(a[0])), ty)
        if n in ('std::pair', 'std::tuple'): return self.mktup(t, a)
        if n == 'std::map' and not a: return self.let(ty + '_empty ()', ty)
        if n == 'std::map' and len(a) == 1:
            v = self.ev(a[0])
            if isinstance(v, Moved): return self.consume(v)
        if n == 'std::vector':
            a = [x for x in a if not (strip(x['t'])['k'] == 'rec' and strip(x['t'])['n'] == 'std::allocator')]
            if not a: return self.let(seqfn(ty, 'empty') + ' ()', ty)
            vs = [self.ev(x) for x in a]
            if len(vs) == 1 and isinstance(vs[0], Tup):
                s = self.let(seqfn(ty, 'empty') + ' ()', ty)
                for x in vs[0].items:
                    y = self.coerce(self.copy(x), ELT_OF[ty])
                    s = self.let('%s %s %s' % (seqfn(ty, 'snoc'), s.text, y.text), ty)
                return s
            if len(vs) == 2 and isinstance(vs[0], It) and isinstance(vs[1], It):
                return self.appended(self.let(seqfn(ty, 'empty') + ' ()', ty), vs[0], vs[1])
        raise Unsupported('constructor %s with %d arguments' % (n, len(a)))

    def appended(self, s, b, e):
        self.samecont(b, e); self.itchk(b); self.itchk(e)
        c = self.load(b.cont)
        if c.ty != s.ty: raise Unsupported('range of %s appended to %s' % (c.ty, s.ty))
        return self.let('%s %s %s %s %s' % (seqfn(s.ty, 'append_rev' if b.rev else 'append'), s.text, c.text, self.posn(b), self.posn(e)), s.ty)

    def callctor(self, f, t, args):
        got = self.lookup(f)
        k = fkey(got[1]) if got else fkey(f)
        c = self.prog.contracts.get(k)
        if c is not None:
            g = got[1] if got else f
            args = [self.consume(v) if isinstance(v, Moved) else v for v in args]
            r = self.callcontract(k, c, g, None, args)
            r.fresh = True
            return r
        if got is None:
            # implicit constructors of aggregates
            if not args and f.get('ctor'): raise Unsupported('constructor without body: ' + k)
            raise Unsupported('constructor without body: ' + k)
        if k in self.stack: raise Unsupported('recursive constructor')
        r = self.inline(got[0], got[1], None, args, k)
        return r

    def find_ctor(self, t, args):
        """resolution of T(args) for make_shared and the like"""
        n = strip(t)['n']
        tys = []
        for v in args:
            if isinstance(v, Moved): v = v.v
            tys.append(v.ty if isinstance(v, (A, L)) else self.shape(v))
        iscopy = len(args) == 1 and tys[0] == self.vt(t) and False
        cands = []
        for (tu, i), f in self.prog.byid.items():
            if f.get('ctor') and f.get('cls', {}).get('n') == n and not f.get('copy') and not f.get('move'):
                if len(f['params']) == len(args):
                    try:
                        pt = [self.vt(p['t']) for p in f['params']]
                    except Unsupported: continue
                    ok = all(a == b or (b in self.prog.types.variants and any(a == x for _, x in self.prog.types.variants[b])) for a, b in zip(tys, pt))
                    if ok: cands.append((sum(a != b for a, b in zip(tys, pt)), tu, f, pt))
        if not cands: return None
        cands.sort(key=lambda c: (c[0], c[1] != self.tu))
        return cands[0]

    def make_obj(self, t, args, exprs):
        ty = self.vt(t)
        if ty == 'sseq' and strip(t)['n'] != 'std::vector':
            # Signal: copy constructor or construction from a vector
            if len(args) == 1:
                at = strip(exprs[0]['t'])
                want = 'std::vector' if at['k'] == 'rec' and at['n'] == 'std::vector' else None
                for (tu, i), f in self.prog.byid.items():
                    if f.get('ctor') and f.get('cls', {}).get('n') == strip(t)['n'] and len(f['params']) == 1:
                        pt = strip(f['params'][0]['t'])
                        if (want and pt['k'] == 'rec' and pt['n'] == 'std::vector' and targs(pt)[0] == targs(at)[0]) or \
                           (not want and f.get('copy')):
                            k = fkey(f); c = self.prog.contracts.get(k)
                            v = args[0].v if isinstance(args[0], Moved) else args[0]
                            if c is not None: r = self.callcontract(k, c, f, None, [v])
                            else: r = self.inline(tu, f, None, [v], k)
                            return A(r.text, r.ty, True)
                raise Unsupported('constructor of Signal')
        got = self.find_ctor(t, args)
        if got is None:
            if len(args) == 1 and not isinstance(args[0], (Fn, It)):
                a = args[0]
                aa = self.copy(a) if not isinstance(a, Moved) else self.consume(a)
                if aa.ty == ty: return A(self.load(aa).text, ty, True)
            fs = self.prog.types.records.get(ty)
            raise Unsupported('constructor of %s' % strip(t)['n'])
        _, tu, f, pt = got
        k = fkey(f)
        c = self.prog.contracts.get(k)
        vs = []
        for v, p in zip(args, f['params']):
            pty = self.vt(p['t'])
            if p['t']['k'] == 'ref' and not p['t'].get('rv'): vs.append(v.v if isinstance(v, Moved) else v)
            else:
                v = self.consume(v) if isinstance(v, Moved) else self.copy(v)
                vs.append(self.coerce(v, pty))
        if c is not None: r = self.callcontract(k, c, f, None, vs)
        else: r = self.inline(tu, f, None, vs, k)
        r = self.load(r)
        return A(r.text, r.ty, True)

    # calls of functions
    def e_call(self, e):
        f = e.get('f')
        if f is None:
            ce = self.ev(e['ce'])
            return self.apply(ce, [self.ev(x) for x in e['a']])
        n = f['n']
        if f.get('repo') and not n.startswith('std::'):
            return self.callfn(f, None, [self.arg(x, p) for x, p in zip(e['a'], f['p'])])
        b = base(n)
        if n in ('tao::pegtl::match', 'tao::pegtl::parse'): return self.peg(e, f)
        if n in ('std::stol', 'std::stod'):
            # the position is not asked for, the base is ten
            x = e['a']
            if any(not (y['k'] == 'cast' and y.get('ck') == 'NullToPointer') for y in x[1:2]) or any(not (y['k'] == 'int' and y['v'] == '10') for y in x[2:]): raise Unsupported(n + ' with a base')
            s = self.load(self.ev(x[0])); self.raised.add('Out_of_range')
            return self.let('p_%s %s' % (base(n), s.text), 'int' if base(n) == 'stol' else 'real')
        h = getattr(self, 'c_' + b, None)
        if h is None or not (n.startswith('std::') or n.startswith('fmt::')): raise Unsupported('call of ' + n)
        return h(e, [self.ev(x) for x in e['a']])
    def arg(self, x, p):
        v = self.ev(x)
        if p['k'] != 'ref':
            if isinstance(v, Moved): return self.consume(v)
            return v
        if isinstance(v, Moved): return v.v
        return v

    def peg(self, e, f):
        """the PEGTL started on a rule"""
        ta = f['ta']
        tm = [x.get('name') for x in ta if x['k'] == 'tmpl']
        ints = [x['v'] for x in ta if x['k'] == 'int']
        if tm != ['signal_tl::parser::actions::action', 'signal_tl::parser::control'] or ints[:1] != ['1']: raise Unsupported('%s with %s %s' % (f['n'], tm, ints))
        k = 'rule ' + base(ta[0]['n'])
        if not ta[0]['n'].startswith('signal_tl::grammar::') or k not in self.prog.contracts or k not in self.prog.bykey: raise Unsupported('%s of %s' % (f['n'], ta[0]['n']))
        g = self.prog.bykey[k][1]
        if f['n'] == 'tao::pegtl::parse' and (self.prog.grammar.action({'k': 'rec', 'n': ta[0]['n']}) or {}).get('match'): raise Unsupported('match of %s' % k)
        a = [self.ev(x) for x in e['a']]
        a = [x.v if isinstance(x, Moved) else x for x in a]
        if len(a) < len(g['params']): raise Unsupported('%s without states' % f['n'])
        return self.callcontract(k, self.prog.contracts[k], g, None, a[:len(g['params'])])
    def c_move(self, e, a):
        return Moved(a[0])
    c_forward = lambda self, e, a: a[0]
    def c_format(self, e, a):
        return Opaque()
    def c_to_string(self, e, a): return Opaque()
    def c_isinf(self, e, a):
        return self.let('p_isinf %s' % self.load(a[0]).text, 'bool')
    def c_isnan(self, e, a):
        return self.let('p_isnan %s' % self.load(a[0]).text, 'bool')
    def c_abs(self, e, a):
        x = self.load(a[0])
        if x.ty != 'real': raise Unsupported('abs')
        return self.let('p_abs %s' % x.text, 'real')
    c_fabs = c_abs
    def c_infinity(self, e, a): return A('infty', 'real')
    def c_max(self, e, a): return self.minmax(a, 'max')
    def c_min(self, e, a): return self.minmax(a, 'min')
    def minmax(self, a, w):
        if len(a) != 2: raise Unsupported(w)
        x, y = self.load(a[0]), self.load(a[1])
        if x.ty == y.ty == 'real': return self.let('p_%s %s %s' % (w, x.text, y.text), 'real')
        if x.ty == y.ty == 'int': return self.let('p_i%s %s %s' % (w, x.text, y.text), 'int')
        raise Unsupported(w)
    def c_prev(self, e, a):
        k = self.load(a[1]).text if len(a) > 1 else '1'
        self.itchk(a[0])
        return It(a[0].cont, self.move(a[0], '(- %s)' % k), a[0].rev, a[0].gen)
    def c_next(self, e, a):
        k = self.load(a[1]).text if len(a) > 1 else '1'
        self.itchk(a[0])
        return It(a[0].cont, self.move(a[0], k), a[0].rev, a[0].gen)
    def c_distance(self, e, a):
        return self.itop('-', a[1], a[0])
    def c_begin(self, e, a): return self.vecmeth('begin', a[0], [], e)
    def c_end(self, e, a): return self.vecmeth('end', a[0], [], e)
    def c_cbegin(self, e, a): return self.vecmeth('begin', a[0], [], e)
    def c_cend(self, e, a): return self.vecmeth('end', a[0], [], e)
    def c_make_tuple(self, e, a): return Tup([self.copy(x) if not isinstance(x, It) else x for x in a])
    c_make_pair = c_make_tuple
    def c_make_shared(self, e, a):
        t = targs(strip(e['t']))[0]
        if strip(t)['n'] == 'signal_tl::signal::Signal' and not a:
            for (tu, i), f in self.prog.byid.items():
                if f.get('ctor') and f.get('cls', {}).get('n') == strip(t)['n'] and not f['params']:
                    k = fkey(f); c = self.prog.contracts.get(k)
                    r = self.callcontract(k, c, f, None, []) if c else self.inline(tu, f, None, [], k)
                    r = self.load(r)
                    return A(r.text, r.ty, True)
        return self.make_obj(t, a, e['a'])
    c_make_unique = c_make_shared
    def c_get_if(self, e, a):
        v = a[0]
        if not isinstance(v, AddrOf): raise Unsupported('get_if')
        ty = strip(e['t'])['to']
        ty = self.vt(ty)
        lv = self.load(v.lv)
        for c, t in self.prog.types.variants[lv.ty]:
            if t == ty: return VPtr(lv, c, ty)
        raise Unsupported('get_if of ' + ty)
    def c_get(self, e, a):
        v = a[0].v if isinstance(a[0], Moved) else a[0]
        if isinstance(v, Tup):
            ta = e['f'].get('ta')
            i = [x for x in ta if x.get('k') == 'int' or 'v' in x]
            if i: return v.items[int(i[0]['v'])]
            raise Unsupported('get')
        lv = self.load(v)
        if lv.ty in self.prog.types.variants:
            ty = self.vt(e['t'])
            for c, t in self.prog.types.variants[lv.ty]:
                if t == ty:
                    self.raised.add('Bad_access')
                    return self.let('if is_%s %s then get_%s %s else raise Bad_access' % (c, lv.text, c, lv.text), ty)
        if lv.ty in self.prog.types.tups:
            ta = e['f'].get('ta'); i = [x for x in ta if 'v' in x]
            return self.field(L(lv), None, int(i[0]['v']))
        raise Unsupported('get')
    def c_holds_alternative(self, e, a):
        lv = self.load(a[0])
        ta = e['f']['ta'][0]
        ty = self.vt(ta)
        for c, t in self.prog.types.variants[lv.ty]:
            if t == ty: return self.let('is_%s %s' % (c, lv.text), 'bool')
        raise Unsupported('holds_alternative')

    def c_visit(self, e, a):
        if len(a) != 2: raise Unsupported('visit')
        f = a[0].v if isinstance(a[0], Moved) else a[0]
        v = self.load(a[1].v if isinstance(a[1], Moved) else a[1])
        alts = self.prog.types.variants[v.ty]
        if not isinstance(f, Fn): raise Unsupported('visitor')
        names = [self.fresh('a') for _ in alts]
        brs = []
        for (c, t), nm in zip(alts, names):
            def g(t=t, nm=nm):
                env = self.env
                r = self.apply(f, [A(nm, t)])
                self.env = env
                return r if r is not None else UNIT
            brs.append(g)
        def hdr(bs):
            return 'match %s with\n%s\nend' % (v.text, '\n'.join('| %s %s -> %s' % (c, nm, b) for (c, t), nm, b in zip(alts, names, bs)))
        return self.join(brs, hdr)

    def apply(self, f, args):
        """call of a function object"""
        if isinstance(f, Moved): f = f.v
        if isinstance(f, Fn):
            if f.std: return self.stdfn(f.std, args)
            ops = f.ops
            cands = []
            for o in ops:
                fn = f
                if isinstance(o, tuple): o, fn = o
                ps = o['params']
                if len(ps) != len(args): continue
                try:
                    ok = all(self.pmatch(p['t'], v) for p, v in zip(ps, args))
                except Unsupported:
                    ok = False
                if ok: cands.append((1 if o.get('ta') else 0, o, fn))
            if not cands: raise Unsupported('no overload of a lambda fits')
            cands.sort(key=lambda c: c[0])
            _, o, fn = cands[0]
            vs = []
            for p, v in zip(o['params'], args):
                if p['t']['k'] != 'ref':
                    v = self.consume(v) if isinstance(v, Moved) else (self.copy(v) if isinstance(v, L) else v)
                elif isinstance(v, Moved): v = v.v
                vs.append(v)
            return self.inline(self.tu, o, None, vs, 'lambda@%s' % o.get('l'), env=fn.env, thisv=fn.this)
        raise Unsupported('call of %s' % type(f).__name__)
    def pmatch(self, t, v):
        if isinstance(v, Moved): v = v.v
        if isinstance(v, (A, L)): return self.vt(t) == v.ty
        return True

    def stdfn(self, n, args):
        op = {'std::less': '<', 'std::less_equal': '<=', 'std::greater': '>', 'std::greater_equal': '>=', 'std::plus': '+',
              'std::minus': '-', 'std::equal_to': '=='}.get(n)
        xs = [x.v if isinstance(x, Moved) else x for x in args]
        if n == 'std::negate':
            a = self.load(xs[0])
            if a.ty == 'real': return self.let('p_neg %s' % a.text, 'real')
            if a.ty == 'sample': return self.repoop('operator-', xs)
        if op:
            tys = [x.ty for x in xs]
            if tys == ['real', 'real'] or tys == ['int', 'int']: return self.arith(op, self.load(xs[0]), self.load(xs[1]), None)
            if tys == ['sample', 'sample']: return self.repoop('operator' + op, xs)
        raise Unsupported(n)
    def repoop(self, name, xs):
        k = '%s(%s)' % (name, ','.join({'sample': 'Sample'}[x.ty] for x in xs))
        if k not in self.prog.bykey: raise Unsupported(k)
        tu, g = self.prog.bykey[k]
        c = self.prog.contracts.get(k)
        if c is not None: return self.callcontract(k, c, g, None, xs)
        return self.inline(tu, g, None, xs, k)

    # algorithms
    def stdloop(self, b, e, setup, each, finish, loc, outs=()):
        """for (p = b; p != e; ++p) each(*p)  as a loop with the invariants of the contract"""
        src = {'k': 'stdloop', 'l': loc}
        self.samecont(b, e); self.itchk(b); self.itchk(e)
        cur = self.newref('pos', A(self.posn(b), 'int'))
        ep = self.posn(e)
        it = It(b.cont, cur, b.rev, b.gen)
        no = self.loopno
        def gen():
            self.loopno = no + 1
            bl, _ = self.sub(lambda: (each(it), None)[1])
            return bl
        known = set(map(id, self.assigned))
        st = self.snap(); n0 = self.n; log0 = self.log; self.log = []
        gen()
        mods = self.log; self.log = log0; self.n = n0; self.restore(st)
        for r, k in mods:
            if id(r) in known and k == 'struct': r.gen += 1
        log0 = len(self.log)
        bl = gen()
        self.log.append((cur, 'dec' if b.rev else 'inc'))
        self.log += [m for m in mods if id(m[0]) in known]
        entry = []
        tmp = object()
        self.env[tmp] = it
        invs, variant, hints = self.invariants(no, [it], self.log[log0:], src, entry)
        del self.env[tmp]
        invs.append(('up to the end of the range', '!%s %s %s' % (cur.name, '>=' if b.rev else '<=', ep)))
        variant = '(!%s - %s)' % (cur.name, ep) if b.rev else '(%s - !%s)' % (ep, cur.name)
        lines = list(entry)
        lines.append('assert { [@expl:range] %s };' % ('%s >= %s' % ('!' + cur.name, ep) if b.rev else '!%s <= %s' % (cur.name, ep)))
        lines.append('while (p_ine !%s %s) do' % (cur.name, ep))
        for label, t in invs: lines.append('  invariant { %s } (*@ %s invariant %s *)' % (t, loc, label))
        lines.append('  variant { %s } (*@ %s the loop ends *)' % (variant, loc))
        lines += bl
        for label, t in hints: lines.append('assert { %s }; (*@ %s hint %s *)' % (t, loc, label))
        lines.append('%s := !%s %s 1;' % (cur.name, cur.name, '-' if b.rev else '+'))
        lines.append('()\ndone;')
        self.buf += lines
        for r, k in mods:
            if id(r) in known and k == 'struct': r.gen += 1
    def c_transform(self, e, a):
        if len(a) != 4 or not isinstance(a[2], Back): raise Unsupported('transform')
        out = a[2].lv
        def each(it):
            v = self.apply(a[3], [self.deref(it)])
            v = self.coerce(self.copy(v), ELT_OF[out.ty])
            s = self.load(out)
            self.store(out, self.let('%s %s %s' % (seqfn(s.ty, 'snoc'), s.text, v.text), s.ty), struct=True)
        self.stdloop(a[0], a[1], None, each, None, e.get('l', ''))
        return a[2]
    def c_copy(self, e, a):
        if len(a) != 3 or not isinstance(a[2], Back): raise Unsupported('copy')
        out = a[2].lv
        s = self.appended(self.load(out), a[0], a[1])
        self.store(out, s, struct=True)
        return a[2]
    def c_accumulate(self, e, a):
        init = self.load(self.copy(a[2]))
        ptr = e['t']['k'] == 'rec' and e['t']['n'] == 'std::shared_ptr'
        acc = self.newref('acc', init, ptr, False)
        def each(it):
            f = a[3] if len(a) > 3 else Fn(std='std::plus')
            v = self.apply(f, [Moved(L(acc)) if False else L(acc), self.deref(it)])
            v = self.load(self.copy(v))
            acc.ptr = False
            self.store(L(acc), v)
            acc.ptr = ptr
        self.stdloop(a[0], a[1], None, each, None, e.get('l', ''))
        r = self.load(L(acc))
        return A(r.text, r.ty, False)
    def c_for_each(self, e, a):
        f = a[2]
        if isinstance(a[0], MapIt):
            return self.map_for_each(e, a)
        if isinstance(f, Fn):
            def each(it): self.apply(f, [self.deref(it)])
            self.stdloop(a[0], a[1], None, each, None, e.get('l', ''))
            return f
        raise Unsupported('for_each')
    def functor_call(self, g, lv, args):
        """operator() of a functor record"""
        t = g['t'] if 't' in g else None
        raise Unsupported('functor')
    def map_for_each(self, e, a):
        m = self.load(a[0].cont)
        f = a[2]
        fa = self.load(f)
        st = self.newref('functor', fa)
        # operator() of the functor
        rec = [n for n, r in self.prog.recs.items() if base(n).lower() + '_t' == fa.ty]
        ops = [(tu_i, g) for tu_i, g in self.prog.byid.items() if g.get('cls', {}).get('n') in rec and base(g['n']) == 'operator()' or
               (g.get('cls', {}).get('k') == 'rec' and g['cls']['n'] in rec and g['n'].endswith('operator()'))]
        if not ops: raise Unsupported('functor without operator()')
        (tu, _), g = ops[0]
        i = self.newref('k', A('0', 'int'))
        n = self.let('%s_length %s' % (m.ty, m.text), 'int').text
        et = MAPELT[m.ty]
        def each():
            p = self.let('!' + i.name, 'int', 'p').text
            key = self.let('%s_pkey %s %s' % (m.ty, m.text, p), 'string_t')
            val = self.let('%s_pval %s %s' % (m.ty, m.text, p), et)
            self.inline(tu, g, L(st), [Tup([key, val])], fkey(g))
        no = self.loopno; self.loopno += 1
        bl, _ = self.sub(lambda: (each(), None)[1])
        log = [(st, 'assign'), (i, 'inc')]
        entry = []
        spec = None
        invs = [('in range', '0 <= !%s <= %s' % (i.name, n))]
        if self.ctr and no < len(self.ctr.loops):
            for q, (tags, t) in enumerate(self.ctr.loops[no].inv):
                if self.tagok(tags):
                    invs.append(('%d' % (q + 1), re.sub(r'\{k\}', '(!%s)' % i.name, re.sub(r'\{f\}', '(!%s)' % st.name, t))))
        self.buf.append('while (p_ilt !%s %s) do' % (i.name, n))
        for label, t in invs: self.buf.append('  invariant { %s } (*@ %s invariant %s *)' % (t, e.get('l', ''), label))
        self.buf.append('  variant { %s - !%s }' % (n, i.name))
        self.buf += bl
        self.buf.append('%s := !%s + 1;\n()\ndone;' % (i.name, i.name))
        self.log += log
        return self.load(L(st))
    def c_back_inserter(self, e, a): return Back(a[0])
    def c_reverse(self, e, a):
        b, en = a
        self.samecont(b, en)
        s = self.load(b.cont)
        bp, ep = self.posn(b), self.posn(en)
        r = self.let('%s %s %s %s' % (seqfn(s.ty, 'reverse'), s.text, bp, ep), s.ty)
        self.store(b.cont, r, struct=False)
        return UNIT
    def c_lower_bound(self, e, a): return self.bound(e, a, False)
    def c_upper_bound(self, e, a): return self.bound(e, a, True)
    def bound(self, e, a, upper):
        b, en = a[0], a[1]
        self.samecont(b, en); self.itchk(b)
        if b.rev: raise Unsupported('lower_bound on reverse iterators')
        v = self.load(a[2])
        s = self.load(b.cont)
        bp, ep = self.posn(b), self.posn(en)
        cmp_ = a[3] if len(a) > 3 else Fn(std='std::less')
        def C(kt):
            x = A('(%s %s %s)' % (seqfn(s.ty, 'nth'), s.text, kt), ELT_OF[s.ty])
            ar = [v, x] if upper else [x, v]
            return Logic(self).apply(cmp_, ar)
        ci = C('i_'); cj = C('j_')
        if upper:
            part = 'forall i_ j_. %s <= i_ < j_ < %s -> %s -> %s' % (bp, ep, ci, cj)
            left, right = 'not (%s)' % ci, ci
        else:
            part = 'forall i_ j_. %s <= i_ < j_ < %s -> %s -> %s' % (bp, ep, cj, ci)
            left, right = ci, 'not (%s)' % ci
        self.emit('assert { [@expl:precondition] 0 <= %s <= %s <= %s %s };' % (bp, ep, seqfn(s.ty, 'len'), s.text), 'range of lower_bound')
        self.emit('assert { [@expl:precondition] %s };' % part, 'range of lower_bound is partitioned')
        # exists because of the two asserted facts
        r = self.let('p_any_int ()', 'int', 'p')
        self.emit('assume { %s <= %s <= %s /\\ (forall i_. %s <= i_ < %s -> %s) /\\ (forall i_. %s <= i_ < %s -> %s) };'
                  % (bp, r.text, ep, bp, r.text, left, r.text, ep, right))
        return It(b.cont, r.text, False, b.gen)

    # method calls
    def e_mcall(self, e):
        f = e['f']
        o = self.ev(e['o'])
        if isinstance(o, Moved): o = o.v
        if e.get('arrow'): o = self.star(o)
        elif isinstance(o, AddrOf): o = o.lv
        if f.get('repo') and not f['n'].startswith('std::'):
            if isinstance(o, A): o = L(o)
            return self.callfn(f, o, [self.arg(x, p) for x, p in zip(e['a'], f['p'])])
        cls = f['cls']['n']
        nm = base(f['n'])
        if cls in CONTAINER_CLS: return self.vecmeth(nm, o, [self.ev(x) for x in e['a']], e)
        if cls == 'std::map': return self.mapmeth(nm, o, [self.ev(x) for x in e['a']], e)
        if cls in ('std::optional',): return self.optmeth(nm, o, e)
        if cls == 'tao::pegtl::internal::action_input' and nm in ('string', 'string_view'): return self.load(o)
        if cls == 'std::basic_string':
            if nm == 'operator=': return self.assign(o, self.ev(e['a'][0]))
            if nm in ('c_str',): return Opaque()
        if cls in ('std::shared_ptr', 'std::__shared_ptr', 'std::unique_ptr') and nm == 'get': return AddrOf(o)
        if cls == 'std::reverse_iterator' and nm == 'base': return It(o.cont, self.posn(o), False, o.gen)
        if cls == 'std::variant' and nm == 'operator=':
            return self.assign(o, self.ev(e['a'][0]))
        raise Unsupported('method %s of %s' % (nm, cls))

    def vecmeth(self, m, o, a, e):
        if isinstance(o, Moved): o = o.v
        if isinstance(o, A): o = L(o)
        if not isinstance(o, L): raise Unsupported('method %s of %s' % (m, type(o).__name__))
        ty = o.ty
        if ty not in ELT_OF: raise Unsupported('%s of %s' % (m, ty))
        et = ELT_OF[ty]
        if m in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'crbegin', 'rend', 'crend'):
            if not isinstance(o.root, Ref) and o.steps: o = L(self.load(o))
            rev = 'r' in m.replace('cr', 'r')[:1]
            atend = m in ('end', 'cend', 'rbegin', 'crbegin')
            return It(o, self.length(o) if atend else '0', rev)
        if m == 'size': return A(self.length(o), 'int')
        if m == 'empty': return self.let('p_ieq %s 0' % self.length(o), 'bool')
        if m == 'reserve' or m == 'shrink_to_fit': return UNIT
        if m == 'front':
            return o.step('i', '0', et)
        if m == 'back':
            n = self.length(o)
            return o.step('i', self.let('%s - 1' % n, 'int', 'p').text, et)
        if m in ('operator[]',):
            i = self.load(a[0]).text
            return o.step('i', i if re.fullmatch(r'\w+', i) else '(%s)' % i, et)
        if m == 'at':
            i = self.load(a[0]).text
            n = self.length(o)
            self.raised.add('Out_of_range')
            self.emit('if not (p_ilt %s %s) then raise Out_of_range;' % (i, n))
            return o.step('i', i if re.fullmatch(r'\w+', i) else '(%s)' % i, et)
        if m in ('push_back', 'emplace_back'):
            if len(a) != 1: raise Unsupported(m)
            v = self.coerce(self.copy(a[0]), et)
            s = self.load(o)
            self.store(o, self.let('%s %s %s' % (seqfn(ty, 'snoc'), s.text, v.text), ty), struct=True)
            return UNIT
        if m == 'pop_back':
            s = self.load(o)
            self.store(o, self.let('%s %s' % (seqfn(ty, 'pop'), s.text), ty), struct=True)
            return UNIT
        if m == 'clear':
            self.store(o, self.let(seqfn(ty, 'empty') + ' ()', ty), struct=True); return UNIT
        if m == 'insert' and len(a) == 3 and isinstance(a[0], It) and isinstance(a[1], It):
            # only at the end
            self.samecont(a[0], It(o, '0'))
            n = self.length(o)
            self.emit('assert { [@expl:precondition] %s = %s };' % (self.posn(a[0]), n), 'insertion at the end')
            s = self.appended(self.load(o), a[1], a[2])
            self.store(o, s, struct=True)
            return It(o, n)
        if m == 'operator=':
            return self.assign(o, a[0])
        raise Unsupported('vector::' + m)

    def mapmeth(self, m, o, a, e):
        if isinstance(o, A): o = L(o)
        ty = o.ty
        et = MAPELT[ty]
        if m == 'at':
            s = self.load(o); k = self.load(a[0])
            self.raised.add('Out_of_range')
            return self.let('if %s_phas %s %s then %s_pget %s %s else raise Out_of_range' % (ty, s.text, k.text, ty, s.text, k.text), et)
        if m in ('begin', 'cbegin'): return MapIt(L(self.load(o)), False)
        if m in ('end', 'cend'): return MapIt(L(self.load(o)), True)
        if m == 'count': 
            s = self.load(o); k = self.load(a[0])
            return self.let('if %s_phas %s %s then 1 else 0' % (ty, s.text, k.text), 'int')
        if m == 'insert' or m == 'emplace':
            p = a[0] if len(a) == 1 else Tup(a)
            if isinstance(p, Moved): p = p.v
            if not isinstance(p, Tup): raise Unsupported('map::insert')
            s = self.load(o)
            k, v = self.load(self.copy(p.items[0])), self.coerce(self.copy(p.items[1]), et)
            c = self.let('not (%s_phas %s %s)' % (ty, s.text, k.text), 'bool')
            r = self.let('if %s then %s_add %s %s %s else %s' % (c.text, ty, s.text, k.text, v.text, s.text), ty)
            self.store(o, r, struct=True)
            return InsRes([AddrOf(Tup([k, v])), c])
        if m == 'operator=': return self.assign(o, a[0])
        raise Unsupported('map::' + m)

    def optmeth(self, m, o, e):
        if isinstance(o, A): o = L(o)
        ty = o.ty
        it = self.prog.types.opts[ty]
        if m == 'has_value': return self.let('is_some_%s %s' % (ty, self.load(o).text), 'bool')
        if m == 'value':
            s = self.load(o)
            self.raised.add('Bad_access')
            return self.let('if is_some_%s %s then get_%s %s else raise Bad_access' % (ty, s.text, ty, s.text), it)
        if m == 'reset':
            self.store(o, A('None_' + ty, ty)); return UNIT
        raise Unsupported('optional::' + m)

    def e_opcall(self, e):
        f = e['f']; op = e['op']; a = e['a']
        n = f['n']
        if op == '()':
            o = self.ev(a[0])
            args = [self.ev(x) for x in a[1:]]
            if isinstance(o, Moved): o = o.v
            if isinstance(o, Fn): return self.apply(o, args)
            if f.get('repo'):
                if isinstance(o, AddrOf): o = o.lv
                if isinstance(o, A): o = L(o)
                args = [self.consume(v) if isinstance(v, Moved) and p['k'] != 'ref' else (v.v if isinstance(v, Moved) else v) for v, p in zip(args, f['p'])]
                return self.callfn(f, o, args)
            raise Unsupported('operator()')
        if f.get('repo') and not n.startswith('std::'):
            vs = [self.ev(x) for x in a]
            vs = [v.v if isinstance(v, Moved) else v for v in vs]
            if f.get('m'):
                if f.get('implicit') or f.get('defaulted') or (op == '=' and (self.lookup(f) or (0, {'implicit': 1}))[1].get('implicit')):
                    return self.assign(vs[0], vs[1])
                return self.callfn(f, vs[0] if isinstance(vs[0], L) else L(vs[0]), vs[1:])
            return self.callfn(f, None, vs)
        if op == '->':
            o = self.ev(a[0])
            if isinstance(o, Moved): o = o.v
            if isinstance(o, It): return AddrOf(self.deref(o))
            if isinstance(o, (A, L)):
                cn = f['cls']['n'] if f.get('cls') else ''
                if cn == 'std::optional' or 'optional' in n: return AddrOf(self.optval(o))
                return AddrOf(o)
            if isinstance(o, AddrOf): return o
            raise Unsupported('->')
        if op == '*' and len(a) == 1:
            o = self.ev(a[0])
            if isinstance(o, (A, L)) and (o.ty in self.prog.types.opts): return self.optval(o)
            return self.star(o)
        if op in ('++', '--'):
            o = self.ev(a[0])
            if isinstance(o, It): return self.itinc(o, 1 if op == '++' else -1, len(a) == 2)
        if op in ('==', '!=', '<', '<=', '>', '>=', '-', '+') and len(a) == 2:
            x, y = self.ev(a[0]), self.ev(a[1])
            x = x.v if isinstance(x, Moved) else x
            y = y.v if isinstance(y, Moved) else y
            if isinstance(x, It) or isinstance(y, It): return self.itop(op, x, y)
            if op == '+' and (isinstance(x, Opaque) or isinstance(y, Opaque)): return Opaque()
            if isinstance(x, Opaque) or isinstance(y, Opaque): raise Unsupported('string comparison')
            ax, ay = self.load(x), self.load(y)
            T = self.prog.types
            if op in ('==', '!='):
                if ax.ty in T.opts and ay.ty == T.opts[ax.ty]:
                    ay = self.let('Some_%s %s' % (ax.ty, ay.text), ax.ty)
                if ax.ty in T.opts and ay.ty == ax.ty:
                    t = self.let('eq_%s %s %s' % (ax.ty, ax.text, ay.text), 'bool')
                else: t = self.let(self.eqtext(ax, ay), 'bool')
                return t if op == '==' else self.let('not %s' % t.text, 'bool')
        if op in ('+=', '-='):
            o = self.ev(a[0])
            if isinstance(o, It):
                k = self.load(self.ev(a[1])).text
                p = self.move(o, k if op == '+=' else '(- %s)' % k)
                self.emit('%s := %s;' % (o.pos.name, p)); self.log.append((o.pos, 'assign'))
                return o
        if op == '[]':
            o = self.ev(a[0])
            if isinstance(o, It):
                k = self.load(self.ev(a[1])).text
                return self.deref(It(o.cont, self.move(o, k), o.rev, o.gen))
            return self.vecmeth('operator[]', o, [self.ev(a[1])], e)
        if op == '=':
            x = self.ev(a[0]); y = self.ev(a[1])
            return self.assign(x, y)
        if op == '<<': raise Unsupported('stream output')
        raise Unsupported('operator %s of %s' % (op, n))
    def optval(self, o):
        s = self.load(o)
        return self.let('get_%s %s' % (s.ty, s.text), self.prog.types.opts[s.ty])

    # ---- whole function
    def function(self):
        """(parameters, body text) of the WhyML function"""
        g = self.fn
        self.env, self.this, self.frames, self.conts, self.contused = {}, None, [], [], []
        ps = []
        self.ctr_args = []
        if g.get('m') and not g.get('ctor') and not g.get('static'):
            ty = self.vt(g['cls'])
            if g.get('const'):
                ps.append('(this: %s)' % ty); self.this = L(A('this', ty))
            else:
                ps.append('(this: ref %s)' % ty); r = Ref('this', ty); self.assigned.append(r); self.this = L(r)
            self.ctr_args.append('this')
        for i, p in enumerate(g['params']):
            t = p['t']
            if is_stateless(t):
                self.env[p['id']] = Fn(std=strip(t)['n']); continue
            ty = self.vt(t)
            n = 'p%d' % i
            self.ctr_args.append(n)
            if t['k'] == 'ref' and not t.get('rv') and not strip(t).get('c'):
                ps.append('(%s: ref %s)' % (n, ty))
                r = Ref(n, ty); self.assigned.append(r); self.env[p['id']] = L(r)
                continue
            ps.append('(%s: %s)' % (n, ty))
            if t['k'] == 'ref':
                a = A(n, ty)
                self.env[p['id']] = L(a) if not t.get('rv') else L(self.newref(n, a))
            else:
                self.bindparam(p, A(n, ty))
        if not ps: ps.append('()')
        if g.get('ctor'):
            self.frames.append(Inline({'k': 'b', 'n': 'void'}, False))
            v = self.ctorbody(g)
            self.frames.pop()
            rt = self.vt(g['cls'])
            end = v.text
        else:
            rt = 'int' if is_iter(g['ret']) else self.vt(g['ret'])
            v = self.body(g['body'], g['ret'], True)
            if v == 'exit': end = None
            else:
                end = self.retatom(v)
        lines = self.buf
        if end is None: self.dropsemi(lines, -1)
        else: lines = lines + [end]
        return ps, rt, '\n'.join(lines)

class Logic:
    """translation of pure expressions to terms, for comparators of algorithms"""
    def __init__(self, tr): self.tr = tr
    def apply(self, f, args):
        if f.std == 'std::less' and args[0].ty == 'real': return '(%s <. %s)' % (args[0].text, args[1].text)
        if f.std or not f.ops: raise Unsupported('comparator')
        o = f.ops[0]
        if isinstance(o, tuple): o = o[0]
        env = dict(f.env) if isinstance(f.env, dict) else {}
        for p, v in zip(o['params'], args): env[p['id']] = v
        b = o['body']['b']
        b = [s for s in b if not (s['k'] == 'expr')]
        if len(b) != 1 or b[0]['k'] != 'ret': raise Unsupported('comparator')
        return self.term(b[0]['e'], env).text
    def term(self, e, env):
        k = e['k']
        if k == 'ref' and e['dk'] in ('parm', 'var'):
            v = env.get(e['id'])
            if isinstance(v, A): return v
            raise Unsupported('variable in a comparator')
        if k == 'mem' and not e['arrow']:
            o = self.term(e['e'], env)
            for f, w, ty in self.tr.prog.types.records.get(o.ty, []):
                if f == e['n']: return A('%s.%s' % (o.text, w), ty)
        if k == 'bin':
            x, y = self.term(e['x'], env), self.term(e['y'], env)
            if x.ty == y.ty == 'real' and e['op'] in ('<', '<=', '>', '>='): return A('(%s %s. %s)' % (x.text, e['op'], y.text), 'bool')
            if x.ty == y.ty == 'real' and e['op'] in ('+', '-'): return A('(%s %s. %s)' % (x.text, e['op'], y.text), 'real')
            if x.ty == y.ty == 'bool': return A('(%s %s %s)' % (x.text, {'&&': '/\\', '||': '\\/'}[e['op']], y.text), 'bool')
        if k == 'float': return A(rlit(e['v']), 'real')
        raise Unsupported('expression in a comparator')
