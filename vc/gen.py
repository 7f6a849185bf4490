"""Generates the WhyML file of a check: declarations of the contracts, and one module per function body."""
import re
from trans import *
import rules

class Loop:
    def __init__(self, roles, inv, hints=(), variant=None, pre=()):
        self.roles = roles
        self.inv = [clause(c) for c in inv]
        self.hints = [clause(c) for c in hints]
        self.variant = variant

def clause(c):
    """'R,C08: text' -> ({'R','C08'}, text)"""
    m = re.match(r'([RI]|C\d\d)((,([RI]|C\d\d))*):\s', c)
    if m:
        return set(c[:m.end(2)].split(',')), c[m.end():]
    return {'*'}, c

class Contract:
    def __init__(self, requires=(), ensures=(), raises=None, loops=(), fresh=False, measure=None, group=None,
                 uses=(), ruses=(), pre=(), post_hints=(), inline_self=False, nogood=False, iter_ret=False, trusted=None, drop=(), iuses=(), rgood=False, det=None):
        self.det = det              # the result is a function of the arguments: its name, for callers
        self.rgood = rgood          # invariants of the results are promised for real arithmetic only
        self.iuses = list(iuses)
        self.drop = list(drop)      # modules whose axioms are not given to the provers ($: R or I)
        self.requires = [clause(c) for c in requires]
        self.ensures = [clause(c) for c in ensures]
        self.raises = {x: [clause(c) for c in cs] for x, cs in (raises or {}).items()}
        self.loops = list(loops)
        self.fresh, self.measure, self.group = fresh, measure, group
        self.uses, self.ruses = list(uses), list(ruses)      # $ in a name: R or I
        self.pre = [clause(c) for c in pre]          # WhyML text put in front of the body (lemma calls)
        self.inline_self, self.nogood = inline_self, nogood
        self.trusted = trusted
        self.iter_ret = iter_ret      # the function returns an iterator, and callers use the contract

def goodness(T, t, text):
    """type invariants of a C++ value: formula or None"""
    t = strip(t)
    if t['k'] != 'rec': return None
    n = t['n']; a = targs(t)
    if n in ('std::shared_ptr', 'std::unique_ptr'): return goodness(T, a[0], text)
    if n == 'signal_tl::signal::Signal': return 'good %s' % text
    if n == 'std::vector':
        e = strip(a[0])
        if e['k'] == 'rec' and e['n'] == 'std::shared_ptr' and strip(targs(e)[0])['n'] == 'signal_tl::signal::Signal':
            return 'sgood %s' % text
        return None
    if n == 'std::map' and T.vt(t) == 'tmap': return 'tgood %s' % text
    if n in ('std::pair', 'std::tuple'):
        ty = T.vt(t); cs = []
        for i, x in enumerate(a):
            g = goodness(T, x, '%s.%s_%d' % (text, ty, i))
            if g: cs.append(g)
        return ' /\\ '.join(cs) or None
    ty = None
    if n in T.recs and n.startswith('signal_tl::') and base(n) not in KNOWN_RECS:
        ty = T.vt(t); cs = []
        for f, (cn, w, _) in zip(T.recs[n]['fields'], T.records.get(ty, [])):
            g = goodness(T, f['t'], '%s.%s' % (text, w))
            if g: cs.append(g)
        return ' /\\ '.join(cs) or None
    return None

class Gen:
    def __init__(self, prog, prop, spec, mode):
        self.prog, self.prop, self.spec, self.mode = prog, prop, spec, mode
        self.tags = {'*', prop, mode} | set(spec.get('tags', ()))
        self.errors = []           # (function, message)
        self.frames = set()        # types that occur in frame conditions
        self.done = {}             # key -> (ps, rt, body, tr)

    def ok(self, tags): return bool(tags & self.tags)

    def translate(self):
        todo = list(self.spec['roots'])
        cuts = set(self.spec.get('cuts', ()))
        self.order = []
        self.declared = set()
        while todo:
            k = todo.pop(0)
            if k in self.done: continue
            if k not in self.prog.bykey:
                self.errors.append((k, 'the function is not in the sources any more')); self.done[k] = None; continue
            c = self.prog.contracts.get(k)
            tr = rules.make(self.prog, k, self.tags)
            try:
                r = tr.function()
            except Unsupported as e:
                self.errors.append((k, 'cannot be translated: %s (%s)' % (e, tr.loc))); self.done[k] = None
                continue
            except (KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError) as e:
                if self.spec.get('debug'): raise
                self.errors.append((k, 'cannot be translated: %s %s (%s)' % (type(e).__name__, e, tr.loc))); self.done[k] = None
                continue
            self.done[k] = (r, tr)
            self.order.append(k)
            for x in sorted(tr.callees):
                self.declared.add(x)
                if x not in cuts and x not in self.done: todo.append(x)

    def sig(self, k):
        """(parameters, return type, requires, ensures, raises, writes) of the contract function k"""
        tu, g = self.prog.bykey[k]
        c = self.prog.contracts[k]
        T = self.prog.types
        ps = []; req = []; ens = []; wr = []
        mutates = any('!this' in t or '!p' in t for _, t in c.ensures)
        def param(n, t, mutable):
            ty = T.vt(t)
            if self.spec.get('frame') and not mutates and not is_iter(t):
                self.frames.add(ty)
                x = n if not mutable else '!' + n
                ens.append(('frame: %s is unchanged' % n, 'unchanged_%s (old %s) %s' % (ty, x, x)))
            if mutable:
                ps.append('(%s: ref %s)' % (n, ty)); wr.append(n)
            else:
                ps.append('(%s: %s)' % (n, ty))
                if ty == 'int' and INTS.get(strip(t).get('n')): req.append(('unsigned argument %s' % n, '0 <= %s' % n))
            if not c.nogood:
                gd = goodness(T, t, n if not mutable else '!' + n)
                if gd:
                    req.append(('invariant of the argument %s' % n, gd))
                    if mutable: ens.append(('invariant of %s' % n, gd))
        if g.get('m') and not g.get('ctor') and not g.get('static'):
            param('this', g['cls'], not g.get('const'))
        for i, p in enumerate(g['params'] if 'params' in g else [{'t': t} for t in g['p']]):
            t = p['t']
            if is_stateless(t): continue
            param('p%d' % i, t, t['k'] == 'ref' and not t.get('rv') and not strip(t).get('c'))
        if not ps: ps.append('()')
        rct = g['cls'] if g.get('ctor') else g['ret']
        if is_iter(rct): rt = 'int'
        else:
            rt = T.vt(rct)
            gd = goodness(T, rct, 'result')
            if gd and not c.nogood and not (c.rgood and self.mode == 'I'): ens.insert(0, ('invariant of the result', gd))
        n = 0
        for i, (tags, t) in enumerate(c.requires):
            if self.ok(tags): req.append(('precondition %d' % (i + 1), t))
        for i, (tags, t) in enumerate(c.ensures):
            if self.ok(tags): ens.append(('postcondition %d' % (i + 1), t))
        rs = []
        for x, cs in c.raises.items():
            rs.append((x, [(i, t) for i, (tags, t) in enumerate(cs) if self.ok(tags)]))
        return ps, rt, req, ens, rs, wr

    def spectext(self, k, s, impl=None):
        ps, rt, req, ens, rs, wr = s
        L = []
        for n, t in req: L.append('    requires { %s } (*@ %s %s *)' % (t, k, n))
        if impl is None and wr: L.append('    writes { %s }' % ', '.join(wr))
        for n, t in ens: L.append('    ensures { [@expl:%s] %s } (*@ %s %s *)' % (n, t, k, n))
        for x, cs in rs:
            f = ' /\\ '.join('(%s)' % t for _, t in cs) or 'true'
            L.append('    raises { %s -> [@expl:condition of exception %s] %s } (*@ %s condition of exception %s *)' % (x, x.lower(), f, k, x.lower()))
        if impl is not None:
            known = {x for x, _ in rs}
            for x in sorted(impl - known):
                L.append('    raises { %s -> [@expl:exception %s is not thrown] false } (*@ %s throws %s *)' % (x, x.lower(), k, x.lower()))
        return '\n'.join(L)

    def text(self):
        # modules of the library, used where their names occur
        import libgen
        names = libgen.names()
        other = 'I' if self.mode == 'R' else 'R'
        lib = [m for m in names if not (m[-1] == other and m[:-1] + self.mode in names) and not m.endswith(('Impl', 'ImplR', 'ImplI', 'Def', 'DefR', 'DefI', 'Help'))]
        lib = [m for m in lib if m not in ('Arith', 'Values', 'ArithAll', 'Resample') and not m.startswith('Sync') and not m.endswith('L')]
        def uses(text, extra=()):
            w = set(re.findall(r"[A-Za-z_]\w*", re.sub(r'\(\*@.*?\*\)', '', text)))
            us = [m for m in lib if m in extra or w & names[m]] + [m for m in extra if m not in lib]
            # (why3 1.6 loses the type of strings in some tasks unless symbols depend on it)
            if 'Forms' in us: us = ['Map_tmap', 'Size'] + [m for m in us if m not in ('Map_tmap', 'Size')]
            return ['int.Int', 'real.RealInfix', 'ref.Ref'] + ['stl.' + m for m in us]
        sigs = {}
        for k in sorted(self.declared | set(self.order)):
            if k in self.prog.contracts and k in self.prog.bykey:
                sigs[k] = self.sig(k)
        out = ['module Decls']
        decls = '\n'.join(self.prog.types.decls)
        for ty in sorted(self.frames):
            decls += '\n  predicate unchanged_%s (a b: %s)\n  axiom unchanged_%s: forall a [unchanged_%s a a]. unchanged_%s a a' % ((ty,) * 5)
        for u in uses(decls): out.append('  use %s' % u)
        out.append(decls)
        out.append('end')
        declnames = set(libgen.defined(decls))
        self.modules = {}
        for n, k in enumerate(self.order):
            (ps, rt, body), tr = self.done[k]
            c = self.prog.contracts.get(k)
            m = 'F%d_%s' % (n, mangle(k)[2:])
            self.modules[m] = k
            out.append('module %s' % m)
            us = list(self.spec.get('uses', ()))
            head = out; out = []
            calls = sorted(x for x in tr.callees if x in sigs)
            for x in calls + [k]:
                cx = self.prog.contracts.get(x)
                if cx is None: continue
                for u in cx.uses + (cx.ruses if self.mode == 'R' else cx.iuses):
                    u = u.replace('$', self.mode)
                    if u not in us: us.append(u)
            for x in calls:
                out.append('  val %s %s : %s' % (mangle(x), ' '.join(sigs[x][0]), sigs[x][1]))
                out.append(self.spectext(x, sigs[x]))
                if self.prog.contracts[x].det and self.spec.get('det'): out.append('    ensures { result = %s }' % self.prog.contracts[x].det)
            s = sigs.get(k)
            if s is None:
                self.errors.append((k, 'no contract')); out = head + ['end']; continue
            out.append('  let smoke %s : unit' % ' '.join(s[0]))
            for n_, t_ in s[2]: out.append('    requires { %s }' % t_)
            out.append('  = assert { [@expl:SMOKE] false }')
            out.append('  let impl %s : %s' % (' '.join(s[0]), s[1]))
            out.append(self.spectext(k, s, tr.raised))
            if self.spec.get('endsmoke'): out.append('    ensures { [@expl:ENDSMOKE] false }')
            sp = self.spec.get('sp')
            out.append('  = [@vc:sp] begin' if sp else '  =')
            for tags, t in c.pre:
                if self.ok(tags): out.append('  ' + t)
            out.append(body)
            if sp: out.append('end')
            out.append('end')
            t = '\n'.join(out)
            if set(re.findall(r'\w+', t)) & declnames: head.append('  use Decls')
            for u in uses(t, us): head.append('  use %s' % u)
            out = head + out
        return '\n'.join(out) + '\n'

def lean(goals, g, text, key_of_line):
    """leaves out the axioms that the contracts say are not needed"""
    import libgen, why
    ax = libgen.axiom_names()
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    for x in goals:
        c = g.prog.contracts.get(key_of_line(x.line))
        ms = {m.replace('$', g.mode) for m in (c.drop if c else ())}
        names = {a for m in ms for a in ax.get(m, ())} - {a for m in ax if m not in ms and not m.endswith('I' if g.mode == 'R' else 'R') for a in ax[m]}
        names |= {m for m in (c.drop if c else ()) if m not in ax}
        names |= {'add_div', 'sub_div', 'neg_div', 'assoc_mul_div', 'assoc_div_mul', 'assoc_div_div', 'CompatOrderMult'}
        jobs.append((x, names))
    for x, names in jobs: why.drop(x, names)

def line_keys(g, text):
    ks = []; cur = None
    for l in text.split('\n'):
        m = re.match(r'module (\w+)', l)
        if m: cur = g.modules.get(m.group(1), m.group(1))
        ks.append(cur)
    return lambda n: ks[n - 1] if 0 < n <= len(ks) else None
