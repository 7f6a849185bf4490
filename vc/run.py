#!/usr/bin/env python3
"""run.py PROPERTY: extracts the code of /repo, generates and proves the obligations of the property,
writes evidence/PROPERTY.json, and reports a VIOLATION when an obligation fails."""
import sys, os, json, time, subprocess, hashlib, re, shutil, traceback, threading
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import gen, contracts, props, libgen, why
from trans import Program, mangle

REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
EXTRACT = os.path.join(BUILD, 'extract')
SRC = {'signal': 'src/core/signal.cc', 'ast': 'src/core/ast.cc', 'minmax': 'src/robust_semantics/minmax.cc',
       'classic_robustness': 'src/robust_semantics/classic_robustness.cc', 'parser': 'src/parser/parser.cc',
       'formatters': None}
EXTRACTOR_CMD = ['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', os.path.join(ROOT, 'extractor/extract.cc'),
                 '-o', EXTRACT, '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so']
BASETUS = ('signal', 'minmax', 'classic_robustness', 'ast')

def build_extractor():
    src = open(os.path.join(ROOT, 'extractor/extract.cc'), 'rb').read()
    h = hashlib.sha256(src).hexdigest()
    st = EXTRACT + '.stamp'
    if os.path.exists(EXTRACT) and os.path.exists(st) and open(st).read() == h: return
    os.makedirs(BUILD, exist_ok=True)
    subprocess.run(EXTRACTOR_CMD, check=True)
    open(st, 'w').write(h)

def extract(tus, out):
    """extracts the translation units; returns ({name: json}, {name: error text})"""
    res, errs = {}, {}
    def one(n):
        f = os.path.join(REPO, SRC[n]) if SRC[n] else os.path.join(ROOT, 'stubs/formatters.cc')
        o = os.path.join(out, n + '.json')
        cmd = [EXTRACT, REPO + '/', o, f, '--', '-std=c++17', '-DNDEBUG', '-w', '-I' + os.path.join(ROOT, 'stubs'), '-I' + REPO + '/src/include',
               '-I' + REPO + '/src', '-I' + os.path.dirname(f), '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=200)
            if p.returncode != 0 or not os.path.exists(o):
                errs[n] = 'exit %d: %s' % (p.returncode, p.stderr[-1500:]); return
            res[n] = json.load(open(o))
        except Exception as e:
            errs[n] = repr(e)
    ts = [threading.Thread(target=one, args=(n,)) for n in tus]
    for t in ts: t.start()
    for t in ts: t.join()
    return res, errs

PLAN1 = [('z3', 2), ('cvc5', 5), ('z3-new', 5)]
PLAN2 = [('cvc5', 20), ('z3-nmbqi', 10), ('z3-new', 20), ('cvc5-enum', 20), ('z3', 20)]
# goals that are expected not to be provable
SMOKE = [('z3', 1), ('cvc5', 1)]

def prove_library(work, force=False):
    """the lemmas of the library, once per version of its text"""
    t = libgen.text()
    h = hashlib.sha256(t.encode()).hexdigest()
    st = os.path.join(BUILD, 'library.json')
    if not force and os.path.exists(st):
        d = json.load(open(st))
        if d['hash'] == h: return d
    os.makedirs(work, exist_ok=True)
    f = os.path.join(work, 'stl.mlw')
    open(f, 'w').write(t)
    gs = why.vcs(f, os.path.join(work, 'lib'), work, transf=('split_vc', 'split_vc'))
    t0 = time.time()
    un = why.prove(gs, plan=[('same', 2)] + PLAN1)
    if un: un = why.prove(un, plan=PLAN2)
    by = {}
    for g in gs:
        if g.proved: by[g.by] = by.get(g.by, 0) + 1
    d = {'hash': h, 'goals': len(gs), 'proved': len(gs) - len(un), 'by': by, 'wall': round(time.time() - t0, 2),
         'unproved': ['%s %s' % (g.fn, g.expl) for g in un]}
    shutil.rmtree(os.path.join(work, 'lib'), ignore_errors=True)
    os.makedirs(BUILD, exist_ok=True)
    json.dump(d, open(st, 'w'))
    return d

def axioms():
    """assumed facts of the library text, counted by module"""
    t = libgen.text()
    n = {}
    for m, b in re.findall(r'module (\w+)\n(.*?)\nend\n', t, flags=re.S):
        if m in ('ArithHelp',): continue
        k = len(re.findall(r'^\s*axiom ', b, flags=re.M)); v = len(re.findall(r'^\s*val ', b, flags=re.M))
        if k or v: n[m] = (k, v)
    return n

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = props.P[prop]
        self.t0 = time.time()
        self.fails = []          # texts
        self.goals = []
        self.functions = {}
        self.trusted = set()
        self.notes = []
        self.found = None
        self.work = os.path.join(BUILD, 'run', prop)

    def left(self): return 840 - (time.time() - self.t0)

    def mode(self, prog, mode):
        spec = {**self.spec, **self.spec.get('mode_' + mode, {})}
        g = gen.Gen(prog, self.prop, spec, mode)
        g.translate()
        text = g.text()
        for k, m in g.errors:
            self.fails.append(('%s [%s]' % (k, mode), m, ''))
        for e in prog.types.layout_errors:
            self.fails.append(('types', e, ''))
        f = os.path.join(self.work, '%s_%s.mlw' % (self.prop, mode))
        open(f, 'w').write(text)
        for k in sorted(g.declared):
            if g.done.get(k) is None and not any(k == e[0] for e in g.errors): self.trusted.add(k)
        lines = text.split('\n')
        try:
            gs = why.vcs(f, os.path.join(self.work, mode), self.work)
        except why.WhyError as e:
            # the text of one function may be at fault: say which
            m = re.search(r'line (\d+)', str(e))
            where = ''
            if m:
                for l in lines[int(m.group(1)) - 1::-1]:
                    mm = re.match(r'module (\w+)', l)
                    if mm: where = g.modules.get(mm.group(1), mm.group(1)); break
            self.fails.append(('%s [%s]' % (where or self.prop, mode), 'the generated obligations are not well-formed: ' + str(e)[:1500], ''))
            return
        mods = []
        cur = None
        for i, l in enumerate(lines):
            m = re.match(r'module (\w+)', l)
            if m: cur = g.modules.get(m.group(1), m.group(1))
            mods.append(cur)
        for x in gs:
            x.fn = mods[x.line - 1] if 0 < x.line <= len(mods) else x.fn
            l = lines[x.line - 1] if 0 < x.line <= len(lines) else ''
            m = re.search(r'\(\*@ (.*?) \*\)', l)
            x.cpp = '%s [%s] %s%s' % (x.fn, mode, x.expl, ' at ' + m.group(1) if m else '')
        gen.lean([x for x in gs if "SMOKE" not in x.expl], g, text, gen.line_keys(g, text))
        smoke = [x for x in gs if 'SMOKE' in x.expl]
        gs = [x for x in gs if 'SMOKE' not in x.expl]
        only = self.spec.get('only')
        if only: gs = [x for x in gs if re.search(only, x.expl + ' ' + x.cpp)]
        return gs, smoke, g

    def run(self):
        shutil.rmtree(self.work, ignore_errors=True); os.makedirs(self.work)
        build_extractor()
        tus = tuple(self.spec.get('tus', BASETUS))
        js, errs = extract(tus, self.work)
        for n, e in errs.items():
            self.fails.append((SRC[n] or n, 'the source cannot be read: ' + e, ''))
        open(os.path.join(self.work, 'stl.mlw'), 'w').write(libgen.text())
        self.lib = prove_library(os.path.join(self.work, 'l'))
        for u in self.lib['unproved']:
            self.fails.append(('library', 'lemma ' + u, ''))
        smoke = []
        self.solver_time = 0.0
        modes = self.spec.get('modes', ('R', 'I'))
        res = {}
        def gm(m):
            try:
                prog = Program(js, contracts.K)
                res[m] = self.mode(prog, m)
            except Exception as e:
                self.fails.append((self.prop, 'the obligations cannot be generated: %s' % traceback.format_exc()[-1500:], ''))
        if len(js) == len(tus) or js:
            ts = [threading.Thread(target=gm, args=(m,)) for m in modes]
            for t in ts: t.start()
            for t in ts: t.join()
        for m in modes:
            if not res.get(m): continue
            gs, sm, g = res[m]
            self.goals += gs; smoke += sm
            for k in g.order: self.functions.setdefault(k, []).append(m)
        dl = self.t0 + 500
        un = why.prove(self.goals, plan=PLAN1, deadline=dl)
        if un or self.fails:
            # an input that breaks the property decides at once
            self.found = self.look(25)
        if un and not (self.found or {}).get('input'):
            # a second, longer attempt, unless very many fail (then the failures are real)
            sat = [g for g in un if any(r == 'sat' for _, r, _ in g.tries)]
            rest = [g for g in un if g not in sat]
            un = sat + why.prove(rest[:60], plan=PLAN2, deadline=dl) + rest[60:]
        # reachability: none of these may be provable
        sm = smoke
        why.prove(sm, plan=SMOKE if self.tier == 'quick' else [('z3', 5), ('cvc5', 5), ('z3-new', 5)], deadline=dl + 40)
        self.smoke = (len(sm), sum(1 for g in sm if g.proved))
        for g in sm:
            if g.proved: self.fails.append((g.cpp, 'the assumptions of the function are contradictory (vacuous proof)', ''))
        for g in un:
            self.fails.append((g.cpp, 'not discharged: ' + ', '.join('%s %s %.1fs' % t for t in g.tries), g.smt.get('cvc5', '')))
        if not self.goals and not self.fails:
            self.fails.append((self.prop, 'no obligations were generated', ''))
        return self.finish(un)

    def look(self, seconds, salt=0):
        try:
            import refute
            return refute.search(self.prop, REPO, self.work, self.seed + 1000 * salt, seconds)
        except Exception:
            return {'note': 'the search for a failing input did not run: ' + traceback.format_exc()[-800:]}

    def finish(self, un):
        by, tm = {}, {}
        for g in self.goals:
            if g.proved: by[g.by] = by.get(g.by, 0) + 1
            for s, r, t in g.tries: tm[s] = round(tm.get(s, 0) + t, 2)
        npr = sum(1 for g in self.goals if g.proved)
        viol = None
        if self.fails: viol = self.violation()
        perfn = {}
        for g in self.goals:
            a = perfn.setdefault(g.fn, [0, 0]); a[0] += 1; a[1] += bool(g.proved)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.spec.get('level', 'proof'),
              'coverage': {
                  'obligations': len(self.goals) , 'discharged': npr,
                  'checker_cmd': 'python3 vc/run.py %s (why3 prove -a split_vc -a inline_goal on build/run/%s/%s_{%s}.mlw, goals by z3 and cvc5)'
                                 % (self.prop, self.prop, self.prop, ','.join(self.spec.get('modes', ('R', 'I')))),
                  'functions_under_contract': {k: {'arithmetic': m, 'obligations': perfn.get(k, [0, 0])[0], 'discharged': perfn.get(k, [0, 0])[1]}
                                               for k, m in sorted(self.functions.items())},
                  'by_back_end': by, 'solver_seconds': tm,
                  'library_lemmas': {k: self.lib[k] for k in ('goals', 'proved', 'by')},
                  'reachability_goals': {'checked': self.smoke[0], 'provable_(must_be_0)': self.smoke[1]},
                  'trusted_base': TRUSTED + ['contract used without proof in this check (proved by another): ' + k for k in sorted(self.trusted)]
                                  + self.spec.get('trusted', []),
                  'library_axioms_and_assumed_operations': {m: '%d axioms, %d operations' % x for m, x in axioms().items()},
                  'failed': [f[0] + ': ' + f[1] for f in self.fails][:50]},
              'assumptions': self.spec.get('assumptions', []) + ASSUME,
              'wall_s': round(time.time() - self.t0, 2), 'violations': 1 if viol else 0}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w'), indent=1)
        print('%s: %d of %d obligations discharged in %d functions (%s), %.0f s' % (
            self.prop, npr, len(self.goals), len(self.functions), ', '.join('%s %d' % x for x in sorted(by.items())), time.time() - self.t0))
        if viol:
            print(viol)
            return 1
        for d in (m for m in self.spec.get('modes', ('R', 'I'))):
            shutil.rmtree(os.path.join(self.work, d), ignore_errors=True)
        return 0

    def violation(self):
        d = os.path.join(BUILD, 'replay'); os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, self.prop + '.txt')
        out = ['Failed obligations of %s:' % self.prop]
        for w, m, f in self.fails[:40]:
            out.append('- %s: %s%s' % (w, m, (' (goal: %s)' % f) if f else ''))
            print('failed: %s: %s' % (w, m.split('\n')[0][:200]))
        found = self.found
        if not (found or {}).get('input'): found = self.look(min(self.left() - 40, 100 if self.tier == 'quick' else 300), 1)
        if found and found.get('input'):
            out.append('Failing input on the real code:')
            out.append(found['input'])
            out.append('Replay: ' + found['cmd'])
        elif found:
            out.append(found.get('note', ''))
        open(rp, 'w').write('\n'.join(out) + '\n')
        return 'VIOLATION property=%s replay=%s%s' % (self.prop, rp, '' if found and found.get('input') else ' no-failing-input-found')

TRUSTED = [
    'clang 18 (parsing and semantic analysis of the sources), extractor/extract.cc and vc/trans.py: they translate the AST of each function to WhyML; '
    'calls, operators and library classes become operations with the contracts in vc/lib',
    'why3 (weakest preconditions, SMT output), z3 and cvc5 (an obligation counts when one of them answers unsat)',
    'the contracts of the C++ standard library operations in vc/lib/types.mlw, vc/libgen.py (vector, map, optional, variant, iterators, algorithms)',
]
ASSUME = [
    'arithmetic R: doubles are real numbers; arithmetic I: results of + - * / are arbitrary doubles (also NaN), up to monotonicity facts listed in OpsI',
    'time stamps are not NaN; container sizes fit in their types; no memory exhaustion; executions are single-threaded',
]

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(prop, tier, seed)
    try:
        rc = c.run()
    except Exception:
        traceback.print_exc()
        c.fails.append((prop, 'the check failed: ' + traceback.format_exc()[-1000:], ''))
        if not hasattr(c, 'lib'): c.lib = {'goals': 0, 'proved': 0, 'by': {}}
        c.smoke = getattr(c, 'smoke', (0, 0))
        rc = c.finish([])
    sys.exit(rc)
if __name__ == '__main__':
    if sys.argv[1] == '--setup':
        build_extractor()
        d = prove_library(os.path.join(BUILD, 'setup'))
        print('library: %d of %d lemmas proved' % (d['proved'], d['goals']))
        sys.exit(0)
    main()
