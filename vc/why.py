"""Verification conditions with Why3 and their proof with a portfolio of SMT solvers."""
import os, re, subprocess, time, shutil, threading
from concurrent.futures import ThreadPoolExecutor

FAKE = '''[main]
magic = 14
memlimit = 4000
running_provers_max = 1
timelimit = 60.000000

[prover]
command = "/bin/bash %(dir)s/grab.sh %%f"
driver = "%(driver)s"
name = "Fake"
version = "1"
shortcut = "fake"
'''
GRAB = '''n=$(cat %(dir)s/count); echo $((n+1)) > %(dir)s/count; cp "$1" %(dir)s/$n.smt2; echo unknown
'''
DRIVERS = {'cvc5': 'cvc5', 'z3': 'z3_487'}

class WhyError(Exception):
    pass

class Goal:
    __slots__ = ('name', 'fn', 'expl', 'line', 'file', 'smt', 'proved', 'by', 'time', 'cpp', 'tries')
    def __init__(self):
        self.proved = False; self.by = None; self.time = 0.0; self.cpp = ''; self.tries = []; self.smt = {}

def vcs(path, out, libdir, transf=None, theory=None):
    if transf: return vcs1(path, out, libdir, transf, theory)
    for t in (('split_vc', 'inline_goal', 'split_vc'), ('split_vc', 'inline_goal'), ('split_vc',)):
        try:
            return vcs1(path, out, libdir, t, theory)
        except WhyError as e:
            if 'anomaly' not in str(e) or t == ('split_vc',): raise

def vcs1(path, out, libdir, transf, theory):
    """goals of the file, with one SMT file per driver"""
    runs = {}
    def run(d):
        dd = os.path.join(out, d)
        shutil.rmtree(dd, ignore_errors=True); os.makedirs(dd)
        open(dd + '/count', 'w').write('0\n')
        open(dd + '/grab.sh', 'w').write(GRAB % {'dir': dd})
        open(dd + '/why3.conf', 'w').write(FAKE % {'dir': dd, 'driver': DRIVERS[d]})
        cmd = ['why3', 'prove', '-C', dd + '/why3.conf', '-L', libdir, '-P', 'Fake']
        for t in transf: cmd += ['-a', t]
        cmd.append(path)
        if theory:
            for t in theory: cmd += ['-T', t]
        p = subprocess.run(cmd, capture_output=True, text=True, env={**os.environ, 'WHY3CONFIG': dd + '/why3.conf'})
        runs[d] = (p.stdout, p.stderr, p.returncode)
    ts = [threading.Thread(target=run, args=(d,)) for d in DRIVERS]
    for t in ts: t.start()
    for t in ts: t.join()
    goals = None
    for d, (o, e, rc) in runs.items():
        gs = []
        err = [l for l in (e + '\n' + o).splitlines() if l.strip() and not l.startswith('Warning') and not l.startswith('warning')]
        loc = (None, 0)
        for l in o.splitlines():
            m = re.match(r'File "(.*?)", line (\d+), characters', l) or re.match(r'File (.*?):', l)
            if m and m.lastindex == 2: loc = (m.group(1), int(m.group(2)))
            m = re.match(r"Sub-goal (.*) of goal (\S+?)('vc)?\.$", l) or re.match(r"Goal (\S+?)('vc)?\.$", l)
            if m:
                g = Goal()
                if l.startswith('Goal'): g.expl, g.fn = m.group(1), m.group(1)
                else: g.expl, g.fn = m.group(1), m.group(2)
                g.file, g.line = loc
                gs.append(g)
        n = int(open(os.path.join(out, d, 'count')).read())
        if n != len(gs) or (n == 0 and 'rror' in e) or (rc not in (0, 2)):
            raise WhyError('why3 (%s): %d goals, %d files, exit %d\n%s' % (d, len(gs), n, rc, '\n'.join(err[:20])))
        if n == 0 and e.strip():
            real = [l for l in e.splitlines() if not l.startswith('Warning') and not l.startswith('File')]
            if real: raise WhyError('\n'.join(real[:20]))
        for i, g in enumerate(gs):
            g.smt[d] = os.path.join(out, d, '%d.smt2' % i)
        if goals is None: goals = gs
        else:
            if len(gs) != len(goals): raise WhyError('different goals for the drivers')
            for a, b in zip(goals, gs): a.smt.update(b.smt)
    return goals

SOLVERS = {
    'cvc5': ('cvc5', ['cvc5', '--tlimit-per=%(ms)d']),
    'cvc5-enum': ('cvc5', ['cvc5', '--enum-inst', '--tlimit-per=%(ms)d']),
    'z3': ('z3', ['z3', '-T:%(s)d', '-memory:3000']),
    'z3-new': ('z3', ['z3-new', '-T:%(s)d', '-memory:3000']),
    'z3-nmbqi': ('z3', ['z3-new', 'smt.mbqi=false', '-T:%(s)d', '-memory:3000']),
}

def items(t):
    """(name in the comment before, s-expression) of a problem"""
    i = 0; last = ''
    while i < len(t):
        c = t[i]
        if c == ';':
            j = t.index('\n', i)
            m = re.match(r';; "([^"]*)"', t[i:j])
            if m: last = m.group(1)
            i = j + 1
        elif c == '(':
            d = 0; j = i
            while True:
                if t[j] == '"': j = t.index('"', j + 1)
                elif t[j] == ';': j = t.index('\n', j)
                elif t[j] == '(': d += 1
                elif t[j] == ')':
                    d -= 1
                    if d == 0: break
                j += 1
            yield last, t[i:j + 1]
            i = j + 1
        else: i += 1

QAX = re.compile(r'\(assert\s*\(forall')
def slim(path, name):
    """the problem with only those quantified axioms that have the name of the goal"""
    out = []; kept = 0
    for last, p in items(open(path).read()):
        if QAX.match(p):
            if re.sub(r'_l$|\d$', '', last) != re.sub(r'_l$|\d$', '', name): continue
            kept += 1
        out.append(p + '\n')
    if not kept: return None
    r = path[:-5] + '.slim.smt2'
    open(r, 'w').write(''.join(out))
    return r

def drop(goal, names):
    """removes the quantified axioms of the given names from the problem (hypotheses only, so this is sound)"""
    for d, path in goal.smt.items():
        t = open(path).read()
        out = [';; "%s"\n%s\n' % (l, p) for l, p in items(t) if not (QAX.match(p) and l in names)]
        open(path, 'w').write(''.join(out))

def solve(goal, solver, secs):
    if solver == 'same':
        p = slim(goal.smt['z3'], goal.fn)
        if p is None: return 'skipped', 0.0
        t = time.time()
        r = subprocess.run(['z3', '-T:%d' % secs, p], capture_output=True, text=True).stdout
        return (r.strip().split('\n') or [''])[0], time.time() - t
    drv, cmd = SOLVERS[solver]
    cmd = [c % {'ms': int(secs * 1000), 's': max(1, int(secs))} for c in cmd] + [goal.smt[drv]]
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 5)
        r = (p.stdout.strip().split('\n') or [''])[0].strip()
    except subprocess.TimeoutExpired:
        r = 'timeout'
    return r, time.time() - t

def prove(goals, jobs=8, plan=None, deadline=None, log=None):
    """plan: list of (solver, seconds), tried in order for each goal until it is proved"""
    plan = plan or [('z3', 2), ('cvc5', 4), ('z3-new', 4)]
    def one(g):
        if g.proved: return
        for s, secs in plan:
            if deadline is not None:
                left = deadline - time.time()
                if left < 1: return
                secs = min(secs, left)
            r, t = solve(g, s, secs)
            g.tries.append((s, r, round(t, 2)))
            if r == 'unsat':
                g.proved, g.by, g.time = True, s, t
                return
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, goals))
    return [g for g in goals if not g.proved]
