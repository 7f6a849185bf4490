import sys, json, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from trans import *; import gen, contracts, props, libgen, why
def main(prop, mode, only=None):
    if os.environ.get('EX'):
        import run; print(run.extract(('signal', 'minmax', 'classic_robustness', 'ast', 'parser', 'formatters'), '/tmp/w/x')[1])
    tus = {n: json.load(open('/tmp/w/x/%s.json' % n)) for n in ('signal', 'minmax', 'classic_robustness', 'ast', 'parser', 'formatters')}
    p = Program(tus, contracts.K)
    spec = dict(props.P[prop]); spec.update(spec.get('mode_' + mode, {})); spec['debug'] = True
    smoke = os.environ.get('SMOKE')
    if smoke: spec['endsmoke'] = True
    if only: spec['roots'] = [k for k in contracts.K if only in k]
    g = gen.Gen(p, prop, spec, mode)
    g.translate()
    if only: g.order = [k for k in g.order if only in k]
    t = g.text()
    for e in g.errors: print('ERR', e)
    d = '/tmp/w/g'; os.makedirs(d, exist_ok=True)
    open(d + '/stl.mlw', 'w').write(libgen.text())
    f = d + '/%s%s.mlw' % (prop, mode)
    open(f, 'w').write(t)
    t0 = time.time()
    gs = why.vcs(f, d + '/o', d)
    if smoke:
        gs = [g for g in gs if 'ENDSMOKE' in g.expl]
        gen.lean(gs, g, t, gen.line_keys(g, t)); key = gen.line_keys(g, t)
        why.prove(gs, plan=[('z3', 2), ('cvc5', 3)])
        d = {}
        for x in gs: d.setdefault(key(x.line), []).append(x.proved)
        for k, v in d.items(): print(k, '%d of %d ends unreachable' % (sum(v), len(v)), '!!!' if all(v) else '')
        return
    gs = [g for g in gs if 'SMOKE' not in g.expl]
    if spec.get('only'): gs = [g for g in gs if __import__('re').search(spec['only'], g.expl)]
    gen.lean(gs, g, t, gen.line_keys(g, t))
    lines = t.split('\n')
    print(len(gs), 'goals', round(time.time() - t0, 1))
    un = why.prove(gs, plan=[('z3', 2), ('cvc5', 5), ('z3-new', 5), ('cvc5', 15), ('z3-nmbqi', 5)])
    for x in gs:
        if not x.proved or x.time > 2:
            print(x.line, x.expl, '|', lines[x.line - 1][:150], x.proved, x.tries[-1], x.smt['cvc5'].split('/')[-1])
    print(len(un), 'unproved', round(time.time() - t0, 1))
main(*sys.argv[1:])
