import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/vc')
import props
T = 'contracts on the real functions (clang AST translated to WhyML on every run), verification conditions by Why3, discharged by Z3 and cvc5'
N = 'Deductive proof for all inputs, function by function, over the functions listed in the evidence; '
def check(p):
    d = props.P[p]
    return {'property': p, 'quick_cmd': 'python3 vc/run.py ' + p, 'thorough_cmd': 'python3 vc/run.py ' + p, 'technique': d.get('technique', T),
            'level': d.get('level', 'proof'), 'level_note': N + d.get('note', '') + ' Trusted: the translation, Why3, the solvers, contracts of the standard library; doubles as real numbers unless the evidence says I.'}
NA = {
 'C22': 'The Python bindings need pybind11 and Python headers, are not built here, and their behaviour is that of pybind11 at run time: no contract on code within reach expresses it.',
}
ids = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
na = [{'property': i, 'reason': NA.get(i, 'The contracts of the functions behind this property are not finished yet.')} for i in ids if i not in props.P]
m = {'version': 1, 'setup_cmd': 'python3 vc/run.py --setup', 'checks': [check(i) for i in ids if i in props.P], 'not_applicable': na,
     'notes': 'No hooks in /repo: the functions are extracted from its sources on every run. Known findings: KNOWN_FINDINGS.txt (all repaired).'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks')
