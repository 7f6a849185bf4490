"""Development: runs a check against planted bugs, on scratch copies (VERIF_REPO), and reports the outcome."""
import sys, os, subprocess, shutil, json, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(sid, props=None):
    d = os.path.join(ROOT, 'seeded', sid)
    m = json.load(open(d + '/meta.json'))
    w = '/tmp/w/s_' + sid
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run('git -C /repo archive HEAD | tar x -C ' + w, shell=True, check=True)
    subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + w, d + '/patch.diff'], cwd='/', check=True)
    for p in props or [m['property']]:
        t = time.time()
        r = subprocess.run(['python3', 'vc/run.py', p], cwd=ROOT, capture_output=True, text=True, env={**os.environ, 'VERIF_REPO': w, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
        L = r.stdout.strip().split('\n')
        print(sid, p, 'exit', r.returncode, '%.0f s' % (time.time() - t), '|', L[-1][:160], r.stderr[-300:])
        for l in L[:-1]:
            if l.startswith('failed'): print('     ', l[:190])
        sys.stdout.flush()
    shutil.rmtree(w, ignore_errors=True)
for s in sys.argv[1:]:
    one(*s.split(':')) if ':' not in s else one(s.split(':')[0], s.split(':')[1].split(','))
