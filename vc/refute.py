"""Looks for an input on which the real code breaks a property: a program of refute/ is compiled with the
current sources and run on numbered cases."""
import os, subprocess, glob, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PARSER = ('C18', 'C19', 'C20')

def build(prop, repo, out):
    n = 'parser' if prop in PARSER else 'core'
    src = [os.path.join(ROOT, 'refute', n + '.cc')]
    dirs = ['core', 'robust_semantics'] + (['parser'] if n == 'parser' else [])
    for d in dirs: src += sorted(glob.glob('%s/src/%s/*.cc' % (repo, d)))
    flags = ['-O1', '-std=c++17', '-fpermissive', '-w', '-g', '-DNDEBUG', '-I%s/src/include' % repo, '-I%s/src' % repo]
    link = ['-lfmt']
    if prop == 'C14':
        flags += ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_DEBUG', '-DFMT_HEADER_ONLY']
        link = []
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, 'refute')
    objs, ps = [], []
    for i, s in enumerate(src):
        o = os.path.join(out, 'r%d.o' % i); objs.append(o)
        ps.append(subprocess.Popen(['g++'] + flags + ['-c', s, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    err = ''
    for p in ps:
        e = p.communicate()[1]
        if p.returncode != 0: err += e[-1500:]
    if err: return None, err
    p = subprocess.run(['g++'] + flags + objs + ['-o', exe] + link, capture_output=True, text=True)
    for o in objs:
        if os.path.exists(o): os.remove(o)
    if p.returncode != 0: return None, p.stderr[-1500:]
    return exe, ''

def search(prop, repo, work, seed, seconds):
    if seconds < 10: return {'note': 'no time was left to look for a failing input'}
    exe = os.path.join(work, 'refute', 'refute')
    err = ''
    if not os.path.exists(exe): exe, err = build(prop, repo, os.path.join(work, 'refute'))
    if exe is None: return {'note': 'the program that looks for a failing input does not compile:\n' + err}
    env = {**os.environ, 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0', 'TMPDIR': work}
    try:
        p = subprocess.run([exe, prop, str(seed), str(int(max(5, min(seconds - 5, 300)))), '8'], capture_output=True, text=True, errors='replace', timeout=seconds + 60, env=env)
    except subprocess.TimeoutExpired:
        return {'note': 'the search for a failing input did not end'}
    m = re.search(r'FOUND seed=(\d+) case=(\d+)\n(.*)', p.stdout, re.S)
    if m and 'NOT FOUND' not in p.stdout:
        cmd = '%s %s %s --case %s' % (exe, prop, m.group(1), m.group(2))
        txt = m.group(3)
        if p.stderr.strip(): txt += '\n' + p.stderr[:3000]
        return {'input': txt.strip(), 'cmd': cmd}
    return {'note': 'search for a failing input: ' + p.stdout.strip()[-300:]}
