"""Writes seeded/<id>/: planted bugs with their demonstrations (development only, no check reads it).
  mkseeds.py           writes all
  mkseeds.py try ID..  applies each to a copy of /repo, runs the demo with and without it
"""
import os, sys, subprocess, json, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
DEMO = '''#!/bin/bash
# cwd: the repository
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -fpermissive -w -DNDEBUG %s-Isrc/include -Isrc "$here/demo.cc" %s -lfmt -o "$tmp/demo"
ulimit -t 60
"$tmp/demo"
'''
HEAD = '''#include "signal_tl/ast.hpp"
#include "signal_tl/exception.hpp"
#include "signal_tl/fmt.hpp"
#include "signal_tl/robustness.hpp"
#include "signal_tl/signal.hpp"
#include "robust_semantics/minmax.hpp"
#include <cmath>
#include <iostream>
#include <limits>
using namespace signal_tl;
using namespace signal_tl::signal;
using signal_tl::semantics::compute_robustness;
static const double INF = std::numeric_limits<double>::infinity();
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { std::cout << "fails: " #c "\\n"; bad = 1; } } while (0)
static SignalPtr mk(std::vector<std::pair<double, double>> v) { auto s = std::make_shared<Signal>(); for (auto& x : v) s->push_back(x.first, x.second); return s; }
static bool near(double a, double b) { return a == b || std::fabs(a - b) < 1e-9; }
static bool is(const SignalPtr& s, std::vector<std::pair<double, double>> v) {
  bool ok = s->size() == v.size();
  for (size_t i = 0; ok && i < v.size(); i++) ok = near(s->at_idx(i).time, v[i].first) && near(s->at_idx(i).value, v[i].second);
  if (!ok) std::cout << fmt::format("{}", *s) << "\\n";
  return ok;
}
static Expr atom(std::string n) { return Expr(ast::Predicate{n, ast::ComparisonOp::GE, 0.0}); }
'''
PHEAD = '''#include "signal_tl/parser.hpp"
'''
def write(sid, s, repo='/repo'):
    d = os.path.join(ROOT, 'seeded', sid)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = '/tmp/w/mkseed'
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    files = sorted({e[0] for e in s['edits']})
    for f in files:
        for r in 'ab':
            os.makedirs(os.path.dirname(os.path.join(w, r, f)), exist_ok=True)
            shutil.copy(os.path.join(repo, f), os.path.join(w, r, f))
    for f, old, new in s['edits']:
        p = os.path.join(w, 'b', f); t = open(p).read()
        assert t.count(old) >= 1, (sid, f, old)
        if t.count(old) != 1: raise SystemExit('%s: %d occurrences of %r' % (sid, t.count(old), old))
        open(p, 'w').write(t.replace(old, new))
    out = ''
    for f in files:
        r = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=w, capture_output=True, text=True).stdout
        L = r.split('\n'); L[0] = '--- a/' + f; L[1] = '+++ b/' + f
        out += 'diff --git a/%s b/%s\n' % (f, f) + '\n'.join(L)
    open(d + '/patch.diff', 'w').write(out)
    parser = s.get('parser')
    src = 'src/core/*.cc src/robust_semantics/*.cc' + (' src/parser/*.cc' if parser else '')
    open(d + '/demo.sh', 'w').write(DEMO % (s.get('flags', ''), src)); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cc', 'w').write(HEAD + (PHEAD if parser else '') + s.get('pre', '') + 'int main() {\n  try {\n' + s['demo'].strip('\n') + '\n  } catch (const std::exception& e) { std::cout << "exception: " << e.what() << "\\n"; return 1; }\n  return bad;\n}\n')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def attempt(sid):
    s = SEEDS[sid]; write(sid, s)
    d = os.path.join(ROOT, 'seeded', sid); w = '/tmp/w/try_' + sid
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run('git -C /repo archive HEAD | tar x -C ' + w, shell=True, check=True)
    a = subprocess.run([d + '/demo.sh'], cwd=w, capture_output=True, text=True)
    p = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + w, d + '/patch.diff'], cwd='/', capture_output=True, text=True)
    b = subprocess.run([d + '/demo.sh'], cwd=w, capture_output=True, text=True)
    print(sid, 'unchanged:', a.returncode, a.stdout.strip()[-200:], a.stderr[-400:], '| apply', p.returncode, p.stderr[-200:], '| changed:', b.returncode, b.stdout.strip()[-300:], b.stderr[-200:])
    shutil.rmtree(w, ignore_errors=True)
if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'try':
        from concurrent.futures import ThreadPoolExecutor
        ids = sys.argv[2:] or list(SEEDS)
        for i in ids: write(i, SEEDS[i])
        for i in ids: attempt(i)
    else:
        for i, s in SEEDS.items(): write(i, s)
