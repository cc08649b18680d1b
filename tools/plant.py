#!/usr/bin/env python3
"""Plant bugs: python3 tools/plant.py FILE.py [ID...]; FILE.py defines BUGS = [dict(id, prop, file, edits=[(old, new)], needs, breaks, demo, flags)].
Works in a scratch copy of /repo, checks that the patched tree still passes the tests, that the demo
separates the trees, writes seeded/ID and reports whether the check of the property catches it."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# exit 0: behaviour as promised, nonzero: broken
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -w -O1 -I include -I "$d" -isystem /usr/include/eigen3 %s "$d/demo.cpp" -o "$t/demo" %s
timeout 100 "$t/demo"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, executable='/bin/bash', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def main():
    sp = importlib.util.spec_from_file_location('b', sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    nocheck = '--nocheck' in sys.argv
    for b in m.BUGS:
        if only and b['id'] not in only:
            continue
        t = tempfile.mkdtemp(prefix='sc_')
        r = os.path.join(t, 'repo')
        subprocess.check_call(['git', 'clone', '-q', os.environ.get('MUT_SRC', '/repo'), r])
        for f, old, new in b['edits']:
            p = os.path.join(r, 'include/smooth/feedback', f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'BAD EDIT: %d matches in %s' % (s.count(old), f)); break
            open(p, 'w').write(s.replace(old, new))
        else:
            d = os.path.join(V, 'seeded', b['id'])
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            diff = sh('git diff', cwd=r).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.sh'), 'w').write(HEAD % (b.get('flags', ''), b.get('libs', '')))
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            open(os.path.join(d, 'demo.cpp'), 'w').write(b['demo'])
            for n, src in b.get('files', {}).items():
                if os.path.isdir(src): shutil.copytree(src, os.path.join(d, n))
                else: shutil.copy(src, os.path.join(d, n))
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            a = sh('bash %s/demo.sh' % d, cwd=os.environ.get('MUT_SRC', '/repo')); c = sh('bash %s/demo.sh' % d, cwd=r)
            ok = a.returncode == 0 and c.returncode != 0 and 'error:' not in c.stdout
            tests = []
            changed = set(f for f, _, _ in b['edits'])
            ts = [x for x, need in (('test_qp', {'qp_solver.hpp', 'qp.hpp', 'utils/sparse.hpp'}), ('test_utils_sparse', {'utils/sparse.hpp'}), ('test_static', {'qp_solver.hpp', 'qp.hpp', 'time.hpp', 'traits.hpp'})) if need & changed]
            for x in ts:
                q = sh('set -o pipefail; g++ -std=c++20 -w -O1 -I include -isystem /usr/include/eigen3 tests/%s.cpp -o %s/%s -lgtest -lgtest_main -lpthread && timeout 60 %s/%s | tail -30' % (x, t, x, t, x), cwd=r)
                tests.append((x, q.returncode))
                if q.returncode: print(q.stdout[-600:])
            print(b['id'], 'demo', 'OK' if ok else 'BAD %s %s\n%s\n%s' % (a.returncode, c.returncode, a.stdout[-800:], c.stdout[-800:]), 'tests', tests, flush=True)
            if ok and all(q == 0 for _, q in tests):
                if not nocheck:
                    q = sh('SF_REPO=%s VERIF_NOEV=1 python3 %s/run.py %s' % (r, V, b['prop']))
                    v = [l for l in q.stdout.splitlines() if 'violated' in l]
                    print('   ', 'CAUGHT' if q.returncode == 1 and 'VIOLATION property=' + b['prop'] in q.stdout else '*** MISSED rc=%s %s' % (q.returncode, q.stdout[-300:]), '%d' % len(v), v[:1], flush=True)
            else:
                shutil.rmtree(d)
        shutil.rmtree(t, ignore_errors=True)
main()
