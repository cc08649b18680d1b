#!/usr/bin/env python3
"""Does a check notice a changed line? python3 tools/mutate.py FILE.py [ID...]; FILE.py: MUTS = [(id, 'PROP PROP', file, [(old, new), ...])].
Runs the quick checks of the listed properties on a scratch copy of /repo with the change (no evidence is written)."""
import importlib.util, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main():
    sp = importlib.util.spec_from_file_location('b', sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for id, props, f, edits in m.MUTS:
        if sys.argv[2:] and id not in sys.argv[2:]:
            continue
        t = tempfile.mkdtemp(prefix='mu_')
        r = os.path.join(t, 'repo')
        subprocess.check_call(['git', 'clone', '-q', os.environ.get('MUT_SRC', '/repo'), r])
        p = os.path.join(r, 'include/smooth/feedback', f)
        s = open(p).read()
        edits = [(e + (None,))[:3] for e in edits]  # third entry: which occurrence (counted from 0) when there are several
        bad = [o for o, n, k in edits if (s.count(o) != 1 if k is None else s.count(o) <= k)]
        if bad:
            print(id, 'BAD EDIT', [(s.count(o), o) for o in bad], flush=True)
        else:
            for o, n, k in edits:
                i = -1
                for _ in range((k or 0) + 1): i = s.index(o, i + 1)
                s = s[:i] + n + s[i + len(o):]
            open(p, 'w').write(s)
            out = []
            for q in props.split():
                c = subprocess.run('SF_REPO=%s VERIF_NOEV=1 python3 %s/run.py %s' % (r, V, q), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
                v = [l for l in c.stdout.splitlines() if 'violated' in l]
                hit = c.returncode == 1 and 'VIOLATION property=' in c.stdout
                out.append('%s:%s' % (q, 'caught(%d)' % len(v) if hit else 'quiet' if c.returncode == 0 else 'RC%d %s' % (c.returncode, c.stdout[-300:])))
                if hit: break
            print(id, 'CAUGHT' if any('caught' in o for o in out) else '*** MISSED', *out, flush=True)
        shutil.rmtree(t, ignore_errors=True)
main()
