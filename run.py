#!/usr/bin/env python3
"""Decides one property: python3 run.py PROPERTY [--tier quick|thorough]

Compiles the property's harnesses together with /repo's current sources to LLVM IR, executes the
IR symbolically (build/symex, see engine/), lets Z3 decide every assertion, replays every
counterexample and a sample of path witnesses against the natively compiled code (ASan + UBSan),
and writes evidence/PROPERTY.json.  Exit 0: held on everything explored, 1: VIOLATION.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SF_REPO', '/repo')
sys.path.insert(0, V)
CXX = '/usr/lib/llvm-18/bin/clang++' if os.path.exists('/usr/lib/llvm-18/bin/clang++') else 'clang++'
INC = ['-std=c++20', '-w', '-Wno-c++11-narrowing', '-I' + V + '/harness', '-I' + V + '/stubs', '-I' + REPO + '/include', '-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/coin']
IRF = ['-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_CPUID',
       '-gline-tables-only', '-emit-llvm', '-c']
NAF = ['-O0', '-g1', '-ffp-contract=off', '-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,vptr,alignment',
       '-fno-sanitize-recover=all']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=66:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')


def build_engine(force=False):
    exe = os.path.join(V, 'build', 'symex')
    src = [os.path.join(V, 'engine', f) for f in sorted(os.listdir(os.path.join(V, 'engine')))]
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()
    stamp = exe + '.stamp'
    if not force and os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    subprocess.check_call(['bash', os.path.join(V, 'engine', 'build.sh'), os.path.join(V, 'build')])
    open(stamp, 'w').write(h)
    return exe


def sh(cmd, timeout, log=None, env=ENV):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b''
        return 'timeout', out.decode(errors='replace') if isinstance(out, bytes) else out


class Run:
    def __init__(self, prop, tier, keep):
        import registry
        self.prop, self.tier = prop, tier
        self.spec = registry.PROPS[prop]
        self.jobs = [j for j in self.spec['jobs'] if tier == 'thorough' or j.get('tier', 'quick') == 'quick']
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tmp = tempfile.mkdtemp(prefix='sx_%s_' % prop)
        self.keep = keep
        self.replay_dir = os.path.join(V, 'build', 'replay', prop) if REPO == '/repo' else os.path.join(self.tmp, 'replay')
        shutil.rmtree(self.replay_dir, ignore_errors=True)

    def compile(self, src, defs):
        key = hashlib.md5((src + ' '.join(defs)).encode()).hexdigest()[:8]
        return os.path.join(self.tmp, os.path.basename(src)[:-4] + '_' + key)

    def build_ir(self, src, defs):
        out = self.compile(src, defs)
        rc, log = sh([CXX] + IRF + INC + defs + [os.path.join(V, 'harness', src), '-o', out + '.bc'], 600)
        return (out + '.bc') if rc == 0 else None, log

    def build_native(self, src, defs):
        out = self.compile(src, defs)
        rc, log = sh([CXX] + NAF + INC + defs + [os.path.join(V, 'harness', src), os.path.join(V, 'harness', 'native.cpp'),
                                                 '-o', out + '.exe', '-rdynamic', '-ldl'] + (['-lipopt'] if src.startswith('i') else []), 800)
        return (out + '.exe') if rc == 0 else None, log

    def symex(self, exe, bc, j, i):
        tier = self.tier
        budget = j.get('budget_' + tier, j.get('budget', 60 if tier == 'quick' else 600))
        out = os.path.join(self.tmp, 'job%d.json' % i)
        cmd = [exe, bc, '--entry', j['entry'], '--out', out, '--theory', j.get('theory', 'real'), '--budget', str(budget),
               '--tbranch', str(j.get('tbranch', 1000)), '--tassert', str(j.get('tassert', 5000 if tier == 'quick' else 60000)),
               '--max-steps', str(j.get('max_steps', 4000000)), '--max-paths', str(j.get('max_paths', 100000)),
               '--witness', str(j.get('witness', 2 if tier == 'quick' else 6))]
        for k, v in j.get('params', {}).items():
            cmd += ['--param', '%s=%d' % (k, v)]
        cmd += j.get('opts', [])
        t0 = time.time()
        rc, log = sh(cmd, budget + 60)
        r = None
        if os.path.exists(out):
            try:
                r = json.load(open(out))
            except ValueError:
                r = None
        return {'job': j, 'rc': rc, 'log': log[-2000:], 'res': r, 'wall': time.time() - t0}

    def replay(self, exe, j, text, timeout=60):
        fd, path = tempfile.mkstemp(dir=self.tmp, suffix='.in')
        os.write(fd, text.encode())
        os.close(fd)
        rc, out = sh([exe, j['entry'], path], timeout)
        return rc, out

    def go(self):
        t0 = time.time()
        sx = build_engine()
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.spec.get('level', 'model_checking')}
        units = sorted({(j['src'], tuple(j.get('defs', []))) for j in self.jobs})
        known = [k for k in load_known() if k.get('property') == self.prop and k.get('status') == 'known']
        results, errors, uncovered = [], [], []
        with cf.ThreadPoolExecutor(8) as ex:
            irf = {u: ex.submit(self.build_ir, u[0], list(u[1])) for u in units}
            natf = {u: ex.submit(self.build_native, u[0], list(u[1])) for u in units}
            irs = {}
            for u, f in irf.items():
                bc, log = f.result()
                irs[u] = bc
                if not bc:
                    errors.append('harness %s does not compile:\n%s' % (u[0], log[:3000]))
            futs = []
            order = sorted(range(len(self.jobs)), key=lambda i: -self.jobs[i].get('weight', 1))
            for i in order:
                j = self.jobs[i]
                bc = irs[(j['src'], tuple(j.get('defs', [])))]
                if bc:
                    futs.append(ex.submit(self.symex, sx, bc, j, i))
            for f in futs:
                results.append(f.result())
            nats = {}
            for u, f in natf.items():
                nats[u], log = f.result()
                if not nats[u] and irs[u]:
                    errors.append('native build of %s failed:\n%s' % (u[0], log[:3000]))
            # replays
            tasks = []
            for r in results:
                if not r['res']:
                    note = 'no result for %s %s: rc=%s %s' % (r['job']['entry'], r['job'].get('params', {}), r['rc'], r['log'][-300:])
                    print('  note:', note)
                    uncovered.append(note)
                    continue
                j = r['job']
                exe = nats[(j['src'], tuple(j.get('defs', [])))]
                if not exe:
                    continue
                par = ''.join('param %s %d\n' % kv for kv in j.get('params', {}).items())
                for c in r['res']['candidates']:
                    text = par + ''.join('in %s %s %s\n' % tuple(x) for x in c['inputs'])
                    tasks.append(('cand', r, c, text, ex.submit(self.replay, exe, j, text, 30)))
                for w in r['res']['witnesses']:
                    tasks.append(('wit', r, None, par + w, ex.submit(self.replay, exe, j, par + w, 60)))
            viol, unrep, knownhit, wit_ok, wit_bad, mism = [], [], [], 0, [], 0
            for kind, r, c, text, f in tasks:
                rc, out = f.result()
                j = r['job']
                fails = [l[7:] for l in out.splitlines() if l.startswith('SXFAIL ')]
                crash = rc not in (0, 1, 7, 9, 'timeout')
                if kind == 'wit':
                    if rc == 0 and 'SXMISMATCH' not in out and 'cover=1' in out:
                        wit_ok += 1
                    elif 'SXMISMATCH' in out or 'cover=0' in out:
                        mism += 1
                        wit_bad.append({'entry': j['entry'], 'params': j.get('params', {}), 'output': out[-600:]})
                    elif rc == 7:
                        mism += 1
                    bad = crash or fails
                    msg = fails[0] if fails else 'crash'
                else:
                    if crash:
                        bad, msg = True, c['msg']
                    elif rc == 'timeout':
                        bad, msg = c['kind'] == 'nontermination', c['msg']
                    else:
                        bad, msg = bool(fails), (c['msg'] if c['msg'] in fails else (fails[0] if fails else ''))
                    if not bad:
                        unrep.append({'entry': j['entry'], 'params': j.get('params', {}), 'msg': c['msg'], 'double_ok': c['double_ok'],
                                      'rc': rc})
                if bad:
                    v = {'entry': j['entry'], 'params': j.get('params', {}), 'msg': msg, 'text': text, 'src': j['src'],
                         'defs': j.get('defs', []), 'out': out[-3000:]}
                    k = next((k for k in known if matches(k, v)), None)
                    if k:
                        knownhit.append((k, v))
                    else:
                        viol.append(v)
        for u, f in irf.items():
            # a unit that stands for a use the property promises, next to one that does compile
            must = [j for j in self.jobs if (j['src'], tuple(j.get('defs', []))) == u and j.get('must')]
            if must and not irs[u] and any(irs[w] for w in irs if w[0] == u[0]):
                v = {'entry': must[0]['entry'], 'params': {}, 'msg': must[0]['must'], 'text': '', 'src': u[0], 'defs': list(u[1]), 'out': f.result()[1][:3000]}
                k = next((k for k in known if matches(k, v)), None)
                if k:
                    knownhit.append((k, v))
                else:
                    viol.append(v)
        seen = set()
        for k, v in knownhit:
            if k['id'] not in seen:
                seen.add(k['id'])
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        lines = []
        for n, v in enumerate(viol[:20]):
            os.makedirs(self.replay_dir, exist_ok=True)
            p = os.path.join(self.replay_dir, '%d.txt' % n)
            with open(p, 'w') as f:
                f.write('# property %s: %s\n# replay: python3 %s/run.py %s --replay %s\n# src %s\n# defs %s\n# entry %s\n' %
                        (self.prop, v['msg'], V, self.prop, p, v['src'], ' '.join(v['defs']), v['entry']))
                f.write(v['text'])
                f.write(''.join('# out: %s\n' % l for l in v['out'].splitlines()))
            lines.append('VIOLATION property=%s replay=%s' % (self.prop, p))
            print('  violated: %s [%s %s]' % (v['msg'], v['entry'], v['params']))
        self.evidence(ev, results, errors, uncovered, viol, unrep, knownhit, wit_ok, wit_bad, mism, time.time() - t0)
        if not self.keep:
            shutil.rmtree(self.tmp, ignore_errors=True)
        else:
            print('kept', self.tmp)
        for l in lines:
            print(l)
        if viol:
            return 1
        if errors:
            print('\n'.join(errors))
        if not any(r['res'] for r in results):
            print('no configuration could be decided')
            return 2
        return 0

    def evidence(self, ev, results, errors, uncovered, viol, unrep, knownhit, wit_ok, wit_bad, mism, wall):
        R = [r['res'] for r in results if r['res']]
        S = lambda k: sum(r[k] for r in R)
        fns, lines = set(), {}
        for r in R:
            fns |= set(r['functions'])
            for f, n in r['lines'].items():
                lines[f] = max(lines.get(f, 0), n)
        samples = []
        for r in results:
            if r['res']:
                for w in r['res']['witnesses'][:1]:
                    samples.append({'entry': r['job']['entry'], 'params': r['job'].get('params', {}), 'path_witness': w.strip().splitlines()[:40]})
        perjob = []
        missing = []
        for r in results:
            j, d = r['job'], r['res']
            if not d:
                perjob.append({'entry': j['entry'], 'params': j.get('params', {}), 'error': str(r['rc'])})
                continue
            miss = [l for l in j.get('expect', []) if not d['cover'].get(l)]
            if miss:
                missing.append({'entry': j['entry'], 'params': j.get('params', {}), 'not_reached': miss})
            complete = not d['timed_out'] and not d['unsupported'] and not d['limit'] and not d['pending'] and not d['undecided']
            perjob.append({'entry': j['entry'], 'params': j.get('params', {}), 'theory': j.get('theory', 'real'), 'complete': complete,
                           'paths': d['paths_ok'], 'infeasible_paths': d['infeasible'], 'unsupported_paths': d['unsupported'],
                           'pending_paths': d['pending'], 'assertions': d['checks'], 'identical_terms': d['structural'],
                           'proved_by_solver': d['proved'], 'undecided': d['undecided'], 'queries': d['queries'],
                           'solver_s': round(d['solver_s'], 2), 'wall_s': round(d['wall_s'], 2), 'reached': d['cover'], 'assertion_kinds': d['check_msgs'],
                           'notes': sorted(set(d['notes']))[:5]})
        ncomplete = sum(1 for p in perjob if p.get('complete'))
        ev['coverage'] = {
            'states': S('paths_ok'), 'transitions': S('forks'), 'traces_validated_against_impl': wit_ok,
            'samples': samples[:8] or ['no path completed'],
            'exploration': 'every feasible path of each harness configuration below; inputs are symbolic within the stated boxes',
            'configurations': len(perjob), 'configurations_completely_decided': ncomplete,
            'assertions': S('checks'), 'assertions_identical_terms': S('structural'), 'assertions_proved_by_solver': S('proved'),
            'assertions_undecided': S('undecided'), 'counterexamples': S('cex'),
            'queries': S('queries'), 'queries_sat': S('q_sat'), 'queries_unsat': S('q_unsat'), 'queries_unknown': S('q_unknown'),
            'solver_s': round(S('solver_s'), 2), 'ir_instructions_executed': S('steps'),
            'functions_encoded': sorted(fns), 'lines_encoded': lines,
            'bounds': self.spec.get('bounds', ''), 'outside': self.spec.get('outside', ''),
            'per_configuration': perjob, 'expected_but_not_reached': missing,
            'counterexamples_not_reproduced': unrep[:20], 'witness_mismatches': mism, 'witness_mismatch_samples': wit_bad[:5],
            'known_findings_hit': sorted({k['id'] for k, _ in knownhit}), 'errors': errors[:5], 'no_result': uncovered[:20],
        }
        ev['assumptions'] = self.spec.get('assumptions', [])
        ev['wall_s'] = round(wall, 2)
        ev['violations'] = len(viol)
        if REPO == '/repo':
            os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
            with open(os.path.join(V, 'evidence', self.prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        c = ev['coverage']
        print('%s %s: %d configurations (%d complete), %d paths, %d assertions (%d identical, %d proved, %d undecided, %d cex), %d queries, '
              'solver %.1fs, %d witnesses replayed (%d mismatched), %d cex not reproduced, %.1fs' %
              (self.prop, self.tier, c['configurations'], ncomplete, c['states'], c['assertions'], c['assertions_identical_terms'],
               c['assertions_proved_by_solver'], c['assertions_undecided'], c['counterexamples'], c['queries'], c['solver_s'], wit_ok, mism, len(unrep), wall))
        for m in missing:
            print('  note: not reached', m)


def load_known():
    p = os.path.join(V, 'known_findings.jsonl')
    if not os.path.exists(p):
        return []
    return [json.loads(l) for l in open(p) if l.strip()]


def matches(k, v):
    m = k.get('match')
    if not m:
        return False
    if m.get('entry') != v['entry'] or m.get('msg') != v['msg']:
        return False
    return all(v['params'].get(a) == b for a, b in m.get('params', {}).items())


def do_replay(prop, path):
    head = {}
    for l in open(path):
        if l.startswith('# ') and ' ' in l[2:]:
            k, v = l[2:].split(' ', 1)
            head[k] = v.strip()
    r = Run(prop, 'quick', False)
    exe, log = r.build_native(head['src'], head.get('defs', '').split())
    rc, out = sh([exe, head['entry'], path], 60) if exe else (1, log[:3000])
    print(out)
    shutil.rmtree(r.tmp, ignore_errors=True)
    return rc if isinstance(rc, int) else 1


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--entry')
    a = ap.parse_args()
    if a.setup:
        build_engine(True)
        sys.exit(0)
    if a.replay:
        sys.exit(do_replay(a.prop, a.replay))
    r = Run(a.prop, a.tier, a.keep)
    if a.entry:
        r.jobs = [j for j in r.jobs if j['entry'] == a.entry]
    sys.exit(r.go())
