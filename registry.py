"""Which harness configurations decide which property."""
def J(src, entry, params=None, **kw):
    d = dict(src=src, entry=entry, params=params or {})
    d.update(kw)
    return d

PROPS = {}
QP = ['--no-expand']  # keep products of sums factored

# ---- Q01
jobs = []
def q01(e, tier='quick', expect=('Optimal',), **p):
    jobs.append(J('q01.cpp', e, p, expect=list(expect), opts=QP, tier=tier, budget_quick=20, budget_thorough=400, weight=3 if e in ('k12', 'k21s', 'k21d', 's21s') or p else 1))
for e in ['k12', 'k21s', 'k21d', 's21s', 'k21', 'k12l', 'k11f', 'k22']:
    q01(e, **({'scaling': 1} if e[0] == 's' else {}))
q01('k11', polish=1)
for k in [0, 1, 2, 3, 4]:
    q01('k11', kinds=k)
q01('k22', kinds=12)
q01('s11', scaling=1)
q01('s21', scaling=1)
q01('k11f', polish=1)
q01('k11', chk=1, iter=2)
q01('k11', iter=10, chk=9)
q01('k22', iter=10, chk=9)
q01('k12s', 'thorough')
q01('k21', 'thorough', kinds=4)
q01('k32', 'thorough', symb=0, symw=0)
for e in ['k22d', 'k22s']:
    q01(e, 'thorough')
    q01(e, 'thorough', symb=0)
q01('s22', 'thorough', scaling=1, symq=2)
q01('s22s', 'thorough', scaling=1, symq=2, symb=0)
q01('k32', 'thorough', symb=0)
q01('k32', 'thorough', symq=0)
q01('k32', 'thorough', symw=0)
q01('k21', 'thorough', polish=1)
q01('k12', 'thorough', polish=1)
q01('k11', 'thorough', chk=2, iter=4)
q01('k22', 'thorough', iter=30, chk=29)
for k in [3, 4, 30, 14, 22, 21]:
    q01('k22', 'thorough', kinds=k)
QA = ['real arithmetic stands for double arithmetic on symbolic values (constants are folded in doubles); counterexamples are replayed in doubles before they are reported',
      'clang -O2 IR of the harness and the headers; libm sqrt is exact; the clock is modelled']
QB = 'problems up to 3 constraints x 2 variables with concrete P, A from a menu; q, l, u and the warm start are symbolic within boxes (|.| <= 8..16)'
QO = 'larger problems, symbolic P and A, accumulated rounding error, the values produced by more than one stopping check'
PROPS['Q01'] = dict(jobs=jobs, bounds=QB, outside=QO, assumptions=QA,
    note='Every path of the solver for each listed configuration is enumerated and its KKT residuals are decided by the solver for all q, l, u and warm starts in the boxes; P and A come from a menu, floating point is modelled by reals.')

# ---- Q02 / Q03
jobs = []
def q02(e, tier='quick', **p):
    jobs.append(J('q02.cpp', e, p, opts=QP, tier=tier, budget_quick=20, budget_thorough=300, weight=3 if e == 'd21e' or e == 'p21es' else 1))
for k in [0, 12, 55, 21, 11, 22, 1, 10]:
    q02('p21', kinds=k)
    q02('p22', kinds=k)
    q02('p22l', kinds=k)
for k in [11, 22, 12, 21, 10, 20]:
    q02('p21', kinds=k, x=-1)
    q02('p22', kinds=k, x=-1)
q02('p21', kinds=11, symx=1)
q02('p22l', kinds=11, x=-1)
q02('p21s', kinds=11, x=-1)
q02('p21z', symx=1)
q02('p21s')
q02('p21s', kinds=12)
q02('p21e', kinds=34)
q02('p21e', 'thorough', kinds=14)
q02('p21es', kinds=34)
q02('p21', iter=5, chk=4)
q02('p22', kinds=12, iter=5, chk=4)
q02('p21', scaling=1)
for v in [0, 1, 2]:
    for k in [0, 12]:
        for e in ['d11', 'd12', 'd12b', 'd22', 'd22p']:
            q02(e, 'quick' if e != 'd22p' or v < 2 else 'thorough', kinds=k, v=v)
for e in ['d12s', 'd21', 'd21e']:
    q02(e, kinds=4 if e == 'd21e' else 0)
for k in [0, 1, 2, 3]:
    q02('d11p', kinds=k, v=1)
q02('d21p', kinds=22, v=1)
q02('d21p', kinds=11, v=2)
q02('d22', iter=5, chk=4)
q02('d12b', iter=10, chk=9, v=1)
q02('d12b', scaling=1)
for e in ['p21', 'p22', 'd22', 'd22p', 'd12b']:
    for k in [3, 13, 33, 30, 22, 11]:
        q02(e, 'thorough', kinds=k, v=1)
    q02(e, 'thorough', iter=20, chk=19, v=2)
    q02(e, 'thorough', scaling=1, kinds=12)
    q02(e, 'thorough', chk=1, iter=2)
PROPS['Q02'] = dict(jobs=jobs, bounds=QB, outside=QO, assumptions=QA,
    note='All paths per configuration; the feasible (dual feasible) point is part of the symbolic problem; bounded P, A menu; reals for doubles.')

jobs = []
for e in ['e22', 'e22s', 'e22d']:
    for p in [{}, {'both': 1}, {'unlimited': 1}, {'api': 1}, {'scaling': 1, 'symq': 0}, {'iter': 0}]:
        jobs.append(J('q02.cpp', e, p, opts=QP, expect=['PrimalInfeasible']))
PROPS['Q03'] = dict(jobs=jobs, bounds=QB, outside=QO, assumptions=QA,
    note='All paths for every position and kind of contradiction; P, A fixed; other data symbolic.')

# ---- Q04
jobs = []
def q04(e, tier='quick', b=20, **p):
    jobs.append(J('q04.cpp', e, p, opts=QP, tier=tier, budget_quick=b, budget_thorough=300))
for e in ['l11', 'l11f', 'l22', 'l21', 'l11s', 'l11d']:
    for it in [0, 1, 2]:
        q04(e, iter=it)
for e in ['l11', 'l22']:
    for it, c in [(3, 3), (5, 2), (4, 25)]:
        q04(e, iter=it, chk=c, symb=0 if c == 2 else 1, b=10)
q04('l11', iter=1, chk=1)
q04('l11', iter=2, chk=1)
q04('l22', iter=2, chk=2)
q04('l11', iter=2, polish=1)
q04('l11f', iter=2, kinds=3)
q04('l21', iter=3, chk=3, kinds=12)
for e in ['t11', 't11s', 't21']:
    q04(e)
q04('t11', iter=1, chk=1)
q04('t11', iter=3, chk=3)
for e in ['o11', 'o22', 'o21', 'o11s']:
    for c in [1, 2, 25]:
        q04(e, chk=c)
q04('o11', chk=3, iter=9)
for e in ['l11', 'l22', 'l21', 'l11f']:
    q04(e, 'thorough', iter=3, chk=1)
    q04(e, 'thorough', iter=7, chk=3)
    q04(e, 'thorough', iter=3, chk=2, polish=1)
    q04(e, 'thorough', iter=26)
q04('t11', 'thorough', iter=4, chk=1)
q04('t21', 'thorough', iter=5, chk=2)
PROPS['Q04'] = dict(jobs=jobs, bounds=QB + '; iteration limits 0..5 (26 thorough), check intervals 1, 2, 3, 25; clock readings arbitrary non-decreasing within 1e15 ns', outside=QO,
    assumptions=QA, note='Every path for each configuration, clock readings are symbolic; bounded iteration counts; P, A from a menu.')

# ---- Q05
jobs = []
def q05(e, tier='quick', b=15, **p):
    jobs.append(J('q04.cpp', e, p, opts=QP, tier=tier, budget_quick=b, budget_thorough=300))
for e in ['v11', 'v11f', 'v22', 'v22d', 'v22s', 'v12', 'v12s']:
    for it in [0, 1]:
        q05(e, iter=it)
        q05(e, iter=it, upper=1)
for e in ['v11', 'v11f', 'v22']:
    q05(e, iter=2)
q05('v11', iter=2, polish=1)
q05('v11f', iter=2, polish=1)
q05('v22', iter=4, chk=3)
q05('v22s', iter=2, symb=0)
q05('v22', iter=1, cold=1)
q05('v22s', iter=1, cold=1)
for e in ['vs11', 'vs22', 'vs22s']:
    q05(e, iter=1, scaling=1, symq=0)
    q05(e, iter=1, scaling=1, symq=0, upper=1)
q05('vs11', iter=2, scaling=1, symq=0)
for e in ['w22', 'w22s', 'u22', 'u22d', 'u22s']:
    q05(e, iter=1)
q05('u22', iter=2)
for e in ['v22', 'v22s', 'v22d', 'v12', 'v12s', 'u22s']:
    q05(e, 'thorough', iter=2, polish=1)
    q05(e, 'thorough', iter=2, scaling=1, symq=0)
    q05(e, 'thorough', iter=6, chk=2)
PROPS['Q05'] = dict(jobs=jobs, bounds=QB, outside=QO, assumptions=QA,
    note='Objective compared as a polynomial in the inputs on every path; P, A from a menu; few iterations.')

# ---- Q06
jobs = []
def q06(e, tier='quick', b=15, **p):
    jobs.append(J('q06.cpp', e, p, opts=QP, tier=tier, budget_quick=b, budget_thorough=300))
for e in ['i11', 'i22', 'i22d', 'i22s', 'i12', 'i12s', 'i21', 'i21s']:
    q06(e)
for e in ['i22', 'i22s', 'i22d', 'ibad', 'ibads', 'it', 'iys', 'izzs']:
    q06(e, scaling=1, symq=0)
for e in ['f11', 'f11d', 'f11s', 'f22', 'f22d', 'f22s', 'f12', 'f12s', 'f21', 'f21s', 'fl']:
    for act, kinds in [(0, 0), (1, 0), (2, 0), (12, 0), (21, 0), (1, 4), (1, 21), (12, 12)]:
        if act < 10 and kinds < 10 or e[1] == '2':
            q06(e, 'quick' if kinds != 4 or e in ('f11', 'f12', 'f22') else 'thorough', act=act, kinds=kinds)
q06('f22', act=1, chk=1)
q06('f22', act=12, iter=5, chk=4)
q06('f11', act=1, polish=1)
for e in ['a11', 'a22', 'a22d', 'a22s', 'a12', 'a21', 'a21s']:
    q06(e)
for e in ['a22', 'a22s', 'at']:
    q06(e, scaling=1, symq=0)
for e in ['f22', 'f22d', 'f22s', 'f21', 'f12', 'f21s', 'f12s']:
    for act, kinds in [(11, 0), (22, 0), (1, 10), (2, 2), (1, 34), (11, 44), (0, 33)]:
        q06(e, 'thorough', act=act, kinds=kinds)
        q06(e, 'thorough', act=act, kinds=kinds, iter=30, chk=29)
PROPS['Q06'] = dict(jobs=jobs, bounds=QB + '; optima parametrised by symbolic primal and dual points for every set of active rows listed', outside=QO, assumptions=QA,
    note='The optimum is part of the symbolic problem (q and bounds are derived from it); P, A from a menu.')

# ---- Q07
jobs = []
def q07(e, tier='quick', b=15, **p):
    jobs.append(J('q07.cpp', e, p, opts=QP, tier=tier, budget_quick=b, budget_thorough=300))
for h in range(12):
    for e in ['h22', 'h22d', 'h22s']:
        q07(e, hist=h)
    for e in (['g22s', 'g22d', 'n22s', 'm21s', 'm21d'] if h in (3, 4, 5, 6, 7, 8, 10, 11) else []):
        q07(e, hist=h)
for h in [0, 3, 5]:
    q07('h22', hist=h, iter=2)
    q07('h22', hist=h, iter=1, cold=1)
    q07('h22s', hist=h, iter=1, cold=1)
    q07('hs22', hist=h, scaling=1, symq=0)
    q07('hs22s', hist=h, scaling=1, symq=0)
    q07('h22', hist=h, infeas=1)
    q07('h22s', hist=h, iter=2, symq=0, symw=0)
for h in range(12):
    for e in ['z22s', 'l12s']:
        q07(e, hist=h)
    q07('z22s', 'thorough', hist=h, iter=2, symb=0)
    q07('z22d', 'thorough', hist=h)
for h in range(12):
    for e in ['h22s', 'h22d', 'm21s', 'm21d', 'h21', 'h21s']:
        if e[0] == 'h' or h in (3, 4, 5, 6, 7, 8, 10, 11):
            q07(e, 'thorough', hist=h, iter=2, symb=0)
            q07(e, 'thorough', hist=h, iter=2, symw=0, polish=1)
PROPS['Q07'] = dict(jobs=jobs, bounds=QB + '; histories of up to four operations on up to two solver objects (reuse, copy, move, assignment, self-assignment, re-analysis with other dimensions or sparsity)',
    outside=QO + '; longer histories', assumptions=QA, note='Both results are compared as terms over the inputs on every path; listed histories only.')

# ---- Q08
jobs = []
def q08(e, tier='quick', b=15, **p):
    jobs.append(J('q07.cpp', e, p, opts=QP, tier=tier, budget_quick=b, budget_thorough=300))
for e in ['sd22', 'ss22', 'ds22', 'ss21', 'sd21', 'ss12', 'ss11', 'sd11']:
    q08(e)
    q08(e, cold=1)
    q08(e, iter=0)
for e in ['zs22', 'zs12']:
    q08(e)
    q08(e, cold=1)
for e in ['sd22', 'ss22', 'ss21', 'ss12']:
    q08(e, upB=1)
    q08(e, upA=1)
for e in ['sd11', 'ss11']:
    for l in [1, 2]:
        q08(e, iter=2, loose=l, symw=0)
        q08(e, iter=2, loose=l, symb=0)
for e in ['sd22', 'ss22', 'ss21']:
    for l in [1, 2]:
        q08(e, iter=2, loose=l, symw=0, symq=0)
for e in ['sd22', 'ss22', 'ss21', 'sd21', 'ss11']:
    for k in [3, 4, 34, 12]:
        if k < 10 or e[2] == '2':
            q08(e, kinds=k)
for e in ['sss22', 'sss11']:
    q08(e, scaling=1, symq=0)
    q08(e, scaling=1, symq=0, upB=1)
for e in ['ff22', 'ff22s', 'ss22']:
    q08(e, fn=1)
    q08(e, fn=1, cold=1)
for e in ['up22', 'up22d', 'up22s', 'up12', 'up12s']:
    q08(e, iter=1)
    q08(e, iter=2, symw=0, symq=0)
q08('up22', iter=2)
for e in ['ups22', 'ups22s', 'up12', 'up12s']:
    q08(e, scaling=1, symq=0)
q08('up22', iter=2, polish=1, symw=0, symq=0)
q08('up22s', iter=2, polish=1, symw=0, symq=0)
for e in ['sd22', 'ss22', 'ss21']:
    for l in [1, 2]:
        q08(e, 'thorough', iter=2, loose=l, symw=0)
        q08(e, 'thorough', iter=2, loose=l, symb=0)
for e in ['up22s', 'up22d', 'up12', 'up12s']:
    q08(e, 'thorough', iter=2, symb=0)
    q08(e, 'thorough', iter=2, symw=0, polish=1)
PROPS['Q08'] = dict(jobs=jobs, bounds=QB + '; iterates compared after one or two iterations, exit codes up to a factor 1 + 2^-10 in the tolerance', outside=QO, assumptions=QA,
    note='Iterates of the representations compared on every pair of paths; P, A from a menu; few iterations.')

# ---- Q11
jobs = []
def q11(e, tier='quick', b=20, **p):
    jobs.append(J('q07.cpp', e, p, opts=QP, tier=tier, budget_quick=b, budget_thorough=300))
for e in ['v22', 'v22d', 'v22s', 'v21s', 'v12', 'v11', 'v11s', 'vl12s']:
    q11(e)
    q11(e, iter=0)
    q11(e, iter=2, symq=0, symw=0, reps=2)
for e in ['v22', 'v22d', 'v22s']:
    for k in [3, 4, 12]:
        q11(e, kinds=k, fn=1)
for e in ['v11', 'v11s', 'v12', 'v21s', 'v22']:
    q11(e, iter=1, chk=1, symq=0, symw=0, polish=1)
    q11(e, iter=1, chk=1, symb=0, symq=0, polish=1)
    q11(e, iter=2, chk=2, symb=0, symw=0)
for e in ['v11', 'v11s']:
    q11(e, iter=2, chk=1, symb=0, symw=0, polish=1)
    q11(e, iter=2, chk=1, symq=0, symw=0, polish=1, reps=2)
for e in ['vs22', 'vs22s']:
    q11(e, scaling=1, symq=0)
    q11(e, scaling=1, symq=0, reps=2)
for e in ['v22', 'v22d', 'v22s', 'v12', 'v21s', 'vl12s']:
    q11(e, 'thorough', iter=2, chk=1, polish=1)
    q11(e, 'thorough', iter=3, chk=2, symq=0, polish=1, reps=2)
PROPS['Q11'] = dict(jobs=jobs, bounds=QB + '; one or two consecutive calls with and without output, no time limit', outside=QO + '; what is printed; runs limited by time (printing takes time)', assumptions=QA + ['std::cout is replaced by an object that ignores what it is given'], note='Results with and without output compared as terms on every path.')

# ---- Q09
jobs = []
def q09(e, tier='quick', b=15, src='q06.cpp', **p):
    p['scaling'] = 1
    jobs.append(J(src, e, p, opts=QP, tier=tier, budget_quick=b, budget_thorough=300))
for e in ['s11', 's21', 's21s']:
    q09(e, src='q01.cpp')
for e, qb in [('fzz', 1), ('fzzs', 1), ('fo', 1), ('fos', 1), ('fy', 8), ('fys', 8), ('ft', 1024), ('fts', 1024), ('fl', 1)]:
    for act in [0, 1, 2, 12] if e[1] in 'zoy' else [0, 1, 2]:
        q09(e, act=act, qb=qb)
for e in ['fm', 'fms']:
    for act in [0, 1, 2]:
        q09(e, act=act, qb=1, qb8=1)
for e in ['fbad', 'fbads']:
    for act in [0, 1, 12]:
        q09(e, 'quick' if act == 0 else 'thorough', act=act, qb=64, symx=0)
for e in ['zzz', 'zzzs', 'zo', 'zos', 'zy', 'zt', 'zl', 'zls', 'zzzd', 'zod']:
    q09(e, iter=1)
    q09(e, iter=1, cold=1)
for e in ['zo', 'zzz', 'zys', 'zl']:
    q09(e, iter=2)
for e in ['ibad', 'ibads', 'it', 'izz', 'izzs', 'io', 'ios', 'iy', 'iys']:
    q09(e, symq=0)
for e in ['zzzs', 'zos', 'zt', 'zbad', 'zbads']:
    q09(e, 'thorough', iter=2)
    q09(e, 'thorough', iter=26)
q09('s22', 'thorough', src='q01.cpp', symq=2)
PROPS['Q09'] = dict(jobs=jobs, bounds=QB + '; badly scaled and degenerate data (zero rows, zero columns, no cost) with condition up to 2^24', outside=QO + '; q outside the box in which the cost scaling is constant',
    assumptions=QA, note='Fixed points, finiteness and unscaled tolerances decided on every path; data from a menu.')

# ---- Q10
jobs = []
def q10(e, tier='quick', b=20, **p):
    jobs.append(J('q10.cpp', e, p, opts=QP, tier=tier, budget_quick=b, budget_thorough=400, expect=['Optimal'] if tier == 'quick' else []))
q10('p11')
q10('p11f')
q10('p11s')
q10('p11d')
for k in [1, 2]:
    q10('p11', kinds=k)
    q10('p11f', kinds=k)
q10('p11', upper=1, symw=0)
q10('p11', piter=1, symw=0)
q10('p21', symw=0)
q10('p21r', symw=0)
q10('p11', iter=4, chk=3, symw=0)
for e in ['p21', 'p21s', 'p21r', 'p12']:
    q10(e, 'thorough')
    q10(e, 'thorough', symb=0)
    q10(e, 'thorough', symq=0)
q10('ps11', 'thorough', scaling=1)
q10('p11', 'thorough', piter=5)
PROPS['Q10'] = dict(jobs=jobs, bounds=QB, outside=QO, assumptions=QA,
    note='Polished and unpolished run compared on every path; KKT of the polished point decided; P, A from a menu, one or two constraints.')

# ---- S01-S03
SA = ['clang -O2 IR of the harness and the headers; Eigen is executed, not modelled', 'real arithmetic stands for double arithmetic; both sides perform the same operations up to rounding']
def S(prop, entries, note, bounds, outside):
    jobs = [J('s01.cpp', e, p, tier=t, budget_quick=20, budget_thorough=200) for e, p, t in entries]
    PROPS[prop] = dict(jobs=jobs, bounds=bounds, outside=outside, assumptions=SA, note=note)
ent = []
for e in ['bd22c', 'bd22r', 'bd13c', 'bd31r', 'bscc', 'bscr', 'bsrc', 'bsrr']:
    ent += [(e, {}, 'quick'), (e, {'defaults': 1}, 'quick')]
ent += [('bd22c', {'dyn': 1}, 'quick'), ('bd22c', {'dyn': 2}, 'quick'), ('bd22r', {'dyn': 1}, 'quick'), ('bd22r', {'dyn': 2}, 'quick'), ('bscc', {'comps': 0}, 'quick'), ('bsrr', {'comps': 0}, 'quick'), ('bscr', {'comps': 0}, 'quick')]
S('S01', ent, 'Every offset, pattern, storage order, compression state and flag is enumerated as a path; values and scale are symbolic.',
  '3x4 destinations with 4 patterns, 2x2, 1x3, 3x1 and 2x3 blocks with 4 patterns, all offsets; symbolic values and scale', 'larger matrices, other patterns')
ent = [(e, p, 'quick') for e in ['idc', 'idr'] for p in [{}, {'defaults': 1}]] + [(e, p, 'quick') for e in ['zc', 'zr'] for p in [{}, {'block': 1}, {'bad': 1}, {'block': 1, 'bad': 1}]] + [('mc', {'dense': 1}, 'quick'), ('mr', {}, 'quick')]
S('S02', ent, 'All sizes, offsets, patterns and storage states are paths; values symbolic, including symbolic zeros; stored infinities for clearing.', '3x4 (marking: 2x3) matrices, 4 patterns, compressed and uncompressed, whole and block expressions', 'larger matrices, other patterns')
ent = [(e, p, 'quick') for e in ['fog222', 'fog222s', 'fog132', 'fog213s', 'fog312s', 'fog221r'] for p in [{}, {'offs': 0}, {'pre': 0}, {'r0': 2, 'c0': 1}] + ([{'pat': k} for k in (1, 2, 3)] if e[-1] != '2' else [])]
S('S03', ent, 'The chain rule is decided as a polynomial identity in all entries of the given derivatives.', 'up to 3 outputs, 3 intermediate and 3 input dimensions; dense and sparse factors, 4 patterns, offsets', 'larger dimensions')

# ---- T01
jobs = []
for e in ['ed', 'ef', 'mns', 'mms', 'ms', 'mmin', 'modd', 'mtns', 'mtms', 'mtodd', 'mfm', 'mtfm', 'pfm', 'tfm', 'pns', 'pus', 'pms', 'ps', 'pmin', 'podd', 'tns', 'tus', 'tms', 'todd']:
    jobs.append(J('t01.cpp', e, {}, tassert=20000, budget=60, weight=2 if e[0] in 'pt' else 1))
for e in ['fns', 'fus', 'fodd', 'ftns', 'ftus', 'ftodd']:
    jobs.append(J('t01.cpp', e, {}, tassert=20000, budget=60))
for e in ['pns', 'pus', 'tns', 'tus', 'tms']:
    jobs.append(J('t01.cpp', e, {'far': 1}, tassert=20000, budget=60))
for e in ['fd', 'ff', 'dd', 'df']:
    jobs.append(J('t01.cpp', e, {}, theory='fp', tassert=30000, budget=60, weight=3))
    jobs.append(J('t01.cpp', e, {'round': 1}, theory='fp', tassert=300000, budget=600, tier='thorough'))
PROPS['T01'] = dict(jobs=jobs, bounds='times and durations up to 2^20 s (floating point) or 1e9 ticks and 1000 s (chrono types with periods 1e-9, 1e-6, 1e-3, 1, 60, 3/7 s); 4e18 ticks where ticks are integers of 1e-9, 1e-6 or 3/7 s',
    outside='overflow of the representation; ROS time (K02)', assumptions=['chrono types are decided with exact real arithmetic for the intermediate double and integer truncation; conversions of integers beyond 2^53 to double round by an arbitrary amount; floats additionally bit-precisely (IEEE) where stated'],
    note='Round trip, difference and zero laws decided for all values in range; rounding of the floating point round trip only in the thorough tier.')

# ---- I01
jobs = []
for e in ['cbc', 'cbr']:
    for p in [{}, {'zero': 1}, {'hess': 0}, {'order': 1, 'reps': 3}]:
        jobs.append(J('i01.cpp', e, p, budget=40))
for w in range(7):
    jobs.append(J('i01.cpp', 'fin1', {'want': w}, budget=40))
PROPS['I01'] = dict(jobs=jobs, bounds='one nonlinear program with 3 variables and 2 constraints (sparse, row and column storage), every call order listed, symbolic point, multipliers, bounds and sigma',
    outside='larger programs; the interior of Ipopt itself', assumptions=['clang IR of compat/ipopt.hpp against the installed Ipopt headers; real arithmetic for doubles'],
    note='All callbacks are decided against the NLP for symbolic points; one program shape.')

# ---- I02
jobs = []
GE = '-D_GLIBCXX_EXTERN_TEMPLATE=0'
for p in [{}, {'user': 0}, {'user': 0, 'rvalue': 1}, {'hess': 1}, {'hess': 2}, {'hess': 1, 'first': 1, 'user': 0}, {'warm': 1}, {'warm': 1, 'hess': 1, 'rvalue': 1}, {'warm': 2}, {'warm': 3, 'hess': 2}]:
    jobs.append(J('i02.cpp', 'sh', p, budget=40, defs=[GE, '-DKIND=1']))
    if p.get('hess') != 1:
        jobs.append(J('i02.cpp', 'sn', p, budget=40, defs=[GE, '-DKIND=2'], must='programs without second derivatives cannot be solved'))
PROPS['I02'] = dict(jobs=jobs, bounds='one nonlinear program with 3 variables and 2 constraints, with and without second derivatives; symbolic start, option values, evaluation point, final point, multipliers and four kinds of status; option lists listed',
    outside='other options; repeated keys in the option lists; the interior of Ipopt', assumptions=["Ipopt's application object is a stand-in that follows its documentation (the Hessian is exact and the start is not warm unless told otherwise; later settings of an option win)", 'real arithmetic for doubles'],
    note='The whole of solve_nlp_ipopt is executed; what Ipopt is told, asked and returns is decided for symbolic values.')

# ---- C01
ST = 'the smooth library is not installed: /verif/stubs/smooth stands for it (vectors, scalars, two nilpotent Lie groups with polynomial maps, dual-number differentiation, Radau nodes)'
RA = 'real arithmetic stands for double arithmetic on symbolic values'
def C(prop, src, entries, bounds, outside, note, assumptions=(ST, RA), budget=20, **kw):
    jobs = []
    for en in entries:
        tier = 'quick'
        if en.startswith('!'):
            tier, en = 'thorough', en[1:]
        e, *ps = en.split()
        d = {}
        for p in ps:
            k, v = p.split('=')
            d[k] = int(v)
        jobs.append(J(src, e, d, tier=tier, budget_quick=budget, budget_thorough=300, **kw))
    PROPS[prop] = dict(jobs=jobs, bounds=bounds, outside=outside, assumptions=list(assumptions), note=note)
C('C01', 'c01.cpp', ['h1', 'hsd', 'htp', 'h2 n=2', 'hh n=2', 'h1 gains=2 des=2', 'he lim=0', 'hh lim=0', 'h2 lim=0 n=4', 'h2 gains=0', 'h2 des=0 gains=3', 'hh des=0 gains=3',
  't2', 'th', 'tsd', 'ttp', 't2 mode=1', 'th mode=1', 'ttp mode=1', 't2 mode=2', 'th mode=2', 'ttp mode=2', '!h1 n=4', '!h2', '!hh', '!he', '!htp n=4', '!hsd n=5'],
  'histories of up to four operations (calls at arbitrary times, integral reset, copy, move and assignment of the controller); states, velocities, gains, windup limit, reference symbolic; R1, R2, two nilpotent groups; double, chrono duration and time_point times',
  'longer histories, groups with transcendental exponentials', 'Output compared with a reference recurrence on every path.')
C('E01', 'e01.cpp', ['eu1', 'eu2', 'eu2 nl=1', 'euh', 'euh nl=1', 'eue', 'eue nl=1 cc=1', 'eu1 dt=1', 'eu1 dt=1 steps=2', 'eu1 dt=1 steps=3', 'eu1 nl=1 dt=1 steps=3', 'eu2 dt=1 steps=2', 'eu2 nl=1 dt=1 steps=2', 'euh dt=1 steps=2 cc=1',
  'r1', 'r2', 'r1 steps=2', 'r2 steps=3', 'rh const=1', 'rh const=1 steps=2', 'z2', 'zh', 'z2 dt=1', 'zh dt=1', '!eu1 dt=1 steps=5', '!euh nl=1 dt=1 steps=2', '!eue dt=1 steps=3 cc=1', '!r2 steps=5'],
  'one to three (thorough: five) steps, time span in [1/64, 4], step in [1/64, 8]; symbolic mean, covariance, process noise (independent lower triangle), affine and quadratic time-dependent dynamics on R1, R2 and two nilpotent groups; Euler and RK4',
  'more steps, negative or zero maximal step, other steppers', 'Mean and covariance compared with the definition as polynomials; Jacobian computed independently by dual numbers.')
C('E02', 'e01.cpp', ['u11', 'u21 cb=1', 'u21 cl=1', 'u21 diag=1', 'u12 cb=1 cr=1', 'u12', 'u12 fix=1', 'u22 cb=1 cl=1 cr=1', 'u22 cb=1 fix=1 cl=1', 'uh1 cb=1 cl=1', 'uh1 cb=1 diag=1', 'uh1 fix=1', 'uh2 cb=1 cl=1 cr=1 cg=1', 'uh2 cb=1 cl=1 fix=1', 'u22 cl=1 cr=1', 'u21', 'u22 cb=1 cr=1',
  '!u12', '!u22', '!uh1', '!uh2', '!u22 fix=1', '!uh2 fix=1', '!uh1 cb=1', '!u12 cr=1', '!uh1 cl=1'],
  'states of dimension 1 to 3 (vectors and a nilpotent group), one or two measurements; covariance L L\' with symbolic L, affine measurement maps, R symbolic with independent lower triangle; the larger cases with part of the data fixed (partial)',
  'larger dimensions, all data symbolic at once', 'Covariance and mean compared with the closed-form Bayesian update (explicit 1x1 and 2x2 inverses); Eigen LDLT is executed, every pivoting order is a path.')

# ---- M01-M03
MA = (ST, RA, 'mesh operations are executed on every combination of the listed operations; Legendre-Gauss-Radau nodes come from the stand-in')
C('M01', 'm01.cpp', [f'{e} same=0 {p}' for e in ['m12hist', 'm24hist', 'm33hist', 'm26hist'] for p in ['steps=1', 'ctor=1 steps=0 maxn=6', 'ctor=1 steps=1 maxn=3 menu=2', 'maxd=6 menu=2']] +
  ['m510hist same=0 steps=1', 'm510hist same=0 ctor=1 steps=0 maxn=11'] + ['!m24hist same=0 steps=3 maxd=6 menu=2', '!m12hist same=0 steps=3 maxd=4 menu=2', '!m33hist same=0 steps=3 maxd=5 menu=2', '!m26hist same=0', '!m510hist same=0 menu=2'],
  'meshes with degree limits (1,2), (2,4), (3,3), (2,6), (5,10); construction with up to five intervals and up to two (thorough: three) of: refine one interval, raise or lower all degrees, set a degree, refine by errors; symbolic query time and errors', 'longer histories, other limits',
  'Query time and errors symbolic; the operations are split into paths.', assumptions=MA)
C('M02', 'm01.cpp', [f'{e} mesh={m}' for e in ['m12poly', 'm24poly', 'm33poly', 'm26poly', 'm510poly', 'm12int', 'm24int', 'm33int', 'm26int', 'm510int'] for m in range(5)] +
  [f'{e} {p}' for e in ['m12int', 'm24int', 'm33int', 'm26int', 'm510int'] for p in ['mesh=3 p=1', 'mesh=4 p=2 d=2', 'mesh=2 ext=0', 'mesh=3 ext=0 p=1 vec=1', 'mesh=0 ext=0', 'mesh=1 p=3', 'mesh=0 k=1 p=1']] +
  [f'{e} glob=1 mesh={m}' for e in ['m12int', 'm24int', 'm33int'] for m in range(4)] + [f'{e} mesh=0 k={k}' for e in ['m26poly', 'm510poly'] for k in range(1, 6)],
  'five meshes for each of five pairs of degree limits, all degrees from 1 to 11; polynomials with symbolic coefficients in [-1,1] on every interval, symbolic evaluation time, derivatives up to the third', 'other meshes; coefficients outside [-1,1]',
  'Every coefficient vector and evaluation time is decided at once; exactness up to 1e-9 (differentiation 1e-8, derivative evaluation 1e-6).', assumptions=MA)
C('M03', 'm01.cpp', [f'{e} part=0 {p}' for e in ['m12hist', 'm24hist', 'm33hist', 'm26hist'] for p in ['steps=1', 'ctor=1 steps=0 maxn=6', 'ctor=1 steps=1 maxn=3 menu=2', 'maxd=6 menu=2']] +
  ['m510hist part=0 steps=1 menu=7', 'm24hist part=0 steps=1 menu=7', 'm510hist part=0 ctor=1 steps=0 maxn=11'] + ['!m24hist part=0 steps=3 maxd=6 menu=2', '!m12hist part=0 steps=3 maxd=4 menu=2', '!m33hist part=0 steps=3 maxd=5 menu=2', '!m26hist part=0', '!m510hist part=0 menu=2'],
  'as M01; error values symbolic below the target and from a menu above it (the refinement uses a logarithm)', 'longer histories; arbitrary errors above the target',
  'Structure compared with a reference on every path.', assumptions=MA)

# ---- F01-F04
FA = (ST, RA, 'user functions are cubic polynomials of time, state and input with analytic derivatives (dense or sparse); derivatives are compared with symbolic derivatives of the returned values')
FN = lambda x, shapes: [f'{x}{sh}{d}{k} mesh={m} seed={s}' for sh in shapes for d in (0, 1, 2) for k in 'ds' for m, s in ([(0, 1)] if d == 0 else [(1, 1), (2, 2)] if d == 1 else [(2, 1), (4, 3)])]
FB = 'meshes with 1 to 6 intervals and degrees 1 to 3 (6 different ones); shapes (nx,nu,nf) listed in the evidence; every time, state, input and multiplier symbolic in [-2,2]; storage fresh, reused, or compressed and reused'
C('F01', 'f01.cpp', FN('e', ['111', '212', '123']) + [f'{e} mesh={m} scale=1' for e in ['e1112d', 'e2122s', 'e1232d', 'e2121s', 'e1230d'] for m in (2, 5)] + [f'{e} mesh=2 reuse={q} scale={q - 1}' for e in ['e1112d', 'e2122s', 'e2121d', 'e1232s'] for q in (1, 2)] +
  [f'!{e} mesh={m} reuse={q} scale={q % 2}' for e in ['e1112s', 'e2122d', 'e1232d'] for m in range(6) for q in range(3)], FB, 'other functions and meshes; numerical differentiation', 'Values, first and second derivatives decided as polynomial identities.', assumptions=FA, max_steps=40000000, defs=['-DKIND=0'])
C('F02', 'f01.cpp', FN('i', ['111', '212', '123']) + [f'{e} mesh={m}' for e in ['i1112d', 'i2122s', 'i1232d', 'i2121s', 'i1230d'] for m in (3, 5)] + [f'{e} mesh=2 reuse={q}' for e in ['i1112d', 'i2122s', 'i2121d', 'i1232s'] for q in (1, 2)] +
  [f'!{e} mesh={m} reuse={q}' for e in ['i1112s', 'i2122d', 'i1232d'] for m in range(6) for q in range(3)], FB, 'other functions and meshes; numerical differentiation', 'Values, first and second derivatives decided as polynomial identities.', assumptions=FA, max_steps=40000000, defs=['-DKIND=1'])
C('F03', 'f01.cpp', FN('d', ['111', '212', '121']) + [f'{e} mesh={m}' for e in ['d1112d', 'd2122s', 'd1212d', 'd2121s', 'd1210d'] for m in (3, 5)] + [f'{e} mesh=2 reuse={q}' for e in ['d1112d', 'd2122s', 'd2121d', 'd1212s'] for q in (1, 2)] +
  [f'!{e} mesh={m} reuse={q}' for e in ['d1112s', 'd2122d', 'd1212d'] for m in range(6) for q in range(3)], FB, 'other functions and meshes; numerical differentiation', 'Values, first and second derivatives decided as polynomial identities.', assumptions=FA, max_steps=40000000, defs=['-DKIND=2'])
C('F04', 'f01.cpp', [f'{e} mesh={m} kind={k}' for e in ['err1', 'err2'] for m in range(6) for k in (0, 1) if not (e == 'err2' and k and m in (3, 5))] + ['err1 mesh=0 t0=0 tf=1', 'err1 mesh=5 t0=2 tf=4', 'err2 mesh=0 deg=0', 'err1 mesh=4 kind=1 t0=0 tf=1'] + ['!err2 mesh=3 kind=1', '!err2 mesh=5 kind=1'],
  'the same meshes; polynomial trajectories of the supported degree with symbolic coefficients, state dimension 1 and 2, four time spans; a symbolic input perturbation in any one interval', 'other dynamics, non-polynomial trajectories', 'Estimates decided for all coefficients at once; zero up to 1e-7.', assumptions=(ST, RA), defs=['-DKIND=3'])

# ---- O01-O03
OE = ['1', '1s', '2', '2s', '3']
OB = 'seven meshes with 1 to 3 intervals and degrees 1 to 4; five problem shapes (nx,nu,nq,ncr,nce): (1,1,1,1,1), (2,1,1,2,3), (2,1,2,1,2), (1,2,2,2,1) with dense or sparse derivatives; every variable and multiplier symbolic'
C('O01', 'o01.cpp', [f'p{e} mesh={m}' for e in OE for m in range(7)] + [f'p{e} mesh={m} inf=1 mv=1 seed=2' for e in OE for m in (0, 2)] + [f'p{e} mesh=2 twice=1 seed=3' for e in OE] + [f'!p{e} mesh={m} twice=1 seed={s}' for e in OE for m in range(7) for s in range(4, 9)],
  OB, 'other problem functions, shapes and meshes', 'Constraint values, bounds and objective compared with a direct transcription; polynomial identities.', assumptions=FA, max_steps=40000000)
C('O02', 'o01.cpp', [f'd{e} mesh={m}' for e in OE for m in range(7)] + [f'd{e} mesh={m} before=1 seed=2' for e in OE for m in (0, 2, 4)] + [f'!d{e} mesh={m} before=2 seed={s}' for e in OE for m in range(7) for s in range(3, 6)],
  OB, 'other problem functions, shapes and meshes; numerical differentiation', 'Derivatives compared with the symbolic derivatives of the returned values.', assumptions=FA, max_steps=40000000)
C('O03', 'o01.cpp', [f'{x}{e} mesh={m}' for x in 'rm' for e in OE for m in range(7)] + [f'!m{e} mesh={m} D={d}' for e in OE for m in range(7) for d in (3, 4, 5, 6)],
  OB, 'other shapes and meshes', 'Round trip on the same mesh and conversion to a refined mesh, compared with interpolation.', assumptions=FA, max_steps=40000000)

# ---- O04
P3 = lambda e, ps='': [f'{e} part={p}{ps}' for p in (0, 1, 2)]
def O04():
    jobs = []
    for kind, en in [(0, P3('v2') + P3('v1') + ['bv2', 'bv1'] + P3('v2', ' seed=3 deg=3') + P3('v2', ' bent=1 before=1') + P3('v1', ' bent=1 before=1')),
                     (1, P3('h1') + ['bh1', 'bh1 bent=1'] + P3('h1', ' seed=2 before=1') + P3('h1', ' bent=1 before=2') + P3('h1', ' deg=3 seed=4')),
                     (2, P3('hh') + ['bhh'] + P3('hh', ' bent=1 before=1 seed=2') + ['!hh part=2 deg=3', '!hh part=0 deg=3', '!hh part=1 deg=3']),
                     (3, P3('e1') + ['be1'] + P3('e1', ' deg=1 before=1 bent=1 seed=3')),
                     (4, ['f5 part=2 deg=1', 'f6 part=2 deg=1', 'f6 part=0 deg=1', 'f6 part=1 deg=1 fix=1', '!f5 part=2 deg=2']),
                     (5, ['f8 part=2 deg=1 fix=1', 'f8 part=2 deg=1 fix=1 bent=1', '!f8 part=2 deg=1']),
                     (6, ['f14 part=2 deg=1 fix=1 few=1'])]:
        C('O04', 'o04.cpp', en, '', '', '', witness=0 if kind == 6 else 2, defs=[f'-DKIND={kind}'], max_steps=4000000000, opts=['--max-expand', '10000'], budget=150)
        jobs += PROPS['O04']['jobs']
    PROPS['O04'] = dict(jobs=jobs, bounds='state spaces R1, R2, two nilpotent groups of dimension 3 and 4, filiform groups of dimension 5, 6, 8 (thorough) and 14 (three deviation coordinates); input spaces R1, R2 and a group; polynomial problem functions of degree 1 to 3 with sparse derivatives; nominal trajectories g0 exp(t v) with symbolic g0, v (degree-one functions for the larger groups), curved ones g0 exp(t v + t^2 w) except for what the documentation excludes; every time, deviation and multiplier symbolic',
      outside='groups whose exponential is not polynomial (Bernoulli numbers beyond the 12th), dense user derivatives (the code requires sparse ones), second derivatives with respect to time on curved trajectories',
      assumptions=[*FA], note='Values compared with the original problem at the lifted points, dynamics with the error dynamics, derivatives with symbolic derivatives of the values.')
O04()

# ---- O05, O06
def O56():
    for prop, pre, note in [('O05', 'fu', 'Every entry of the program compared with a direct linearization; the second-order model is read from the upper triangle.'), ('O06', 'b', 'States and inputs at the nodes compared with the nominal trajectory plus the deviations.')]:
        jobs = []
        for kind, es in [(0, ['v2', 'v1']), (1, ['h1', 'hh'])]:
            en = []
            for e in es:
                if 'f' in pre:
                    en += [f'f{e} mesh={m}' for m in range(7)] + [f'f{e} mesh={m} bent=1 seed=3 inf=1' for m in (0, 2, 3)]
                    en += [f'u{e} mesh={m} how={h}' for m, h in [(0, 0), (0, 1), (1, 2), (2, 3), (3, 4), (4, 8), (5, 11), (6, 5), (2, 15)]]
                    en += [f'!u{e} mesh={m} how={h} seed=4 deg=3 bent=1' for m in range(7) for h in range(0, 16, 3)] + [f'!f{e} mesh={m} deg=3 bent=1 seed={s}' for m in range(7) for s in (5, 6)]
                else:
                    en += [f'b{e} mesh={m}' for m in range(7)] + [f'b{e} mesh={m} bent=1 seed=2' for m in (1, 3)] + [f'!b{e} mesh={m} bent=1 seed={s}' for m in range(7) for s in (4, 5)]
            C(prop, 'o05.cpp', en, 'seven meshes with 1 to 3 intervals and degrees 1 to 4; state spaces R1, R2 and a nilpotent group, input spaces R1, R2 and that group; polynomial problem functions with analytic derivatives; nominal trajectories g0 exp(t v), curved ones g0 exp(t v + t^2 w); every nominal trajectory, duration, bound and solution vector symbolic',
              'end constraints that depend on the integral, other problem functions, shapes and meshes; numerical differentiation', note, assumptions=FA, max_steps=400000000, defs=[f'-DKIND={kind}'], opts=['--max-expand', '10000'], budget=60)
            jobs += PROPS[prop]['jobs']
        PROPS[prop]['jobs'] = jobs
O56()

# ---- O07
def O7():
    en = []
    for e in ['t11', 't21', 'th2', 't12j']:
        en += [e, f'{e} trials=0', f'{e} trials=2 later=1', f'{e} trials=2 later=2', f'{e} nan=1', f'{e} small=1', f'{e} eps=1', f'{e} rnd=1', f'{e} rnd=2 trials=3 later=1']
    en += [f'{e} coord=0' for e in ('t11', 'th2')] + [f'!{e} coord={c}' for e in ('t11', 't21', 'th2', 't12j') for c in range(4)] + [f'!{e} trials=4 later={l}' for e in ('t21', 'th2') for l in (1, 2)]
    C('O07', 'o07.cpp', en, 'state spaces R1, R2 and a nilpotent group, inputs R1, R2, up to three constraints and two integrals; zero to three trials; functions with first or with first and second derivatives; one wrong entry (first, middle, last; every size between 1/64 and 4 (1/8 and 4 for a tolerance of 1/32), or not a number, or below the tolerance) in the first or second derivative of any one function, in all trials, all but the first or only the first; trial points arbitrary',
      'errors close to the tolerance, several wrong entries at once, the accuracy of numerical differentiation (the reference derivatives are exact here), derivatives that depend on more than one coordinate of a symbolic point', 'Verdict of the tester decided for every error and every trial point.', assumptions=FA, max_steps=100000000, opts=['--fork-select'], budget=60)
O7()

# ---- X01, X02
def X12():
    jobs = []
    XB = 'state spaces R1, R2 and a nilpotent group, input spaces R1, R2 and that group; one or two running constraints; 1 to 3 collocation points per interval, one to three intervals; dynamics and constraints polynomial with and without time dependence; time as number, duration or clock time (ticks: concrete instants); one to three calls with weights, desired trajectories and warm start set or reset before each; every instant, state, desired trajectory, weight, horizon and solver outcome symbolic'
    XO = 'unsymmetric weights, copies of a controller (they share the desired trajectory), other problem functions, numerical differentiation, what the solver does with the program (Q properties)'
    for kind, es in [(0, ['x11', 'x21t', 'x12f']), (1, ['xh1', 'xhht']), (2, ['xd21', 'xm11', 'xp11'])]:
        en = []
        for e in es:
            g = kind == 1
            en += [f'{e} first={f} then={t}' for f, t in [(0, 2), (2, 2), (3, -1), (0, 1), (2, 3)]] + [f'{e} rel=1 tz=2 then=4', f'{e} codes=1', f'{e} codes=1 cold=1', f'{e} K=3 first=2 then=-1', f'{e} traj=0', f'{e} mask=21 first=3 then=1 tfix=1', f'{e} mask=42 then=1 tfix=1']
            if kind == 0: en += [f'{e} first=3 then=7 third=2 tfix=1', f'{e} codes=1 then=4 third=0']
            en += [f'!{e} codes=1 then=0 third=0', f'!{e} first=2 then=3 third=7', f'!{e} mask=63 first=1 then=3 seed=3', f'!{e} K=5 seed=4 deg=3', f'!{e} K=6 seed=5 first=3 then=2 rel=1']
        C('X01', 'x01.cpp', en, XB, XO, 'The program handed to the solver compared entry by entry with the linearization at the given instant; the solver is replaced by one that records its arguments, checks that it was prepared for the pattern, and returns an arbitrary solution and code.',
          assumptions=[*FA, 'the QP solver is replaced by a recording one (its own properties: Q01-Q10)'], max_steps=400000000, defs=[f'-DKIND={kind}'], opts=['--max-expand', '10000'], budget=60)
        jobs += PROPS['X01']['jobs']
    PROPS['X01']['jobs'] = jobs
    C('X02', 'x01.cpp', [f'{e} mask={m}' for e in ['c11', 'c12', 'c21', 'ch2', 'c2h'] for m in (0, 1, 2, 21, 42, 63)] + [f'{e} mask={a} again=1 mask2={b}' for e in ['c12', 'c21', 'ch2'] for a, b in ((63, 0), (0, 63), (21, 42))] + [f'!{e} mask={m}' for e in ['c12', 'c21', 'ch2', 'c2h'] for m in range(64)],
      'state and input spaces of dimension 1 to 3 (vectors and a nilpotent group); every symmetric weight matrix with the listed zero patterns, set once or twice; symbolic desired trajectory and instant', 'unsymmetric weights', 'Every entry decided.', assumptions=FA, max_steps=400000000, defs=['-DKIND=3'], opts=['--max-expand', '10000'], budget=60)
X12()

# ---- A01, A02
def A12():
    AB = 'state spaces R1, R2 and a nilpotent group, inputs R1, R2, one or two barriers, zero to two input bounds; polynomial dynamics, barriers (time-varying) and backup laws up to degree 2; one to three look-ahead times with up to three integration steps between them; every state, desired input, horizon, step, gain, weight and bound symbolic'
    AO = 'inputs on groups, other functions, more look-ahead times or steps, numerical differentiation'
    opts = ['--max-expand', '10000', '--fork-select']
    def add(prop, kind, en, note, o=opts):
        old = PROPS[prop]['jobs'] if prop in PROPS else []
        C(prop, 'a01.cpp', en, AB, AO, note, assumptions=[*FA, 'A02: the solver is replaced by a recording one, except where a safe desired input has to be returned unchanged'], max_steps=400000000, defs=[f'-DKIND={kind}'], opts=o, budget=60)
        PROPS[prop]['jobs'] = old + PROPS[prop]['jobs']
    n1 = 'Every entry of the program compared with a reference simulation; on vector spaces the rows also with the symbolic derivative of the simulated state.'
    q0, q1 = [], []
    for e in ['11', '21', '12']:
        q0 += [f'q{e} K={k}' for k in (1, 2, 3)] + [f'q{e} sub=2 seed=3', f'q{e} sub=3 K=1 inf=1', f'q{e} sub=3 df=1 dh=1 seed=2'] + [f's{e} K=2 sub=2', f's{e} K=3 seed=4', f's{e} K=1 sub=3'] + [f'!q{e} K=3 sub=2 seed=5', f'!s{e} K=3 sub=2 seed=6', f'!q{e} K=4 df=1 sub=3', f'!q{e} K=2 db=2 seed=7']
    for e in ['h1', 'h2']:
        q1 += [f'q{e} K={k}' for k in (1, 2)] + [f'q{e} K=3 df=1', f'q{e} sub=2 df=1 seed=3', f'q{e} sub=2 K=1 seed=2 inf=1'] + [f'!q{e} sub=2 few=1 seed=4', f'!q{e} K=3 few=1 seed=5', f'!q{e} sub=3 df=1 dh=1']
    add('A01', 0, q0, n1)
    add('A01', 1, q1, n1)
    n2 = 'The program of each call is compared with the reference; with the real solver a desired input that satisfies all rows is returned unchanged.'
    f0, f1, g0 = [], [], []
    for e in ['11', '21', '12']:
        f0 += [f'f{e}', f'f{e} codes=1 calls=2 K=1', f'f{e} other=1 seed=3', f'f{e} other=1 sub=2 K=1 inf=1', f'!f{e} codes=1 calls=2 other=1 K=2', f'!f{e} calls=2 other=1 K=3 seed=5']
        L = f'g{e} dh=1 df=1 db=1 dtn=16 fixT=1'
        g0 += [L, f'{L} iter=3 calls=1', f'{L} pol=1 seed=3', f'{L} scal=1 calls=1', f'{L} K=1 scal=1 seed=2', f'!{L} K=3 scal=1 pol=1 calls=2', f'!{L} seed=4 scal=1 iter=5']
    for e in ['h1', 'h2']: f1 += [f'f{e} K=1', f'f{e} df=1 other=1', f'f{e} codes=1 K=1', f'!f{e} seed=3 calls=2 df=1']
    add('A02', 0, f0, n2)
    add('A02', 1, f1, n2)
    add('A02', 10, g0, n2, ['--no-expand'])
A12()

# ---- K01, K02
en = ['d12', 'd21', 'dd22', 's12', 's22', 's32', 's23']
en = [f'{e} {p}' for e in en for p in ('', 'fail=1', 'fail=1 warm=1', 'warm=1 lim=3', 'lim=1 sets=1 junk=1', 'lim=2 kinds=12 zp=2 za=1')] + [f'{e} za={z} zp={p}' for e in ('d12', 'dd22', 's22') for z in (0, 1, 2, 6) for p in (1, 3, 7)] + [f'{e} comp=0 zp=2 za=6' for e in ('s22', 's32', 's23')] + ['d12 tiny=1 zp=3', 'd12 tiny=1 za=3', 'd21 tiny=1']
en += [f'!{e} za={z} zp={p} kinds={k} warm=1 fail=1 lim={l}' for e in ('d21', 'dd22', 's22', 's32') for z in (0, 5, 9) for p in (0, 5) for k in (3, 21) for l in (0, 3)]
C('K01', 'k01.cpp', en, 'fixed-size, dynamic and sparse problems with up to 3 constraints and 3 variables, zero patterns listed; every nonzero, bound, warm start, limit and library outcome symbolic; stopping and step parameters two values each', 'other scalar types; the interior of OSQP; a time limit of zero',
  'Every argument handed to the library and everything returned is compared with the given data on every path; OSQP itself is a recording stand-in.', assumptions=('OSQP is not installed: /verif/stubs/osqp has the types of OSQP 0.6, its functions are replaced by recording ones; a failed validation leaves the workspace pointer alone, as in OSQP 0.6', RA), budget=40)
C('K02', 'k02.cpp', ['add', 'add clock=1', 'add clock=2', 'dif', 'two', 'two clock=1'], 'times up to 4e18 ns, offsets up to 1000 s; agreement to 1e-8 s', 'overflow, rounding of offsets above 1000 s', 'Round trip, sums and differences decided for all values; rclcpp is a stand-in.',
  assumptions=('rclcpp is not installed: /verif/stubs/rclcpp stands for its Time and Duration (64-bit nanoseconds)', RA), budget=40)
