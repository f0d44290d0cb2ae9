from fractions import Fraction
from vg import *
from drive import Broken
from factors import generic, GEN
GS = ['src/FGraph/factor.cpp', 'src/FGraph/node.cpp', 'src/FGraph/factor_graph.cpp', 'src/FGraph/factor_graph_solve.cpp', 'src/FGraph/factor_graph_solve_dense.cpp', 'src/common/optimizer.cpp']
def grp(c, *pre):
    import re, os
    src = open(os.path.join(os.path.dirname(__file__), '..', 'harness', 'graph.cpp')).read()
    es = [e for e in re.findall(r'^H (H_\w+)\(|[;}] H (H_\w+)\(', src, re.M)]; es = [a or b for a, b in es]
    return c.group('graph', 'graph.cpp', GS, entries=[e for e in es if not pre or any(e.startswith(p) for p in pre)])
HU, QU, CA, MC, RA = 1, 0, 2, 3, 4      # kernel numbers of the specification
class T:   # a graph: variable dimensions, anchored variables, measurements (dimension, variables, kernel)
    def __init__(s, dims, anch, facs):
        s.dims = dims; s.anch = set(anch); s.facs = facs; s.free = [i for i in range(len(dims)) if i not in s.anch]
        s.col = {}; p = 0
        for i in s.free: s.col[i] = p; p += dims[i]
        s.N = p; s.row = []; p = 0
        for d, _, _ in facs: s.row.append(p); p += d
        s.M = p
def small(anch): return T([1, 2, 1], [anch] if anch >= 0 else [], [(2, [0, 1], QU), (1, [1, 2], QU)])
def top(mask): return T([1, 2, 3, 2], [i for i in range(4) if mask >> i & 1], [(2, [1], HU), (3, [0, 2], QU), (2, [1, 3], CA), (3, [0, 1, 3], MC), (2, [1, 3], RA)])
BIG = T([2, 1, 3, 1, 2, 1, 1, 3, 2], [0, 4, 7], [(2, [0, 1], QU), (1, [2, 3], HU), (3, [1, 2], CA), (1, [3, 4], MC), (2, [4, 5], QU), (1, [6], HU), (1, [5, 6], QU), (2, [6, 7], RA), (1, [7, 8], QU), (2, [1, 8], QU), (1, [8], CA), (1, [2, 5, 8], QU)])
MIX = T([6, 3, 6, 4, 6, 3], [0], [(6, [0, 2], QU), (3, [2, 1], HU), (6, [2, 4], CA), (4, [4, 3], QU), (6, [4], MC), (1, [2, 5], QU), (3, [0, 5], QU)])
def mkchain(n): return T([1] * n, [11], [(1, [i, i + 1], QU) for i in range(n - 1)] + [(2 if k == 4 else 1, [u], CA if k & 1 or k == 4 else QU) for k, u in enumerate((0, 5, 10, 18, n - 1))])
CHAIN_N = 110   # as in the harness
CHAIN = mkchain(CHAIN_N)
LARGE = (('H_big_gn', BIG), ('H_mix_gn', MIX), ('H_chain_gn', CHAIN)); LARGED = (('H_big_de', BIG), ('H_mix_de', MIX), ('H_chain_de', CHAIN))
def large(c, G, table):
    """the larger graphs; where the code compares sizes with literals that these do not reach, a chain long enough to reach them"""
    for nm, t in table:
        e = c.entry(G, nm)
        if e: yield nm, t, e
    n = c.grown(G, CHAIN_N, 190 if c.tier != 'quick' else 0)
    if n and n <= 720:
        nm = table[-1][0]; G2 = c.group('chain%d' % n, 'graph.cpp', GS, entries=[nm], flags=('-DCHAIN_N=%d' % n,)); e = c.entry(G2, nm)
        if e: yield nm, mkchain(n), e
class Sim:
    """the specified system at concrete field values of one interpretation"""
    def __init__(s, env, t): s.env = env; s.t = t
    def x0(s): return [[s.env.var('x%d[%d,0]' % (i, j)) for j in range(d)] for i, d in enumerate(s.t.dims)]
    def args(s, k, x): return [v for i in s.t.facs[k][1] for v in x[i]]
    def res(s, k, x): o = s.env.opaque('RES%d' % k, tuple(s.args(k, x))); return [o[i] for i in range(s.t.facs[k][0])]
    def jac(s, k, x):
        a = s.args(k, x); o = s.env.opaque('JAC%d' % k, tuple(a + a)); d = s.t.facs[k][0]; w = len(a)
        return [[o[i * w + j] for j in range(w)] for i in range(d)]
    def chi(s, k, x): v = s.env.opaque('CHI%d' % k, tuple(s.res(k, x)))[0]; return v * v % P
    def chis(s, x): return [s.chi(k, x) for k in range(len(s.t.facs))]
    def err(s, x): return sum(s.chis(x)) % P
    def W(s, k): d = s.t.facs[k][0]; return [[s.env.var('W%d[%d,%d]' % (k, min(i, j), max(i, j))) for j in range(d)] for i in range(d)]
    def kern(s, k, x):
        c = s.chi(k, x); t = s.t.facs[k][2]; sg = s.env.sgn
        if t == QU: return 1
        if t == CA: return inv(1 + c)
        if t == MC: return inv((1 + c) * (1 + c))
        ins = sg(1 - c) > 0
        if t == HU: return 1 if ins else inv(root(c))
        return 1 if ins else 0
    def blocks(s, k, x):
        J = s.jac(k, x); out = []; p = 0
        for i in s.t.facs[k][1]:
            d = s.t.dims[i]; out.append((i, [r[p:p + d] for r in J])); p += d
        return out
    def system(s, x, robust=True):
        """A, W, L, b at states x"""
        t = s.t; A = [[0] * t.N for _ in range(t.M)]; Wm = [[0] * t.M for _ in range(t.M)]; r = []
        for k, (d, ns, _) in enumerate(t.facs):
            for i, B in s.blocks(k, x):
                if i in t.anch: continue
                for a in range(d):
                    for b in range(t.dims[i]): A[t.row[k] + a][t.col[i] + b] = B[a][b]
            w = s.kern(k, x) if robust else 1; W = s.W(k)
            for a in range(d):
                for b in range(d): Wm[t.row[k] + a][t.row[k] + b] = w * W[a][b] % P
            r += s.res(k, x)
        At = [list(q) for q in zip(*A)]; AtW = rmatmul(At, Wm)
        return A, Wm, rmatmul(AtW, A), [q[0] for q in rmatmul(AtW, [[v] for v in r])]
    def step(s, x, dx, sign=1):
        out = [list(v) for v in x]
        for i in s.t.free:
            for j in range(s.t.dims[i]): out[i][j] = (out[i][j] + sign * dx[s.t.col[i] + j]) % P
        return out
    def solve(s, L, b, lam=0): return rsolve([[v + (lam if i == j else 0) for j, v in enumerate(r)] for i, r in enumerate(L)], b)
def memo(env, k, f):
    if k not in env.memo: env.memo[k] = f()
    return env.memo[k]
def sim(env, t):
    k = ('sim', id(t))
    if k not in env.memo: env.memo[k] = Sim(env, t)
    return env.memo[k]
def gnrun(env, t, steps=2):
    """states, systems and totals of consecutive Gauss-Newton solves"""
    k = ('gn', id(t), steps)
    if k not in env.memo:
        s = sim(env, t); x = s.x0(); out = []
        for _ in range(steps):
            S = s.system(x); y = s.step(x, s.solve(S[2], S[3]), -1); out.append((x, S, y)); x = y
        env.memo[k] = out
    return env.memo[k]
def symW(*ts):
    def f(env):
        for t in ts:
            for k, (d, _, _) in enumerate(t.facs):
                env.setm('W%d' % k, [[env.rnd('W', k, min(i, j), max(i, j)) for j in range(d)] for i in range(d)])
    return f
def sp(e, nm, r, c, val, upper=False):
    """pairs for a matrix output; of a large sparse one only the stored entries are listed"""
    if (nm, 5001, 0) in e.outs:
        ks = sorted(k[1:] for k in e.outs if k[0] == nm and k[1] < 5000 and (not upper or k[2] >= k[1])); have = set(ks)
        def rest(env): return int(any(v and (i, j) not in have for i, q in enumerate(val(env)) for j, v in enumerate(q) if not upper or j >= i))
        return [('%s[%d,%d]' % (nm, i, j), e.o(nm, i, j), (lambda env, i=i, j=j: val(env)[i][j])) for i, j in ks] + [('%s[missing]' % nm, e.g.const(0), rest)]
    return [('%s[%d,%d]' % (nm, i, j), e.o(nm, i, j), (lambda env, i=i, j=j: val(env)[i][j])) for i in range(r) for j in range(c) if not upper or j >= i]
def vec(e, nm, n, val): return [('%s[%d]' % (nm, i), e.o(nm, i, 0), (lambda env, i=i: val(env)[i])) for i in range(n)]
def states(e, nm, dims, val, only=None): return [('%s[%d,%d]' % (nm, i, j), e.o(nm, i, j), (lambda env, i=i, j=j: val(env)[i][j])) for i, d in enumerate(dims) for j in range(d) if only is None or i in only]
def aux(env, dims): return [[env.var('a%d[%d,0]' % (i, j)) for j in range(d)] for i, d in enumerate(dims)]
def sizes(c, e, t, suf):
    for nm, w in (('A' + suf, (t.M, t.N)), ('W' + suf, (t.M, t.M)), ('L' + suf, (t.N, t.N)), ('v' + suf, (t.N, None))):
        got = (e.const(nm, 5000, 0), e.const(nm, 5000, 1) if w[1] is not None else None)
        c.require(got == w, '%s:%s-size' % (e.name, nm), '%s: %s is %s, expected %s' % (e.name, nm, got, w))
        if got != w: return False
    return True
MASKS = (0, 1, 2, 4, 8, 5, 9, 6, 10, 12)
DMASKS = (0, 1, 2, 4, 8, 5, 9, 10)
def gn_entries(c, G, masks=MASKS):
    for m in masks:
        e = c.entry(G, 'H_gn_%d' % m)
        if e: yield m, top(m), e
# ---------------------------------------------------------------- C21
def C21(c):
    G = grp(c, 'H_book', 'H_rm', 'H_mix_gn', 'H_chain_gn', 'H_gn_0', 'H_gn_5', 'H_gn_10')
    def eq(e, nm, i, j, w, what): c.require(e.const(nm, i, j) == w if (nm, i, j) in e.outs else False, '%s:%s' % (e.name, nm), '%s: %s is %s, expected %s' % (e.name, what, e.const(nm, i, j) if (nm, i, j) in e.outs else 'missing', w))
    for nm in ('H_book_s', 'H_book_d', 'H_book_g'):
        e = c.entry(G, nm); t = BIG
        if not e: continue
        s = 0
        for i, d in enumerate(t.dims):
            s += 0 if i in t.anch else d
            eq(e, 'nid', i, 0, i, 'id returned for variable %d' % i); eq(e, 'ngid', i, 0, i, 'id of the variable stored under %d' % i); eq(e, 'nsame', i, 0, 1, 'identity of variable %d' % i); eq(e, 'nn', i, 0, i + 1, 'number of variables'); eq(e, 'sd', i, 0, s, 'state dimension after variable %d' % i)
            fs = [k for k, f in enumerate(t.facs) if i in f[1]]
            eq(e, 'nf', i, 0, len(fs), 'number of measurements registered with variable %d' % i)
            for q, k in enumerate(fs): eq(e, 'nfid', i, q, k, 'measurement %d of variable %d' % (q, i))
        o = 0
        for k, (d, ns, _) in enumerate(t.facs):
            o += d
            eq(e, 'fid', k, 0, k, 'id returned for measurement %d' % k); eq(e, 'fgid', k, 0, k, 'id of the measurement stored under %d' % k); eq(e, 'fsame', k, 0, 1, 'identity of measurement %d' % k); eq(e, 'nfac', k, 0, k + 1, 'number of measurements'); eq(e, 'od', k, 0, o, 'observation dimension after measurement %d' % k)
            eq(e, 'nl', k, 0, len(ns), 'neighbours of measurement %d' % k)
            for q, i in enumerate(ns): eq(e, 'nlid', k, q, i, 'neighbour %d of measurement %d' % (q, k))
    e = c.entry(G, 'H_rm')
    if e:
        a, b = [0, 1, 2, 3], [1, 3]; ops = [None, (a, 1), (a, 1), (b, 0), (a, 3), (a, 0), (b, 3), (a, 2), (a, 2)]
        for k, op in enumerate(ops):
            had = op is None or op[1] in op[0]
            if op and had: op[0].remove(op[1])
            eq(e, 'rr', k, 0, int(had), 'result of removal %d' % k)
            for i, (l, w) in enumerate((('ra', a), ('rb', b))):
                eq(e, 'rn', k, i, len(w), 'number of measurements left with variable %d after removal %d' % (i, k))
                got = sorted(e.const(l, k, q) for q in range(len(w)) if (l, k, q) in e.outs)
                c.require(got == w, '%s:%s' % (e.name, l), '%s: after removal %d variable %d lists %s, expected %s' % (e.name, k, i, got, w))
    for nm, t, e in large(c, G, LARGE[1:]):
        if not e: continue
        eq(e, 'sd', 0, 0, t.N, 'state dimension'); eq(e, 'od', 0, 0, t.M, 'observation dimension'); eq(e, 'nn', 0, 0, len(t.dims), 'number of variables'); eq(e, 'nfac', 0, 0, len(t.facs), 'number of measurements')
        for i in range(len(t.dims)): eq(e, 'ngid', i, 0, i, 'id of the variable under %d' % i); eq(e, 'nsame', i, 0, 1, 'identity of variable %d' % i); eq(e, 'nf', i, 0, sum(i in f[1] for f in t.facs), 'number of measurements registered with variable %d' % i)
    for m, t, e in gn_entries(c, G, (0, 5, 10)):
        s = o = 0
        for i, d in enumerate(t.dims):
            s += 0 if i in t.anch else d
            eq(e, 'nid', i, 0, i, 'id of variable %d' % i); eq(e, 'sd', i, 0, s, 'state dimension'); eq(e, 'nsame', i, 0, 1, 'variable under id %d' % i)
            fs = [k for k, f in enumerate(t.facs) if i in f[1]]; eq(e, 'nf', i, 0, len(fs), 'measurements of variable %d' % i)
            for q, k in enumerate(fs): eq(e, 'nfid', i, q, k, 'measurement %d of variable %d' % (q, i))
        for k, (d, _, _) in enumerate(t.facs): o += d; eq(e, 'fid', k, 0, k, 'id of measurement %d' % k); eq(e, 'od', k, 0, o, 'observation dimension'); eq(e, 'fsame', k, 0, 1, 'measurement under id %d' % k)
        eq(e, 'sdq', 0, 0, s, 'state dimension after solving'); eq(e, 'odq', 0, 0, o, 'observation dimension after solving'); eq(e, 'nn2', 0, 0, 4, 'number of variables after solving'); eq(e, 'nn', 0, 0, 4, 'number of variables'); eq(e, 'nfac', 0, 0, 5, 'number of measurements')
    return 'Constant propagation through interleaved additions of 9 variables (mixed dimensions, three anchored) and 12 measurements (one to three variables) in every graph class, and through graphs that are solved twice; ids, registrations and totals after every addition are compared with the specified sums.'
# ---------------------------------------------------------------- C22
def C22(c):
    G = grp(c, 'H_gn', 'H_lm3', 'H_lm1', 'H_ds', 'H_de', 'H_big', 'H_mix', 'H_chain'); g = G[0]
    for m, t, e in gn_entries(c, G):
        if sizes(c, e, t, '1') and sizes(c, e, t, '2'):
            x = lambda env: sim(env, t).x0()
            pr = states(e, 's1', t.dims, x, t.anch) + states(e, 's2', t.dims, x, t.anch) + states(e, 'b1', t.dims, lambda env: aux(env, t.dims), t.anch)
            pr += sp(e, 'A1', t.M, t.N, lambda env: gnrun(env, t)[0][1][0])
            c.compare(e, pr, symW(t), n=4)
    for nm, t, e in large(c, G, LARGE):
        if e and sizes(c, e, t, '1'): c.compare(e, states(e, 's1', t.dims, lambda env: sim(env, t).x0(), t.anch) + sp(e, 'A1', t.M, t.N, lambda env: gnrun(env, t, 1)[0][1][0]), symW(t), n=3)
    for nm, a in (('H_lm1', 2), ('H_lm3', 0)):
        e = c.entry(G, nm)
        if e: t = small(a); c.compare(e, states(e, 's', t.dims, lambda env, t=t: sim(env, t).x0(), t.anch), symW(t), n=8)
    for nm in ('H_ds_nr', 'H_ds_lms', 'H_ds_lme'):
        e = c.entry(G, nm)
        if e: t = small(1); c.compare(e, states(e, 's', t.dims, lambda env, t=t: sim(env, t).x0(), t.anch), symW(t), n=8)
    for m in DMASKS:
        e = c.entry(G, 'H_de_%d' % m)
        if not e: continue
        t = top(m)
        for o, w in (('gr', t.N), ('hr', t.N), ('hc', t.N)): c.require(e.const(o) == w, '%s:%s' % (e.name, o), '%s: the dense system has size %s, expected %s' % (e.name, e.const(o), w))
        c.compare(e, states(e, 's2', t.dims, lambda env, t=t: sim(env, t).x0(), t.anch) + states(e, 's3', t.dims, lambda env, t=t: sim(env, t).x0(), t.anch), symW(t), n=3)
    return 'Ten placements of anchored variables (eight in the dense solver) with uninterpreted measurements: state graphs of anchored variables are their inputs after every solving method, system sizes are those of the free variables, and every Jacobian column is where the free variables put it.'
# ---------------------------------------------------------------- C23
def C23(c):
    G = grp(c, 'H_gn', 'H_grow', 'H_big_gn', 'H_mix_gn', 'H_chain_gn', 'H_lm1'); g = G[0]
    def one(e, t, suf, val, n=5):
        if not sizes(c, e, t, suf): return
        pr = sp(e, 'A' + suf, t.M, t.N, lambda env: val(env)[0]) + sp(e, 'W' + suf, t.M, t.M, lambda env: val(env)[1], True) + sp(e, 'L' + suf, t.N, t.N, lambda env: val(env)[2]) + vec(e, 'v' + suf, t.N, lambda env: val(env)[3])
        c.compare(e, pr, symW(t), n=n, what='build ' + suf)
    for m, t, e in gn_entries(c, G):
        one(e, t, '1', lambda env: gnrun(env, t)[0][1]); one(e, t, '2', lambda env: gnrun(env, t)[1][1])
    for nm, t, e in large(c, G, LARGE):
        if e: one(e, t, '1', lambda env: gnrun(env, t, 1)[0][1], 4)
    e = c.entry(G, 'H_grow')
    if e:
        t1, t2 = grow()
        one(e, t1, '1', lambda env: gnrun(env, t1, 1)[0][1]); one(e, t2, '2', lambda env: growrun(env, t1, t2)[1])
    return 'Adjacency, weight, information matrices and right-hand side of two consecutive builds are compared with the block assembly of uninterpreted residuals, Jacobians and errors at the states of that build, for every kernel, mixed dimensions, ten anchor placements, a nine-variable graph and additions between solves.'
def grow():
    t1 = T([1, 2], [1], [(2, [0, 1], QU)]); t2 = T([1, 2, 3, 2], [1], [(2, [0, 1], QU), (4, [2, 3], HU), (2, [0, 3], CA)])
    return _gr.setdefault('t', (t1, t2))
_gr = {}
def growrun(env, t1, t2):
    x, S, y = gnrun(env, t1, 1)[0]; s = sim(env, t2); z = s.x0(); z = y + z[2:]; S2 = s.system(z)
    return z, S2, s.step(z, s.solve(S2[2], S2[3]), -1)
# ---------------------------------------------------------------- C24
def C24(c):
    G = grp(c, 'H_gn', 'H_grow', 'H_big_gn', 'H_mix_gn', 'H_chain_gn', 'H_lm_gn'); g = G[0]
    for m, t, e in gn_entries(c, G):
        pr = states(e, 's1', t.dims, lambda env: gnrun(env, t)[0][2]) + states(e, 's2', t.dims, lambda env: gnrun(env, t)[1][2]) + states(e, 'b1', t.dims, lambda env: aux(env, t.dims)) + states(e, 'b2', t.dims, lambda env: aux(env, t.dims))
        c.compare(e, pr, symW(t), n=5)
    for nm, t, e in large(c, G, LARGE):
        if e: c.compare(e, states(e, 's1', t.dims, lambda env: gnrun(env, t, 1)[0][2]) + states(e, 'b1', t.dims, lambda env: aux(env, t.dims)), symW(t), n=4)
    e = c.entry(G, 'H_grow')
    if e:
        t1, t2 = grow()
        pr = states(e, 's1', t1.dims, lambda env: gnrun(env, t1, 1)[0][2]) + states(e, 's2', t2.dims, lambda env: growrun(env, t1, t2)[2]) + [x for x in states(e, 's1', t2.dims, lambda env: sim(env, t2).x0(), {2, 3})]
        c.compare(e, pr, symW(t2), n=5)
    e = c.entry(G, 'H_lm_gn')
    if e:   # undamped after a damped solve
        t = small(2)
        def want(env):
            s = sim(env, t); x = [[env.val(e.o('s1', i, j).n) for j in range(d)] for i, d in enumerate(t.dims)]; S = s.system(x)
            return s.step(x, s.solve(S[2], S[3]), -1)
        c.compare(e, states(e, 's2', t.dims, want), symW(t), n=5)
    return 'State graphs after one and two Gauss-Newton solves equal the previous state minus the own segment of INV(A^T W A) A^T W r, for ten anchor placements, mixed dimensions, a nine-variable graph, additions between solves and a solve after a damped one.'
# ---------------------------------------------------------------- C25
RAT = 1 << 40
def lam0(env): return Fraction(1 + env.rnd('l') % 13, 7) * Fraction(2) ** [-20, -10, 0, 0, 10, 20][env.rnd('ls') % 6]   # the damping a caller may give, small to large
def setq(env, name, v): env.inp[name] = frac(Fraction(v))
def sq(env, *k): v = env.rnd(*k); return v * v % P
def chkcons(env, diff, tol, fid):
    sg = env.sgn
    if diff == 0: raise Resample('zero difference')
    if sg(diff) < 0 and sg(tol - diff) < 0: raise Resample('inconsistent order')
    if fid is not None and sg(frac(Fraction(1, 4)) - fid) > 0 and sg(fid - frac(Fraction(4, 5))) > 0: raise Resample('inconsistent order')
    if fid is not None and sg(diff) > 0 and sg(frac(Fraction(1, 4)) - fid) <= 0 and sg(fid) < 0: raise Resample('inconsistent order')
def evlimit(c, g, e, evs, lim, what):
    """no set of mutually compatible events (their path guards never contradict) is larger than the limit"""
    gs = []
    for ev in evs: gs.append({int(w.lstrip('!')): w[0] != '!' for w in ev[3].split()})
    def comp(a, b): return all(b.get(k, v) == v for k, v in a.items())
    best = 0
    def grow(i, cur):
        nonlocal best
        best = max(best, len(cur))
        if best > lim: return
        for j in range(i, len(gs)):
            if all(comp(gs[j], q) for q in cur): grow(j + 1, cur + [gs[j]])
    grow(0, [])
    c.require(1 <= best <= lim, '%s:limit' % e.name, '%s: a path with %d %s under a limit of %d iterations' % (e.name, best, what, lim))
def lam_of(env, e, S, elip=False, nm='L'):
    """damping in the last built system (checked to be one multiple of the identity, or of the diagonal)"""
    n = len(S); vals = []
    for i in range(n):
        d = env.val(e.outs[(nm, i, i)])
        vals.append(((d - S[i][i]) if not elip else (d * inv(S[i][i]) - 1)) % P)
    return vals
def lmsetup(t):
    f = symW(t)
    def g(env): f(env); setq(env, 'lambda[0,0]', lam0(env)); env.inp['tol[0,0]'] = sq(env, 'tol')
    return g
def lamcheck(c, e, env, vals, prev, kind, fid):
    """obligations on the damping of the next iteration"""
    if len(set(vals)) != 1: return 'the damping is not the same multiple of every diagonal entry'
    q = ratrec(vals[0] * inv(prev) % P, RAT)
    if q is None: return None if kind in ('poor', None) else 'the next damping is not a rational multiple of the previous one'
    if kind == 'rej' and not q > 1: return 'after a rejected step the damping is multiplied by %s' % q
    if kind == 'good' and not 0 <= q <= 1: return 'after a step that did as well as predicted the damping is multiplied by %s' % q
    return None
def scenarios(n):
    """outcome of each iteration but the last (free)"""
    import itertools
    return [tuple(q) + (None,) for q in itertools.product(('rej', 'good', 'go', 'stop'), repeat=n - 1) if 'stop' not in q[:-1]]
DEEP, DEEPO, DEEPN = 8, 9, 24      # longest histories: damped graph solve, generic damped methods, Newton-Raphson
DS = ['H_dl%d' % k for k in range(4, DEEP + 1)]
def longs(tier, DEEP):
    """histories of many iterations: all rejected, all accepted, alternating, one switch, mixed"""
    R, A = 'rej', 'go'; out = []
    for n in (DEEP, 5) if tier == 'quick' else range(4, DEEP + 1):
        m = n - 1; h = m // 2
        out += [tuple([R] * m), tuple([A] * m), tuple(([R, A] * n)[:m]), tuple(([A, R] * n)[:m]), tuple([R] * h + [A] * (m - h)), tuple([A] * h + [R] * (m - h)), tuple([R] * h + ['good'] + [R] * (m - h - 1)), tuple([A] * h + ['good'] + [A] * (m - h - 1)), tuple(([R, R, A, A, A] * n)[:m])]
    return [q + (None,) for q in out]
def steer(env, w, cur, model, rest, tol, sqr=True):
    """a value for the one free error term at the new state with which the step has the outcome w"""
    for salt in range(80):
        r = env.rnd('steer', cur, salt); diff = model * frac(Fraction(17 + salt, 20)) % P if w == 'good' else (-r * r if w == 'rej' else r * r) % P
        need = (cur - diff - rest) % P
        if sqr and not isqr(need): continue
        try: chkcons(env, diff, tol, diff * inv(model) % P)
        except Resample: continue
        acc = env.sgn(diff) > 0; stop = acc and env.sgn(tol - diff) > 0
        if (w == 'rej') == acc or (w == 'stop') != stop: continue
        return need
    raise Resample('cannot steer')
def C25(c):
    G = grp(c, 'H_lm', 'H_dl'); g = G[0]
    es = {}
    for nm in ('H_lm1', 'H_lm2', 'H_lm3', 'H_lm1n', 'H_lm1b', 'H_lm2b', 'H_lm_twice', 'H_lm_gn', 'H_lm1_mix', 'H_lm1_chain', 'H_lm1_big', *DS):
        e = c.entry(G, nm, issues=False)
        if not e: continue
        es[nm] = e
        for k, msg, loc, guard in e.issues: c.violation('%s:%s' % (nm, k), '%s: %s%s' % (k, msg, ' (the number of iterations is not bounded by the limit)' if k == 'loop-bound' else ''), loc)
        lim = int(nm[4:]) if nm[:4] == 'H_dl' else {'1': 1, '2': 2, '3': 3}.get(nm[4:5], 2)
        for f in (0, 1) if lim < 4 else (): evlimit(c, g, e, [ev for ev in e.events if ev[0] == 'jac' and g.nodes[ev[1]][2] == f], lim, 'system builds')
    fam = [((('H_lm1', 'H_lm2'), small(2))), (('H_lm1b', 'H_lm2b', 'H_lm3'), small(0)), (('H_lm1n',), small(-1)), (('H_lm1_mix',), MIX), (('H_lm1_chain',), CHAIN), (('H_lm1_big',), BIG)]
    for names, t in fam:
        for n, nm in enumerate(names, 1):
            if nm not in es: continue
            for sc in scenarios(n):
                lmcheck(c, g, es, names, n, t, sc)
    names = ('H_lm1b', 'H_lm2b', 'H_lm3', *DS)
    if all(nm in es for nm in names):
        for sc in longs(c.tier, DEEP): lmcheck(c, g, es, names, len(sc), small(0), sc, 3 if c.tier == 'quick' else 6)
    # the damping of a second solve starts at its own argument, and an undamped solve is not damped
    t = small(2)
    for nm in ('H_lm_twice', 'H_lm_gn'):
        e = es.get(nm)
        if not e: continue
        def S(env): return sim(env, t).system([[env.val(e.o('s1', i, j).n) for j in range(d)] for i, d in enumerate(t.dims)])
        mu = (lambda env: env.var('mu[0,0]')) if nm == 'H_lm_twice' else (lambda env: 0)
        def st(env): lmsetup(t)(env); sim_first(env, t)
        pr = [('L[%d,%d]' % (i, j), e.o('L', i, j), (lambda env, i=i, j=j: S(env)[2][i][j] + (mu(env) if i == j else 0))) for i in range(t.N) for j in range(t.N)]
        c.compare(e, pr, st, n=6, what='second solve')
    return 'Every accepted/rejected/converged pattern of up to three damped iterations on uninterpreted measurements: the built system is the undamped one plus one damping value on the diagonal (the caller\'s at first, larger after a rejected step, not larger after a step that meets the model), a step that raises the error leaves the state graph exactly as before, and no path builds the system more often than the limit.'
def sim_first(env, t):
    s = sim(env, t); lmrun_from(env, t, s.x0(), env.var('lambda[0,0]'), None, env.var('tol[0,0]'), s, len(t.facs) - 1)
def lmcheck(c, g, es, names, n, t, sc, N=None):
    e = es[names[n - 1]]; done = tries = 0; N = N or (6 if c.tier == 'quick' else 24); last = ''
    while done < N and tries < 400 * N:
        tries += 1
        env = Env(g, 7000003 * c.seed0 + tries, opts={'rat': RAT})
        try:
            lmsetup(t)(env); bad = []
            def lam(k):
                if k == 0: return env.var('lambda[0,0]')
                x, l, S, y, acc, stop, fid = env.memo['traj'][-1]
                z = y if acc else x; S2 = sim(env, t).system(z)[2]
                vals = lam_of(env, es[names[k]], S2)
                m = lamcheck(c, e, env, vals, l, 'rej' if not acc else 'good' if sc[k - 1] == 'good' else None, fid)
                if m: bad.append(('damping', m, es[names[k]].outs[('L', 0, 0)]))
                return vals[0]
            env.memo['traj'] = []
            out, x = lmtrace(env, t, n, lam, sc)
            S = out[-1][2]
            for i in range(t.N):
                for j in range(t.N):
                    w = (S[2][i][j] + (out[-1][1] if i == j else 0)) % P
                    if (env.val(e.outs[('L', i, j)]) - w) % P: bad.append(('L', 'the damped system is not A^T W A plus damping on the diagonal', e.outs[('L', i, j)]))
            for i, d in enumerate(t.dims):
                for j in range(d):
                    if (env.val(e.outs[('s', i, j)]) - x[i][j]) % P: bad.append(('state', 'state %d after pattern %s is not the %s' % (i, describe(out), 'state before the rejected step' if not out[-1][4] else 'stepped state'), e.outs[('s', i, j)]))
        except Resample as r: last = str(r); continue
        done += 1; c.oblig += 3; c.stats['samples'] += 1
        for k, m, nd in bad: c.violation('%s:%s' % (e.name, k), '%s: %s' % (e.name, m), g.loc(nd))
        if bad: break
    if done < 2: raise Broken('%s %s: no interpretation (%s)' % (e.name, sc, last))
def lmtrace(env, t, n, lam, sc):
    """trajectory of a damped solve; the damping of iteration k > 0 is taken from the analysed code: lam(k)"""
    tr = env.memo['traj']
    s = sim(env, t); x = s.x0(); tol = env.var('tol[0,0]'); last = len(t.facs) - 1
    for k in range(n):
        l = lam(k) % P
        o, _ = lmrun_from(env, t, x, l, sc[k], tol, s, last, n > 3); tr.append(o); x = o[3] if o[4] else x
        if o[5]: break
    return tr, x
def lmrun_from(env, t, x, l, w, tol, s, last, long=False):
    S = s.system(x); dx = s.solve(S[2], S[3], l); y = s.step(x, dx, -1); cur = s.err(x)
    Ld = [[(v + (l if i == j else 0)) % P for j, v in enumerate(r)] for i, r in enumerate(S[2])]
    model = (sum(a * b for a, b in zip(dx, S[3])) - frac(Fraction(1, 2)) * sum(dx[i] * Ld[i][j] * dx[j] for i in range(t.N) for j in range(t.N))) % P
    if w == 'good' and env.sgn(model) <= 0: raise Resample('model')
    if long and w: env.over[('CHI%d' % last, tuple(s.res(last, y)))] = [root(steer(env, w, cur, model, sum(s.chi(q, y) for q in range(last)) % P, tol))]
    elif w == 'good':
        need = (cur - model - sum(s.chi(q, y) for q in range(last))) % P
        env.over[('CHI%d' % last, tuple(s.res(last, y)))] = [root(need)]
    diff = (cur - s.err(y)) % P; fid = diff * inv(model) % P; chkcons(env, diff, tol, fid)
    acc = env.sgn(diff) > 0; stop = acc and env.sgn(tol - diff) > 0
    if w == 'rej' and acc or w in ('good', 'go') and (not acc or stop) or w == 'stop' and not stop: raise Resample('other branch')
    return (x, l, S, y, acc, stop, fid), None
def describe(out): return ', '.join('accepted' + (' (converged)' if o[5] else '') if o[4] else 'rejected' for o in out)
# ---------------------------------------------------------------- C26
def C26(c):
    G = grp(c, 'H_gn', 'H_big_gn', 'H_mix_gn', 'H_chain_gn'); g = G[0]
    for m, t, e in gn_entries(c, G):
        X = lambda env: gnrun(env, t)[0][0]; Y = lambda env: gnrun(env, t)[0][2]; n = len(t.facs)
        pr = [('c_stored', e.o('c_stored'), lambda env: sim(env, t).err(X(env)))] + [(k, e.o(k), lambda env: sim(env, t).err(Y(env))) for k in ('c_true', 'c_again')]
        pr += [('arr0[%d]' % k, e.o('arr0', k), (lambda env, k=k: sim(env, t).chi(k, X(env)))) for k in range(n)] + [('arr1[%d]' % k, e.o('arr1', k), (lambda env, k=k: sim(env, t).chi(k, Y(env)))) for k in range(n)]
        pr += [('c_def', e.o('c_def'), lambda env: sim(env, t).err(Y(env)))]
        pr += states(e, 'est', t.dims, Y) + states(e, 'sq', t.dims, Y) + states(e, 'bq', t.dims, lambda env: aux(env, t.dims))
        c.require(e.const('esz') == 4, '%s:esz' % e.name, '%s: the state query returns %s entries' % (e.name, e.const('esz')))
        for i, d in enumerate(t.dims): c.require((e.const('er', i), e.const('ec', i)) == (d, 1), '%s:est-shape' % e.name, '%s: entry %d of the state query is %sx%s' % (e.name, i, e.const('er', i), e.const('ec', i)))
        c.require(max(k[1] for k in e.outs if k[0] == 'arr1') == n - 1, '%s:arr-size' % e.name, 'size of the error array')
        c.compare(e, pr, symW(t), n=5)
    for nm, t, e in large(c, G, LARGE):
        if not e: continue
        Y = lambda env: gnrun(env, t, 1)[0][2]
        c.compare(e, [('c_true', e.o('c_true'), lambda env: sim(env, t).err(Y(env)))] + [('arr1[%d]' % k, e.o('arr1', k), (lambda env, k=k: sim(env, t).chi(k, Y(env)))) for k in range(len(t.facs))], symW(t), n=3)
    return 'Stored and re-evaluated totals, error arrays and state copies after a solve are compared with the uninterpreted errors and states they must report; writing into the returned copies leaves the graph unchanged.'
# ---------------------------------------------------------------- C27
def C27(c):
    G = grp(c, 'H_de', 'H_big_de', 'H_mix_de', 'H_chain_de', 'H_ds'); g = G[0]
    for m in DMASKS:
        e = c.entry(G, 'H_de_%d' % m)
        if not e: continue
        t = top(m); x0 = lambda env: sim(env, t).x0()
        if (e.const('gr'), e.const('hr'), e.const('hc')) != (t.N,) * 3: c.violation('%s:size' % e.name, '%s: dense system of size %s, expected %d' % (e.name, e.const('hr'), t.N)); continue
        dxv = lambda env: [env.var('dx[%d,0]' % i) for i in range(t.N)]
        x2 = lambda env: sim(env, t).step(x0(env), dxv(env)); A0 = lambda env: aux(env, t.dims)
        S = lambda env, x, tag: memo(env, ('ds', tag), lambda: sim(env, t).system(x, False))
        keep = lambda env: [x0(env)[i] if i in t.free else A0(env)[i] for i in range(len(t.dims))]
        pr = [('err', e.o('err'), lambda env: sim(env, t).err(x0(env))), ('err2', e.o('err2'), lambda env: sim(env, t).err(x2(env)))]
        pr += vec(e, 'G', t.N, lambda env: S(env, x0(env), 0)[3]) + sp(e, 'HH', t.N, t.N, lambda env: S(env, x0(env), 0)[2]) + vec(e, 'G2', t.N, lambda env: S(env, x2(env), 2)[3]) + sp(e, 'H2', t.N, t.N, lambda env: S(env, x2(env), 2)[2])
        pr += states(e, 's0', t.dims, x0) + states(e, 'c0', t.dims, A0) + states(e, 's1', t.dims, x0) + states(e, 'c1', t.dims, keep) + states(e, 's2', t.dims, x2) + states(e, 'c2', t.dims, keep) + states(e, 's3', t.dims, x0) + states(e, 'c3', t.dims, keep)
        c.compare(e, pr, symW(t), n=4)
    for nm, t, e in large(c, G, LARGED):
        if not e: continue
        S = lambda env: memo(env, 'dsb', lambda: sim(env, t).system(sim(env, t).x0(), False))
        c.compare(e, [('err', e.o('err'), lambda env: sim(env, t).err(sim(env, t).x0()))] + vec(e, 'G', t.N, lambda env: S(env)[3]) + sp(e, 'HH', t.N, t.N, lambda env: S(env)[2]), symW(t), n=3)
    # whole solves on a small graph
    for nm, meth, t in [(a + suf, m, t) for a, m in (('H_ds_nr1', 'nr'), ('H_ds_lms1', 's'), ('H_ds_lme1', 'e')) for suf, t in (('', small(1)), ('_mix', MIX), ('_chain', CHAIN))]:
        e = c.entry(G, nm)
        if not e: continue
        def want(env, meth=meth, t=t): return memo(env, ('dswant', meth), lambda: want_(env, meth, t))
        def want_(env, meth, t):
            s = sim(env, t); x = s.x0(); S = s.system(x, False); l = env.var('lambda[0,0]')
            H = [[(v * (1 + l) if meth == 'e' and i == j else v + l if meth == 's' and i == j else v) % P for j, v in enumerate(r)] for i, r in enumerate(S[2])]
            y = s.step(x, s.solve(H, S[3]), -1)
            if meth == 'nr': return y, H
            d = (s.err(x) - s.err(y)) % P
            return (y if env.sgn(d) > 0 else x), H
        c.compare(e, states(e, 's', t.dims, lambda env: want(env)[0]) + sp(e, 'h', t.N, t.N, lambda env: want(env)[1]), symW(t), n=10 if t.N < 10 else 4)
    return 'Dense gradient, Hessian, error, update, save and restore are compared with the block sums of uninterpreted residuals and Jacobians before and after a move, for eight anchor placements with unary to ternary measurements and a nine-variable graph; one dense iteration of every method is compared with the specified step.'
# ---------------------------------------------------------------- C28
def oval(env, nm, x, n): o = env.opaque(nm, tuple(x)); return [o[i] for i in range(n)]
def opt_step(env, x, l, meth):
    h = oval(env, 'HES', x, 3); H = [h[:2], h[1:]]; gr = oval(env, 'GRAD', x, 2)
    D = [[(v * (1 + l) if meth == 'e' and i == j else v + l if meth == 's' and i == j else v) % P for j, v in enumerate(r)] for i, r in enumerate(H)]
    I = rinv(D); dx = [-(I[i][0] * gr[0] + I[i][1] * gr[1]) % P for i in range(2)]
    model = (-sum(a * b for a, b in zip(dx, gr)) - frac(Fraction(1, 2)) * sum(dx[i] * D[i][j] * dx[j] for i in range(2) for j in range(2))) % P
    return H, D, [(a + b) % P for a, b in zip(x, dx)], model
def C28(c):
    G0 = grp(c, 'H_nr', 'H_lms', 'H_lme', 'H_os', 'H_oe'); g = G0[0]; es = {}; GN = c.group('graphn', 'graph.cpp', GS, loop=DEEPN + 4, entries=['H_on%d' % i for i in range(4, DEEPN + 1)])
    key = lambda m, i: 'H_%s%d' % (m if i < 4 else {'nr': 'on', 'lms': 'os', 'lme': 'oe'}[m], i)
    for nm, i in [(key(m, i), i) for m in ('nr', 'lms', 'lme') for i in range(1, (DEEPN if m == 'nr' else DEEPO) + 1)]:
        e = c.entry(GN if nm[:4] == 'H_on' else G0, nm, issues=False)
        if not e: continue
        es[nm] = e; lim = i
        for k, msg, loc, guard in e.issues: c.violation('%s:%s' % (nm, k), '%s: %s%s' % (k, msg, ' (the number of iterations is not bounded by the limit)' if k == 'loop-bound' else ''), loc)
        if lim < 4: evlimit(c, g, e, [ev for ev in e.events if ev[0] == 'hess'], lim, 'iterations')
    x0 = lambda env: [env.var('x[%d,0]' % i) for i in range(2)]
    N = 24 if c.tier == 'quick' else 96
    for lim in (1, 2, 3, 11, DEEPN) if c.tier == 'quick' else range(1, DEEPN + 1):
        e = es.get(key('nr', lim))
        if e:
            def run(env, lim=lim):
                if ('nr', lim) in env.memo: return env.memo[('nr', lim)]
                x = x0(env); tol = env.var('tol[0,0]'); it = 0; err = oval(env, 'ERR', x, 1)[0]
                while True:
                    H, D, x, _ = opt_step(env, x, 0, 'n'); it += 1
                    if lim > 3 and it < min(lim, 1 + env.rnd('stop') % (lim + 4)):
                        for salt in range(80):
                            r = env.rnd('steer', it, salt); r = r * r % P
                            if env.sgn(r - tol) > 0: env.over[('ERR', tuple(x))] = [(err + (r if env.rnd('up', it) & 1 else -r)) % P]; break
                    ne = oval(env, 'ERR', x, 1)[0]; d = (err - ne) % P; err = ne
                    ab = d if env.sgn(d) > 0 else -d
                    if env.sgn(ab - tol) <= 0 or it >= lim: break
                env.memo[('nr', lim)] = (x, it, H); return x, it, H
            def st(env, run=run): env.inp['tol[0,0]'] = sq(env, 'tol'); run(env)
            pr = vec(e, 'x', 2, lambda env: run(env)[0]) + [('it', e.o('it'), lambda env: run(env)[1])] + [('h[%d,%d]' % (i, j), e.o('h', i, j), (lambda env, i=i, j=j: run(env)[2][i][j])) for i in range(2) for j in range(2)]
            c.compare(e, pr, st, n=N * min(lim, 4))
        for m in ('lms', 'lme'):
            if lim < 4 and key(m, lim) in es:
                for sc in scenarios(lim): optcheck(c, g, es, m, lim, sc, key)
    for m in ('lms', 'lme'):
        if all(key(m, i) in es for i in range(1, DEEPO + 1)):
            for sc in longs(c.tier, DEEPO): optcheck(c, g, es, m, len(sc), sc, key, 3 if c.tier == 'quick' else 6)
    return 'Every pattern of up to three iterations of the three generic methods on uninterpreted error, gradient and Hessian: state, damped Hessian, returned iteration count, undo of rejected steps and the direction in which the damping moves; no path exceeds the limit.'
def optcheck(c, g, es, m, n, sc, key, N=None):
    e = es[key(m, n)]; done = tries = 0; N = N or (6 if c.tier == 'quick' else 24); last = ''; meth = m[2]
    while done < N and tries < 400 * N:
        tries += 1
        env = Env(g, 9000011 * c.seed0 + tries, opts={'rat': RAT})
        try:
            setq(env, 'lambda[0,0]', lam0(env)); env.inp['tol[0,0]'] = tol = sq(env, 'tol'); bad = []
            x = [env.var('x[%d,0]' % i) for i in range(2)]; l = env.var('lambda[0,0]'); it = 0; prev = None; pat = []
            for k in range(n):
                if k:
                    H0 = oval(env, 'HES', x, 3); q = es[key(m, k + 1)]
                    vals = lam_of(env, q, [H0[:2], H0[1:]], meth == 'e', 'h')
                    w = lamcheck(c, e, env, vals, l, 'rej' if not acc else 'good' if sc[k - 1] == 'good' else None, None)
                    if w: bad.append(('damping', w, q.outs[('h', 0, 0)]))
                    l = vals[0]
                H, D, y, model = opt_step(env, x, l, meth); it += 1; cur = oval(env, 'ERR', x, 1)[0]
                if sc[k] == 'good' and env.sgn(model) <= 0: raise Resample('model')
                if n > 3 and sc[k]: env.over[('ERR', tuple(y))] = [steer(env, sc[k], cur, model, 0, tol, False)]
                elif sc[k] == 'good':
                    env.over[('ERR', tuple(y))] = [(cur - model) % P]
                d = (cur - oval(env, 'ERR', y, 1)[0]) % P; chkcons(env, d, tol, d * inv(model) % P)
                acc = env.sgn(d) > 0; stop = acc and env.sgn(tol - d) > 0
                if sc[k] == 'rej' and acc or sc[k] in ('good', 'go') and (not acc or stop) or sc[k] == 'stop' and not stop: raise Resample('other branch')
                pat.append('accepted' if acc else 'rejected')
                if acc: x = y
                if stop: break
            for i in range(2):
                if (env.val(e.outs[('x', i, 0)]) - x[i]) % P: bad.append(('state', 'the state left after %s is not the best accepted one' % ', '.join(pat), e.outs[('x', i, 0)]))
                for j in range(2):
                    if (env.val(e.outs[('h', i, j)]) - D[i][j]) % P: bad.append(('h', 'the damped Hessian entry (%d,%d) of the last iteration is not the specified one' % (i, j), e.outs[('h', i, j)]))
            if (env.val(e.outs[('it', 0, 0)]) - it) % P: bad.append(('it', 'the returned number of iterations is not the number performed', e.outs[('it', 0, 0)]))
        except Resample as r: last = str(r); continue
        done += 1; c.oblig += 4; c.stats['samples'] += 1
        for k, w, nd in bad: c.violation('%s:%s' % (e.name, k), '%s: %s' % (e.name, w), g.loc(nd))
        if bad: break
    if done < 2: raise Broken('%s %s: no interpretation (%s)' % (e.name, sc, last))
# ---------------------------------------------------------------- C36, C37
def rejected(c, G, nm):
    e = c.entry(G, nm, allow=('ok', 'aborted'), issues=False)
    if not e: return
    bad = [q for q in e.issues if q[0] != 'abort']
    for k, msg, loc, guard in bad: c.violation('%s:%s' % (nm, k), '%s: %s with an id that was never handed out' % (nm, msg), loc)
    c.require(bool(bad) or e.status == 'aborted', '%s:accepted' % nm, '%s: an id that was never handed out is accepted' % nm)
    c.require(bool(bad) or e.status != 'aborted' or any('throw' in q[1] for q in e.issues), '%s:not-raised' % nm, '%s: the call ends (%s) but not by raising an error' % (nm, e.issues[:1]))
def C36(c):
    G = grp(c, 'H_bad', 'H_ok')
    for nm in sorted(n for n in G[1] if n.startswith('H_bad')): rejected(c, G, nm)
    for nm, w in (('H_ok_node3', 3), ('H_ok_factor4', 4)):
        e = c.entry(G, nm)
        if e: c.require(e.const('id') == w, nm + ':id', '%s: the last valid id yields element %s' % (nm, e.const('id')))
    import registration
    R = registration.grp(c, 'b', ['H_badplane', 'H_badplane0', 'H_badplane_old', 'H_goodplane'])
    for nm in ('H_badplane', 'H_badplane0', 'H_badplane_old'): rejected(c, R, nm)
    e = c.entry(R, 'H_goodplane')
    if e: c.require(e.const('reached') == 1 and e.const('n') == 1, 'H_goodplane:n', 'a point for a known plane is not stored (%s points)' % e.const('n'))
    import binding
    es = [e + k for e in binding.bads() for k in ('_5', '_9')]; B = binding.grp(c, 'bad', es)
    for nm in es: rejected(c, B, nm)
    return 'Lookups with every class of unknown id (empty graph, first unused, far beyond, wrapped negative) must end in a raised error with no access outside an object; the last valid ids must succeed; the same for every graph-building call of the Python interface and every id argument of it.'
def C37(c):
    G = grp(c, 'H_rel')
    for nm in sorted(G[1]):
        e = c.entry(G, nm)
        if not e: continue
        nf = 4
        c.require(e.const('alive_n') == 0, nm + ':early', '%s: %s variables are destroyed while the graph holds them' % (nm, e.const('alive_n')))
        c.require((e.const('alive_f') or 0) <= (0 if nm == 'H_rel_e' else 1), nm + ':early', '%s: %s measurements are destroyed while the graph holds them' % (nm, e.const('alive_f')))
        c.require(e.const('dead_n') == 3, nm + ':nodes', '%s: %s of 3 variables are released with the graph' % (nm, e.const('dead_n')))
        c.require(e.const('dead_f') == nf, nm + ':factors', '%s: %s of %d measurements are released with the graph' % (nm, e.const('dead_f'), nf))
        c.require(e.const('heap') == 0, nm + ':heap', '%s: %s heap blocks survive the graph' % (nm, e.const('heap')))
    return 'Ownership analysis of graph destruction in every graph class on graphs whose variables and measurements reference each other: destructor counts, double releases and heap blocks left behind.'
