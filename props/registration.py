import os, pipe
from fractions import Fraction
from vg import *
from drive import Broken
from geometry import set_pose, both, mkpose, pose_rows
from factors import generic, GEN
SR = ['src/geometry/SO3.cpp', 'src/geometry/SE3.cpp', 'src/common/optimizer.cpp'] + ['src/PCRegistration/%s.cpp' % k for k in ('arun', 'gicp', 'weight_point', 'estimate_plane', 'plane', 'plane_registration')]
def grp(c, name, ents, loop=8): return c.group('reg' + name, 'reg.cpp', SR, loop=loop, entries=ents)
def F_(v): return frac(Fraction(v))
def rg_truth(env, n):
    """quantities that are constants of the input family keep their real sign, others are generic"""
    nd = env.g.nodes[n]
    if nd[0] == 'lt':
        try: d = (env.val(nd[4]) - env.val(nd[3])) % P
        except Resample: return None
        if ratrec(d, 1 << 72) is not None: return None
        # sqrt of a family constant is not rational: decide by its square
        A, B = env.g.nodes[nd[3]], env.g.nodes[nd[4]]
        for x, y in ((A, B), (B, A)):
            if x[0] == 'f' and x[2] == 'sqrt' and y[0] == 'c' and ratrec(env.val(x[3])) is not None: return None
    return generic(env, n)
RG = {'truth': rg_truth, 'rat': True}
def row(m, i): return m.block(i, 0, 1, 3).T()
def mean(X):
    s = None
    for i in range(X.r): q = row(X, i); s = q if s is None else s + q
    return s * (s[0, 0].g.const(1) / s[0, 0].g.const(X.r))

# ---------------------------------------------------------------- C29
SV = [(7, 4, 2), (7, 4, 0), (9, 9, 5), (9, 5, 5), (6, 6, 6), (8, 8, 0), (3, Fraction(1, 2), Fraction(1, 50)), (5000, 300, 2)]
def svd_with(vals, refl):
    def f(env, key):
        n = 3; U = cayley(n, (env.seed, 'U', key)); V = cayley(n, (env.seed, 'V', key))
        u = h2f(env.seed, 'det', key) & 1; v = u ^ refl
        if u: U = [[-x % P for x in r] for r in U]
        if v: V = [[-x % P for x in r] for r in V]
        return U, [F_(x) for x in vals], V
    return f
def det3(m): return m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0]) + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0])
def C29(c):
    sizes = [3, 4, 5, 8, 19, 67, 131]
    G = grp(c, '', ['H_arun%d' % n for n in sizes] + ['H_arun_block']); cases = [(G, 'H_arun%d' % n, n, 0) for n in sizes] + [(G, 'H_arun_block', 4, 1)]
    big = c.grown(G, sizes[-1], 300 if c.tier != 'quick' else 0)
    if big and big <= 700: cases.append((c.group('regn', 'reg.cpp', SR, entries=['H_arun_n'], flags=('-DCLOUD_N=%d' % big,)), 'H_arun_n', big, 0))
    for G, nm, N, off in cases:
        e = c.entry(G, nm); g = G[0]
        if not e: continue
        X, Y = g.mat('X', N + off, 3 + off), g.mat('Y', N + off, 3 + off)
        if off: X, Y = X.block(1, 1, N, 3), Y.block(1, 1, N, 3)
        cx, cy = mean(X), mean(Y); Hs = None
        for i in range(N): q = (row(X, i) - cx) @ (row(Y, i) - cy).T(); Hs = q if Hs is None else Hs + q
        o = g.opaque('SVD', Hs.flat(), 21); U = M([[o[3 * i + j] for j in range(3)] for i in range(3)]); V = M([[o[12 + 3 * i + j] for j in range(3)] for i in range(3)])
        T0 = M.eye(g, 4) if off else g.mat('T', 4, 4); same = [] if off else c.pairs(e, 'X', X) + c.pairs(e, 'Y', Y)
        for vals in SV if N <= 8 else SV[:3]:
            for refl in (0, 1):
                if refl and vals[1] == vals[2]: continue      # infinitely many best rotations
                D = M([[g.const(int(i == j) if (i, j) != (2, 2) else (-1 if refl else 1)) for j in range(3)] for i in range(3)])
                R = V @ D @ U.T(); t = cy - R @ cx
                # a cloud of exactly rank two may be resolved with either orientation of the null direction
                c.compare(e, c.pairs(e, 'T', mkpose(R, t)) + [('ret', e.o('ret'), g.const(1))] + same, set_pose('T'), n=2 if N > 8 else 3, need=2, what='with singular values %s%s' % (tuple(map(str, vals)), ' and a reflection' if refl else ''), opts=dict(RG, svd=svd_with(vals, refl)))
        for vals in ((7, 0, 0), (0, 0, 0)):
            for refl in (0, 1):
                c.compare(e, c.pairs(e, 'T', T0) + [('ret', e.o('ret'), g.const(0))] + same, set_pose('T'), n=2, need=2, what='with an aligned cloud', opts=dict(RG, svd=svd_with(vals, refl)))
    return 'The returned transform is compared with V diag(1,1,det) U^T of the cross-covariance of the centred clouds for %d patterns of singular values (distinct, planar, repeated) with and without reflection; aligned clouds must report failure and leave the transform as given. Clouds of 3..%d points, generic coordinates; rows of a larger array included.' % (len(SV), sizes[-1])

# ---------------------------------------------------------------- C30
def specexp(g, xi):
    w, v = xi.block(0, 0, 3, 1), xi.block(3, 0, 3, 1); o2 = w[0, 0] * w[0, 0] + w[1, 0] * w[1, 0] + w[2, 0] * w[2, 0]; o = g.sqrt(o2)
    W = hat3(w); W2 = W @ W; I = M.eye(g, 3); s, k = g.fn('sin', o), g.fn('cos', o)
    R = I + W * (s / o) + W2 * ((g.const(1) - k) / o2); V = I + W * ((g.const(1) - k) / o2) + W2 * ((o - s) / (o2 * o))
    return mkpose(R, V @ v)
def depends(g, n, memo):
    """set of input names a node depends on (memoised)"""
    st = [n]
    while st:
        x = st[-1]
        if x in memo: st.pop(); continue
        nd = g.nodes[x]; ar = nd[3:]
        miss = [a for a in ar if a not in memo]
        if miss: st.extend(miss); continue
        r = frozenset([nd[2].split('[')[0]]) if nd[0] == 'v' else frozenset()
        for a in ar: r = r | memo[a] if not memo[a] <= r else r
        memo[x] = r; st.pop()
    return memo[n]
def guards(g, root, memo):
    """comparisons of a computed quantity with the tolerance below a node: {guard node: (quantity, polarity)}"""
    seen = set(); st = [root]; out = {}
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); nd = g.nodes[x]
        if nd[0] in ('lt', 'eq'):
            da, db = depends(g, nd[3], memo), depends(g, nd[4], memo)
            if da == {'tol'} and 'tol' not in db: out[x] = (nd[4], nd[0] == 'lt')
            elif db == {'tol'} and 'tol' not in da: out[x] = (nd[3], False)
            continue
        if nd[0] in ('ite', 'and', 'or', 'not'): st.extend(nd[3:])
    return out
def icp_spec(c, G, nm, N, kind, ks):
    g = G[0]; e = c.entry(G, nm)
    if not e: return
    for k, msg, loc, guard in e.issues:
        if k == 'loop-bound': c.violation(nm + ':iterations', 'the number of iterations is not limited to twenty', loc); return
    memo = {}; gs = guards(g, e.outs[('ret', 0, 0)], memo)
    if not gs: c.violation(nm + ':tolerance', 'the iteration does not depend on the tolerance', g.loc(e.outs[('ret', 0, 0)])); return
    qs = sorted({q for q, _ in gs.values()})     # one compared step size per iteration, in order of computation
    def force(k):
        def truth(env, n):
            if n in gs:
                q, pol = gs[n]; nd = env.g.nodes[n]
                if nd[0] == 'eq': return False
                big = qs.index(q) + 1 < k
                return big if pol else not big
            return generic(env, n)
        return {'truth': truth, 'backtrack': True}
    for k in range(1, 23):
        w = min(k, 20); c.oblig += 1
        v = Env(g, 5, opts=force(k)).val(e.outs[('ret', 0, 0)])
        if v != w: c.violation(nm + ':count', '%s: when the step first is small in iteration %d the call returns after %s iterations, expected %d' % (nm, k, v, w), g.loc(e.outs[('ret', 0, 0)])); return
    X, Y, T = g.mat('X', N, 3), g.mat('Y', N, 3), g.mat('T', 4, 4)
    if kind == 'g':
        sym = lambda a, i: M([[g.var(a, 3 * i + min(p, q), max(p, q)) for q in range(3)] for p in range(3)])
        same = c.pairs(e, 'cx', M.vstack(*[sym('cx', i) for i in range(N)])) + c.pairs(e, 'cy', M.vstack(*[sym('cy', i) for i in range(N)]))
    else: same = c.pairs(e, 'w', g.vec('w', N))
    same += c.pairs(e, 'X', X) + c.pairs(e, 'Y', Y)
    for k in range(1, max(ks) + 1):
        R, t = T.block(0, 0, 3, 3), T.block(0, 3, 3, 1); Hm = J = None
        for i in range(N):
            q = R @ row(X, i) + t; r = row(Y, i) - q; Jr = M.hstack(hat3(q), -M.eye(g, 3))
            L = (sym('cy', i) + R @ sym('cx', i) @ R.T()).inv() if kind == 'g' else M.eye(g, 3) * g.var('w', i)
            a = Jr.T() @ L @ Jr; b = Jr.T() @ L @ r
            Hm = a if Hm is None else Hm + a; J = b if J is None else J + b
        d = -(Hm.inv() @ J); T = specexp(g, d) @ T
        dn = sum((x * x for x in d.flat()[1:]), d[0, 0] * d[0, 0])
        if k in ks:
            c.compare(e, c.pairs(e, 'T', T) + (same if k == 1 else []), set_pose('T'), n=3 if k < 3 else 2, need=2, what='after %d iteration(s)' % k, opts=force(k))
            # the quantity compared with the tolerance is the size of the step
            q = qs[k - 1] if k <= len(qs) else None
            if q is not None:
                nd = g.nodes[q]; sq = E(g, q) if any(gs[x][0] == q and sqtol(g, x) for x in gs) else E(g, q) * E(g, q)
                c.compare(e, [('step', sq, dn)], set_pose('T'), n=2, need=2, what='step size of iteration %d' % k, opts=force(k))
def sqtol(g, x):
    nd = g.nodes[x]
    for a in nd[3:]:
        if g.nodes[a][0] == '*' and g.nodes[a][3] == g.nodes[a][4]: return True
    return False
def C30(c):
    deep = (1, 2, 3, 4, 7, 12, 20)
    cases = [('H_gicp3', 3, 'g', deep), ('H_gicp4', 4, 'g', (1, 2)), ('H_gicp7', 7, 'g', (1,)), ('H_wp3', 3, 'w', deep), ('H_wp4', 4, 'w', (1, 2)), ('H_wp7', 7, 'w', (1,)), ('H_wp19', 19, 'w', (1, 2)), ('H_gicp19', 19, 'g', (1, 2)), ('H_wp131', 131, 'w', (1,)), ('H_gicp131', 131, 'g', (1,))]
    G = grp(c, '', [x[0] for x in cases], loop=24)
    for nm, N, kind, ks in cases: icp_spec(c, G, nm, N, kind, ks)
    n = c.grown(G, 131, 259 if c.tier != 'quick' else 0)
    if n and n <= 700:
        G = c.group('regn', 'reg.cpp', SR, loop=24, entries=['H_gicp_n', 'H_wp_n'], flags=('-DCLOUD_N=%d' % n,))
        for nm, kind in (('H_gicp_n', 'g'), ('H_wp_n', 'w')): icp_spec(c, G, nm, n, kind, (1,))
    return 'The transform after one to six iterations is compared with exact Gauss-Newton steps of the weighted residuals applied on the left; every stop pattern of the tolerance test is enumerated and the returned count compared with it (limit twenty); the compared quantity must be the norm of the step. Clouds of 3..131 points with generic coordinates, weights and symmetric covariances.'

# ---------------------------------------------------------------- C31
def C31(c):
    sizes = [3, 4, 5, 9, 19, 67, 131]
    G = grp(c, '', ['H_est%d' % n for n in sizes]); cases = [(G, 'H_est%d' % n, n) for n in sizes]
    big = c.grown(G, sizes[-1], 300 if c.tier != 'quick' else 0)
    if big and big <= 700: cases.append((c.group('regn', 'reg.cpp', SR, entries=['H_est_n'], flags=('-DCLOUD_N=%d' % big,)), 'H_est_n', big))
    for G, nm, N in cases:
        e = c.entry(G, nm); g = G[0]
        if not e: continue
        X = g.mat('X', N, 3); m = mean(X); C = None
        for i in range(N): q = (row(X, i) - m) @ (row(X, i) - m).T(); C = q if C is None else C + q
        o = g.opaque('EIG', C.flat(), 12); n = M([[o[3 + 3 * i]] for i in range(3)]); d = -(m.T() @ n)[0, 0]
        p = e.mat('pl'); q = e.mat('nm'); pn = p.block(0, 0, 3, 1)
        pr = [('normal[%d,%d]' % (i, j), pn[i, 0] * pn[j, 0], n[i, 0] * n[j, 0]) for i in range(3) for j in range(i + 1)]
        pr += [('offset[%d]' % i, p[3, 0] * pn[i, 0], d * n[i, 0]) for i in range(3)] + c.pairs(e, 'nm', pn) + c.pairs(e, 'ce', m) + c.pairs(e, 'X', X)
        c.compare(e, pr, n=4, opts=GEN)
    return 'The plane of every cloud (3..%d generic points) is compared, up to the common sign, with the eigenvector of least eigenvalue of the centred second moments and the offset through the centroid.' % sizes[-1]

# ---------------------------------------------------------------- C32
def moments(g, pts, names=None):
    S = M.zeros(g, 4, 4)
    for p in pts: h = M([[p[0]], [p[1]], [p[2]], [g.const(1)]]); S = S + h @ h.T()
    return S
def pnt(g, n, k): return [g.var(n, k, j) for j in range(3)]
def GEN6(g):
    z = [[0] * 4 for _ in range(4)]; out = []
    for i in range(6):
        m = [r[:] for r in z]
        if i < 3: a, b = (i + 1) % 3, (i + 2) % 3; m[b][a] = 1; m[a][b] = -1
        else: m[i - 3][3] = 1
        out.append(M([[g.const(x) for x in r] for r in m]))
    return out
class PlaneSpec:
    """least eigenpair of the moved moments and its gradient"""
    def __init__(s, g, pts, poses):
        s.g = g; s.Q = [T @ moments(g, p) @ T.T() for p, T in zip(pts, poses)]
        A = s.Q[0]
        for q in s.Q[1:]: A = A + q
        o = g.opaque('EIG', A.flat(), 20); s.lam = o[0]; s.pi = M([[o[4 + 4 * i]] for i in range(4)])
    def grad(s, t):
        return [(s.pi.T() @ (G @ s.Q[t] + s.Q[t] @ G.T()) @ s.pi)[0, 0] for G in GEN6(s.g)]
    def hess(s, t):
        """upper triangle of the documented form pi' (B + B') pi, B = (GiGj + GjGi) Q / 2 + Gi (Gj Q + Q Gj')"""
        G = GEN6(s.g); h = s.g.const(Fraction(1, 2)); Q = s.Q[t]; out = {}
        for i in range(6):
            for j in range(i, 6):
                B = (G[i] @ G[j] + G[j] @ G[i]) @ Q; C = G[i] @ (G[j] @ Q + Q @ G[j].T()); B = M([[h * B[a, b] + C[a, b] for b in range(4)] for a in range(4)])
                v = (s.pi.T() @ B @ s.pi)[0, 0]; out[i, j] = v + v
        return out
    def pairs(s, e, pi, gr, lams, T=None):
        m = e.mat(pi); pr = [('%s[%d,%d]' % (pi, i, j), m[i, 0] * m[j, 0], s.pi[i, 0] * s.pi[j, 0]) for i in range(4) for j in range(i + 1)]
        pr += [('%s[%d]' % k[:2], e.o(k[0], k[1]), s.lam) for k in lams]
        for t in range(len(s.Q)): pr += [('%s[%d,%d]' % (gr, t, i), e.o(gr, t, i), v) for i, v in enumerate(s.grad(t))]
        return pr
def C32(c):
    G = grp(c, 'p', ['H_plane', 'H_plane_inc', 'H_plane_clear', 'H_plane1', 'H_plane5', 'H_planeN']); g = G[0]
    Tm = lambda n: g.mat(n, 4, 4)
    e = c.entry(G, 'H_plane')
    if e:
        at = [2, 0, 3, 0, 2, 4, 2, 0, 9, 3]; pts = [[pnt(g, 'P', k) for k, t in enumerate(at) if t == q] for q in range(4)]
        for t in range(4):
            c.require(e.const('np', t) == len(pts[t]), 'H_plane:count', 'the plane reports %s points at time %d, %d were given' % (e.const('np', t), t, len(pts[t])))
        c.require(e.const('tot') == 8, 'H_plane:total', 'total number of points is %s, expected 8' % e.const('tot'))
        c.require(e.const('tot2') == 10 and e.const('np2') == 4, 'H_plane:total2', 'point counts after more points are %s and %s, expected 10 and 4' % (e.const('tot2'), e.const('np2')))
        pr = []
        for t in range(4):
            for k, p in enumerate(pts[t]):
                if ('gp', 10 * t + k, 0) in e.outs: pr += [('gp[%d,%d]' % (10 * t + k, j), e.o('gp', 10 * t + k, j), p[j]) for j in range(3)]
        Ts = [Tm('T%d' % t) for t in range(4)]; a = PlaneSpec(g, pts, Ts); HH = lambda a, k: [('hessian%d[%d,%d,%d]' % (k, t, i, j), e.o('hh', 10 * k + t, 6 * i + j), v) for t in range(4) for (i, j), v in a.hess(t).items()]
        pr += HH(a, 0)
        pr += a.pairs(e, 'pi0', 'g0', (('lam', 0), ('err', 0))) + a.pairs(e, 'pi1', 'g1', (('lam', 1), ('err', 1)))
        Ts[2] = Tm('U2'); pr += PlaneSpec(g, pts, Ts).pairs(e, 'pi2', 'g2', (('lam', 2), ('err', 2)))
        mn = lambda ps: M([[sum((p[j] for p in ps[1:]), ps[0][j]) / g.const(len(ps))] for j in range(3)])
        pr += c.pairs(e, 'mean0', mn(pts[0])) + c.pairs(e, 'mean2', mn(pts[2]))
        pts[1].append(pnt(g, 'R', 0)); pts[2].append(pnt(g, 'R', 1)); pr += PlaneSpec(g, pts, Ts).pairs(e, 'pi3', 'g3', (('lam', 3), ('err', 3))) + c.pairs(e, 'mean1', mn(pts[1]))
        Ts[0] = Tm('U0'); a = PlaneSpec(g, pts, Ts); pr += a.pairs(e, 'pi4', 'g4', (('lam', 4), ('err', 4))) + HH(a, 4)
        c.compare(e, pr, set_pose('T0', 'T1', 'T2', 'T3', 'U0', 'U2'), n=4)
    e = c.entry(G, 'H_plane_inc')
    if e:
        pts = [[pnt(g, 'P', k) for k in range(7) if k % 3 == q] for q in range(3)]; T = [Tm('T%d' % t) for t in range(3)]
        s0 = PlaneSpec(g, pts, T); pr = s0.pairs(e, 'pi0', 'g0', (('lam', 0), ('err', 0))) + s0.pairs(e, 'pi1', 'g1', ())
        T[1] = Tm('U1'); s1 = PlaneSpec(g, pts, T); pr += [('inc[0]', e.o('inc', 0), s1.lam)] + s1.pairs(e, 'pi2', 'g2', (('lam', 1), ('err', 1)))
        T[1] = Tm('V1'); s2 = PlaneSpec(g, pts, T); pr += [('inc[1]', e.o('inc', 1), s2.lam)] + s2.pairs(e, 'pi3', 'g3', (('lam', 2), ('err', 2)))
        T[2] = Tm('U2'); s3 = PlaneSpec(g, pts, T); pr += s3.pairs(e, 'pi4', 'g4', (('lam', 3), ('err', 3)))
        for t in range(3): pr.append(('inc[%d]' % (2 + t), e.o('inc', 2 + t), s3.lam))
        T[0] = Tm('U0'); s4 = PlaneSpec(g, pts, T); pr += [('inc[%d]' % (5 + t), e.o('inc', 5 + t), s3.lam if t else s4.lam) for t in range(3)] + s4.pairs(e, 'pi5', 'g5', (('lam', 4), ('err', 4)))
        pts[2].append(pnt(g, 'R', 0)); s5 = PlaneSpec(g, pts, T); pr += [('inc[8]', e.o('inc', 8), s5.lam), ('inc[9]', e.o('inc', 9), s4.lam)] + s5.pairs(e, 'pi6', 'g6', (('lam', 5), ('err', 5))) + s5.pairs(e, 'pi7', 'g7', (('lam', 6), ('err', 6)))
        c.compare(e, pr, set_pose('T0', 'T1', 'T2', 'U0', 'U1', 'V1', 'U2'), n=4)
    e = c.entry(G, 'H_plane_clear')
    if e:
        for nm, i, w in (('np', 0, 0), ('np', 1, 0), ('tot', 0, 0), ('tot2', 0, 4)): c.require(e.const(nm, i) == w, 'H_plane_clear:%s%d' % (nm, i), 'after clearing the points %s[%d] is %s, expected %d' % (nm, i, e.const(nm, i), w))
        T = [Tm('T0'), Tm('T1')]; p1 = [[pnt(g, 'P', k) for k in range(5) if k % 2 == q] for q in range(2)]; p2 = [[pnt(g, 'R', k) for k in range(4) if (k + 1) % 2 == q] for q in range(2)]
        c.compare(e, [('lam[0]', e.o('lam', 0), PlaneSpec(g, p1, T).lam)] + PlaneSpec(g, p2, T).pairs(e, 'pi0', 'g0', (('lam', 1),)), set_pose('T0', 'T1'), n=4)
    for nm, n, np in (('H_plane1', 1, 6), ('H_plane5', 5, 23), ('H_planeN', 2, 140)):
        e = c.entry(G, nm)
        if e: c.compare(e, PlaneSpec(g, [[pnt(g, 'P', k) for k in range(np) if k % n == q] for q in range(n)], [Tm('T%d' % t) for t in range(n)]).pairs(e, 'pi0', 'g0', (('lam', 0),)), set_pose(*['T%d' % t for t in range(n)]), n=4)
    return 'After every step of histories of added points (also for times that do not exist), estimates, moved poses, incremental re-estimates, queries, clearing and reset, the error, the plane (up to sign) and the gradient of every pose are compared with the least eigenpair of the moved homogeneous moments.'

# ---------------------------------------------------------------- C33
def poses_of(e, nm, n): return [M([[e.o(nm, t, 4 * i + j) for j in range(4)] for i in range(4)]) for t in range(n)]
PTS = [[0, 1, 2, 1, 0, 2, 1, 2, 0], [2, 2, 0, 1, 1, 0, 2, 9, 9], [0, 0, 1, 1, 0, 2, 2, 2, 9]]
def plane_pts(g, n): return [[[pnt(g, nm, k) for k, t in enumerate(PTS[q]) if t < 3 and t % n == u] for u in range(n)] for q, nm in enumerate(('Pa', 'Pb', 'Pc'))]
def C33(c):
    G = grp(c, 'r', ['H_upd2', 'H_upd3', 'H_upd5', 'H_reg2', 'H_reg3', 'H_nag2', 'H_nag3', 'H_all3', 'H_nagm4', 'H_allm4']); g = G[0]
    pm = lambda a, m, s: c.pairs_m(a, m, s)
    I = M.eye(g, 4)
    for n in (2, 3, 5):
        e = c.entry(G, 'H_upd%d' % n)
        if not e: continue
        Ea, Eb, L = e.mat('Ea'), e.mat('Eb'), g.mat('L', 4, 4); last = {}
        for k in range(11):
            m = n + (k == 9); c.require(e.const('s%d' % k, 900) == m, '%s:length' % e.name, 'the trajectory has %s poses, expected %d' % (e.const('s%d' % k, 900), m)); s = poses_of(e, 's%d' % k, m); x = poses_of(e, 'e%d' % k, m); last[k] = s[-1]
            pr = pm('first%d' % k, s[0], I) + pm('last%d' % k, poses_of(e, 'l%d' % k, 1)[0], s[-1])
            for t in range(1, m - 1): pr += pm('interpolated%d_%d' % (k, t), s[t], x[t])
            c.compare(e, pr, set_pose('L'), n=3, opts=GEN, what='step %d' % k)
        c.require(e.const('n') == n and e.const('n9') == n + 1, '%s:poses' % e.name, 'number of poses misreported')
        pr = pm('last', last[0], I) + pm('update', last[1], Ea) + pm('bookkeep', last[2], last[1]) + pm('update2', last[3], Eb @ Ea) + pm('undo', last[4], last[1]) + pm('redo', last[5], Eb @ Ea) + pm('undo2', last[6], last[1]) + pm('reset', last[8], I) + pm('resize', last[9], I) + pm('new', last[10], I)
        pr += pm('given', last[7], e.mat('Lq')) + pm('input', e.mat('L'), L)
        c.compare(e, pr, set_pose('L'), n=4, opts=GEN)
    for n in (2, 3):
        e = c.entry(G, 'H_reg%d' % n)
        if not e: continue
        pts = plane_pts(g, n); tot = sum(len(x) for p in pts for x in p)
        c.require(e.const('npl') == 3 and e.const('pts') == tot, '%s:counts' % e.name, 'planes/points reported %s/%s, expected 3/%d' % (e.const('npl'), e.const('pts'), tot))
        for t in range(n): c.require(e.const('pc', t) == sum(len(p[t]) for p in pts), '%s:cloud' % e.name, 'the point cloud of time %d has %s points' % (t, e.const('pc', t)))
        def total(T): return [PlaneSpec(g, p, T) for p in pts]
        def err(ss): return ss[0].lam + ss[1].lam + ss[2].lam
        def gsum(ss):
            r = [g.const(0)] * 6
            for t in range(1, n):
                for s in ss: r = [a + b * g.const(Fraction(t, n - 1)) for a, b in zip(r, s.grad(t))]
            return r
        def hsum(ss, nm):
            r = {}
            for t in range(1, n):
                for s in ss:
                    for k, v in s.hess(t).items(): v = v * g.const(Fraction(t, n - 1)); r[k] = r[k] + v if k in r else v
            return [('%s[%d,%d]' % (nm, i, j), e.o(nm, i, j), r[min(i, j), max(i, j)]) for i in range(6) for j in range(6)]
        T = [I] + [g.mat('T%d' % t, 4, 4) for t in range(1, n - 1)] + [g.mat('L', 4, 4)]; a = total(T)
        pr = [('err[0]', e.o('err', 0), err(a)), ('err[1]', e.o('err', 1), err(a))] + [('G[%d]' % i, e.o('G', i), v) for i, v in enumerate(gsum(a))] + hsum(a, 'Hs')
        for t in range(n):
            for q in range(3): pr += [('g[%d,%d,%d]' % (t, q, i), e.o('g', 10 * t + q, i), v) for i, v in enumerate(a[q].grad(t))]
        mv = total(poses_of(e, 'm', n)); pr += [('err[2]', e.o('err', 2), err(mv))] + [('G2[%d]' % i, e.o('G2', i), v) for i, v in enumerate(gsum(mv))] + hsum(mv, 'Hs2')
        un = poses_of(e, 'u', n); ud = total(un); pr += [('err[3]', e.o('err', 3), err(ud))] + [('G3[%d]' % i, e.o('G3', i), v) for i, v in enumerate(gsum(ud))] + hsum(ud, 'Hs3') + pm('undone', un[-1], g.mat('L', 4, 4)) + pm('undone0', un[0], I)
        pr += [('err[4]', e.o('err', 4), err(total([I] * n)))]
        c.compare(e, pr, set_pose('L', 'T1', 'T2', 'T3'), n=3, opts=GEN)
    al, be = g.var('al'), g.var('be')
    for nm, n in (('H_nag2', 2), ('H_nag3', 3), ('H_all3', 3), ('H_nagm4', 4), ('H_allm4', 4)):
        e = c.entry(G, nm)
        if not e: continue
        every = nm.startswith('H_all'); first = nm.endswith('m4'); ks = (1,) if first else (1, 2, 3)
        s = {k: poses_of(e, 's%d' % k, n) for k in ks}; pr = []
        for k in ks:
            x = poses_of(e, 'e%d' % k, n); pr += pm('first%d' % k, s[k][0], I)
            if not every:
                for t in range(1, n - 1): pr += pm('interpolated%d_%d' % (k, t), s[k][t], x[t])
        if not first:
            for t in range(n): pr += pm('again%d' % t, s[2][t], s[1][t])
        pr += [('iterations', e.o('it', k - 1), g.const(1)) for k in ks]
        # a gradient step goes along the negative gradient, averaged over the points of each pose
        if first: pts = [[[pnt(g, 'T%d' % t, 10 * q + k) for k in range(2 if t == 2 else t + q + 1)] if t != 1 and (q == 0 or t == n - 1) else [] for t in range(n)] for q in range(2)]
        else: pts = plane_pts(g, n)
        cnt = [sum(len(p[t]) for p in pts) for t in range(n)]; z = [g.const(0)] * 6
        def grads(T):
            ss = [PlaneSpec(g, p, T) for p in pts]; out = {}
            for t in range(1, n):
                r = z
                for q in ss: r = [a + b for a, b in zip(r, q.grad(t))]
                out[t] = [v / g.const(cnt[t]) for v in r] if cnt[t] else z
            return out
        def step(T0, T1, d, tag): return pm(tag, T1, specexp(g, M([[v] for v in d])) @ T0)
        mom = z
        for k in ks:
            if k == 2: continue
            T0 = [I] * n if k == 1 else s[2]; gr = grads(T0)
            if every:
                for t in range(1, n):
                    if cnt[t]: pr += step(T0[t], s[k][t], [-(al * v) / g.const(n) for v in gr[t]], 'step%d_%d' % (k, t))
                    else: pr += pm('unseen%d_%d' % (k, t), s[k][t], T0[t])
            else:
                r = z
                for t in range(1, n): r = [a + b * g.const(Fraction(t, (n - 1) * n)) for a, b in zip(r, gr[t])]
                pr += step(T0[-1], s[k][-1], [be * be * m - (g.const(1) + be) * al * v for m, v in zip(mom, r)], 'step%d' % k); mom = [be * m - al * v for m, v in zip(mom, r)]
        c.compare(e, pr, None, n=3, opts=GEN)
    O = c.group('regmode', 'reg.cpp', SR, entries=['H_mode_gn', 'H_mode_s', 'H_mode_e'], opaque=['^mrob::Optimizer::solve\\(@SOLVE@ev:1,ival:7,noop']); c.stats['modes'] = 3
    for nm, w in (('H_mode_gn', 0), ('H_mode_s', 1), ('H_mode_e', 2)):
        e = c.entry(O, nm)
        if not e: continue
        evs = [O[0].nodes[ev[1]][2] for ev in e.events if ev[0] == 'SOLVE']
        c.require(evs in ([], [w]), nm + ':method', '%s: the mode runs optimiser method %s, it names method %d' % (nm, evs, w))
        c.require(not evs or e.const('it') == 7, nm + ':iterations', '%s: the iterations reported by the optimiser are not returned' % nm)
    return 'The second-order modes are shown to run the optimiser they name. Histories of updates, book-keeping, undo, re-initialisation and resizing are analysed for 2, 3 and 5 poses; after every step the first pose is the identity and the intermediate poses equal exp(t ln(last)) of the public exponential and logarithm. Error and gradient of three planes are compared with the sums of the per-plane values on the poses reported at that moment; one gradient iteration, reset and the same iteration again give the same trajectory.'

# ---------------------------------------------------------------- C40
def C40(c):
    cases = {'H_ini4': (2, 4, 0), 'H_ini5a': (2, 5, 1), 'H_ini5b': (2, 5, 9), 'H_ini5c': (2, 5, 64), 'H_ini5d': (3, 5, 0), 'H_ini2': (2, 2, 0), 'H_ini4m': (2, 4, 9), 'H_inj0': (3, 4, 0), 'H_inj1': (3, 6, 273), 'H_inj2': (4, 5, 72), 'H_inj3': (3, 4, 34), 'H_inj4': (3, 5, 73)}
    G = grp(c, 'i', list(cases)); g = G[0]; I = M.eye(g, 4)
    for nm, (n, np, miss) in cases.items():
        e = c.entry(G, nm)
        if not e: continue
        if nm.startswith('H_inj'):
            has = lambda q, t: not (miss >> (n * q + t)) & 1
            cen = lambda q, t: [sum((g.var('T%d' % t, 3 * q + k, j) for k in range(1, 1 + (q + 2 * t) % 3)), g.var('T%d' % t, 3 * q, j)) / g.const(1 + (q + 2 * t) % 3) for j in range(3)]
        else:
            has = lambda q, t: not (miss >> (2 * q + t)) & 1
            cen = lambda q, t: [(g.var('T%d' % t, 2 * q, j) + g.var('T%d' % t, 2 * q + 1, j)) / g.const(2) for j in range(3)]
        ms = poses_of(e, 'm', n); ok = True; HS = []; pr = c.pairs_m('first', ms[0], I)
        for t in range(1, n):
            both_ = [q for q in range(np) if has(q, 0) and has(q, t)]
            if len(both_) < 3: ok = False; break
            X = M([cen(q, t) for q in both_]); Y = M([cen(q, 0) for q in both_]); cx, cy = mean(X), mean(Y); Hs = None
            for i in range(X.r): q = (row(X, i) - cx) @ (row(Y, i) - cy).T(); Hs = q if Hs is None else Hs + q
            HS.append(Hs); o = g.opaque('SVD', Hs.flat(), 21); U = M([[o[3 * i + j] for j in range(3)] for i in range(3)]); V = M([[o[12 + 3 * i + j] for j in range(3)] for i in range(3)])
            R = V @ U.T(); pr += c.pairs_m('pose%d' % t, ms[t], mkpose(R, cy - R @ cx))
        if ok: c.compare(e, pr + [('ret', e.o('ret'), g.const(1))], None, n=3, need=2, opts=dict(RG, svd=svd_with((7, 4, 2), 0)))
        else: c.compare(e, [('ret', e.o('ret'), g.const(0))] + pr, None, n=3, need=2, opts=dict(RG, svd=svd_with((7, 4, 2), 0)))
        if ok: c.compare(e, [('ret-degenerate', e.o('ret'), g.const(0))], None, n=2, need=2, opts=dict(RG, svd=svd_with((7, 0, 0), 0)))
        for Hs in HS if ok and len(HS) > 1 else ():   # degenerate at one time only
            def at(env, key, Hs=Hs):      # the decomposition of this matrix, its transpose or a multiple of them
                h = [env.val(x.n) for x in Hs.flat()]
                same = any(all((k * o[0] - v * key[0]) % P == 0 for k, v in zip(key, o)) for o in (h, [h[3 * (i % 3) + i // 3] for i in range(9)]))
                return svd_with((7, 0, 0) if same else (7, 4, 2), 0)(env, key)
            c.compare(e, [('ret-degenerate-once', e.o('ret'), g.const(0))], None, n=2, need=2, opts=dict(RG, svd=at))
    return 'For planes seen at all times, missing at the first or at a later time, and for too few common planes, the pose of every time is compared with the closed-form alignment of the centroids that each plane has at that time and at the first time.'
# ---------------------------------------------------------------- C41
def C41(c):
    cases = {'H_ev33': (3, 3), 'H_ev05': (0, 5), 'H_ev52': (5, 2), 'H_evi': (4, 4), 'H_evg': (1, 4), 'H_eva': (4, 4), 'H_evc': (2, 4)}
    G = grp(c, 'e', list(cases)); g = G[0]
    for nm, (dec, np) in cases.items():
        e = c.entry(G, nm)
        if not e: continue
        T = poses_of(e, 'm', 3); pts = [[[pnt(g, 'T%d' % t, q)] for t in range(3)] for q in range(np)]
        ss = [PlaneSpec(g, p, T) for p in pts]; er = sum((s.lam for s in ss[1:]), ss[0].lam); it = e.o('it') if nm in ('H_evg', 'H_eva') else g.const(0)
        pr = [('poses', e.o('v', 1), g.const(3)), ('points', e.o('v', 2), g.const(3 * np)), ('iterations', e.o('v', 3), it), ('error', e.o('v', 6), er), ('current', e.o('err'), er)]
        for t in range(3): pr += c.pairs_m('trajectory%d' % t, poses_of(e, 'n', 3)[t], T[t])
        c.require(e.has('v') and len(e.mat('v').a) == 13, nm + ':length', 'the summary does not have thirteen entries')
        more = [pts[0][0] + [pnt(g, 'Xa', 0)], pts[0][1], pts[0][2] + [pnt(g, 'Xa', 1)]]; s2 = [PlaneSpec(g, p, T) for p in [more] + pts[1:]]
        pr += [('points-added', e.o('w', 2), g.const(3 * np + 2)), ('error-added', e.o('w', 6), sum((s.lam for s in s2[1:]), s2[0].lam))]
        c.require(e.const('np') == 3 and e.const('tot') == 3 * np, nm + ':counts', 'the summary changes the number of poses or points')
        for t in range(3):
            c.require(e.const('pc', t) == np, nm + ':cloud', 'the point cloud of time %d has %s points, expected %d' % (t, e.const('pc', t), np))
            if nm in ('H_ev33', 'H_ev05', 'H_ev52'):
                # clouds are unordered over planes: compare sums of coordinates and of squares
                for j in range(3):
                    v = [e.o('p', 10 * t + k, j) for k in range(np)]; w = [p[t][0][j] for p in pts]
                    pr += [('cloud%d_%d' % (t, j), sum(v[1:], v[0]), sum(w[1:], w[0])), ('cloud2_%d_%d' % (t, j), sum((a * a for a in v[1:]), v[0] * v[0]), sum((a * a for a in w[1:]), w[0] * w[0]))]
        c.compare(e, pr, None, n=3, opts=GEN)
    R = grp(c, 'rm', ['H_rmse2', 'H_rmse3', 'H_rmse2x']); g = R[0]
    for nm, n in (('H_rmse2', 2), ('H_rmse3', 3), ('H_rmse2x', 2)):
        e = c.entry(R, nm)
        if not e: continue
        d = [e.o('d', k, j) for k in range(n) for j in range(6)]; v = e.o('rmse')
        pr = [('rmse', v, g.sqrt(sum((x * x for x in d[1:]), d[0] * d[0]) * g.const(Fraction(1, n))))]
        for t in range(n): pr += c.pairs_m('trajectory%d' % t, poses_of(e, 'm', n)[t], M([[g.var('T%d' % t, i, j) for j in range(4)] for i in range(4)]))
        c.compare(e, pr, None, n=6, opts={'truth': acute})
    return 'The distance to a ground truth is the root mean square of the relative logarithms over the poses of the problem, also when the ground truth covers more of them. The summary is analysed for as many, fewer and more planes than declared and after solves of several modes: no access outside its tables, no change of trajectory or points, and poses, points, iterations and error as determined by the data.'

# ---------------------------------------------------------------- C42
def acute(env, n):
    """poses whose rotation has a positive cosine; the other branch of the logarithm is the subject of C03"""
    r = generic(env, n)
    if r is None and env.g.nodes[n][0] == 'lt':
        a, b = (env.g.nodes[x] for x in env.g.nodes[n][3:5])
        if a[0] == 'c' and a[2] == 0: return True
        if b[0] == 'c' and b[2] == 0: return False
    return r
def C42(c):
    dims = {'a': (10, 4, 2), 'b': (7, 3, 3), 'c': (5, 5, 4), 'd': (6, 1, 1), 'e': (2, 3, 2)}
    G = c.group("scene", "scene.cpp", SR + (["src/PCRegistration/create_points.cpp"] if "src/PCRegistration/create_points.cpp" not in SR else []), flags=['-I' + os.path.join(pipe.ROOT, 'harness', 'mockrandom')], entries=['H_scene_' + k for k in dims], opaque=['chrono::_V2::.*clock::now@NOW@noop'], loop=16); g = G[0]
    for k, (N, NP, NT) in dims.items():
        nm = 'H_scene_' + k; e = c.entry(G, nm)
        if not e: continue
        def req(key, want, text):
            v = e.const(*key) if isinstance(key, tuple) else e.const(key); c.require(v == want, '%s:%s' % (nm, key if isinstance(key, str) else key[0]), '%s: %s (%s, expected %s)' % (nm, text, v, want))
        for q, w in (('np', NP), ('nt', NT), ('ntr', NT), ('npl', NP), ('nps', NP), ('rp', NP), ('rt', NT), ('tot', N * NT)): req(q, w, 'size of the scene ' + q)
        req('lab', 0, 'points labelled with a plane that does not exist'); req('mine', 0, 'points missing in the plane structure'); req('own', 0, 'planes listed under another id'); req('cnt', 0, 'planes hold points that are not in the cloud'); req('miss', 0, 'planes without points')
        for t in range(NT): req(('nX', t, 0), N, 'points of a time'); req(('nid', t, 0), N, 'labels of a time')
        I = M([[g.const(int(i == j)) for j in range(4)] for i in range(4)])
        pr = c.pairs(e, 'T0', I) + c.pairs(e, 'TL', e.mat('Ta%d' % (NT - 1)))
        for t in range(NT): pr += c.pairs(e, 'Ta%d' % t, e.mat('Ts%d' % t)) + c.pairs(e, 'Tb%d' % t, e.mat('Ta%d' % t)) + c.pairs(e, 'I%d' % t, I) + c.pairs(e, 'I%d' % (t + 4), I)
        for key in e.outs:
            if key[0] == 'x': pr += [('plane-point[%d,%d]' % key[1:], e.o('y', *key[1:]), e.o(*key)), ('registration-point[%d,%d]' % key[1:], e.o('z', *key[1:]), e.o(*key))]
        c.compare(e, pr, n=3, opts={'truth': acute})
        # where the points lie on their plane
        nd = e.const('draws'); done = 0; bad = {}; tries = 0
        while done < 3 and tries < 300:
            tries += 1; env = Env(g, 77 + tries, opts=dict(GEN))
            try: qs = {key[1:]: env.val(n) for key, n in e.outs.items() if key[0] == 'q'}
            except Resample: continue
            done += 1; no, bi = env.var('noise[0,0]'), env.var('bias[0,0]'); U = {(2 * env.var('U[%d,0]' % i) - 1) % P for i in range(nd)}; Z = [env.var('Z[%d,0]' % i) for i in range(nd)]; hz = {no * z % P for z in Z}
            seen = set()
            for t in range(NT):
                axis = []
                for j in (0, 1):
                    xs = [qs[(t * 100 + i, j)] for i in range(N)]
                    zs = {z for z in Z if all((x - bi * z) % P in U for x in xs)}; axis.append(zs)
                    if not zs: bad['inside'] = 'points of time %d do not lie in the square of their plane shifted by one bias' % t
                if axis[0] & axis[1]: bad['axes'] = 'the two axes of time %d are shifted by one and the same bias sample' % t
                for i in range(N):
                    h = qs[(t * 100 + i, 2)]
                    if h not in hz: bad['height'] = 'point %d of time %d, moved by the ground-truth pose, does not lie on the plane of its label up to the height noise' % (i, t)
                    elif h in seen: bad['shared'] = 'two points share a noise sample'
                    seen.add(h)
        c.ok(2 * len(qs))
        if done < 3: raise Broken('%s: no interpretation' % nm)
        for q, w in bad.items(): c.violation('%s:%s' % (nm, q), '%s: %s' % (nm, w))
    return 'Scenes of 1-4 poses, 1-5 planes and 2-10 points with every random draw an unconstrained value: trajectory against the interpolation of its last pose, points against plane, label and pose, plane structures against clouds.'
