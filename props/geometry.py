import math, itertools
from fractions import Fraction
from vg import *
import vg
from drive import Broken
SRC = ['src/geometry/SO3.cpp', 'src/geometry/SE3.cpp', 'src/geometry/SE3cov.cpp']
def grp(c): return c.group('geom', 'geom.cpp', SRC)

# ---------------------------------------------------------------- sampling of inputs
def rot(env, *k): return quat_rot([env.rnd('q', i, *k) for i in range(4)])
def pose_rows(env, *k):
    R = rot(env, *k); t = [env.rnd('t', i, *k) for i in range(3)]
    return [R[i] + [t[i]] for i in range(3)] + [[0, 0, 0, 1]]
def set_rot(*names):
    def f(env):
        for n in names: env.setm(n, rot(env, n))
    return f
def set_pose(*names):
    def f(env):
        for n in names: env.setm(n, pose_rows(env, n))
    return f
def both(*fs):
    def f(env):
        for x in fs: x(env)
    return f
def nz_pose(name):     # arbitrary 4x4 with last row 0 0 0 1
    def f(env): env.setm(name, [[env.rnd(name, i, j) for j in range(4)] for i in range(3)] + [[0, 0, 0, 1]])
    return f
def invpose(A):
    g = A[0, 0].g; R = A.block(0, 0, 3, 3).T(); t = -(R @ A.block(0, 3, 3, 1))
    return M.vstack(M.hstack(R, t), M([[g.const(0)] * 3 + [g.const(1)]]))
def mkpose(R, t):
    g = R[0, 0].g
    return M.vstack(M.hstack(R, t), M([[g.const(0)] * 3 + [g.const(1)]]))

# ---------------------------------------------------------------- C01
def C01(c):
    G = grp(c); g = G[0]
    A3, B3 = g.mat('A', 3, 3), g.mat('B', 3, 3); A, B = g.mat('A', 4, 4), g.mat('B', 4, 4)
    e = c.entry(G, 'H_so3_mul')
    if e: c.compare(e, c.pairs(e, 'mul', A3 @ B3) + c.pairs(e, 'mul2', A3 @ B3) + c.pairs(e, 'a', A3) + c.pairs(e, 'b', B3), set_rot('A', 'B'))
    e = c.entry(G, 'H_so3_inv')
    if e: c.compare(e, c.pairs(e, 'inv', A3.T()) + c.pairs(e, 'a', A3), set_rot('A'))
    e = c.entry(G, 'H_so3_acc')
    if e: c.compare(e, sum((c.pairs(e, k, A3) for k in ('R', 'ref', 'cp', 'as', 'self')), []) + c.pairs(e, 'def', M.eye(g, 3)), set_rot('A'))
    e = c.entry(G, 'H_se3_mul')
    if e: c.compare(e, c.pairs(e, 'mul', A @ B) + c.pairs(e, 'mul2', A @ B) + c.pairs(e, 'a', A) + c.pairs(e, 'b', B) + c.pairs(e, 'sq', A @ A), set_pose('A', 'B'))
    e = c.entry(G, 'H_se3_inv')
    if e: c.compare(e, c.pairs(e, 'inv', invpose(A)) + c.pairs(e, 'a', A), set_pose('A'))
    e = c.entry(G, 'H_se3_acc')
    if e:
        I = M.eye(g, 4); R = g.mat('R', 3, 3); t = g.vec('t', 3)
        pr = sum((c.pairs(e, k, A) for k in ('T', 'ref', 'cp', 'as', 'self')), []) + c.pairs(e, 'def', I) + c.pairs(e, 'R', A.block(0, 0, 3, 3)) + c.pairs(e, 't', A.block(0, 3, 3, 1))
        pr += c.pairs(e, 'Rt', mkpose(R, t)) + c.pairs(e, 'SO3t', mkpose(R, t)) + c.pairs(e, 'expr', A @ A)
        c.compare(e, pr, both(set_pose('A'), set_rot('R')))
    Rm, t = A.block(0, 0, 3, 3), A.block(0, 3, 3, 1)
    e = c.entry(G, 'H_se3_transform')
    if e: c.compare(e, c.pairs(e, 'q', Rm @ g.vec('p', 3) + t) + c.pairs(e, 'a', A), set_pose('A'))
    for nm, N in [('H_se3_array', 4)] + [('H_se3_array%d' % k, k) for k in (0, 1, 2, 3, 5, 8, 16, 19, 37, 67, 131, 259) + ((515, 1027) if c.tier != 'quick' else ())]:
        e = c.entry(G, nm)
        if not e: continue
        if N == 0: c.require(e.const('rows') == 0 and e.const('cols') == 3, nm + ':shape', 'transform_array of no points is not an empty Nx3 array'); continue
        Pm = g.mat('P', N, 3)
        c.require(e.const('rows') == N and e.const('cols') == 3, nm + ':shape', 'transform_array does not return an Nx3 array')
        sp = M.vstack(*[(Rm @ Pm.block(i, 0, 1, 3).T() + t).T() for i in range(N)])
        pr = c.pairs(e, 'Q', sp)
        if e.has('P'): pr += c.pairs(e, 'P', Pm) + c.pairs(e, 'a', A)
        c.compare(e, pr, set_pose('A'))
    return 'Each composition, inverse, accessor, constructor and transform equals its matrix formula for every transform; operands are compared after the call.'

# ---------------------------------------------------------------- regions of the rotation angle
class Need(Exception): pass
class Box:
    def __init__(s, lo, hi): s.lo = lo; s.hi = hi
    def __repr__(s): return '[%g, %g]' % (s.lo, s.hi)
def icos(b): return (min(math.cos(b.lo), math.cos(b.hi)) if not (b.lo <= math.pi <= b.hi) else -1.0, math.cos(b.lo) if b.lo < math.pi else 1.0)
def quantities(env, o, b):
    """recognisable guard quantities and their range over the box"""
    c, s = env.circ[(o, 1)]
    lo, hi = b.lo, b.hi
    cl, ch = (math.cos(min(hi, math.pi)), math.cos(lo)) if hi <= math.pi + 1e-12 else (-1.0, 1.0)
    q = {o: (lo, hi), o * o % P: (lo * lo, hi * hi), c: (cl, ch), (1 + 2 * c) % P: (1 + 2 * cl, 1 + 2 * ch), (1 - c) % P: (1 - ch, 1 - cl), (1 + c) % P: (1 + cl, 1 + ch),
         (env.pi - o) % P: (math.pi - hi, math.pi - lo), o * o % P * o % P: (lo ** 3, hi ** 3), pow(o, 4, P): (lo ** 4, hi ** 4), o * inv(2) % P: (lo / 2, hi / 2), (2 * c) % P: (2 * cl, 2 * ch), (3 - 1 - 2 * c) % P: (2 - 2 * ch, 2 - 2 * cl)}
    if hi <= math.pi:
        sl, sh = sorted((math.sin(lo), math.sin(hi)));  sh = 1.0 if lo <= math.pi / 2 <= hi else sh
        q[s] = (max(sl, 0.0), sh)
        q[s * s % P] = (max(sl, 0.0) ** 2, sh * sh)
    return q
def region(b, choice, nan, qsel=None):
    def truth(env, n):
        nd = env.g.nodes[n]
        if nd[0] == 'nan':
            if not nan: return False
            if n not in choice: raise Need(n)
            return choice[n]
        if nd[0] not in ('lt', 'eq'): return None
        a, bb = nd[3], nd[4]
        va, vb = env.val(a), env.val(bb)
        q = env.o['q']
        ca, cb = env.g.nodes[a], env.g.nodes[bb]
        def cv(x):
            f, k = const_form(float(x[2])); return float(f) * math.pi ** k
        if cb[0] == 'c' and not isinstance(cb[2], str) and va in q and not (ca[0] == 'c'): iv = q[va]; jv = (cv(cb),) * 2
        elif ca[0] == 'c' and not isinstance(ca[2], str) and vb in q and not (cb[0] == 'c'): iv = (cv(ca),) * 2; jv = q[vb]
        else:
            # a constant split off the difference: q + k < const
            return None
        if nd[0] == 'lt':
            if iv[1] < jv[0]: return True
            if iv[0] >= jv[1]: return False
        else:
            if iv[1] < jv[0] or iv[0] > jv[1]: return False
            if iv == jv and iv[0] == iv[1]: return True
        if n not in choice: raise Need(n)
        return choice[n]
    return truth
def explore(run):
    """run(choice) for every combination of the guards a box cannot decide"""
    work = [{}]; cnt = 0
    while work:
        ch = work.pop(); cnt += 1
        if cnt > 64: raise Broken('too many undecided guards')
        try: run(ch)
        except Need as k:
            n = k.args[0]; work.append({**ch, n: True}); work.append({**ch, n: False})
def logboxes(lo, hi, per=2):
    r = []; n = int(round(math.log10(hi / lo) * per))
    e = [lo * (hi / lo) ** (i / n) for i in range(n + 1)]
    return [Box(a, b) for a, b in zip(e, e[1:])]
def setup_angle(env, n=None, o=None):
    """random unit axis n, positive angle o with positive sine"""
    if n is None:
        q = [env.rnd('ax', i) for i in range(3)]; d = inv(1 + q[0] * q[0] + q[1] * q[1])
        n = [2 * q[0] * d % P, 2 * q[1] * d % P, (1 - q[0] * q[0] - q[1] * q[1]) * d % P]
    if o is None:
        o = env.rnd('o'); o = o if isqr(o) else P - o
        c, s = env.point(o, 1)
        if not isqr(s) or (not isqr(env.pi - o)): raise Resample('sign')
        env.regacos[c] = o; env.rev[(c, s)] = o
    return n, o
def rodr(n, c, s):
    W = fhat(n); W2 = rmatmul(W, W)
    return [[(int(i == j) + s * W[i][j] + (1 - c) * W2[i][j]) % P for j in range(3)] for i in range(3)]
def fhat(w): return [[0, -w[2] % P, w[1]], [w[2], 0, -w[0] % P], [-w[1] % P, w[0], 0]]
def Vmat(n, o, c, s, inverse=False):
    W = fhat(n); W2 = rmatmul(W, W); io = inv(o)
    V = [[(int(i == j) + (1 - c) * io * W[i][j] + (o - s) * io * W2[i][j]) % P for j in range(3)] for i in range(3)]
    return rinv(V) if inverse else V
NSER = [Fraction(2, 3), Fraction(1, 3), Fraction(-2, 3)]
VSER = [Fraction(3, 7), Fraction(-5, 11), Fraction(2, 13)]
def ser_rot(V0=None):
    o = Ser(1, [Fraction(1)]); S, C = o.sincos()
    n = NSER; W = [[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]]
    W2 = [[sum(W[i][k] * W[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    R = [[Ser.k(int(i == j)) + S * Ser.k(W[i][j]) + (Ser.k(1) - C) * Ser.k(W2[i][j]) for j in range(3)] for i in range(3)]
    io = o.inv(); a = (Ser.k(1) - C) * io; b = (o - S) * io
    V = [[Ser.k(int(i == j)) + a * Ser.k(W[i][j]) + b * Ser.k(W2[i][j]) for j in range(3)] for i in range(3)]
    t = [sum((V[i][k] * Ser.k((V0 or VSER)[k]) for k in range(3)), Ser(0, [])) for i in range(3)]
    return o, S, C, R, t
TOL = 1e-15

def check_boxes(c, e, boxes, setup, target, serin, sertgt, nanlo=0.0, nanhi=9.0, what='', zero=True):
    """setup(env, o, n)->None sets inputs; target(env)->{label: (node, field value)};
    serin: inputs for the series; sertgt: {label: Ser}"""
    g = e.g; labels = None
    for b in boxes:
        nan = b.lo <= nanlo or b.hi >= nanhi
        def run(ch):
            nonlocal labels
            dec = {}
            for t in range(400):
                env = Env(g, 77000 + t, opts={'truth': None})
                base = region(b, ch, nan)
                def tr(en, n):
                    r = base(en, n)
                    if r is not None: dec[n] = r
                    return r
                env.truth = tr
                try:
                    n, o = setup_angle(env); env.o['q'] = quantities(env, o, b); env.ang = (n, o)
                    setup(env, n, o); tg = target(env); bad = [l for l, (x, v) in tg.items() if (env.val(x) - v) % P]
                    break
                except Resample: continue
            else: raise Broken('no interpretation for ' + repr(b))
            c.oblig += len(tg)
            isnan = any(v for k, v in dec.items() if g.nodes[k][0] == 'nan')
            if b.hi <= 0.5:
                se = SerEnv(g, serin(), lambda s, n: dec.get(n), acos=[(serC, serO)])
                try:
                    ser = {l: se.val(tg[l][0]) for l in tg}
                except (Resample, Undecided) as x:
                    if bad: c.violation('%s:%s' % (e.name, bad[0].split('[')[0]), '%s%s: for rotation angles in %r the value %s is not the specified function (%s)' % (e.name, what, b, bad[0], x), g.loc(tg[bad[0]][0]))
                    return
                if b.lo == 0 and se.poles:
                    c.violation('%s:pole' % e.name, '%s%s: division by a quantity that vanishes with the rotation angle is used for angles in %r' % (e.name, what, b), g.loc(se.poles[0]))
                for l in bad:
                    err = (ser[l] - sertgt[l]).bound(b.hi)
                    tol = b.hi * 1.01 if isnan or (l[0] == 'o' and b.hi <= nanlo) else TOL
                    if err > tol: c.violation('%s:%s' % (e.name, l.split('[')[0]), '%s%s: for rotation angles in %r the series used for %s is off by up to %.2g' % (e.name, what, b, l, err), g.loc(tg[l][0]))
            else:
                for l in bad: c.violation('%s:%s' % (e.name, l.split('[')[0]), '%s%s: for rotation angles in %r the value %s is not the specified function' % (e.name, what, b, l), g.loc(tg[l][0]))
        explore(run)
serO = Ser(1, [Fraction(1)]); serS, serC = serO.sincos()

# ---------------------------------------------------------------- C02
SMALL = [Box(0.0, 1e-12)] + logboxes(1e-12, 0.1)
def C02(c):
    G = grp(c); g = G[0]
    o, S, C, R, t = ser_rot()
    e = c.entry(G, 'H_so3_exp')
    BX = SMALL + [Box(0.1, 0.5), Box(0.5, 1.5), Box(1.5, 3.1), Box(3.1, 6.5), Box(6.5, 50.)]
    if e:
        def setup(env, n, o): env.setm('w', [[o * x] for x in n])
        def target(env):
            n, o = env.ang; cc, ss = env.circ[(o, 1)]; Rm = rodr(n, cc, ss)
            return {'%s[%d,%d]' % (k, i, j): (e.outs[(k, i, j)], Rm[i][j]) for k in ('R', 'R2') for i in range(3) for j in range(3)}
        check_boxes(c, e, BX, setup, target, lambda: {'w[%d,0]' % i: serO * Ser.k(NSER[i]) for i in range(3)}, {'%s[%d,%d]' % (k, i, j): R[i][j] for k in ('R', 'R2') for i in range(3) for j in range(3)})
        zero(c, e, {'w': 3}, {'R': 3, 'R2': 3})
    e = c.entry(G, 'H_se3_exp')
    if e:
        def setup(env, n, o):
            env.vv = [env.rnd('vv', i) for i in range(3)]; env.setm('xi', [[o * x] for x in n] + [[x] for x in env.vv])
        def target(env):
            n, o = env.ang; cc, ss = env.circ[(o, 1)]; Rm = rodr(n, cc, ss); V = Vmat(n, o, cc, ss); tt = rmatmul(V, [[x] for x in env.vv])
            T = [Rm[i] + tt[i] for i in range(3)] + [[0, 0, 0, 1]]
            return {'%s[%d,%d]' % (k, i, j): (e.outs[(k, i, j)], T[i][j]) for k in ('T', 'T2') for i in range(4) for j in range(4)}
        st = {}
        for k in ('T', 'T2'):
            for i in range(4):
                for j in range(4): st['%s[%d,%d]' % (k, i, j)] = (R[i][j] if j < 3 else t[i]) if i < 3 else Ser.k(int(j == 3))
        check_boxes(c, e, BX, setup, target, lambda: {**{'xi[%d,0]' % i: serO * Ser.k(NSER[i]) for i in range(3)}, **{'xi[%d,0]' % (3 + i): Ser.k(VSER[i]) for i in range(3)}}, st)
        zero(c, e, {'xi': 3}, {'T': 4, 'T2': 4}, v='xi')
    return 'Guards on the rotation angle are decided by interval analysis per angle range; closed-form branches are compared exactly with the exponential, series branches by their Laurent expansion (error below 1e-15 over the range in which they are used), and at angle zero no branch divides by the angle.'
def zero(c, e, zi, outs, v=None):
    """the exact zero rotation"""
    g = e.g; env = Env(g, 5)
    for k, n in zi.items(): env.setm(k, [[0]] * n + ([[env.rnd('z', i)] for i in range(3)] if v else []))
    try:
        for k, n in outs.items():
            for i in range(n):
                for j in range(n):
                    want = int(i == j)
                    if v and j == 3 and i < 3: want = env.rnd('z', i)
                    c.oblig += 1
                    if (env.val(e.outs[(k, i, j)]) - want) % P: c.violation('%s:zero' % e.name, '%s: a zero rotation vector does not give the identity rotation (%s[%d,%d])' % (e.name, k, i, j), g.loc(e.outs[(k, i, j)]))
    except Resample as x: c.violation('%s:zero' % e.name, '%s: division by zero for a zero rotation vector' % e.name, '')

# ---------------------------------------------------------------- C03
class Axis:
    """unit vector a / sqrt(k)"""
    def __init__(s, a, k=1): s.a = [Fraction(x) for x in a]; s.k = k
    def field(s): r = inv(root(s.k)); return [frac(x) * r % P for x in s.a]
    def __str__(s): return '(%s)%s' % (', '.join(map(str, s.a)), '' if s.k == 1 else '/sqrt(%d)' % s.k)
    __repr__ = __str__
def unit(*a): return Axis(a, sum(x * x for x in a))
def C03(c):
    G = grp(c); g = G[0]
    o, S, C, R, t = ser_rot()
    W = [[0, -NSER[2], NSER[1]], [NSER[2], 0, -NSER[0]], [-NSER[1], NSER[0], 0]]
    pi = math.pi
    BX = SMALL + [Box(0.1, 0.5), Box(0.5, 1.0), Box(1.0, 1.5), Box(1.5, 1.65), Box(1.65, 2.5), Box(2.5, 3.0), Box(3.0, pi - 1e-2), Box(pi - 1e-2, pi - 1e-3), Box(pi - 1e-3, pi - 1e-4), Box(pi - 1e-4, pi - 1e-5), Box(pi - 1e-5, pi - 1e-6), Box(pi - 1e-6, pi - 1.5e-7)]
    e = c.entry(G, 'H_so3_ln'); e6 = c.entry(G, 'H_se3_ln')
    vee = lambda w: w
    def tgt3(env, e):
        n, o = env.ang; Wm = [[o * x % P for x in r] for r in fhat(n)]
        d = {'%s[%d,%d]' % (k, i, j): (e.outs[(k, i, j)], Wm[i][j]) for k in ('W', 'W2') for i in range(3) for j in range(3)}
        d.update({'v[%d,0]' % i: (e.outs[('v', i, 0)], o * n[i] % P) for i in range(3)}); d['o[0,0]'] = (e.outs[('o', 0, 0)], o)
        return d
    def set3(env, n, o): cc, ss = env.circ[(o, 1)]; env.setm('A', rodr(n, cc, ss))
    def set6(env, n, o):
        cc, ss = env.circ[(o, 1)]; env.vv = [env.rnd('vv', i) for i in range(3)]; Rm = rodr(n, cc, ss); tt = rmatmul(Vmat(n, o, cc, ss), [[x] for x in env.vv])
        env.setm('A', [Rm[i] + tt[i] for i in range(3)] + [[0, 0, 0, 1]])
    def tgt6(env, e):
        n, o = env.ang; Wm = [[o * x % P for x in r] for r in fhat(n)]
        T = [Wm[i] + [env.vv[i]] for i in range(3)] + [[0] * 4]
        d = {'W[%d,%d]' % (i, j): (e.outs[('W', i, j)], T[i][j]) for i in range(4) for j in range(4)}
        d.update({'v[%d,0]' % i: (e.outs[('v', i, 0)], (o * n[i] if i < 3 else env.vv[i - 3]) % P) for i in range(6)})
        return d
    sW = lambda i, j: serO * Ser.k(W[i][j])
    serA3 = lambda: {'A[%d,%d]' % (i, j): R[i][j] for i in range(3) for j in range(3)}
    serA4 = lambda: {'A[%d,%d]' % (i, j): ((R[i][j] if j < 3 else t[i]) if i < 3 else Ser.k(int(j == 3))) for i in range(4) for j in range(4)}
    if e:
        st = {'%s[%d,%d]' % (k, i, j): sW(i, j) for k in ('W', 'W2') for i in range(3) for j in range(3)}
        st.update({'v[%d,0]' % i: serO * Ser.k(NSER[i]) for i in range(3)}); st['o[0,0]'] = serO
        check_boxes(c, e, BX, set3, lambda env: tgt3(env, e), serA3, st, nanlo=1e-7)
    if e6:
        st = {'W[%d,%d]' % (i, j): ((sW(i, j) if j < 3 else Ser.k(VSER[i])) if i < 3 else Ser(0, [])) for i in range(4) for j in range(4)}
        st.update({'v[%d,0]' % i: (serO * Ser.k(NSER[i]) if i < 3 else Ser.k(VSER[i - 3])) for i in range(6)})
        check_boxes(c, e6, BX, set6, lambda env: tgt6(env, e6), serA4, st, nanlo=1e-7)
    # half a turn: exactly pi, and the last ulps before it; all dominant-axis cases
    F = Fraction
    axes = [a and Axis(a) for a in [(F(1), F(0), F(0)), (F(0), F(1), F(0)), (F(0), F(0), F(1)), (F(3, 5), F(4, 5), F(0)), (F(4, 5), F(3, 5), F(0)), (F(0), F(3, 5), F(4, 5)), (F(4, 5), F(0), F(3, 5)), (F(0), F(-4, 5), F(3, 5)), (F(3, 5), F(0), F(-4, 5)),
            (F(2, 3), F(2, 3), F(1, 3)), (F(1, 3), F(2, 3), F(2, 3)), (F(2, 3), F(1, 3), F(2, 3)), (F(-2, 3), F(1, 3), F(-2, 3)), (F(-6, 7), F(2, 7), F(3, 7)), (F(2, 7), F(-6, 7), F(3, 7)), (F(2, 7), F(3, 7), F(-6, 7)), None]]
    # ties between the largest components
    axes += [unit(*a) for a in ((1, 1, 0), (1, -1, 0), (-1, -1, 0), (1, 0, 1), (-1, 0, 1), (0, 1, 1), (0, 1, -1), (1, 1, 1), (1, -1, 1), (2, 2, -1), (1, 2, 2), (2, -1, 2))]
    for ent, isse in ((e, False), (e6, True)):
        if not ent: continue
        for ax in axes:
            # (between the snapping guard and half a turn the result is continuous with the exact case; the boxes end 1.5e-7 before it)
            half_turn(c, ent, isse, ax, True)
            for b in (Box(1.65, 2.5), Box(pi - 1e-6, pi - 1.5e-7)): axis_case(c, ent, isse, ax, b)
        # the guard decisions that hold just before half a turn must not divide by sin(angle)
        pole_pi(c, ent, isse)
    # exact identity
    if e: ident(c, e, 3)
    if e6: ident(c, e6, 4)
    for ent, n in ((e, 3), (e6, 4)):
        if ent: c.compare(ent, c.pairs(ent, 'a', g.mat('A', n, n)), (set_rot if n == 3 else set_pose)('A'), n=2)
    return 'Angle ranges from 0 to half a turn are covered by boxes over which every guard is decided by interval analysis; on each the computed logarithm equals angle times axis exactly (or its series does, below 1e-15), for every choice of dominant diagonal entry, for NaN from round-off, and at exactly half a turn up to the sign of the axis.'
def ident(c, e, n):
    g = e.g; env = Env(g, 9); env.setm('A', [[int(i == j) for j in range(n)] for i in range(n)])
    env.circ[(0, 1)] = (1, 0); env.regacos[1] = 0
    try:
        for (k, i, j), x in e.outs.items():
            if k in ('a',): continue
            c.oblig += 1
            if env.val(x): c.violation('%s:identity' % e.name, '%s: the logarithm of the identity is not zero (%s[%d,%d])' % (e.name, k, i, j), g.loc(x))
    except Resample as r: c.violation('%s:identity' % e.name, '%s: division by zero at the identity' % e.name)
def axis_case(c, e, isse, ax, b):
    g = e.g
    def run(ch):
        for t in range(600):
            env = Env(g, 31000 + t); env.truth = region(b, ch, False)
            try:
                n, o = setup_angle(env, ax.field() if ax else None)
                cc, ss = env.circ[(o, 1)]
                if ax and not isqr(1 - cc): raise Resample('1-cos')
                if isqr(cc): raise Resample('cos')
                env.o['q'] = quantities(env, o, b); Rm = rodr(n, cc, ss)
                if isse:
                    env.vv = [env.rnd('vv', i) for i in range(3)]; tt = rmatmul(Vmat(n, o, cc, ss), [[x] for x in env.vv]); env.setm('A', [Rm[i] + tt[i] for i in range(3)] + [[0, 0, 0, 1]])
                else: env.setm('A', Rm)
                got = [env.val(e.outs[('v', i, 0)]) for i in range(6 if isse else 3)]
                break
            except Resample: continue
        else: raise Broken('no interpretation (axis case)')
        want = [o * x % P for x in n] + (env.vv if isse else [])
        c.oblig += 3
        if got != want: c.violation('%s:axis' % e.name, '%s: rotation by an angle in %r about axis %s: the logarithm is not angle times axis' % (e.name, b, ax or 'generic'), g.loc(e.outs[('v', 0, 0)]))
    explore(run)
def half_turn(c, e, isse, ax, exact):
    g = e.g; pi = math.pi; b = Box(pi, pi) if exact else Box(pi - 1.5e-7, pi)
    def run(ch):
        for t in range(600):
            env = Env(g, 41000 + t); env.truth = region(b, ch, True)
            try:
                if exact:
                    n, _ = setup_angle(env, ax.field() if ax else None, o=env.pi); o = env.pi; env.circ[(o, 1)] = (P - 1, 0); env.circ[(o, 2)] = (0, 1); env.regacos[P - 1] = o
                else:
                    n, o = setup_angle(env, ax.field() if ax else None)
                    if not isqr(1 - env.circ[(o, 1)][0]): raise Resample('1-cos')
                cc, ss = env.circ[(o, 1)]; env.o['q'] = quantities(env, o, b); Rm = rodr(n, cc, ss)
                if isse:
                    env.vv = [env.rnd('vv', i) for i in range(3)]; tt = rmatmul(Vmat(n, o, cc, ss), [[x] for x in env.vv]); env.setm('A', [Rm[i] + tt[i] for i in range(3)] + [[0, 0, 0, 1]])
                else: env.setm('A', Rm)
                got = [env.val(e.outs[('v', i, 0)]) for i in range(6 if isse else 3)]
                break
            except Resample as r:
                if exact and 'zero' in str(r):
                    c.violation('%s:half-turn' % e.name, '%s: division by zero at exactly half a turn' % e.name, g.loc(e.outs[('v', 0, 0)])); return
                continue
        else: raise Broken('no interpretation (half turn)')
        wants = [[k * x % P for x in n] for k in ((o, env.pi) + ((P - o, P - env.pi) if exact else ()))]
        c.oblig += 3
        if got[:3] not in wants: c.violation('%s:half-turn' % e.name, '%s: at %s half a turn about axis %s the logarithm is not half a turn about that axis' % (e.name, 'exactly' if exact else 'just below', ax or 'generic'), g.loc(e.outs[('v', 0, 0)])); return
        if isse and exact:
            # translation part: V^-1 of the returned rotation vector
            sg = 1 if got[:3] == [env.pi * x % P for x in n] else P - 1
            if sg == 1 and got[3:] != env.vv: c.violation('%s:half-turn-v' % e.name, '%s: translation part of the logarithm is wrong at half a turn' % e.name, g.loc(e.outs[('v', 3, 0)]))
    explore(run)
def pole_pi(c, e, isse):
    g = e.g; pi = math.pi; b = Box(pi - 1e-6, pi - 1.5e-7)
    def run(ch):
        env = Env(g, 3); tr = region(b, ch, False); q = {}
        def truth(en, n): return tr(en, n)
        env.truth = truth
        n, _ = setup_angle(env, None, o=env.pi); o = env.pi; env.circ[(o, 1)] = (P - 1, 0); env.regacos[P - 1] = o
        env.o['q'] = quantities(env, o, b); Rm = rodr(n, P - 1, 0)
        env.setm('A', [Rm[i] + [env.rnd('t', i)] for i in range(3)] + [[0, 0, 0, 1]] if isse else Rm)
        c.oblig += 1
        try: [env.val(x) for (k, i, j), x in e.outs.items() if k in ('v', 'W')]
        except Resample as r:
            if 'zero' in str(r): c.violation('%s:pole-pi' % e.name, '%s: for angles just below half a turn the logarithm divides by a quantity that vanishes at half a turn' % e.name, g.loc(e.outs[('v', 0, 0)]))
    explore(run)

# ---------------------------------------------------------------- C04
def rnd_rotvec(k=1):
    """angle/axis inputs for harness entries that use the exponential on both sides: the guards agree by construction"""
def cols(m, i, n): return m.block(i, 0, n, 1)
def C04(c):
    G = grp(c); g = G[0]
    A3, A = g.mat('A', 3, 3), g.mat('A', 4, 4)
    for nm, sp, st in (('H_so3_lhs', lambda e: e.mat('D') @ A3, set_rot('A')), ('H_so3_rhs', lambda e: A3 @ e.mat('D'), set_rot('A')),
                       ('H_se3_lhs', lambda e: e.mat('D') @ A, set_pose('A')), ('H_se3_rhs', lambda e: A @ e.mat('D'), set_pose('A'))):
        e = c.entry(G, nm)
        if e: c.compare(e, c.pairs(e, 'T', sp(e)) + c.pairs(e, 'w', g.vec('w', 3 if 'so3' in nm else 6)), posang(st, nm), n=12)
    e = c.entry(G, 'H_se3_regen')
    if e: c.compare(e, c.pairs(e, 'T', e.mat('S')), both(set_pose('A'), acospos), n=12)
    for nm in ('H_se3_lhs2', 'H_se3_rhs2'):
        e = c.entry(G, nm)
        if not e: continue
        D1, D2 = e.mat('D1'), e.mat('D2')
        c.compare(e, c.pairs(e, 'T', D2 @ (D1 @ A) if 'lhs' in nm else (A @ D1) @ D2), posang(set_pose('A'), nm), n=12)
    return 'Every update entry is compared with the product of the exponential of the same tangent vector (built by the constructor decided under C02) and the transform, on the stated side; regeneration with the exponential of the logarithm.'
def posang(st, nm):
    def f(env):
        st(env)
    return f
def acospos(env): pass

# ---------------------------------------------------------------- C05
def C05(c):
    G = grp(c); g = G[0]; e = c.entry(G, 'H_adj')
    if e:
        A = g.mat('A', 4, 4); x = g.vec('x', 6); ad = e.mat('adj')
        lhs = A @ hat6(x) @ invpose(A); rhs = hat6(ad @ x)
        R = A.block(0, 0, 3, 3); t = A.block(0, 3, 3, 1)
        spec = M.vstack(M.hstack(R, M.zeros(g, 3, 3)), M.hstack(hat3(t) @ R, R))
        B = g.mat('B', 3, 3); w = g.vec('w', 3)
        pr = [('conj[%d,%d]' % (i, j), rhs[i, j], lhs[i, j]) for i in range(4) for j in range(4)]
        l3 = B @ hat3(w) @ B.T(); r3 = hat3(e.mat('adj3') @ w)
        pr += [('conj3[%d,%d]' % (i, j), r3[i, j], l3[i, j]) for i in range(3) for j in range(3)]
        c.compare(e, c.pairs(e, 'adj', spec) + c.pairs(e, 'adj3', B) + pr + c.pairs(e, 'a', A), both(set_pose('A'), set_rot('B')))
    return 'The conjugation identity and the block form of the adjoint are compared for symbolic transforms and tangent vectors.'

# ---------------------------------------------------------------- C06
def gen6(g, i): return None
def C06(c):
    G = grp(c); g = G[0]; e = c.entry(G, 'H_hat')
    if e:
        w = g.vec('w', 3); x = g.vec('x', 6); y = g.vec('y', 6); u = g.vec('u', 3)
        W = g.mat('W', 3, 3); X = g.mat('X', 4, 4)
        cross = M([[w[1, 0] * u[2, 0] - w[2, 0] * u[1, 0]], [w[2, 0] * u[0, 0] - w[0, 0] * u[2, 0]], [w[0, 0] * u[1, 0] - w[1, 0] * u[0, 0]]])
        pr = c.pairs(e, 'hat3', hat3(w)) + c.pairs(e, 'hat6', hat6(x)) + c.pairs(e, 'vh3', w) + c.pairs(e, 'vh6', x)
        got = e.mat('hat3') @ u
        pr += [('cross[%d]' % i, got[i, 0], cross[i, 0]) for i in range(3)]
        z = e.mat('cw') @ y
        com = hat6(x) @ hat6(y) - hat6(y) @ hat6(x); hz = hat6(z)
        pr += [('bracket[%d,%d]' % (i, j), hz[i, j], com[i, j]) for i in range(4) for j in range(4)]
        c.compare(e, pr)
        # vee on arbitrary skew inputs
        k = M([[W[2, 1]], [W[0, 2]], [W[1, 0]]])
        def skew(env):
            a = [env.rnd('s', i) for i in range(3)]; b = [env.rnd('z', i) for i in range(6)]
            env.setm('W', fhat(a)); env.setm('X', [fhat(b[:3])[i] + [b[3 + i]] for i in range(3)] + [[0] * 4])
        c.compare(e, c.pairs(e, 'vee3', k) + c.pairs(e, 'vee6', M([[X[2, 1]], [X[0, 2]], [X[1, 0]], [X[0, 3]], [X[1, 3]], [X[2, 3]]])), skew)
    return 'Hat, vee and bracket matrices are compared entry by entry and through the cross product and commutator identities.'

# ---------------------------------------------------------------- C07
def C07(c):
    G = grp(c); g = G[0]; e = c.entry(G, 'H_dist')
    if e:
        def nrm(v):
            t = None
            for x in v.flat(): t = x * x if t is None else t + x * x
            return g.sqrt(t)
        A, B = g.mat('A', 4, 4), g.mat('B', 4, 4); dt = A.block(0, 3, 3, 1) - B.block(0, 3, 3, 1); t = A.block(0, 3, 3, 1)
        pr = [('dt', e.o('dt'), nrm(dt)), ('dt0', e.o('dt0'), nrm(t))]
        pr += c.pairs(e, 'a', A) + c.pairs(e, 'b', B) + c.pairs(e, 'c', g.mat('C', 3, 3)) + c.pairs(e, 'dd', g.mat('D', 3, 3))
        sq = [('%s^2' % l, x * x, y * y) if l in ('dt', 'dt0') else (l, x, y) for l, x, y in pr]
        c.compare(e, sq, both(set_pose('A', 'B'), set_rot('C', 'D')), n=6, opts={'truth': generic_angle}, what='(relative transform)')
        # the rotation part by ranges of the relative angle; the relative transform is a product of a chosen one and B (or the identity)
        pi = math.pi
        BX = SMALL + [Box(0.1, 0.5), Box(0.5, 1.0), Box(1.0, 1.5), Box(1.5, 1.65), Box(1.65, 2.5), Box(2.5, 3.0), Box(3.0, pi - 1e-2), Box(pi - 1e-2, pi - 1e-4), Box(pi - 1e-4, pi - 1e-6), Box(pi - 1e-6, pi - 1.5e-7)]
        if c.tier == 'quick': BX = BX[::4] + [b for i, b in enumerate(BX) if i % 4 and (b.hi > 0.05 or 1e-6 < b.lo < 1e-1)]
        N = e.g
        V = [Fraction(2, 7), Fraction(-3, 7), Fraction(6, 7)]; o_, S_, C_, R_, t_ = ser_rot(V)
        B0 = [[Fraction(1, 3), Fraction(-2, 3), Fraction(2, 3), Fraction(1, 2)], [Fraction(2, 3), Fraction(2, 3), Fraction(1, 3), Fraction(-3)], [Fraction(-2, 3), Fraction(1, 3), Fraction(2, 3), Fraction(5, 4)], [0, 0, 0, 1]]
        def smul(X, Y): return [[sum((X[i][k] * Y[k][j] for k in range(len(Y))), Ser(0, [])) for j in range(len(Y[0]))] for i in range(len(X))]
        K = lambda m: [[Ser.k(x) for x in r] for r in m]
        I4 = [[int(i == j) for j in range(4)] for i in range(4)]
        for first, labs, dst, oth, n in (('A', ('d', 'dr'), 'A', 'B', 4), ('A', ('d0', 'dr0'), 'A', None, 4), ('C', ('so3',), 'C', 'D', 3)):
            def setup(env, nn, o):
                cc, ss = env.circ[(o, 1)]; Rm = rodr(nn, cc, ss); env.vv = [env.rnd('vv', i) for i in range(3)]
                if n == 4:
                    tt = rmatmul(Vmat(nn, o, cc, ss), [[x] for x in env.vv]); X = [Rm[i] + tt[i] for i in range(3)] + [[0, 0, 0, 1]]; Y = pose_rows(env, 'oth') if oth else I4
                else: X = Rm; Y = rot(env, 'oth')
                env.setm(dst, rmatmul(X, Y))
                if oth: env.setm(oth, Y)
            def target(env):
                nn, o = env.ang; r = {}
                for l in labs: r[l + '^2[0,0]'] = ((e.o(l) * e.o(l)).n, (o * o + (sum(x * x for x in env.vv) if l in ('d', 'd0') else 0)) % P)
                return r
            def serin():
                X = [[R_[i][j] if i < 3 and j < 3 else t_[i] if i < 3 else Ser.k(int(j == 3)) for j in range(n)] for i in range(n)]
                Y = K([r[:n] for r in B0[:n]]) if oth else K(I4); r = {}
                for k, m in ((dst, smul(X, Y)), (oth, Y)):
                    if k: r.update({'%s[%d,%d]' % (k, i, j): m[i][j] for i in range(n) for j in range(n)})
                return r
            st = {l + '^2[0,0]': serO * serO + (Ser.k(sum(x * x for x in V)) if l in ('d', 'd0') else Ser(0, [])) for l in labs}
            check_boxes(c, e, BX, setup, target, serin, st, nanlo=1e-7, what=' (%s)' % '/'.join(labs))
    e = c.entry(G, 'H_dist_self')
    if e:
        z = g.const(0)
        def ident(env): env.regacos[1] = 0; env.circ[(0, 1)] = (1, 0)
        c.compare(e, [(k, e.o(k), z) for k in ('d', 'dr', 'dt', 's')], both(set_pose('A'), set_rot('C'), ident), n=6)
    return 'For relative transforms of every rotation-angle range each distance equals the norm of the angle-axis vector (and of the translation part of the logarithm) the relative transform was made from; translation distances are compared for all inputs; the distance of a transform to itself is zero.'
def normal_angles(env): pass
def generic_angle(env, n): return None

# ---------------------------------------------------------------- C09
def C09(c):
    G = grp(c); g = G[0]
    e = c.entry(G, 'H_quat')
    if e:
        def st(env):
            while True: break
        q = [g.var('q', i, 0) for i in range(4)]; x, y, z, w = q; n = x * x + y * y + z * z + w * w; two = g.const(2)
        R = M([[(w*w+x*x-y*y-z*z)/n, two*(x*y-w*z)/n, two*(x*z+w*y)/n], [two*(x*y+w*z)/n, (w*w-x*x+y*y-z*z)/n, two*(y*z-w*x)/n], [two*(x*z-w*y)/n, two*(y*z+w*x)/n, (w*w-x*x-y*y+z*z)/n]])
        # a norm of one, a rational norm and a generic norm
        def qn(env): 
            env.setm('q', [[env.rnd('q', i)] for i in range(4)])
            if not isqr(sum(env.var('q[%d,0]' % i) ** 2 for i in range(4))): raise Resample('norm')
        c.compare(e, c.pairs(e, 'R', R), qn, n=12)
    e = c.entry(G, 'H_toquat')
    if e:
        Q = e.mat('q'); seen = set()
        x, y, z, w = [Q[i, 0] for i in range(4)]; two = g.const(2); one = g.const(1)
        pr = c.pairs_m('back', M([[one-two*(y*y+z*z), two*(x*y-w*z), two*(x*z+w*y)], [two*(x*y+w*z), one-two*(x*x+z*z), two*(y*z-w*x)], [two*(x*z-w*y), two*(y*z+w*x), one-two*(x*x+y*y)]]), g.mat('R', 3, 3))
        pr += [('unit', x*x+y*y+z*z+w*w, one)]
        ft = [n for n in reach(g, [Q[i, 0].n for i in range(4)]) if g.nodes[n][0] == 'lt']
        for ch in itertools.product((0, 1, 2, 3), range(2)):
            # each of the four cases (real part dominant, or the x, y, z part): quaternions with small integer entries
            small = [[3, 1, 1, 1], [1, 3, 1, 1], [1, 1, 3, 1], [1, 1, 1, 3]][ch[0]]; sg = ch[1]
            small = [[7, 2, -3, 1], [2, -8, 3, 1], [-1, 3, 9, 2], [2, 1, -3, 8]][ch[0]] if sg else small
            def st(env):
                q = [v % P for v in small]; env.setm('R', quat_rot(q))
            c.compare(e, pr, st, n=1, what='case %s' % small)
        c.compare(e, pr, lambda env: env.setm('R', rot(env, 'r')), n=24, what='')
    e = c.entry(G, 'H_rpy')
    if e:
        v = [g.var('v', i, 0) for i in range(3)]; cs = [(g.fn('cos', a), g.fn('sin', a)) for a in v]; o, z = g.const(1), g.const(0)
        X = M([[o, z, z], [z, cs[0][0], -cs[0][1]], [z, cs[0][1], cs[0][0]]]); Y = M([[cs[1][0], z, cs[1][1]], [z, o, z], [-cs[1][1], z, cs[1][0]]]); Z = M([[cs[2][0], -cs[2][1], z], [cs[2][1], cs[2][0], z], [z, z, o]])
        c.compare(e, c.pairs(e, 'R', X @ Y @ Z), None, n=12, opts={'truth': __import__('factors').generic})
    return 'Quaternion and roll-pitch-yaw conversions are compared with their closed forms; the inverse conversion is taken through all four dominant-component cases and compared by mapping its result back.'
def reach(g, roots):
    s = set(); q = list(roots)
    while q:
        n = q.pop()
        if n in s: continue
        s.add(n); q.extend(g.nodes[n][3:])
    return s

# ---------------------------------------------------------------- C10 / C11
def adjspec(g, A):
    R = A.block(0, 0, 3, 3); t = A.block(0, 3, 3, 1)
    return M.vstack(M.hstack(R, M.zeros(g, 3, 3)), M.hstack(hat3(t) @ R, R))
def setsym(*names):
    def f(env):
        for n in names: env.setm(n, [[env.rnd(n, min(i, j), max(i, j)) for j in range(6)] for i in range(6)])
    return f
def C10(c):
    G = grp(c); g = G[0]; e = c.entry(G, 'H_cov2'); A, B, P_, Q = g.mat('A', 4, 4), g.mat('B', 4, 4), g.mat('P', 6, 6), g.mat('Q', 6, 6)
    if e:
        ad = adjspec(g, A); S = P_ + ad @ Q @ ad.T(); pr = []
        for k in '1234': pr += c.pairs(e, 'T' + k, A @ B) + c.pairs(e, 'C' + k, S)
        pr += c.pairs(e, 'Ta', A) + c.pairs(e, 'Ca', P_) + c.pairs(e, 'Tb', B) + c.pairs(e, 'Cb', Q)
        c.compare(e, pr, set_pose('A', 'B'), n=6)
    e = c.entry(G, 'H_covctor')
    if e:
        pr = c.pairs(e, 'Td', M.eye(g, 4)) + c.pairs(e, 'Tc', A) + c.pairs(e, 'Cc', P_) + c.pairs(e, 'Cs', P_) + c.pairs(e, 'Ts', A)
        c.compare(e, pr, set_pose('A'), n=4)
    return 'All four call forms are compared with the composed pose and P + Ad Q Ad^T for symbolic poses and covariances, and the operands after the calls with their inputs.'
def C11(c):
    G = grp(c); g = G[0]; e = c.entry(G, 'H_cov4'); A, B, P_, Q = g.mat('A', 4, 4), g.mat('B', 4, 4), g.mat('P', 6, 6), g.mat('Q', 6, 6)
    if e:
        ad = adjspec(g, A); S = ad @ Q @ ad.T(); z = M.zeros(g, 6, 6)
        gen = []
        for i in range(6):
            v = M([[g.const(int(i == k))] for k in range(6)]); W = hat3(v.block(0, 0, 3, 1)); U = hat3(v.block(3, 0, 3, 1))
            gen.append(M.vstack(M.hstack(W, M.zeros(g, 3, 3)), M.hstack(U, W)))
        def num(m): return [[int(g.nodes[m[i, j].n][2]) if g.nodes[m[i, j].n][0] == 'c' else -1 for j in range(6)] for i in range(6)]
        gn = []
        for i in range(6):
            r = [[0] * 6 for _ in range(6)]
            def put(a, b, w):
                r[a + 1][b + 0 + 0] += 0
            eps = [(1, 2, 0), (2, 0, 1), (0, 1, 2)]
            k = i % 3; a, b = [(2, 1), (0, 2), (1, 0)][k]      # hat(e_k)[a][b] = +1, [b][a] = -1
            for (dr, dc) in (((0, 0), (3, 3)) if i < 3 else ((3, 0),)):
                r[dr + a][dc + b] = 1; r[dr + b][dc + a] = -1
            gn.append([(p, q, r[p][q]) for p in range(6) for q in range(6) if r[p][q]])
        def A4(Sg):   # E[x^ x^]
            acc = [[None] * 6 for _ in range(6)]
            for i in range(6):
                for j in range(6):
                    for p, q, u in gn[i]:
                        for q2, s_, v in gn[j]:
                            if q == q2:
                                t = Sg[i, j] * g.const(u * v); acc[p][s_] = t if acc[p][s_] is None else acc[p][s_] + t
            return M([[x if x is not None else g.const(0) for x in r] for r in acc])
        def B4(Sg, Sh):   # E[x^ y y^T x^T]
            acc = [[None] * 6 for _ in range(6)]
            for i in range(6):
                for j in range(6):
                    for p, q, u in gn[i]:
                        for p2, q2, v in gn[j]:
                            t = Sg[i, j] * Sh[q, q2] * g.const(u * v); acc[p][p2] = t if acc[p][p2] is None else acc[p][p2] + t
            return M([[x if x is not None else g.const(0) for x in r] for r in acc])
        A1, A2 = A4(P_), A4(S); tw, fo = g.const(12), g.const(4)
        spec = P_ + S + (A1 @ S + S @ A1.T() + A2 @ P_ + P_ @ A2.T()) * (g.const(1) / tw) + B4(P_, S) * (g.const(1) / fo)
        pr = []
        for k in '12': pr += c.pairs(e, 'T' + k, A @ B) + c.pairs(e, 'C' + k, spec)
        for k in '12':
            m = e.mat('C' + k); pr += [('sym%s[%d,%d]' % (k, i, j), m[i, j], m[j, i]) for i in range(6) for j in range(i)]
        pr += c.pairs(e, 'Ta', A) + c.pairs(e, 'Ca', P_) + c.pairs(e, 'Tb', B) + c.pairs(e, 'Cb', Q)
        c.compare(e, pr, both(set_pose('A', 'B'), setsym('P', 'Q')), n=4)
    return 'The fourth-order result is compared with P + S + (A1 S + S A1^T + A2 P + P A2^T)/12 + B/4 where A = E[x^ x^] and B = E[x^ y y^T x^T] are expanded from the bracket generators, for symbolic poses and symmetric covariances.'

# ---------------------------------------------------------------- C08
def C08(c):
    G = grp(c); g = G[0]; F = Fraction
    def bval(env, e): return env.cond(e.outs[('r', 0, 0)])
    def toiv(rows, nm, eps=0.0): return {'%s[%d,%d]' % (nm, i, j): (float(v) - eps, float(v) + eps) for i, r in enumerate(rows) for j, v in enumerate(r)}
    def fld(rows): return [[frac(F(x)) for x in r] for r in rows]
    def diag(*d): return [[d[i] if i == j else 0 for j in range(3)] for i in range(3)]
    fam = []
    for k in (F(2), F(1, 2), F(101, 100), F(99, 100), F(1001, 1000), F(-1), F(-2)): fam.append(('scaled by %s' % k, diag(k, k, k)))
    for p in itertools.permutations((F(2), F(1, 2), F(1))): fam.append(('stretched %s' % [str(x) for x in p], diag(*p)))
    for p in set(itertools.permutations((F(4), F(1, 2), F(1, 2)))) | set(itertools.permutations((F(101, 100), F(100, 101), F(1)))) | set(itertools.permutations((F(-2), F(-1, 2), F(1)))) | set(itertools.permutations((F(3), F(1), F(1)))) | set(itertools.permutations((F(9, 10), F(1), F(1)))): fam.append(('stretched %s' % [str(x) for x in p], diag(*p)))
    for p in ((1, 1, -1), (1, -1, 1), (-1, 1, 1)): fam.append(('reflected', diag(*p)))
    for i in range(3):
        for j in range(3):
            if i != j:
                for k in (F(1, 2), F(-1, 2), F(1, 100), F(-1, 100), F(3)):
                    m = diag(1, 1, 1); m[i][j] = k; fam.append(('sheared %d%d by %s' % (i, j, k), m))
    I4 = lambda m, t=(0, 0, 0), r=(0, 0, 0, 1): [list(m[i]) + [t[i]] for i in range(3)] + [list(r)]
    perms = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            m = [[s[i] if p[i] == j else 0 for j in range(3)] for i in range(3)]
            d = sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3))
            perms.append((m, d))
    I3 = diag(1, 1, 1); fmul = lambda a, b: [[sum(F(a[i][k]) * F(b[k][j]) for k in range(3)) for j in range(3)] for i in range(3)]
    pyth = [[[F(3, 5), F(-4, 5), 0], [F(4, 5), F(3, 5), 0], [0, 0, 1]], [[F(1, 3), F(-2, 3), F(2, 3)], [F(2, 3), F(2, 3), F(1, 3)], [F(-2, 3), F(1, 3), F(2, 3)]], [[F(2, 7), F(3, 7), F(6, 7)], [F(3, 7), F(-6, 7), F(2, 7)], [F(6, 7), F(2, 7), F(-3, 7)]]]
    for nm, isse in (('H_isSO3', False), ('H_isSE3', True)):
        e = c.entry(G, nm)
        if not e: continue
        loc = g.loc(e.outs[('r', 0, 0)])
        def put(env, m, t=True):
            env.setm('M', I4(m, [env.rnd('t', i) for i in range(3)]) if isse else m)
        def ask(setf, what, want, key):
            env = Env(g, 11 * c.seed0, opts={'rat': True}); c.oblig += 1
            for k in range(4):
                env = Env(g, 100 * c.seed0 + k, opts={'rat': True})
                try: setf(env); r = bval(env, e)
                except Resample: continue
                if r != want: c.violation('%s:%s' % (nm, key), '%s: %s is %s' % (nm, what, 'rejected' if want else 'accepted'), loc); return
        ask(lambda env: put(env, rot(env, 'r')), 'a rotation', True, 'accept')
        for m, d in perms:
            ask(lambda env: put(env, [[x % P for x in r] for r in m]), 'signed permutation %s' % m, d == 1, 'accept' if d == 1 else 'reflected')
        def iv(inp, what, want, key):
            c.oblig += 1
            if IvEnv(g, inp).cond(e.outs[('r', 0, 0)]) is not want: c.violation('%s:%s' % (nm, key), '%s: not every %s is %s' % (nm, what, 'accepted' if want else 'rejected'), loc); return False
            return True
        conc = [m for m, d in perms if d == 1][::7] + [m for m in pyth] + [fmul(pyth[0], pyth[1]), fmul(pyth[2], pyth[0])]
        for what, K in fam:
            key = what.split(' ')[0]
            for R0 in [I3] + conc:
                for m in ([K] if R0 is I3 else [fmul(R0, K), fmul(K, R0)]):
                    iv(toiv(I4(m, (F(3, 2), -2, 5)) if isse else m, 'M', 1e-13), 'matrix %s' % (what if R0 is I3 else what + ' times a rotation'), False, key)
        # round-off around rotations
        for m in [m for m, d in perms if d == 1] + pyth:
            iv(toiv(I4(m) if isse else m, 'M', 1e-13), 'rotation perturbed by 1e-13', True, 'round-off')
        if not isse:
            ax = [-3, -2, -1.5, -1.01, -0.99, -0.5, -0.01, 0.01, 0.5, 0.99, 1.01, 1.5, 2, 3]
            cells = list(zip(ax, ax[1:])); near = lambda q: q in ((-1.01, -0.99), (0.99, 1.01))
            def split(q, depth):
                r = IvEnv(g, {'M[%d,%d]' % (i, j): (q[i] if i == j else (0.0, 0.0)) for i in range(3) for j in range(3)}).cond(e.outs[('r', 0, 0)])
                c.oblig += 1
                if r is False: return
                if r is True or depth == 0:
                    c.violation('%s:diagonal' % nm, '%s: diagonal matrices with entries in %s are not all rejected' % (nm, q), loc); return
                k = max(range(3), key=lambda i: q[i][1] - q[i][0]); lo, hi = q[k]; mid = (lo + hi) / 2
                for h in ((lo, mid), (mid, hi)): split(q[:k] + (h,) + q[k + 1:], depth - 1)
            for q in itertools.product(cells, repeat=3):
                if not all(near(x) for x in q) and len(c.viol) < 3: split(q, 12)
        else:
            R0 = pyth[1]
            for ks in [(i,) for i in range(4)] + list(itertools.combinations(range(4), 2)):
                for lo, hi in ((1e-4, 1e-2), (1e-2, 1.0), (1.0, 1e3)):
                    for sg in itertools.product((1, -1), repeat=len(ks)):
                        d = toiv(I4(R0), 'M')
                        for k, s in zip(ks, sg):
                            b = 1.0 if k == 3 else 0.0; d['M[3,%d]' % k] = tuple(sorted((b + s * lo, b + s * hi)))
                        iv(d, 'matrix whose last row deviates by %s[%g, %g] in column %s' % (['+' if s > 0 else '-' for s in sg], lo, hi, ks), False, 'last-row')
            for t in ((-1e6, 1e6),):
                d = toiv(I4(R0), 'M'); d.update({'M[%d,3]' % i: t for i in range(3)})
                iv(d, 'rotation with any translation', True, 'translation')
    return 'The validity condition is decided over families of matrices: rotations (value numbering over all rotations, and boxes of width 1e-13 around rational ones), scaled, stretched, sheared and reflected ones composed with arbitrary rotations (compared quantities are constants of the family), a partition of diagonal matrices, and last-row deviations of either sign decided by interval analysis.'
