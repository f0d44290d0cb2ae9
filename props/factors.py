import math, itertools
from fractions import Fraction
from vg import *
from drive import Broken
from geometry import rot, pose_rows, set_rot, set_pose, both, invpose, mkpose
FS = ['src/geometry/SO3.cpp', 'src/geometry/SE3.cpp', 'src/FGraph/factor.cpp', 'src/FGraph/node.cpp'] + ['src/FGraph/factors/%s.cpp' % n for n in ('nodePose2d', 'nodePose3d', 'nodeLandmark2d', 'nodeLandmark3d', 'nodePlane4d', 'factor1Pose2d', 'factor1Pose3d', 'factor2Poses2d', 'factor2Poses3d', 'factor1Pose1Landmark2d', 'factor1Pose1Landmark3d', 'factor1Pose1Plane4d')] + ['src/PCRegistration/factors/factor1PosePoint2Plane.cpp']
def grp(c): return c.group('factors', 'factors.cpp', FS)
PI = math.pi
def generic(env, n):
    """quantities compared with a small constant are assumed not to be small: series branches and singular
    configurations are the subject of C02/C03"""
    nd = env.g.nodes[n]
    if nd[0] == 'nan': return False
    if nd[0] in ('eq', 'lt') and env.g.loc(n).startswith('src/FGraph/') and 'Landmark' not in env.g.loc(n) and any(env.g.nodes[x][0] == 'c' and not isinstance(env.g.nodes[x][2], str) and abs(env.g.nodes[x][2]) >= 1e-7 for x in nd[3:]): return None # a shortcut of the graph's own code is not one of those; a landmark on top of the sensor is
    if nd[0] in ('eq', 'lt') and env.g.loc(n).startswith(('src/PCRegistration/', 'src/common/')): return None   # nor of the registration's
    if nd[0] == 'eq':
        for x in nd[3:]:
            if small(env.g.nodes[x]): return False
        return None
    if nd[0] != 'lt': return None
    a, b = env.g.nodes[nd[3]], env.g.nodes[nd[4]]
    if small(b) and b[2] > 0: return True if zero(env, nd[3]) else False
    if small(a) and a[2] > 0: return False if zero(env, nd[4]) else True
    return None
def zero(env, n):       # identically zero under the choices made so far: a vector that was cleared
    if not isinstance(env, Env): return False
    nd = env.g.nodes[n]
    try: return env.val(nd[3] if nd[0] == 'f' and nd[2] == 'sqrt' else n) == 0
    except (Resample, Undecided): return False
def small(n): return n[0] == 'c' and not isinstance(n[2], str) and 0 < abs(n[2]) < 2e-2
GEN = {'truth': generic}
def unit3(env, k):
    q = [env.rnd('un', k, i) for i in range(2)]; d = inv(1 + q[0] * q[0] + q[1] * q[1])
    return [2 * q[0] * d % P, 2 * q[1] * d % P, (1 - q[0] * q[0] - q[1] * q[1]) * d % P]
def set_plane(*names):
    def f(env):
        for k in names: env.setm(k, [[x] for x in unit3(env, k)] + [[env.rnd('d', k)]])
    return f

def vpairs(lab, got, want, ang=()):
    return [(('@' if i in ang else '') + '%s[%d,%d]' % (lab, i, j), got[i, j], want[i, j]) for i in range(want.r) for j in range(want.c)]
# ---------------------------------------------------------------- C12
KBOX = [((2 * k - 1) * PI + 1e-9, (2 * k + 1) * PI - 1e-9) for k in range(-3, 4)] + [(k * PI + s * 2e-3, k * PI + s * 1e-3) if s < 0 else (k * PI + 1e-3, k * PI + 2e-3) for k in (-3, -1, 1, 3) for s in (-1, 1)]
def inrange(iv): return iv[0] >= -PI - 1e-9 and iv[1] <= PI + 1e-9
def C12(c):
    G = grp(c); g = G[0]
    def rng(e, out, box, inputs, what):
        iv = IvEnv(g, inputs).val(e.outs[out]); c.oblig += 1
        if not inrange(iv): c.violation('%s:range' % e.name, '%s: for %s in %s the reported angle lies in [%g, %g], not in [-pi, pi)' % (e.name, what, box, iv[0], iv[1]), g.loc(e.outs[out]))
    def end(e, out, inputs, what, want):
        iv = IvEnv(g, inputs).val(e.outs[out]); c.oblig += 1
        if not (iv[0] >= -PI and iv[1] < PI): c.violation('%s:endpoint' % e.name, '%s: at %s the reported angle is %g, not in [-pi, pi)' % (e.name, what, iv[1]), g.loc(e.outs[out]))
        elif abs(iv[0] - want) > 1e-9 or abs(iv[1] - want) > 1e-9: c.violation('%s:endpoint' % e.name, '%s: at %s the reported angle is in [%g, %g], expected %g' % (e.name, what, iv[0], iv[1], want), g.loc(e.outs[out]))
    e = c.entry(G, 'H_wrap')
    if e:
        c.compare(e, [('@w', e.o('w'), g.var('a'))], n=12)
        for b in KBOX: rng(e, ('w', 0, 0), b, {'a[0,0]': b}, 'the angle')
        for p, w in ((PI, -PI), (-PI, -PI), (0.0, 0.0), (PI / 2, PI / 2), (-PI / 2, -PI / 2)): end(e, ('w', 0, 0), {'a[0,0]': (p, p)}, '%g' % p, w)
    x0, dx, z = g.vec('x0', 3), g.vec('dx', 3), g.vec('z', 3)
    for nm, out, ins, sp in (('H_upd_Pose2d', 's', ('x0', 'dx'), x0 + dx), ('H_upda_Pose2d', 's', ('x0', 'dx'), x0 + dx), ('H_set_Pose2d', 's', ('x0',), x0), ('H_seta_Pose2d', 'a', ('x0',), x0)):
        e = c.entry(G, nm)
        if not e: continue
        c.compare(e, vpairs(out, e.mat(out), sp, (2,)), n=12)
        for b in KBOX:
            if len(ins) == 1: rng(e, (out, 2, 0), b, {'x0[2,0]': b}, 'the heading')
            else:
                for p in (0.0, 1.0, -3.0):
                    if nm == 'H_upda_Pose2d' or True: rng(e, (out, 2, 0), b, {'x0[2,0]': (p, p), 'dx[2,0]': (b[0] - p + 1e-12, b[1] - p - 1e-12)}, 'heading plus increment')
        for p, w in ((PI, -PI), (-PI, -PI)):
            if len(ins) == 1: end(e, (out, 2, 0), {'x0[2,0]': (p, p)}, 'heading %g' % p, w)
            else: end(e, (out, 2, 0), {'x0[2,0]': (0.0, 0.0), 'dx[2,0]': (p, p)}, 'increment %g' % p, w)
    e = c.entry(G, 'H_node_Pose2d')
    if e:
        y = g.vec('y', 3); ex = g.vec('ex', 3)
        c.compare(e, sum((vpairs(k, e.mat(k), s, (2,)) for k, s in (('a1', y), ('s2', z), ('s3', z + dx), ('s4', y + ex), ('s5', y + ex + dx))), []), n=12)
        for k in ('a1', 's2', 's3', 's4', 's5', 'a5', 'a6', 's7'):
            ins = {q + '[2,0]': (v, v + 1e-3) for q, v in (('y', 3.0), ('z', -3.0), ('dx', -2.0), ('ex', 2.5), ('x0', 0.1))}
            iv = IvEnv(g, ins).val(e.outs[(k, 2, 0)]); c.oblig += 1
            if not inrange(iv): c.violation('H_node_Pose2d:range', 'after the history ending in %s the heading lies in [%g, %g]' % (k, iv[0], iv[1]), g.loc(e.outs[(k, 2, 0)]))
    return 'Congruence: the returned angle has the same sine and cosine as the requested one for all inputs (wrapping loops analysed up to eight turns); range: interval analysis over every turn from -7pi to 7pi and at both end points.'

# ---------------------------------------------------------------- C13, C14
NODES = {'Pose2d': (3, 1, (2,)), 'Landmark2d': (2, 1, ()), 'Landmark3d': (3, 1, ()), 'Plane4d': (4, 1, ()), 'Pose3d': (4, 4, ())}
def setup_for(k):
    return set_pose('x0', 'y', 'z') if k == 'Pose3d' else set_plane('y', 'z') if k == 'Plane4d' else None
def normal(g, v):
    n = g.sqrt(v[0, 0] * v[0, 0] + v[1, 0] * v[1, 0] + v[2, 0] * v[2, 0])
    return M([[v[0, 0] / n], [v[1, 0] / n], [v[2, 0] / n], [v[3, 0]]])
def retr(g, k, e):
    if k == 'Pose3d': return lambda x, d: e.mat('Ed' if d == 'dx' else 'Ee') @ x
    if k == 'Plane4d': return lambda x, d: normal(g, x + g.vec(d, 4))
    return lambda x, d: x + g.vec(d, NODES[k][0])
def C13(c):
    G = grp(c); g = G[0]
    for k, (r, cc, ang) in NODES.items():
        e = c.entry(G, 'H_node_' + k)
        if not e: continue
        R = retr(g, k, e); x0, y, z = g.mat('x0', r, cc), g.mat('y', r, cc), g.mat('z', r, cc)
        pr = vpairs('s3', e.mat('s3'), R(z, 'dx'), ang) + vpairs('s4', e.mat('s4'), R(y, 'ex'), ang) + vpairs('s5', e.mat('s5'), R(R(y, 'ex'), 'dx'), ang) + vpairs('s8', e.mat('s8'), R(y, 'dx'), ang) + vpairs('s9', e.mat('s9'), R(y, 'dx'), ang)
        if k == 'Plane4d':
            pr += vpairs('s0', e.mat('s0'), normal(g, x0)) + vpairs('a0', e.mat('a0'), normal(g, x0))
        c.compare(e, pr, setup_for(k), n=12, opts=GEN)
    for nm in ('H_upd_Pose2d', 'H_upda_Pose2d'):
        e = c.entry(G, nm)
        if e: c.compare(e, vpairs('s', e.mat('s'), g.vec('x0', 3) + g.vec('dx', 3), (2,)), n=12)
    return 'Per variable type, the state after update, update-from-book-kept and a further update is compared with the specified retraction (3D poses with the exponential of C02 away from the small-angle branches decided there; planes with unit normals).'
def C14(c):
    G = grp(c); g = G[0]
    for k, (r, cc, ang) in NODES.items():
        e = c.entry(G, 'H_node_' + k)
        if not e: continue
        x0, y, z = g.mat('x0', r, cc), g.mat('y', r, cc), g.mat('z', r, cc)
        init = normal(g, x0) if k == 'Plane4d' else x0
        P_ = lambda a, b: vpairs(a, e.mat(a), b, ang)
        pr = P_('s0', init) + P_('a0', init) + P_('s1', init) + P_('a1', y) + P_('s2', z) + P_('a2', y) + P_('a3', y) + P_('a4', y) + P_('a5', y)
        pr += P_('s6', e.mat('s5')) + P_('a6', e.mat('s5')) + P_('s7', e.mat('s5')) + P_('a7', e.mat('s5')) + P_('a8', y)
        c.compare(e, pr, setup_for(k), n=12, opts=GEN)
        dim = {'Pose3d': 6}.get(k, r)
        for o, w in (('dim', dim), ('mode', 0), ('mode2', 1), ('mode3', 0), ('id', 0), ('id2', 7), ('id3', 3), ('dim2', dim)):
            c.require(e.const(o) == w, '%s:%s' % (e.name, o), 'node %s reports %s=%s, expected %s' % (k, o, e.const(o), w))
    e = c.entry(G, 'H_node_Pose3d_se3')
    if e:
        x0 = g.mat('x0', 4, 4); c.compare(e, c.pairs(e, 's0', x0) + c.pairs(e, 'a0', x0), set_pose('x0'))
        for o, w in (('dim', 6), ('mode', 0), ('mode2', 1), ('dim2', 6)): c.require(e.const(o) == w, '%s:%s' % (e.name, o), 'Pose3d from SE3 reports %s=%s' % (o, e.const(o)))
    return 'A history of assignments, book-keeping assignments, updates and copies between the two states is analysed per variable type; both states are compared after every step with the value the history determines.'

# ---------------------------------------------------------------- residual specifications
F = {'1p2': ('Pose2d', None), '1p3': ('Pose3d', None), '1p3s': ('Pose3d', None), 'p2p': ('Pose3d', None),
     '2p2': ('Pose2d', 'Pose2d'), '2p2u': ('Pose2d', 'Pose2d'), 'od': ('Pose2d', 'Pose2d'), 'odu': ('Pose2d', 'Pose2d'),
     '2p3': ('Pose3d', 'Pose3d'), '2p3u': ('Pose3d', 'Pose3d'), '2p3s': ('Pose3d', 'Pose3d'), '2p3su': ('Pose3d', 'Pose3d'),
     'pl2': ('Pose2d', 'Landmark2d'), 'pl2u': ('Pose2d', 'Landmark2d'), 'pl3': ('Pose3d', 'Landmark3d'), 'pp': ('Pose3d', 'Plane4d')}
KERN = {'1p2': 1, '1p3': 2, '1p3s': 3, 'p2p': 4, '2p2': 1, '2p2u': 3, 'od': 2, 'odu': 4, '2p3': 1, '2p3u': 2, '2p3s': 3, '2p3su': 4, 'pl2': 1, 'pl2u': 2, 'pl3': 1, 'pp': 1}
OBSD = {'1p2': 3, 'p2p': 1, '1p3': 6, '1p3s': 6, '2p2': 3, '2p2u': 3, 'od': 3, 'odu': 3, 'pl2': 2, 'pl2u': 2, 'pl3': 3, 'pp': 4}
def odim(k): return OBSD.get(k, 6)
def ndim(t): return 6 if t == 'Pose3d' else NODES[t][0]
def variants(k): return ['H_f_' + k] if F[k][1] is None else ['H_f_%s_f' % k] + ([] if k.startswith('od') else ['H_f_%s_r' % k])
def cosn(g, a): return g.fn('cos', a)
def sinn(g, a): return g.fn('sin', a)
def inv2(g, z):
    c, s = cosn(g, z[2, 0]), sinn(g, z[2, 0])
    return M([[-(c * z[0, 0] + s * z[1, 0])], [s * z[0, 0] - c * z[1, 0]], [-z[2, 0]]])
def compose2(g, x, z):
    c, s = cosn(g, x[2, 0]), sinn(g, x[2, 0])
    return M([[x[0, 0] + c * z[0, 0] - s * z[1, 0]], [x[1, 0] + s * z[0, 0] + c * z[1, 0]], [x[2, 0] + z[2, 0]]])
def odom(g, x, z):
    a = x[2, 0] + z[0, 0]
    return M([[x[0, 0] + z[1, 0] * cosn(g, a)], [x[1, 0] + z[1, 0] * sinn(g, a)], [a + z[2, 0]]])
class Spec:
    """residual of factor kind k at variables x, y (given in constructor order)"""
    def __init__(s, g, k, rev, xn='x', yn='y'):
        s.g = g; s.k = k; s.rev = rev; a, b = F[k]
        s.x = g.mat(xn, *NODES[a][:2]); s.y = g.mat(yn, *NODES[b][:2]) if b else None
        s.xn = xn; s.yn = yn; s.ang = (); s.ln = None
        base = k.rstrip('us') if k != 'pl2u' else 'pl2'
        z = None
        if base == '1p2': z = g.vec('z', 3); s.r = s.x - z; s.ang = (2,)
        elif base == '1p3': s.ln = s.x @ invpose(g.mat('z', 4, 4))
        elif base == 'p2p':
            T = s.x; q = T.block(0, 0, 3, 3) @ g.vec('z', 3) + T.block(0, 3, 3, 1) - g.vec('zy', 3); s.r = g.vec('zn', 3).T() @ q; s.q = q + g.vec('zy', 3)
        elif base == '2p2':
            z = g.vec('z', 3); o, t = s.x, s.y
            if rev: z = inv2(g, z); o, t = t, o
            d = t - o; c, n = cosn(g, o[2, 0]), sinn(g, o[2, 0])
            s.r = M([[c * d[0, 0] + n * d[1, 0]], [c * d[1, 0] - n * d[0, 0]], [d[2, 0]]]) - z; s.ang = (2,)
        elif base in ('od', 'odu'): s.r = odom(g, s.x, g.vec('z', 3)) - s.y; s.ang = (2,)
        elif base == '2p3':
            z = g.mat('z', 4, 4); o, t = s.x, s.y
            if rev: z = invpose(z); o, t = t, o
            s.ln = o @ z @ invpose(t)
        elif base == 'pl2':
            dx, dy = s.y[0, 0] - s.x[0, 0], s.y[1, 0] - s.x[1, 0]; z = g.vec('z', 2)
            s.r = M([[g.sqrt(dx * dx + dy * dy) - z[0, 0]], [g.fn('atan2', dy, dx) - s.x[2, 0] - z[1, 0]]]); s.ang = (1,)
        elif base == 'pl3':
            i = invpose(s.x); s.r = i.block(0, 0, 3, 3) @ s.y + i.block(0, 3, 3, 1) - g.vec('z', 3)
        elif base == 'pp':
            loc = s.x.T() @ s.y; zz = normal(g, g.vec('z', 4)); neg = loc[3, 0].lt(0)
            s.r = M([[g.ite(neg, loc[i, 0] + zz[i, 0], loc[i, 0] - zz[i, 0])] for i in range(4)])
    def setup(s):
        k = s.k; a, b = F[k]; names = []
        poses = [n for n, t in ((s.xn, a), (s.yn, b)) if t == 'Pose3d'] + [n for n, t in (('x0', a), ('y0', b), ('xa', a), ('ya', b), ('x', a), ('y', b)) if t == 'Pose3d' and n not in (s.xn, s.yn)]
        if s.ln is not None: poses.append('z')
        fs = [set_pose(*poses)] if poses else []
        if k == 'pp': fs.append(set_plane('y', 'y0', 'ya'))
        def f(env):
            for q in fs: q(env)
            if s.ln is not None: env.setm('L', [[env.val(s.ln[i, j].n) for j in range(4)] for i in range(4)])
        return f
def rspec(sp, e): return e.mat('sl') if sp.ln is not None else sp.r
def each(c, G, kinds=None):
    for k in F:
        if kinds and k not in kinds: continue
        for nm in variants(k):
            e = c.entry(G, nm)
            if e: yield k, nm.endswith('_r'), e
def C15(c):
    G = grp(c); g = G[0]
    for k, rev, e in each(c, G):
        sp = Spec(g, k, rev); R = rspec(sp, e)
        c.compare(e, vpairs('rr', e.mat('rr'), R, sp.ang) + vpairs('r', e.mat('r'), R, sp.ang), sp.setup(), n=10, opts=GEN)
        s0 = Spec(g, k, rev, 'x0', 'y0')
        if not k.endswith('u'): # residual at the creation values, before anything moved
            R0 = rspec(s0, e); c.compare(e, vpairs('rc', e.mat('rc'), R0, s0.ang), s0.setup(), n=6, opts=GEN)
        pr = vpairs('xe', e.mat('xe'), sp.x, (2,) if F[k][0] == 'Pose2d' else ()) + (vpairs('ye', e.mat('ye'), sp.y, (2,) if F[k][1] == 'Pose2d' else ()) if sp.y is not None else [])
        c.compare(e, pr, sp.setup(), n=3, opts=GEN)
        # wrapped angular components
        for i in sp.ang:
            for xb, yb, zb in itertools.product((-3.0, -1.0, 0.1, 2.9), (-2.9, 0.3, 3.0), (-9.3, -2.5, 0.2, 2.6, 7.3, 15.5)):
                w = 1e-3; B = lambda v: (v, v + w); ins = {}
                if k == '1p2': ins = {'x[2,0]': B(xb), 'z[2,0]': B(zb)}
                elif k.startswith('2p2') or k.startswith('od'): ins = {'x[2,0]': B(xb), 'y[2,0]': B(yb), 'z[2,0]': B(zb), 'z[0,0]': B(0.7)}
                else: ins = {'x[2,0]': B(xb), 'x[0,0]': B(0.0), 'x[1,0]': B(0.0), 'y[0,0]': B(math.cos(yb) * 3), 'y[1,0]': B(math.sin(yb) * 3), 'z[1,0]': B(zb)}
                iv = IvEnv(g, ins).val(e.outs[('r', i, 0)])
                if iv[1] - iv[0] > 6.2 and min(abs(abs(q) - PI) for q in iv) < 0.1: continue   # box straddles the cut
                c.oblig += 1
                if not inrange(iv): c.violation('%s:wrap' % e.name, '%s: the angular residual lies in [%g, %g], it is not wrapped into [-pi, pi)' % (e.name, iv[0], iv[1]), g.loc(e.outs[('r', i, 0)]))
    # zero residual when the observation is reproduced: immediate from prediction minus observation; the logarithm of the identity is C03
    return 'Every measurement kind (16 constructors, both id orders) is analysed at its creation values and after its variables moved; each residual component equals prediction minus observation (angles compared modulo a turn and by interval analysis for wrapping; 3D pose residuals as the logarithm of the specified mismatch transform).'
def tangents(g, typ, name, env):
    """increments of a variable: list of {input: tangent}"""
    if typ == 'Pose3d':
        out = []
        for q in range(6):
            v = [0] * 6; v[q] = 1
            h = [[0, -v[2], v[1], v[3]], [v[2], 0, -v[0], v[4]], [-v[1], v[0], 0, v[5]], [0, 0, 0, 0]]
            X = [[env.var('%s[%d,%d]' % (name, i, j)) for j in range(4)] for i in range(4)]
            T = rmatmul(h, X); out.append({'%s[%d,%d]' % (name, i, j): T[i][j] for i in range(4) for j in range(4)})
        return out
    return [{'%s[%d,0]' % (name, q): 1} for q in range(NODES[typ][0])]
def jacobian(c, e, sp, k, rev, n=6):
    g = e.g; a, b = F[k]; J = e.mat('J'); done = 0; bad = None
    order = [(a, 'x')] if not b else ([(b, 'y'), (a, 'x')] if rev else [(a, 'x'), (b, 'y')])
    od = odim(k); nd = sum(ndim(t) for t, _ in order)
    c.require((J.r, J.c) == (od, nd), '%s:J-shape' % e.name, '%s: Jacobian is %dx%d, expected %dx%d' % (e.name, J.r, J.c, od, nd))
    if (J.r, J.c) != (od, nd): return
    R = rspec(sp, e)
    for t in range(300):
        if done >= n: break
        env = Env(g, 515000 * c.seed0 + t, opts=GEN)
        try:
            sp.setup()(env); col = 0; got = []
            for typ, name in order:
                for q, seeds in enumerate(tangents(g, typ, name, env)):
                    for i in range(od): got.append((i, col, env.val(J[i, col].n), env.der(sp.r[i, 0].n, seeds, (name, q))))
                    col += 1
        except Resample: continue
        done += 1
        for i, j, v, w in got:
            if (v - w) % P and bad is None: bad = (i, j)
    c.oblig += od * nd; c.stats['samples'] += done
    if done < 3: raise Broken(e.name + ': no consistent interpretation for the derivative')
    if bad: c.violation('%s:J' % e.name, '%s: Jacobian entry (%d,%d) is not the derivative of residual %d with respect to component %d of the connected variables in neighbour order' % (e.name, bad[0], bad[1], bad[0], bad[1]), g.loc(J[bad[0], bad[1]].n))
def adjm(T):
    g = T[0, 0].g; R = T.block(0, 0, 3, 3); t = T.block(0, 3, 3, 1)
    return M.vstack(M.hstack(R, M.zeros(g, 3, 3)), M.hstack(hat3(t) @ R, R))
def C16(c):
    G = grp(c); g = G[0]
    for k, rev, e in each(c, G):
        sp = Spec(g, k, rev)
        if sp.ln is None: jacobian(c, e, sp, k, rev)
        else:
            J = M.eye(g, 6)
            if F[k][1]: J = M.hstack(J, -adjm(sp.ln))
            c.compare(e, c.pairs(e, 'J', J), sp.setup(), n=6, opts=GEN)
    return 'Forward derivatives of the specified residual graphs along every increment direction (left multiplication for 3D poses, addition otherwise) are compared with the reported Jacobian; for 3D pose mismatches the documented first-order blocks.'
def C17(c):
    G = grp(c); g = G[0]
    for k in F:
        if not F[k][1]: continue
        for nm in variants(k):
            e = c.entry(G, nm)
            if not e: continue
            rev = nm.endswith('_r')
            ids = [e.const('nid', i) for i in range(2)] if e.const('nn') == 2 else []
            c.require(ids == [2, 5], '%s:neighbours' % nm, '%s: neighbours are %s, expected the two variables by increasing id' % (nm, ids))
            c.require(e.const('eqn') == 1, '%s:neighbours' % nm, '%s: the neighbour list does not hold the variables it was created with' % nm)
        if k.startswith('od'): continue
        f, r = c.entry(G, 'H_f_%s_f' % k), c.entry(G, 'H_f_%s_r' % k)
        if not f or not r: continue
        sp = Spec(g, k, False); a, b = F[k]; na, nb = ndim(a), ndim(b)
        if b not in ('Pose2d', 'Pose3d'):
            Jf, Jr = f.mat('J'), r.mat('J')
            pr = vpairs('r', r.mat('r'), f.mat('r')) + [('chi2', r.o('chi2'), f.o('chi2'))] + vpairs('J', Jr, M.hstack(Jf.block(0, na, Jf.r, nb), Jf.block(0, 0, Jf.r, na)))
            c.compare(r, pr, sp.setup(), n=8, opts=GEN)
        else:
            # reversed attachment == inverse observation
            sr = Spec(g, k, True)
            c.compare(r, vpairs('r', r.mat('r'), rspec(sr, r), sr.ang), sr.setup(), n=8, opts=GEN)
            if sr.ln is None: jacobian(c, r, sr, k, True)
            else: c.compare(r, c.pairs(r, 'J', M.hstack(M.eye(g, 6), -adjm(sr.ln))), sr.setup(), n=6, opts=GEN)
            W = g.mat('W', odim(k), odim(k)); R = r.mat('r')
            c.compare(r, [('chi2', r.o('chi2'), (R.T() @ (W @ R))[0, 0] * 0.5)], sr.setup(), n=4, opts=GEN)
            # an observation that holds exactly has no residual in either order
    return 'Each two-variable measurement is analysed with both creation orders on the same variables: neighbour ids, residual, error and permuted Jacobian blocks are compared; relative poses attached in reverse against the inverse observation.'
def C18(c):
    G = grp(c); g = G[0]
    for k, rev, e in each(c, G):
        sp = Spec(g, k, rev); n = odim(k); W = g.mat('W', n, n); R = e.mat('r')
        q = (R.T() @ (W @ R))[0, 0] * 0.5
        c.compare(e, [('chi2', e.o('chi2'), q), ('chi2b', e.o('chi2b'), q)] + c.pairs(e, 'W', W), sp.setup(), n=6, opts=GEN)
        a, b = F[k]; nd = ndim(a) + (ndim(b) if b else 0)
        for o, w in (('dim', n), ('r_rows', n), ('r_cols', 1), ('J_rows', n), ('J_cols', nd), ('W_rows', n), ('W_cols', n), ('all', nd), ('ndims', nd), ('nn', 2 if b else 1), ('fid', 9)):
            c.require(e.const(o) == w, '%s:%s' % (e.name, o), '%s: %s is %s, expected %s' % (e.name, o, e.const(o), w))
    return 'Error against one half residual-transpose W residual on the same graph (W an unconstrained, also asymmetric, matrix), and constant shapes and dimensions of every accessor per measurement kind.'
def C19(c):
    G = grp(c); g = G[0]
    for k, rev, e in each(c, G):
        a, b = F[k]; s0 = Spec(g, k, rev, 'x0', 'y0')
        aa = (2,) if a == 'Pose2d' else (); ab = (2,) if b == 'Pose2d' else ()
        x0 = s0.x; y0 = s0.y
        if k == 'pp': pass
        pr = vpairs('xc', e.mat('xc'), x0)
        if e.has('xca'): pr += vpairs('xca', e.mat('xca'), x0)
        upd = k in ('2p2u', 'odu', '2p3u', '2p3su', 'pl2u')
        if b and not upd: pr += vpairs('yc', e.mat('yc'), y0) + vpairs('yca', e.mat('yca'), y0)
        if upd:
            if k == '2p2u': t = compose2(g, x0, g.vec('z', 3))
            elif k == 'odu': t = odom(g, x0, g.vec('z', 3))
            elif k == 'pl2u':
                z = g.vec('z', 2); q = z[1, 0] + x0[2, 0]; t = M([[x0[0, 0] + z[0, 0] * cosn(g, q)], [x0[1, 0] + z[0, 0] * sinn(g, q)]])
            else: t = x0 @ g.mat('z', 4, 4)
            pr += vpairs('yc', e.mat('yc'), t, ab)
        st = s0.setup()
        c.compare(e, pr, st, n=8, opts=GEN)
        if upd:
            # the residual evaluated right after creation
            def setup(env):
                st(env); env.circ[(0, 1)] = (1, 0); env.regacos[1] = 0; env.rev[(1, 0)] = 0
                if k == 'pl2u':
                    z0 = env.rnd('z0'); env.setm('z', [[z0 if isqr(z0) else -z0], [env.rnd('z1')]])
            zero = g.const(0); R = e.mat('rc')
            c.compare(e, [(('@' if i in s0.ang else '') + 'rc[%d,0]' % i, R[i, 0], zero) for i in range(R.r)], setup, n=6, opts={'truth': creation})
    e = c.entry(G, 'H_f_defaults')
    if e:
        ok = both(set_pose('X0', 'Y0', 'Z'), set_plane('P0'))
        c.compare(e, vpairs('a', e.mat('a'), g.vec('x0', 3)) + vpairs('b', e.mat('b'), g.vec('y0', 3)) + vpairs('l', e.mat('l'), g.vec('l0', 2)) + vpairs('A', e.mat('A'), g.mat('X0', 4, 4)) + vpairs('B', e.mat('B'), g.mat('Y0', 4, 4)) + vpairs('L', e.mat('L'), g.vec('L0', 3)) + vpairs('P', e.mat('P'), g.vec('P0', 4)), ok, n=4, opts=GEN)
    return 'For every constructor with initialisation requested the target equals the specified composition and the residual evaluated right after creation is identically zero; for all others (and by default) every variable is unchanged.'
def creation(env, n):
    nd = env.g.nodes[n]
    if nd[0] == 'lt':
        # landmark range guard: the observed range is not small; logarithm guards see the identity
        a, b = env.g.nodes[nd[3]], env.g.nodes[nd[4]]
        for s, o, r in ((b, nd[3], False), (a, nd[4], True)):
            if small(s) and s[2] > 0: return (not r) if env.val(o) == 0 else r
    return False if nd[0] == 'nan' else None
def kernel(g, t, u):
    one = g.const(1)
    if t == 0: return one
    if t == 1: return g.ite(u.lt(1), 1, one / u)
    if t == 2: return one / (1 + u * u)
    if t == 3: return one / ((1 + u * u) * (1 + u * u))
    return g.ite(u.lt(1), 1, 0)
def C20(c):
    G = grp(c); g = G[0]; u, v = g.var('u'), g.var('v')
    e = c.entry(G, 'H_robust')
    NM = ['quadratic', 'Huber', 'Cauchy', 'McClure', 'rejection']
    pr = lambda e: [('w-%s' % NM[t], e.o('w', t), kernel(g, t, u)) for t in range(5)] + [('w2-%s' % NM[t], e.o('w2', t), kernel(g, t, v)) for t in range(5)]
    def pos(env):
        env.inp['u[0,0]'] = env.rnd('pu') ** 2 % P
    def at(x): return lambda env: env.inp.update({'u[0,0]': frac(x), 'v[0,0]': frac(x)})
    if e:
        c.compare(e, pr(e), pos, n=16)
        for x in (Fraction(0), Fraction(1, 4), Fraction(1, 2), Fraction(3, 4), Fraction(1), Fraction(3, 2), Fraction(2), Fraction(9)): c.compare(e, pr(e), at(x), n=1, what='at u=%s' % x, opts={'rat': True})
        c.compare(e, [('chi0', e.o('chi0'), g.const(0))], pos, n=2)
    for k, rev, e in each(c, G):
        c.compare(e, [('u0', e.o('u0'), kernel(g, KERN[k], u))], pos, n=10)
    e = c.entry(G, 'H_f_defaults')
    if e: c.compare(e, [('u[%d,0]' % i, e.o('u', i), g.const(1)) for i in range(10)], None, n=4)
    return 'The weight function is extracted per kernel and compared with the documented one in both pieces and at the threshold; each measurement constructor is analysed with an explicit kernel and with its default, twice in a row.'
