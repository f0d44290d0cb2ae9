import os, re
from vg import *
import pipe
from drive import Broken, _n
from geometry import set_pose, set_rot, both
from factors import generic, GEN, FS
SRC = sorted(set(FS + ['src/FGraph/factor_graph.cpp', 'src/FGraph/factor_graph_solve.cpp', 'src/geometry/SE3cov.cpp', 'src/common/optimizer.cpp'] + ['src/PCRegistration/%s.cpp' % k for k in ('arun', 'gicp', 'weight_point', 'estimate_plane', 'plane', 'plane_registration', 'create_points')]))
def grp(c, name, ents, **k):
    py = sorted('mrobpy/' + f for f in os.listdir(os.path.join(pipe.REPO, 'mrobpy')) if f.endswith('.cpp'))
    return c.group('py' + name, 'bind.cpp', [s for s in SRC if os.path.exists(os.path.join(pipe.REPO, s))] + py, opaque=['chrono::_V2::.*clock::now@NOW@noop'], flags=['-I' + os.path.join(pipe.ROOT, 'harness', k) for k in ('pymock', 'mockrandom')], entries=ents, **k)
def entries(*pre):
    src = open(os.path.join(pipe.ROOT, 'harness', 'bind.cpp')).read()
    return [e for e in re.findall(r'^H (H_\w+)\(', src, re.M) if any(e.startswith(p) for p in pre)]
def bads():
    src = open(os.path.join(pipe.ROOT, 'harness', 'bind.cpp')).read()
    return ['H_pb_' + x for x in re.findall(r'^BAD1\((\w+),', src, re.M)]
def labels(e):
    """number of a compared value -> exported name it belongs to"""
    ev = []
    for x in e.events:
        a = [e.g.nodes[n][2] for n in x[1:3]]; ev.append((a[0], x[0] + ({0: '', 50: ' (keywords)', 51: ' (constant)'}.get(a[1], ' (default %d)' % (a[1] - 1)))))
    def f(k):
        b = [n for c, n in ev if c <= k]; x = [n for c, n in ev if c == k]
        return x[-1] if x else ('after ' + b[-1] if b else 'value %d' % k)
    return f
def tol(g, nd):
    if nd[0] == 'lt':
        for i, r in ((3, False), (4, True)):
            x = g.nodes[nd[i]]
            if x[0] == 'c' and abs(x[2] - 1e-4) < 1e-9: return r
def second(g, roots):
    """iterative alignments stop after their second step"""
    dep = [0] * len(g.nodes)
    for n, nd in enumerate(g.nodes): dep[n] = 1 + max([dep[x] for x in nd[3:]] or [0])
    seen = set(roots); st = list(seen)
    while st:
        for x in g.nodes[st.pop()][3:]:
            if isinstance(x, int) and x not in seen: seen.add(x); st.append(x)
    ts = {dep[n] for n in seen if tol(g, g.nodes[n]) is not None}; lo = min(ts) if ts else 0
    def f(env, n):
        r = tol(env.g, env.g.nodes[n])
        if r is None: return generic(env, n)
        return r if dep[n] > lo else not r
    return f
def C34(c):
    es = entries('H_py_'); G = grp(c, '', es); g = G[0]
    for nm in es:
        e = c.entry(G, nm)
        if not e: continue
        lab = labels(e)
        ks = set(); pr = []
        for key in e.outs:
            m = re.match(r'([br])(\d+)(_.*)?$', key[0])
            if key[0] == 'missing': c.violation('%s:%s' % (nm, lab(key[1])), '%s: %s does not accept the documented call' % (nm, lab(key[1])))
            if not m: continue
            ks.add(int(m.group(2))); tw = ({'b': 'r', 'r': 'b'}[m.group(1)] + key[0][1:],) + key[1:]
            if tw not in e.outs: c.violation('%s:%s' % (nm, lab(int(m.group(2)))), '%s: %s does not return the kind of value of the operation it names' % (nm, lab(int(m.group(2))))); continue
            if m.group(1) == 'b': pr.append(('%s[%s,%d,%d]' % (lab(int(m.group(2))), m.group(2) + (m.group(3) or ''), key[1], key[2]), e.o(*key), e.o(*tw)))
        if not ks or ks != set(range(len(ks))): raise Broken('%s: %d compared values' % (nm, len(ks)))
        c.ok(sum(_n(a) == _n(b) for _, a, b in pr)); pr = [p for p in pr if _n(p[1]) != _n(p[2])] # the same value graph
        if pr: c.compare(e, pr, both(set_pose('S0', 'S1', 'S2', 'S3'), set_rot('Q0', 'Q1')), n=3, opts={'truth': second(g, e.outs.values())} if nm in ('H_py_gicp', 'H_py_wp') else GEN)
    return 'Every exported name is looked up in the recorded bindings with the overload resolution, conversions and defaults of the binding library and applied to unconstrained arguments; result and operands after the call are compared with those of the native operation.'

def C35(c):
    src = open(os.path.join(pipe.ROOT, 'harness', 'view.cpp')).read()
    es = ['H_v_' + x for x in re.findall(r'^(?:H H_v_|FAC\()(\w+)', src, re.M) + re.findall(r'NODE\((\w+), N', src)]
    es = [x for x in es if x not in ('H_v_NAME', 'H_v_')]
    G = c.group('view', 'view.cpp', [s for s in SRC if os.path.exists(os.path.join(pipe.REPO, s))], entries=es)
    for nm in es:
        e = c.entry(G, nm)
        if not e: continue
        pr = []
        for key in sorted(e.outs):
            m = re.match(r'([vw])(\d+)$', key[0])
            if not m: continue
            k = ('e' + m.group(2),) + key[1:]
            if k not in e.outs: c.violation('%s:%s' % (nm, key[0]), '%s: the shape of a held view %s differs from that of the value' % (nm, key[0])); continue
            c.ok()
            if _n(e.o(*key)) != _n(e.o(*k)): pr.append(('%s[%d,%d]' % key, e.o(*key), e.o(*k)))
        if not any(k[0][0] == 'v' for k in e.outs): raise Broken(nm + ': nothing compared')
        if pr: c.compare(e, pr, poses(e.g), n=3, opts=GEN)
    ps = entries('H_py_'); G = grp(c, '', ps)
    for nm in ps:
        e = c.entry(G, nm)
        if not e: continue
        lab = labels(e)
        c.ok(len(e.events))
        for key in e.outs:
            if key[0] == 'view': c.violation('%s:%s' % (nm, lab(key[1])), '%s: %s hands a view of native storage to Python' % (nm, lab(key[1])))
    return 'Views returned by every accessor of every class are kept across other calls and read afterwards: each read must hit live storage and give the value of the object asked. Every exported call of C34 must convert its result by copy or move.'
def poses(g):
    have = {n[2] for n in g.nodes if n[0] == 'v'}; ks = [k for k in ('xa', 'xb', 'za', 'zb') if k + '[3,3]' in have]
    return set_pose(*ks) if ks else None
