"""Algebraic interpretation of value graphs produced by the abstract interpreter (engine/vf.cpp).

A value graph is compared with a specification graph by interpreting both in the prime field
GF(P) (global value numbering by random interpretation: two graphs that denote the same
algebraic function always agree, two that do not disagree except with probability ~ size/2^149).
 * rational operations are field operations, decimal literals the rational they denote;
 * sqrt is the root that is itself a square, and x > 0 means "x is a non-zero square": since -1 is
   not a square this sign is multiplicative, sign(-x) = -sign(x) and sqrt(x)sqrt(y) = sqrt(xy);
 * sin/cos map linear forms in angles to the unit circle homomorphically, so addition theorems hold;
 * INV is the matrix inverse, EIG / SVD give orthonormal factors keyed by the argument value.
"""
import hashlib, math, random
from fractions import Fraction
# prime with P = 7 mod 8 and every prime below 102 a square: -1 is not a square, and the sign of a
# rational number whose numerator and denominator have only small factors is its real sign
P = 976710449469621858643676774297459907425189759
assert P % 8 == 7
class Resample(Exception): pass
class Undecided(Exception): pass

def h2f(*key):
    return int.from_bytes(hashlib.sha256(repr(key).encode()).digest(), 'big') % P
def inv(x):
    x %= P
    if x == 0: raise Resample('division by zero')
    return pow(x, P - 2, P)
def isqr(x): return pow(x, (P - 1) // 2, P) == 1
def root(x):
    x %= P
    if x == 0: return 0
    r = pow(x, (P + 1) // 4, P)
    if r * r % P != x: raise Resample('not a square')
    return r if isqr(r) else P - r
def frac(f): return f.numerator % P * inv(f.denominator) % P
_cc = {}
def const_form(c):
    """double -> (rational, power of pi)"""
    if c in _cc: return _cc[c]
    r = None
    if c == 0: r = (Fraction(0), 0)
    elif c == int(c) and abs(c) < 1e15: r = (Fraction(int(c)), 0)
    else:
        s = repr(c)
        digits = sum(ch.isdigit() for ch in s.split('e')[0].replace('.', '').lstrip('0').lstrip('-0'))
        if digits <= 10: r = (Fraction(s), 0)
        else:
            f = Fraction(c).limit_denominator(20000)
            if f and abs(f - Fraction(c)) <= abs(Fraction(c)) / 2 ** 52: r = (f, 0)
            else:
                for pw in (1, -1):
                    q = c / math.pi if pw == 1 else c * math.pi
                    f = Fraction(q).limit_denominator(720)
                    if f and abs(float(f) - q) <= abs(q) * 4.5e-16: r = (f, pw); break
                if r is None: r = (Fraction(c), 0)
    _cc[c] = r
    return r

class E:
    """expression handle used to write specifications"""
    __slots__ = ('g', 'n')
    def __init__(s, g, n): s.g = g; s.n = n
    def _c(s, o): return o if isinstance(o, E) else s.g.const(o)
    def __add__(s, o): return s.g.mk('+', s, s._c(o))
    __radd__ = __add__
    def __sub__(s, o): return s.g.mk('-', s, s._c(o))
    def __rsub__(s, o): return s.g.mk('-', s._c(o), s)
    def __mul__(s, o): return s.g.mk('*', s, s._c(o))
    __rmul__ = __mul__
    def __truediv__(s, o): return s.g.mk('/', s, s._c(o))
    def __rtruediv__(s, o): return s.g.mk('/', s._c(o), s)
    def __neg__(s): return s.g.mk('neg', s)
    def lt(s, o): return s.g.mk('lt', s, s._c(o))
    def gt(s, o): return s.g.mk('lt', s._c(o), s)

class Graph:
    def __init__(s, d):
        s.nodes = d['nodes']           # [op, loc, name-or-const, args...]
        s.locs = d['locs']; s.idx = {}
        for i, n in enumerate(s.nodes): s.idx[(n[0], n[2]) + tuple(n[3:])] = i
        s.base = len(s.nodes)
    def mkn(s, op, name, *args):
        k = (op, name) + tuple(args)
        if k in s.idx: return s.idx[k]
        s.nodes.append([op, 0, name] + list(args)); s.idx[k] = len(s.nodes) - 1
        return len(s.nodes) - 1
    def const(s, v):
        if isinstance(v, Fraction): return s.mk('/', s.const(v.numerator), s.const(v.denominator)) if v.denominator != 1 else s.const(v.numerator)
        return E(s, s.mkn('c', float(v) if not isinstance(v, int) else v))
    def mk(s, op, *args): return E(s, s.mkn(op, '', *[a.n for a in args]))
    def var(s, name, i=0, j=0): return E(s, s.mkn('v', '%s[%d,%d]' % (name, i, j)))
    def bvar(s, name): return E(s, s.mkn('b', name))
    def fn(s, f, *args): return E(s, s.mkn('f', f, *[a.n for a in args]))
    def sqrt(s, x): return s.fn('sqrt', x)
    def ite(s, c, a, b): return s.mk('ite', c, a if isinstance(a, E) else s.const(a), b if isinstance(b, E) else s.const(b))
    def AND(s, a, b): return s.mk('and', a, b)
    def OR(s, a, b): return s.mk('or', a, b)
    def NOT(s, a): return s.mk('not', a)
    def opaque(s, name, ins, nout):
        o = s.mkn('op', name, *[x.n for x in ins])
        return [E(s, s.mkn('proj', str(k), o)) for k in range(nout)]
    def mat(s, name, r, c): return M([[s.var(name, i, j) for j in range(c)] for i in range(r)])
    def vec(s, name, n): return M([[s.var(name, i, 0)] for i in range(n)])
    def cone(s, roots):
        seen = set(); st = list(roots)
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st += [a for a in s.nodes[x][3:] if a not in seen]
        return seen
    def equalities(s, roots): return sorted(x for x in s.cone(roots) if s.nodes[x][0] == 'eq')
    def leaves(s, roots):
        """inputs and results of uninterpreted operations, nearest first"""
        seen = set(); st = list(roots); r = []
        while st:
            nx = []
            for x in st:
                if x in seen: continue
                seen.add(x); nd = s.nodes[x]
                if nd[0] == 'v': r.append(('v', nd[2]))
                elif nd[0] == 'proj' and s.nodes[nd[3]][2] not in ('INV', 'EIG', 'SVD'): r.append(('op', nd[3], int(nd[2])))
                nx += nd[3:]
            st = nx
        return r
    def loc(s, n):
        """repository location of a node: its own, or that of the nearest argument that has one"""
        seen = set(); q = [n]
        while q:
            x = q.pop(0)
            if x in seen: continue
            seen.add(x)
            if x < s.base and s.nodes[x][1]: return s.locs[s.nodes[x][1]]
            q.extend(s.nodes[x][3:])
            if len(seen) > 4000: break
        return ''

class M:
    """matrix of expressions"""
    def __init__(s, rows): s.a = [list(r) for r in rows]; s.r = len(s.a); s.c = len(s.a[0]) if s.a else 0
    def __getitem__(s, ij): return s.a[ij[0]][ij[1]]
    @staticmethod
    def zeros(g, r, c): return M([[g.const(0)] * c for _ in range(r)])
    @staticmethod
    def eye(g, n): return M([[g.const(int(i == j)) for j in range(n)] for i in range(n)])
    def T(s): return M([[s.a[i][j] for i in range(s.r)] for j in range(s.c)])
    def __matmul__(s, o):
        assert s.c == o.r, (s.r, s.c, o.r, o.c)
        def dot(i, j):
            t = None
            for k in range(s.c):
                x = s.a[i][k] * o.a[k][j]; t = x if t is None else t + x
            return t
        return M([[dot(i, j) for j in range(o.c)] for i in range(s.r)])
    def __add__(s, o): return M([[x + y for x, y in zip(a, b)] for a, b in zip(s.a, o.a)])
    def __sub__(s, o): return M([[x - y for x, y in zip(a, b)] for a, b in zip(s.a, o.a)])
    def __mul__(s, k): return M([[x * k for x in a] for a in s.a])
    __rmul__ = __mul__
    def __neg__(s): return M([[-x for x in a] for a in s.a])
    def block(s, i, j, r, c): return M([row[j:j + c] for row in s.a[i:i + r]])
    def flat(s): return [x for r in s.a for x in r]
    def inv(s):
        g = s.a[0][0].g; o = g.opaque('INV', s.flat(), s.r * s.r)
        return M([[o[i * s.r + j] for j in range(s.r)] for i in range(s.r)])
    @staticmethod
    def vstack(*ms): return M([r for m in ms for r in m.a])
    @staticmethod
    def hstack(*ms): return M([sum((m.a[i] for m in ms), []) for i in range(ms[0].r)])
def hat3(w):
    g = w[0, 0].g; z = g.const(0); x, y, t = w[0, 0], w[1, 0], w[2, 0]
    return M([[z, -t, y], [t, z, -x], [-y, x, z]])
def hat6(x):
    g = x[0, 0].g
    return M.vstack(M.hstack(hat3(x.block(0, 0, 3, 1)), x.block(3, 0, 3, 1)), M.zeros(g, 1, 4))

def infcmp(g, nd):
    """truth of a comparison with a non-finite constant (all other values are finite), or None"""
    if nd[0] not in ('lt', 'eq'): return None
    a, b = g.nodes[nd[3]], g.nodes[nd[4]]
    if not ((a[0] == 'c' and isinstance(a[2], str)) or (b[0] == 'c' and isinstance(b[2], str))): return None
    va = float(a[2]) if a[0] == 'c' else 0.0; vb = float(b[2]) if b[0] == 'c' else 0.0
    return va < vb if nd[0] == 'lt' else va == vb
# ---------------------------------------------------------------- sampling helpers (field values)
def rmatmul(A, B):
    nz = [[(j, v) for j, v in enumerate(r) if v] for r in B]; w = len(B[0]); out = []
    for r in A:
        o = [0] * w
        for k, a in enumerate(r):
            if a:
                for j, v in nz[k]: o[j] += a * v
        out.append([v % P for v in o])
    return out
def rinv(A):
    n = len(A); a = [[x % P for x in r] + [int(i == j) for j in range(n)] for i, r in enumerate(A)]
    for c in range(n):
        p = next((r for r in range(c, n) if a[r][c]), None)
        if p is None: raise Resample('singular matrix')
        a[c], a[p] = a[p], a[c]; k = inv(a[c][c]); a[c] = [x * k % P for x in a[c]]; nz = [(j, y) for j, y in enumerate(a[c]) if y]
        for r in range(n):
            if r != c and a[r][c]:
                f = a[r][c]; q = a[r]
                for j, y in nz: q[j] = (q[j] - f * y) % P
    return [r[n:] for r in a]
def rsolve(A, b):
    """solution of a sparse system given by dense rows"""
    n = len(A); a = [{j: v % P for j, v in enumerate(r) if v % P} for r in A]; b = list(b); at = [set() for _ in range(n)]
    for i, r in enumerate(a):
        for j in r: at[j].add(i)
    used = [False] * n; order = []
    for c in range(n):
        p = min((r for r in at[c] if not used[r] and c in a[r]), default=None, key=lambda r: len(a[r]))
        if p is None: raise Resample('singular matrix')
        used[p] = True; order.append(p); k = inv(a[p][c]); ap = a[p]
        for r in at[c]:
            if used[r] or c not in a[r]: continue
            q = a[r]; f = q[c] * k % P
            for j, v in ap.items():
                w = (q.get(j, 0) - f * v) % P
                if w: q[j] = w; at[j].add(r) if j != c else None
                elif j in q: del q[j]
            b[r] = (b[r] - f * b[p]) % P
    x = [0] * n
    for c in range(n - 1, -1, -1):
        r = a[order[c]]; x[c] = (b[order[c]] - sum(v * x[j] for j, v in r.items() if j != c)) * inv(r[c]) % P
    return x
def quat_rot(q):
    x, y, z, w = q; n = inv(x * x + y * y + z * z + w * w)
    f = lambda v: v * n % P
    return [[f(w*w+x*x-y*y-z*z), f(2*(x*y-w*z)), f(2*(x*z+w*y))], [f(2*(x*y+w*z)), f(w*w-x*x+y*y-z*z), f(2*(y*z-w*x))], [f(2*(x*z-w*y)), f(2*(y*z+w*x)), f(w*w-x*x-y*y+z*z)]]
def cayley(n, key):
    S = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            v = h2f('cay', key, i, j); S[i][j] = v; S[j][i] = P - v
    A = [[(int(i == j) - S[i][j]) % P for j in range(n)] for i in range(n)]; B = [[(int(i == j) + S[i][j]) % P for j in range(n)] for i in range(n)]
    return rmatmul(A, rinv(B))

class Env:
    """one random interpretation"""
    def __init__(s, g, seed, inputs=None, bools=None, opts=None):
        s.g = g; s.seed = seed; s.inp = inputs or {}; s.bools = bools or {}; s.memo = {}; s.dmemo = {}
        s.o = opts or {}
        s.over = {}; s.salt = {}; s.angs = []      # alternative circle points chosen when backtracking
        s.pi = h2f('pi', seed); s.circ = {}; s.rev = {}; s.regacos = {}; s.eigreg = {}
        if not isqr(s.pi): s.pi = P - s.pi
        s.circ[(s.pi, 1)] = (P - 1, 0); s.circ[(s.pi * inv(2) % P, 1)] = (0, 1)
        s.rat = s.o.get('rat'); s.truth = s.o.get('truth')       # callback(env, node) -> bool or None
    def rnd(s, *k): return h2f(s.seed, *k)
    def var(s, name):
        if name not in s.inp: s.inp[name] = s.rnd('v', name)
        return s.inp[name]
    def setm(s, name, rows):
        for i, r in enumerate(rows):
            for j, v in enumerate(r): s.inp['%s[%d,%d]' % (name, i, j)] = v % P
    def cval(s, c):
        if isinstance(c, int): return c % P
        if isinstance(c, str): raise Resample('non finite constant')
        f, k = const_form(c); v = frac(f)
        if k == 1: v = v * s.pi % P
        elif k == -1: v = v * inv(s.pi) % P
        return v
    # ---- booleans
    def sgn(s, d):
        d %= P
        if d == 0: return 0
        if s.rat:       # compared quantities are constants of the input family: use their real sign
            q = ratrec(d, s.rat if s.rat is not True else 1 << 72)
            if q is not None: return 1 if q > 0 else -1
        return 1 if isqr(d) else -1
    def cond(s, n):
        m = s.memo
        k = ('b', n)
        if k in m: return m[k]
        nd = s.g.nodes[n]; op = nd[0]; r = None
        r = infcmp(s.g, nd)
        if r is None and s.truth and op in ('lt', 'eq', 'nan', 'b'): r = s.truth(s, n)
        if r is not None: pass
        elif op == 'true': r = True
        elif op == 'false': r = False
        elif op == 'not': r = not s.cond(nd[3])
        elif op == 'and': r = s.cond(nd[3]) and s.cond(nd[4])
        elif op == 'or': r = s.cond(nd[3]) or s.cond(nd[4])
        elif op == 'lt': r = s.less(nd[3], nd[4])
        elif op == 'eq': r = (s.val(nd[3]) - s.val(nd[4])) % P == 0
        elif op == 'nan': r = False
        elif op == 'b': r = s.bools.get(nd[2]);  r = (h2f(s.seed, 'b', nd[2]) & 1 == 1) if r is None else r
        elif op == 'ite': r = s.cond(nd[4] if s.cond(nd[3]) else nd[5])
        elif op == 'c': r = bool(nd[2])
        else: raise Undecided('condition ' + op)
        m[k] = r
        return r
    def less(s, a, b):
        A, B = s.g.nodes[a], s.g.nodes[b]
        ra = A[0] == 'f' and A[2] == 'sqrt'; rb = B[0] == 'f' and B[2] == 'sqrt'
        if ra and rb: return s.less(A[3], B[3])       # monotone
        if ra and B[0] == 'c' and not isinstance(B[2], str): return B[2] > 0 and s.sgn(s.val(b) ** 2 - s.val(A[3])) > 0
        if rb and A[0] == 'c' and not isinstance(A[2], str): return A[2] < 0 or s.sgn(s.val(B[3]) - s.val(a) ** 2) > 0
        va, vb = s.val(a), s.val(b)
        if va == 0 and B[0] == 'c' and not isinstance(B[2], str): return B[2] > 0
        if vb == 0 and A[0] == 'c' and not isinstance(A[2], str): return A[2] < 0
        return s.sgn(vb - va) > 0
    # ---- angles
    def linform(s, n):
        """angle as {atom value: rational}, 'pi': rational (modulo 2 pi)"""
        out = {}
        def add(k, c):
            out[k] = out.get(k, 0) + c
        def isint(n):
            nd = s.g.nodes[n]
            if nd[0] == 'f' and nd[2] in ('floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint'): return True
            if nd[0] == 'c' and not isinstance(nd[2], str): return float(nd[2]) == int(nd[2])
            if nd[0] in ('+', '-', '*', 'neg'): return all(isint(a) for a in nd[3:])
            if nd[0] == 'ite': return isint(nd[4]) and isint(nd[5])
            return False
        def go(n, c):
            nd = s.g.nodes[n]; op = nd[0]
            if op == '+': go(nd[3], c); go(nd[4], c)
            elif op == '-': go(nd[3], c); go(nd[4], -c)
            elif op == 'neg': go(nd[3], -c)
            elif op == 'ite': go(nd[4] if s.cond(nd[3]) else nd[5], c)
            elif op == 'f' and nd[2] in ('fmod', 'remainder') and s.g.nodes[nd[4]][0] == 'c' and const_form(s.g.nodes[nd[4]][2])[1] == 1 and (const_form(s.g.nodes[nd[4]][2])[0] * c) % 2 == 0: go(nd[3], c)
            elif op == 'c' and not isinstance(nd[2], str):
                f, k = (Fraction(nd[2]), 0) if isinstance(nd[2], int) else const_form(nd[2])
                if k == 1: add('pi', f * c)
                elif f != 0: add(1, f * c)
            elif op == '*' and any(s.g.nodes[a][0] == 'c' and not isinstance(s.g.nodes[a][2], str) for a in nd[3:]):
                a, b = nd[3], nd[4]
                if s.g.nodes[a][0] != 'c': a, b = b, a
                f, k = const_form(float(s.g.nodes[a][2]))
                if k == 1 and isint(b) and (f * c) % 2 == 0: return
                if k == 0: go(b, c * f)
                else: add(s.val(n), c)
            elif op == '/' and s.g.nodes[nd[4]][0] == 'c' and const_form(float(s.g.nodes[nd[4]][2]))[1] == 0: go(nd[3], c / const_form(float(s.g.nodes[nd[4]][2]))[0])
            else: add(s.val(n), c)
        go(n, Fraction(1))
        return out
    def point(s, v, den):
        """circle point of (atom v)/den"""
        k = (v, den)
        if k in s.circ: return s.circ[k]
        if v == 0: return (1, 0)
        if not isqr(v): c, q = s.point(P - v, den); r = (c, -q % P)
        else:
            if (v, 1) not in s.circ and (v, 4) not in s.circ:
                t = h2f(s.seed, 'ang', v, s.salt[v]) if v in s.salt else h2f(s.seed, 'ang', v); s.angs.append(v); i = inv(1 + t * t); p = ((1 - t * t) * i % P, 2 * t * i % P)
                s.circ[(v, 4)] = p; s.circ[(v, 2)] = s.cmul(p, p); s.circ[(v, 1)] = s.cpow(p, 4)
            if k not in s.circ:
                c, q = s.point(v, den // 2)       # half angle of an already fixed point
                ch = root((1 + c) * inv(2)); s.circ[k] = (ch, q * inv(2 * ch) % P)
            r = s.circ[k]
        s.circ[k] = r
        return r
    @staticmethod
    def cmul(a, b): return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)
    def cpow(s, a, k):
        if k < 0: return s.cpow((a[0], P - a[1]), -k)
        r = (1, 0)
        for _ in range(k): r = s.cmul(r, a)
        return r
    def cs(s, n):
        k = ('cs', n)
        if k in s.memo: return s.memo[k]
        lf = s.linform(n); r = (1, 0)
        for v, c in lf.items():
            if c == 0: continue
            if v == 'pi':
                q = c * 2
                if q.denominator != 1:
                    if q.denominator == 2: # multiples of pi/4
                        h = root(inv(2)); r = s.cmul(r, s.cpow((h, h), q.numerator % 8)); continue
                    r = s.cmul(r, s.point(s.pi * frac(c) % P, 1)); continue
                r = s.cmul(r, [(1, 0), (0, 1), (P - 1, 0), (0, P - 1)][int(q) % 4]); continue
            d = c.denominator
            if d > 4 or abs(c.numerator) > 64: r = s.cmul(r, s.point(v * frac(c) % P, 1)); continue
            if d == 3: d = 3
            p = s.point(v, d) if d in (1, 2, 4) else s.point(v * inv(d) % P, 1)
            r = s.cmul(r, s.cpow(p, c.numerator))
        s.memo[k] = r
        val = s.val(n)
        s.rev[r] = val
        if isqr(val): s.circ.setdefault((val, 1), r)
        elif val: s.circ.setdefault((P - val, 1), (r[0], -r[1] % P))
        s.regacos.setdefault(r[0], val)
        return r
    # ---- values
    def val(s, n):
        m = s.memo
        if n in m: return m[n]
        stack = [n]; nodes = s.g.nodes
        while stack:
            x = stack[-1]
            if x in m: stack.pop(); continue
            nd = nodes[x]; op = nd[0]
            if op == 'ite':
                t = nd[4] if s.cond(nd[3]) else nd[5]
                if t in m: m[x] = m[t]; stack.pop()
                else: stack.append(t)
                continue
            miss = [a for a in nd[3:] if a not in m]
            if miss and op in ('+', '-', '*', '/', 'neg', 'f', 'op', 'proj'): stack.extend(miss); continue
            m[x] = s.op(x, nd, op); stack.pop()
        return m[n]
    def op(s, x, nd, op):
        m = s.memo
        if op == 'c': return s.cval(nd[2])
        if op == 'v': return s.var(nd[2])
        if op == '+': return (m[nd[3]] + m[nd[4]]) % P
        if op == '-': return (m[nd[3]] - m[nd[4]]) % P
        if op == '*': return m[nd[3]] * m[nd[4]] % P
        if op == '/': return m[nd[3]] * inv(m[nd[4]]) % P
        if op == 'neg': return -m[nd[3]] % P
        if op == 'undef': return s.rnd('undef', x)
        if op == 'f': return s.func(x, nd)
        if op == 'op': s.opq(x, nd); return 0
        if op == 'proj': return m[('op', nd[3])][int(nd[2])]
        if op in ('lt', 'eq', 'not', 'and', 'or', 'nan', 'b', 'true', 'false'): return int(s.cond(x))
        raise Undecided('node ' + op)
    def func(s, x, nd):
        f = nd[2]; a = s.memo[nd[3]]; m = s.memo
        if f == 'sqrt': return root(a)
        if f == 'fabs': return a if s.sgn(a) >= 0 else P - a
        if f == 'cos': return s.cs(nd[3])[0]
        if f == 'sin': return s.cs(nd[3])[1]
        if f == 'tan': c, q = s.cs(nd[3]); return q * inv(c) % P
        if f == 'acos':
            if a in s.regacos: return s.regacos[a]
            if a == 1: return 0
            if a == P - 1: return s.pi
            if a == 0: return s.pi * inv(2) % P
            v = h2f(s.seed, 'acos', a); v = v if isqr(v) else P - v
            q = root(1 - a * a); s.regacos[a] = v; s.circ[(v, 1)] = (a, q); return v
        if f == 'asin':
            q = root(1 - a * a)
            if (q, a) in s.rev: return s.rev[(q, a)]
            sg = s.sgn(a); v = h2f(s.seed, 'asin', a if sg >= 0 else P - a); v = v if isqr(v) else P - v
            s.circ[(v, 1)] = (q, a if sg >= 0 else P - a)
            return v if sg >= 0 else P - v
        if f in ('atan2', 'atan'):
            b = m[nd[4]] if f == 'atan2' else 1
            if a == 0 and s.sgn(b) > 0: return 0
            r = root(a * a + b * b)
            if r == 0: raise Resample('atan2')
            i = inv(r); pt = (b * i % P, a * i % P)
            if pt in s.rev: return s.rev[pt]
            cj = (pt[0], -pt[1] % P)
            if cj in s.rev: return -s.rev[cj] % P
            v = h2f(s.seed, 'atan', pt[0], min(pt[1], P - pt[1])); v = v if isqr(v) else P - v
            if s.sgn(pt[1]) < 0: s.circ[(v, 1)] = cj; s.rev[cj] = v; return P - v
            s.circ[(v, 1)] = pt; s.rev[pt] = v
            return v
        if f == 'copysign':
            sa = s.sgn(a); sb = s.sgn(m[nd[4]]); return a if (sa >= 0) == (sb >= 0) else P - a
        if f in ('fmin', 'fmax'):
            b = m[nd[4]]; lt = s.sgn(b - a) > 0; return (a if lt else b) if f == 'fmin' else (b if lt else a)
        return h2f(s.seed, 'f', f, *[m[k] for k in nd[3:]])
    def opq(s, x, nd):
        name = nd[2]; a = [s.memo[k] for k in nd[3:]]; n = int(round(len(a) ** 0.5))
        if name == 'INV':
            r = rinv([a[i * n:(i + 1) * n] for i in range(n)]); s.memo[('op', x)] = [v for row in r for v in row]
        elif name in ('EIG', 'SVD'):
            s.memo[('op', x)] = s.decomp(name, a, n)
        else:
            s.memo[('op', x)] = s.opaque(name, tuple(a))
    def decomp(s, name, a, n):
        """orthonormal factors of a matrix; positive rational multiples and transposes of a matrix share them"""
        tr = lambda q: [q[j * n + i] for i in range(n) for j in range(n)]
        sym = a == tr(a)
        if name == 'EIG' or sym:
            lam, V = s.seen('EIG', a, lambda k: s.eigreg[k] if k in s.eigreg else ([h2f(s.seed, 'eig', i, k) for i in range(n)], cayley(n, (s.seed, 'eig', k))), lambda r, f: ([v * f % P for v in r[0]], r[1]))
            if name == 'EIG': return lam + [v for row in V for v in row]
            if not s.o.get('svd'):
                R = [v for row in V for v in row[::-1]]; return R + lam[::-1] + R
        def mk(k):
            if s.o.get('svd'): return s.o['svd'](s, k)
            U = cayley(n, (s.seed, 'U', k)); V = cayley(n, (s.seed, 'V', k))
            if h2f(s.seed, 'det', k) & 1: U = [[-v % P for v in r] for r in U]
            if h2f(s.seed, 'detv', k) & 1: V = [[-v % P for v in r] for r in V]
            sg = [h2f(s.seed, 'sv', i, k) for i in range(n)]; return U, [v if isqr(v) else P - v for v in sg], V
        sc = lambda r, f: (r[0], [v * f % P for v in r[1]], r[2])
        t = tr(a); sw = s.find('SVD', a) is None and s.find('SVD', t) is not None
        U, sg, V = s.seen('SVD', t if sw else a, mk, sc)
        if sw: U, V = V, U
        return [v for r in U for v in r] + sg + [v for r in V for v in r]
    def find(s, kind, a):
        for b, r in s.__dict__.setdefault('seen_' + kind, []):
            if len(b) != len(a): continue
            k = next((i for i, v in enumerate(b) if v), None)
            if k is None or a[k] == 0: 
                if list(a) == list(b): return r, 1
                continue
            f = a[k] * inv(b[k]) % P
            if f == 1 or ((lambda q: q is not None and q > 0)(ratrec(f, 1 << 40))):
                if all((x - f * y) % P == 0 for x, y in zip(a, b)): return r, f
        return None
    def seen(s, kind, a, make, scale):
        q = s.find(kind, a)
        if q is None:
            r = make(tuple(a)); s.__dict__['seen_' + kind].append((tuple(a), r)); return r
        return q[0] if q[1] == 1 else scale(*q)
    def opaque(s, name, a):
        r = s.over.get((name, a))
        return _Hashed(s.seed, name, a) if r is None else r
    # ---- forward derivative along one direction: seeds {input name: tangent}
    def der(s, n, seeds, tag):
        memo = s.dmemo.setdefault(tag, {}); nodes = s.g.nodes; m = s.memo
        s.val(n)
        stack = [n]
        while stack:
            x = stack[-1]
            if x in memo: stack.pop(); continue
            nd = nodes[x]; op = nd[0]
            if op == 'ite':
                t = nd[4] if s.cond(nd[3]) else nd[5]
                if t in memo: memo[x] = memo[t]; stack.pop()
                else: stack.append(t)
                continue
            if op in ('c', 'undef', 'lt', 'eq', 'not', 'and', 'or', 'nan', 'b', 'true', 'false'): memo[x] = 0; stack.pop(); continue
            if op == 'v': memo[x] = seeds.get(nd[2], 0) % P; stack.pop(); continue
            deps = nd[3:]
            miss = [a for a in deps if a not in memo]
            if miss: stack.extend(miss); continue
            for a in deps: s.val(a)
            A = [m[a] for a in deps]; D = [memo[a] for a in deps]
            if op == '+': r = D[0] + D[1]
            elif op == '-': r = D[0] - D[1]
            elif op == 'neg': r = -D[0]
            elif op == '*': r = A[0] * D[1] + A[1] * D[0]
            elif op == '/': r = (D[0] * A[1] - A[0] * D[1]) * inv(A[1] * A[1])
            elif op == 'f': r = s.dfunc(x, nd, A, D)
            elif op == 'op':
                if all(d == 0 for d in D): r = 0; memo[('op', x)] = None
                elif nd[2] == 'INV':
                    k = int(round(len(A) ** .5)); V = m[('op', x)]; V = [V[i * k:(i + 1) * k] for i in range(k)]
                    R = rmatmul(rmatmul(V, [[-D[i * k + j] for j in range(k)] for i in range(k)]), V); memo[('op', x)] = [v for q in R for v in q]; r = 0
                else: raise Undecided('derivative of ' + nd[2])
            elif op == 'proj': q = memo[('op', nd[3])]; r = 0 if q is None else q[int(nd[2])]
            else: raise Undecided('derivative of ' + op)
            memo[x] = r % P; stack.pop()
        return memo[n]
    def dfunc(s, x, nd, A, D):
        f = nd[2]
        if all(d == 0 for d in D): return 0
        if f == 'sqrt': return D[0] * inv(2 * s.memo[x])
        if f == 'sin': return D[0] * s.cs(nd[3])[0]
        if f == 'cos': return -D[0] * s.cs(nd[3])[1]
        if f == 'tan': return D[0] * inv(s.cs(nd[3])[0] ** 2)
        if f == 'fabs': return D[0] if s.sgn(A[0]) >= 0 else -D[0]
        if f == 'atan2': return (A[1] * D[0] - A[0] * D[1]) * inv(A[0] * A[0] + A[1] * A[1])
        if f == 'atan': return D[0] * inv(1 + A[0] * A[0])
        if f == 'acos': return -D[0] * inv(root(1 - A[0] * A[0]))
        if f == 'asin': return D[0] * inv(root(1 - A[0] * A[0]))
        if f in ('floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint'): return 0
        if f in ('fmod', 'remainder') and D[1] == 0: return D[0]
        if f == 'exp': return D[0] * s.memo[x]
        raise Undecided('derivative of ' + f)
class _Over:
    """results of an uninterpreted operation with one of them replaced"""
    def __init__(s, b, i, v): s.b = b; s.i = i; s.v = v
    def __getitem__(s, i): return s.v if i == s.i else s.b[i]
class _Hashed:
    def __init__(s, *k): s.k = k
    def __getitem__(s, i): return h2f(*s.k, i)

# ---------------------------------------------------------------- Laurent series in one small parameter
class Ser:
    """truncated Laurent series with rational coefficients: sum c[k] x^(v+k)"""
    N = 12
    __slots__ = ('v', 'c')
    def __init__(s, v, c):
        i = 0
        while i < len(c) and c[i] == 0: i += 1
        if i == len(c): s.v = 0; s.c = []
        else: s.v = v + i; s.c = list(c[i:i + Ser.N])
    @staticmethod
    def k(x): return Ser(0, [Fraction(x)])
    def co(s, e):
        i = e - s.v
        return s.c[i] if 0 <= i < len(s.c) else 0
    def __add__(s, o):
        if not s.c: return o
        if not o.c: return s
        v = min(s.v, o.v); top = v + Ser.N
        return Ser(v, [s.co(e) + o.co(e) for e in range(v, top)])
    def __neg__(s): return Ser(s.v, [-x for x in s.c])
    def __sub__(s, o): return s + (-o)
    def __mul__(s, o):
        if not s.c or not o.c: return Ser(0, [])
        n = Ser.N; r = [Fraction(0)] * n
        for i, a in enumerate(s.c):
            if a:
                for j, b in enumerate(o.c):
                    if i + j >= n: break
                    r[i + j] += a * b
        return Ser(s.v + o.v, r)
    def inv(s):
        if not s.c: raise Resample('series division by zero')
        n = Ser.N; a0 = s.c[0]; r = [1 / a0]
        for k in range(1, n): r.append(-sum((s.c[i] if i < len(s.c) else 0) * r[k - i] for i in range(1, k + 1)) / a0)
        return Ser(-s.v, r)
    def sqrt(s):
        if not s.c: return s
        if s.v % 2: raise Undecided('odd square root')
        a0 = s.c[0]
        if a0 < 0: raise Resample('root of a negative series')
        f = Fraction(math.isqrt(a0.numerator), math.isqrt(a0.denominator))
        if f * f != a0: f = Fraction(math.sqrt(a0))
        n = Ser.N; r = [f]
        for k in range(1, n): r.append(((s.c[k] if k < len(s.c) else 0) - sum(r[i] * r[k - i] for i in range(1, k))) / (2 * f))
        return Ser(s.v // 2, r)
    def rounded(s): return Ser(s.v, [Fraction(float(x)) for x in s.c])
    def sincos(s):
        if s.v < 0: raise Resample('sine of a pole')
        c0 = s.co(0)
        if c0 != 0:
            z = s - Ser.k(c0); S, C = z.sincos(); a, b = Ser.k(Fraction(math.sin(c0))), Ser.k(Fraction(math.cos(c0)))
            return S * b + C * a, C * b - S * a
        S = Ser(0, []); C = Ser.k(1); t = Ser.k(1)
        for k in range(1, Ser.N + 2):
            t = t * s * Ser.k(Fraction(1, k))
            if k % 2: S = S + (t if k % 4 == 1 else -t)
            else: C = C + (t if k % 4 == 0 else -t)
        return S, C
    def bound(s, x):
        r = 0.0
        for i, c in enumerate(s.c):
            if c: r += abs(float(c)) * x ** (s.v + i)
        return r
class SerEnv:
    """interpretation in Laurent series; poles: list of division nodes whose denominator vanishes with the parameter"""
    def __init__(s, g, inputs, truth, acos=None):
        s.g = g; s.inp = inputs; s.truth = truth; s.memo = {}; s.poles = []; s.acos = acos or []; s.pi = Fraction(math.pi)
    def cond(s, n):
        nd = s.g.nodes[n]; op = nd[0]
        r = infcmp(s.g, nd)
        if r is None: r = s.truth(s, n) if op in ('lt', 'eq', 'nan', 'b') else None
        if r is not None: return r
        if op == 'true': return True
        if op == 'false': return False
        if op == 'not': return not s.cond(nd[3])
        if op == 'and': return s.cond(nd[3]) and s.cond(nd[4])
        if op == 'or': return s.cond(nd[3]) or s.cond(nd[4])
        if op == 'ite': return s.cond(nd[4] if s.cond(nd[3]) else nd[5])
        if op == 'lt': d = s.val(nd[4]) - s.val(nd[3]); return bool(d.c) and d.c[0] > 0
        if op == 'eq': return not (s.val(nd[3]) - s.val(nd[4])).c
        if op == 'nan': return False
        raise Undecided(op)
    def val(s, n):
        m = s.memo
        if n in m: return m[n]
        stack = [n]; nodes = s.g.nodes
        while stack:
            x = stack[-1]
            if x in m: stack.pop(); continue
            nd = nodes[x]; op = nd[0]
            if op == 'ite':
                t = nd[4] if s.cond(nd[3]) else nd[5]
                if t in m: m[x] = m[t]; stack.pop()
                else: stack.append(t)
                continue
            miss = [a for a in nd[3:] if a not in m] if op in ('+', '-', '*', '/', 'neg', 'f') else []
            if miss: stack.extend(miss); continue
            A = [m[a] for a in nd[3:]] if op in ('+', '-', '*', '/', 'neg', 'f') else []
            if op == 'c':
                if isinstance(nd[2], str): raise Resample('nan constant')
                f, k = (Fraction(nd[2]), 0) if isinstance(nd[2], int) else const_form(nd[2])
                r = Ser.k(f * (s.pi if k == 1 else 1 / s.pi if k == -1 else 1))
            elif op == 'v': r = s.inp[nd[2]]
            elif op == '+': r = A[0] + A[1]
            elif op == '-': r = A[0] - A[1]
            elif op == '*': r = A[0] * A[1]
            elif op == 'neg': r = -A[0]
            elif op == '/':
                if not A[1].c or A[1].v > 0: s.poles.append(x)
                r = A[0] * A[1].inv()
            elif op == 'f':
                f = nd[2]
                if f == 'sqrt': r = A[0].sqrt()
                elif f == 'sin': r = A[0].sincos()[0]
                elif f == 'cos': r = A[0].sincos()[1]
                elif f == 'fabs': r = A[0] if not A[0].c or A[0].c[0] > 0 else -A[0]
                elif f == 'acos':
                    if A[0].v == 0 and A[0].c == [1] + [0] * (len(A[0].c) - 1) and A[0].c: r = Ser(0, [])
                    else:
                        for c, o in s.acos:
                            d = A[0] - c
                            if all(x == 0 for x in d.c[:6]) or d.bound(0.01) < 1e-15: r = o; break
                        else: raise Undecided('acos of a series')
                elif f in ('fmin', 'fmax'):
                    d = A[1] - A[0]; lt = bool(d.c) and d.c[0] > 0; r = A[0] if lt == (f == 'fmin') else A[1]
                elif f in ('atan2', 'atan', 'asin'):
                    y = A[0]; X = A[1] if f == 'atan2' else Ser.k(1)
                    if f == 'asin': X = (Ser.k(1) - y * y).sqrt()
                    if (y.c and y.v <= 0) or X.v != 0 or not X.c or X.c[0] <= 0: raise Undecided('series of ' + f)
                    for cc, o in s.acos:
                        if all(q == 0 for q in (X - cc).c[:8]) and y.c: r = o if y.c[0] > 0 else -o; break
                    else:
                        z = (y * X.inv()).rounded(); z2 = (z * z).rounded(); r = t = z
                        for k in range(1, Ser.N + 1):
                            t = -(t * z2).rounded(); r = (r + t * Ser.k(Fraction(1, 2 * k + 1))).rounded()
                elif f == 'copysign': r = A[0] if not A[0].c or not A[1].c or (A[0].c[0] > 0) == (A[1].c[0] > 0) else -A[0]
                else: raise Undecided('series of ' + f)
            else: raise Undecided('series node ' + op)
            m[x] = r; stack.pop()
        return m[n]

# ---------------------------------------------------------------- intervals
INF = float('inf')
class IvEnv:
    """interval interpretation; conditions are True, False or None (undecided)"""
    def __init__(s, g, inputs, truth=None): s.g = g; s.inp = inputs; s.memo = {}; s.truth = truth
    def cond(s, n):
        k = ('b', n)
        if k in s.memo: return s.memo[k]
        nd = s.g.nodes[n]; op = nd[0]; r = None
        t = infcmp(s.g, nd)
        if t is None: t = s.truth(s, n) if s.truth else None
        if t is not None: r = t
        elif op == 'true': r = True
        elif op == 'false': r = False
        elif op == 'c': r = bool(nd[2])
        elif op == 'not': q = s.cond(nd[3]); r = None if q is None else not q
        elif op in ('and', 'or'):
            a = s.cond(nd[3]); dom = op == 'or'
            if a is dom: r = dom
            else:
                b = s.cond(nd[4]); r = dom if b is dom else (not dom if a is (not dom) and b is (not dom) else None)
        elif op == 'lt':
            a, b = s.val(nd[3]), s.val(nd[4]); r = True if a[1] < b[0] else False if a[0] >= b[1] else None
        elif op == 'eq':
            a, b = s.val(nd[3]), s.val(nd[4]); r = False if a[1] < b[0] or b[1] < a[0] else True if a == b and a[0] == a[1] else None
        elif op == 'nan': r = False
        elif op == 'ite':
            q = s.cond(nd[3])
            if q is None:
                a, b = s.cond(nd[4]), s.cond(nd[5]); r = a if a == b else None
            else: r = s.cond(nd[4] if q else nd[5])
        s.memo[k] = r
        return r
    def val(s, n):
        m = s.memo
        if n in m: return m[n]
        nodes = s.g.nodes; stack = [n]
        while stack:
            x = stack[-1]
            if x in m: stack.pop(); continue
            nd = nodes[x]; op = nd[0]
            if op == 'ite':
                q = s.cond(nd[3]); ts = [nd[4], nd[5]] if q is None else [nd[4] if q else nd[5]]
                miss = [t for t in ts if t not in m]
                if miss: stack.extend(miss); continue
                m[x] = (min(m[t][0] for t in ts), max(m[t][1] for t in ts)); stack.pop(); continue
            args = nd[3:] if op in ('+', '-', '*', '/', 'neg', 'f') else []
            miss = [a for a in args if a not in m]
            if miss: stack.extend(miss); continue
            A = [m[a] for a in args]
            m[x] = s.op(nd, op, A, args); stack.pop()
        return m[n]
    def op(s, nd, op, A, args):
        if op == 'c':
            if isinstance(nd[2], str): return (-INF, INF)
            return (float(nd[2]),) * 2
        if op == 'v': return s.inp.get(nd[2], (-INF, INF))
        def m2(a, b):
            p = [0.0 if (x == 0 or y == 0) else x * y for x in a for y in b]; return (min(p), max(p))
        if op == '+': return (A[0][0] + A[1][0], A[0][1] + A[1][1])
        if op == '-': return (A[0][0] - A[1][1], A[0][1] - A[1][0])
        if op == 'neg': return (-A[0][1], -A[0][0])
        if op == '*':
            if args[0] == args[1]:
                lo, hi = A[0]; return (0.0 if lo <= 0 <= hi else min(lo * lo, hi * hi), max(lo * lo, hi * hi))
            return m2(A[0], A[1])
        if op == '/':
            lo, hi = A[1]
            if lo <= 0 <= hi: return (-INF, INF)
            return m2(A[0], (1 / hi, 1 / lo))
        if op == 'f':
            f = nd[2]; lo, hi = A[0]
            if f == 'sqrt': return (math.sqrt(max(lo, 0)), math.sqrt(max(hi, 0)) if hi < INF else INF)
            if f == 'fabs': return (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi)))
            if f == 'fmin': return (min(lo, A[1][0]), min(hi, A[1][1]))
            if f == 'fmax': return (max(lo, A[1][0]), max(hi, A[1][1]))
            if f in ('fmod', 'remainder') and A[1][0] == A[1][1] and abs(lo) < INF and abs(hi) < INF:
                mo = abs(A[1][0]); k = (lambda v: math.trunc(v / mo)) if f == 'fmod' else (lambda v: round(v / mo))
                if k(lo) == k(hi): return (lo - k(lo) * mo, hi - k(hi) * mo)
                return (-mo, mo) if f == 'fmod' else (-mo / 2, mo / 2)
            if f == 'atan2':
                (y0, y1), (x0, x1) = A
                if (x0 > 0 or y0 > 0 or y1 < 0) and max(map(abs, (x0, x1, y0, y1))) < INF:
                    q = [math.atan2(y, x) for y in (y0, y1) for x in (x0, x1)]; return (min(q), max(q))
                return (-math.pi, math.pi)
            if f in ('sin', 'cos') and hi - lo < 0.5:
                fn = math.sin if f == 'sin' else math.cos; m = fn((lo + hi) / 2); w = (hi - lo) / 2; return (max(-1.0, m - w), min(1.0, m + w))
            if f in ('sin', 'cos'): return (-1.0, 1.0)
            if f in ('round', 'rint', 'nearbyint') and abs(lo) < INF and abs(hi) < INF: return (float(round(lo)), float(round(hi)))
            if f == 'trunc' and abs(lo) < INF and abs(hi) < INF: return (float(math.trunc(lo)), float(math.trunc(hi)))
            if f == 'acos': return (0.0, math.pi)
            if f == 'floor' and abs(lo) < INF and abs(hi) < INF: return (float(math.floor(lo)), float(math.floor(hi)))
            if f == 'ceil' and abs(lo) < INF and abs(hi) < INF: return (float(math.ceil(lo)), float(math.ceil(hi)))
        return (-INF, INF)
def ratrec(v, B=1 << 72):
    """small rational congruent to v, or None"""
    v %= P; r0, r1, t0, t1 = P, v, 0, 1
    while r1 > B: q = r0 // r1; r0, r1, t0, t1 = r1, r0 - q * r1, t1, t0 - q * t1
    if t1 == 0 or abs(t1) > B: return None
    return Fraction(r1, t1)
