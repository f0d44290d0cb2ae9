"""Check driver: compiles harness + current repository sources to IR, runs the abstract interpreter,
compares the value graphs with specification graphs, writes evidence, prints verdicts."""
import json, os, re, subprocess, sys, time, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pipe, vg
from vg import Graph, Env, Resample, Undecided, E, M, P
ROOT = pipe.ROOT
class Broken(Exception): pass
class Shape(Exception): pass

class Entry:
    def __init__(s, g, d):
        s.g = g; s.name = d['entry']; s.status = d['status']; s.msg = d['msg']; s.issues = d['issues']; s.d = d
        s.outs = {}
        s.at = {}
        for nm, i, j, n, l in d['outs']:
            s.outs[(nm, i, j)] = n
            if l: s.at.setdefault(n, g.locs[l])
        s.functions = d['functions']; s.events = d['events']; s.names = {k[0] for k in s.outs}
    def has(s, nm): return nm in s.names
    def o(s, nm, i=0, j=0):
        if s.has(nm) and (nm, i, j) not in s.outs: raise Shape('%s: output %s has no entry (%d,%d)' % (s.name, nm, i, j))
        return E(s.g, s.outs[(nm, i, j)])
    def mat(s, nm):
        ks = [k for k in s.outs if k[0] == nm]
        if not ks: raise Broken('%s: output %s missing' % (s.name, nm))
        r = max(k[1] for k in ks) + 1; c = max(k[2] for k in ks) + 1
        if len(ks) != r * c: raise Shape('%s: output %s has no consistent shape (%d values)' % (s.name, nm, len(ks)))
        return M([[s.o(nm, i, j) for j in range(c)] for i in range(r)])
    def const(s, nm, i=0, j=0):
        n = s.g.nodes[s.outs[(nm, i, j)]]
        return n[2] if n[0] == 'c' else None

class Ctx:
    def __init__(s, pid, tier):
        s.pid = pid; s.tier = tier; s.t0 = time.time(); s.viol = []; s.rules = []; s.oblig = 0; s.entries = set(); s.functions = set(); s.notes = []
        s.groups = {}; s.tmp = tempfile.mkdtemp(prefix='vf_'); s.stats = {'instructions': 0, 'joins': 0, 'nodes': 0, 'samples': 0}; s.units = set()
        s.seed0 = 1; s.known_hit = []; s.sp_seen = set()
    # ---- analysis
    def group(s, name, harness, srcs, opaque=(), flags=(), loop=8, entries=None, extra=()):
        if name in s.groups: return s.groups[name]
        pipe.bootstrap()
        jobs = {}
        for h in ([harness] if isinstance(harness, str) else harness): jobs['h_' + os.path.basename(h)] = os.path.join(ROOT, 'harness', h)
        jobs['rt'] = os.path.join(ROOT, 'harness', 'rt.cpp')
        for q in srcs: jobs[q.replace('/', '_')] = os.path.join(pipe.REPO, q); s.units.add(q)
        d = os.path.join(s.tmp, name); os.makedirs(d, exist_ok=True)
        r = s._interpret(d, jobs, flags, opaque, loop, entries, extra)
        if any('external function: mrob::' in e['msg'] for e in r['entries']):
            # the code under analysis now calls into other sources of the libraries: take those in too
            more = [q for q in pipe.library_sources() if q not in srcs]
            if more:
                for q in more: jobs[q.replace('/', '_')] = os.path.join(pipe.REPO, q); s.units.add(q)
                r = s._interpret(d, jobs, flags, opaque, loop, entries, extra)
        g = Graph(r); g.raw = r; g.gates = [x for x in r.get('gates', ()) if x[3] != 3]
        if os.environ.get('VF_GATES'):
            for x in g.gates: print('GATE', name, x)
        es = {e['entry']: Entry(g, e) for e in r['entries']}
        for e in r['entries']: s.stats['instructions'] += e['inst']; s.stats['joins'] += e['joins']
        s.stats['nodes'] += len(g.nodes)
        s.groups[name] = (g, es)
        return g, es
    def grown(s, grp, n, least=0):
        """the size (in units of the largest case n analysed so far) at which every comparison with a literal met in the code changes its outcome"""
        q = [k / mx for loc, k, mx, mask in grp[0].gates if 0 < mx <= k < 1 << 20 and k > 1]
        q = [-(-n * v // 1) for v in q]; q = [int(v * 1.02) + 8 for v in q if v <= 40 * n]
        return max(q + [least]) or None
    def _interpret(s, d, jobs, flags, opaque, loop, entries, extra):
        todo = [k for k in jobs if not os.path.exists(os.path.join(d, k + '.bc'))]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda k: pipe.compile_tu(jobs[k], os.path.join(d, k + '.bc'), flags), todo))
        fs = [os.path.join(d, k + '.bc') for k in jobs]
        out = os.path.join(d, 'out.json')
        cmd = [os.path.join(pipe.BUILD, 'vf'), '-o', out, '-loop', str(loop), '-repo', pipe.REPO.rstrip('/') + '/', '-opaque', '^mrob::TimeProfiling::@TP@noop', '-opaque', '^std::__cxx11::basic_(o?stringstream|stringbuf)<.*::str\\(\\) const|^std::.*__gnu_cxx::__to_xstring<|^std::__cxx11::to_string\\((float|(long )?double)\\)@STR@estr', '-opaque', '^(.* thunk to )?std::(__cxx11::)?basic_(o|i)?(stringstream|stringbuf|fstream|filebuf|streambuf|iostream|istream|ios)<|^std::(ios_base|locale)::@SS@noop', '-opaque', 'std::ostream|basic_ostream<@OS@noop']
        for o in opaque: cmd += ['-opaque', o]
        for e in entries or (): cmd += ['-e', e]
        cmd += list(extra) + fs
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: raise Broken('interpreter failed: ' + p.stderr[-2000:])
        return json.load(open(out))
    def entry(s, grp, name, allow=('ok',), issues=True, loops=False):
        g, es = grp
        if name not in es: raise Broken('entry %s missing' % name)
        e = es[name]
        s.entries.add(name); s.functions.update(e.functions)
        if e.status == 'failed': # a memory error found on the way is a finding even where the analysis cannot go on
            for k, msg, loc, guard in e.issues:
                if k not in ('loop-bound', 'abort'): s.violation('%s:%s' % (name, k), '%s: %s' % (k, msg), loc)
        if e.status == 'failed' or e.status == 'missing': raise Broken('%s: %s' % (name, e.msg))
        if issues:
            for k, msg, loc, guard in e.issues:
                if k in ('loop-bound',):
                    if loops or not msg.startswith('counted'): continue
                    raise Broken('%s: %s at %s' % (name, msg, loc))
                s.violation('%s:%s' % (name, k), '%s: %s' % (k, msg), loc)
        if e.status not in allow:
            s.violation('%s:status' % name, 'the call path %s (%s)' % (e.status, e.msg), '')
            return None
        return e
    def violation(s, key, text, loc=''):
        loc = short(loc)
        if not any(v[0] == key for v in s.viol): s.viol.append((key, text, loc))
    def ok(s, n=1): s.oblig += n
    def require(s, cond, key, text, loc=''):
        s.oblig += 1
        if not cond: s.violation(key, text, loc)
    # ---- comparison by random interpretation
    def compare(s, e, pairs, setup=None, n=8, what='', opts=None, bools=None, need=3):
        """pairs: list of (label, code E/node, spec E/node or None->0)"""
        g = e.g; bad = {}; done = 0; tries = 0; unde = None; lastR = ''
        s.oblig += len(pairs)
        t0 = time.process_time(); salt = {}; again = 0
        while done < n and (tries < 400 + 40 * n or done < min(need, n) and lastR == 'not a square' and time.process_time() - t0 < 60):
            if not salt: tries += 1; again = 0
            env = Env(g, 1000003 * s.seed0 + tries, bools=dict(bools(tries) if callable(bools) else bools or {}), opts=opts); env.salt = salt; salt = {}
            try:
                if setup: setup(env)
                res = [(lab, (env.cs(_n(a)) != env.cs(_n(b))) if lab[0] == '@' else (env.val(_n(a)) - (b(env) if callable(b) else env.val(_n(b)))) % P) for lab, a, b in pairs]
            except Resample as r:
                lastR = str(r); again += 1
                # a root that does not exist: take another point of the circle for the angle met last, keep the rest
                if lastR == 'not a square' and env.angs and again < 80 and (opts or {}).get('backtrack'): salt = dict(env.salt); salt[env.angs[-1]] = salt.get(env.angs[-1], 0) + 1
                continue
            except RecursionError: raise Broken('recursion')
            done += 1
            for (lab, dlt), (_, a, b) in zip(res, pairs):
                if dlt and lab not in bad: bad[lab] = (a, b)
        if done and not bad: s.specials(g, pairs, setup, opts, bools, bad)
        s.stats['samples'] += done
        if done < min(need, n): raise Broken('%s %s: no consistent interpretation found (%s)' % (e.name, what, lastR))
        for lab, (a, b, *_) in bad.items():
            s.violation('%s:%s' % (e.name, lab.lstrip('@').split('[')[0]), '%s%s: computed value %s is not the specified function of its inputs%s' % (e.name, (' ' + what) if what else '', lab.lstrip('@'), bad[lab][2] if len(bad[lab]) > 2 else ''), e.at.get(_n(a)) or g.loc(_n(a)))
        return not bad
    def specials(s, g, pairs, setup, opts, bools, bad):
        """values at which the code tests two quantities for equality: solve the equality for an unconstrained input
        (or uninterpreted result) that enters it affinely and compare again there"""
        k = ('sp',) + tuple(sorted({_n(a) for _, a, _ in pairs}))
        if k in s.sp_seen: return
        s.sp_seen.add(k)
        for q in g.equalities([_n(a) for _, a, _ in pairs])[:12]:
            x, y = g.nodes[q][3:5]; leaves = g.leaves([x, y]); hit = 0
            for t in range(4):
                if hit >= 2: break
                seed = 77000003 * s.seed0 + 31 * t + q
                mk = lambda: Env(g, seed, bools=dict(bools(t) if callable(bools) else bools or {}), opts=opts)
                try:
                    env = mk()
                    if setup: setup(env)
                    free = [l for l in leaves if l[0] == 'op' or l[1] not in env.inp]
                    if not free: break
                    l = free[(seed + t) % len(free)] if t else free[0]
                    def at(v):
                        env = mk()
                        if setup: setup(env)
                        if l[0] == 'v': env.inp[l[1]] = v
                        else:
                            args = tuple(env.val(i) for i in g.nodes[l[1]][3:]); nm = g.nodes[l[1]][2]
                            env.over[(nm, args)] = vg._Over(env.opaque(nm, args), l[2], v)
                        return env
                    v0 = env.rnd('sp', q, t); d = []
                    for i in range(3):
                        en = at((v0 + i) % P); d.append((en.val(x) - en.val(y)) % P)
                    sl = (d[1] - d[0]) % P
                    if not sl or (d[2] - d[1] - sl) % P: continue
                    env = at((v0 - d[0] * vg.inv(sl)) % P)
                    if (env.val(x) - env.val(y)) % P: continue
                    res = [(lab, (env.cs(_n(a)) != env.cs(_n(b))) if lab[0] == '@' else (env.val(_n(a)) - (b(env) if callable(b) else env.val(_n(b)))) % P) for lab, a, b in pairs]
                except Resample: continue
                except Undecided: continue
                except RecursionError: raise Broken('recursion')
                hit += 1; s.stats['samples'] += 1
                for (lab, dlt), (_, a, b) in zip(res, pairs):
                    if dlt and lab not in bad: bad[lab] = (a, b, ' when the quantities compared at %s are equal' % (g.loc(q) or '?'))
    def eqm(s, e, nm, spec, setup=None, **k):
        """whole matrix output against a specification matrix"""
        pairs = s.pairs(e, nm, spec)
        return s.compare(e, pairs, setup, **k) if pairs else False
    def pairs(s, e, nm, spec):
        if not e.has(nm): raise Broken('%s: output %s missing' % (e.name, nm))
        m = e.mat(nm)
        if (m.r, m.c) != (spec.r, spec.c):
            s.violation('%s:%s-shape' % (e.name, nm), '%s: %s has shape %dx%d, expected %dx%d' % (e.name, nm, m.r, m.c, spec.r, spec.c)); return []
        return [('%s[%d,%d]' % (nm, i, j), m[i, j], spec[i, j]) for i in range(m.r) for j in range(m.c)]
    def pairs_m(s, nm, m, spec): return [('%s[%d,%d]' % (nm, i, j), m[i, j], spec[i, j]) for i in range(m.r) for j in range(m.c)]
    # ---- verdict
    def finish(s, level, rule, minimum=1):
        shutil.rmtree(s.tmp, ignore_errors=True)
        if s.oblig < minimum and not s.viol: raise Broken('only %d obligations (expected at least %d)' % (s.oblig, minimum))
        known = load_known()
        new = []
        for key, text, loc in s.viol:
            if (s.pid, key) in known: s.known_hit.append((key, text, loc))
            else: new.append((key, text, loc))
        ev = os.environ.get('VF_EVID') or os.path.join(ROOT, 'evidence'); os.makedirs(ev, exist_ok=True)
        rep = os.path.join(ev, s.pid + '.violations.json')
        if new: json.dump([{'key': k, 'what': t, 'where': l} for k, t, l in new], open(rep, 'w'), indent=1)
        elif os.path.exists(rep): os.remove(rep)
        json.dump(evidence(s, level, rule, new), open(os.path.join(ev, s.pid + '.json'), 'w'), indent=1)
        for k, t, l in s.known_hit: print('KNOWN-FINDING: property=%s %s %s %s' % (s.pid, k, t, l))
        for k, t, l in new[:20]: print('%s: %s: %s' % (l or 'repository', k, t))
        if new:
            print('VIOLATION property=%s replay=%s' % (s.pid, rep)); return 1
        print('OK property=%s obligations=%d functions=%d entries=%d time=%.1fs' % (s.pid, s.oblig, len(s.functions), len(s.entries), time.time() - s.t0))
        return 0
def short(loc):
    """a location without template arguments and parameter lists"""
    m = re.match(r'([^ (]+) \((.*)\)$', loc)
    if not m: return loc
    f = m.group(2); r = ''; d = 0
    for i, ch in enumerate(f):
        if ch in '<(' and 'operator' not in r[-9:]: d += 1
        elif ch in '>)' and d: d -= 1
        elif not d: r += ch
        if ch == '(' and d == 1 and r and not f[max(0, i - 9):i].endswith('operator'): break
    return '%s (%s)' % (m.group(1), r)
def _n(x): return x.n if isinstance(x, E) else x
def load_known():
    r = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+)', l)
            if m: r[(m.group(1), m.group(2))] = l.strip()
    return r
EXPL = ('Static analysis of the LLVM IR compiled from the current working tree. An abstract interpreter propagates integers and pointers as constants and '
        'floating-point values as nodes of a value graph over unconstrained inputs, joining states at post-dominators; the resulting graphs are compared with '
        'specification graphs by algebraic value numbering (random interpretation in GF(2^127-1)), so an agreement holds for all real inputs. ')
def evidence(s, level, rule, new):
    cov = {'explanation': EXPL + rule, 'obligations': s.oblig, 'discharged': s.oblig - len(s.viol), 'entry_contexts': sorted(s.entries), 'repo_functions_analysed': sorted(s.functions),
           'translation_units': sorted(s.units), 'abstract_instructions': s.stats['instructions'], 'joins': s.stats['joins'], 'value_graph_nodes': s.stats['nodes'], 'interpretations': s.stats['samples'], 'notes': s.notes}
    return {'property': s.pid, 'tier': s.tier, 'seed': s.seed0, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - s.t0, 2), 'violations': len(new)}
