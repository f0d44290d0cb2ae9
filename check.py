#!/usr/bin/env python3
import sys, os, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.setrecursionlimit(20000)
sys.path[:0] = [os.path.join(ROOT, 'engine'), os.path.join(ROOT, 'props')]
import drive
def find(pid):
    import importlib
    for m in sorted(os.listdir(os.path.join(ROOT, 'props'))):
        if m.endswith('.py'):
            mod = importlib.import_module(m[:-3])
            if hasattr(mod, pid): return getattr(mod, pid)
    raise SystemExit('no check for ' + pid)
def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    c = drive.Ctx(pid, tier)
    try: c.seed0 = max(1, int(os.environ.get('VERIF_SEED', '1')))
    except ValueError: pass
    try:
        rule = find(pid)(c)
        return c.finish('other', rule)
    except drive.Shape as x:
        c.violation('shape', str(x)); return c.finish('other', 'incomplete')
    except (drive.Broken, drive.Undecided, RuntimeError, KeyError) as x:
        # findings made before the analysis stopped are still findings
        print('ANALYSIS-INCOMPLETE property=%s %s: %s' % (pid, type(x).__name__, x))
        if os.environ.get('VF_DEBUG'): traceback.print_exc()
        if c.viol: return c.finish('other', 'incomplete')
        return 2
if __name__ == '__main__': sys.exit(main())
