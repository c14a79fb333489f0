"""run one harness: run1.py file.ll root  (debug driver)"""
import sys, time, json, traceback
sys.path.insert(0, __file__.rsplit('/', 1)[0])
sys.setrecursionlimit(20000)
import ir, build
from exec import *

def run(ll, root, opts=None):
    m = ir.Module(open(ll).read())
    opts = dict(opts or {})
    opts.setdefault('demangled', build.demangle(list(m.funcs)))
    ex = Executor(m, opts)
    t = time.time()
    err = None
    try:
        outs = ex.run_root(root)
        for k, s in outs:
            if k == 'exc':
                ex.obl.append({'id': 'control:uncaught exception %s' % (s.exc[1],), 'where': root, 'status': 'failed', 'by': '', 't': 0,
                               'inputs': ex.prover.model_inputs(s, None)})
    except Unsupported as e:
        err = 'unsupported: %s' % e
        if opts.get('tb'): traceback.print_exc()
    except Budget as e:
        err = 'budget: %s' % e
    return ex, err, time.time() - t

if __name__ == '__main__':
    ll = sys.argv[1]
    roots = sys.argv[2:]
    if not roots:
        roots = [f for f in ir.Module(open(ll).read()).funcs if f.startswith('h_')]
    for r in roots:
        opts_merge = bool(__import__('os').environ.get('MERGE')); ex, err, t = run(ll, r, {'tb': len(roots) == 1, 'merge': __import__('os').environ.get('MERGE', '')})
        n = len(ex.obl); print('joins', ex.joiner.count, ex.joiner.fails) if opts_merge else None
        bad = [o for o in ex.obl if o['status'] != 'proved']
        print('%-28s paths %d steps %d obl %d bad %d checks %d %.1fs %s covers %s' % (r, ex.paths, ex.steps, n, len(bad), ex.prover.nchecks, t, err or '', ex.covers))
        seen = set()
        for o in bad:
            k = (o['id'], o['where'])
            if k in seen: continue
            seen.add(k)
            print('   ', o['status'], o['id'], '@', o['where'] if 'outside' not in o['where'] else o['where'][:60]+' ... '+o['where'][o['where'].index('outside'):][-150:], str(o.get('info'))[-200:], [x for x in o.get('inputs', []) if '[' not in x[0]])
            if len(roots) == 1:
                print('      ', o.get('cond'), o.get('stack'))
                for x in o.get('pc', []): print('          pc', x)
