"""verify one harness and write a json report: runroot.py file.ll root out.json '{opts}'"""
import json
import os
import resource
import sys
import time
sys.path.insert(0, __file__.rsplit('/', 1)[0])
sys.setrecursionlimit(20000)
import ir
import build
from exec import Executor, Unsupported, Budget


def main():
    ll, root, out, opts = sys.argv[1:5]
    opts = json.loads(opts)
    gb = opts.pop('mem_gb', 6)
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    t0 = time.time()
    if opts.get('budget_s'):
        opts['deadline'] = t0 + opts['budget_s']
    m = ir.Module(open(ll).read())
    opts['demangled'] = build.demangle(list(m.funcs))
    rep = {}
    dem = opts['demangled']
    for pat, repl in opts.get('replace_demangled', {}).items():
        hits = [f for f in list(m.funcs) + list(m.decls) if dem.get(f, f).startswith(pat)]
        for h in hits:
            rep[h] = repl
    opts['replace'] = rep
    ex = Executor(m, opts)
    err = None

    def partial():
        bad = [dict(o, info=None) for o in ex.obl if o['status'] == 'failed']
        with open(out + '.tmp', 'w') as f:
            json.dump(bad, f)
        os.rename(out + '.tmp', out + '.part')
    ex.on_fail = partial
    try:
        for k, s in ex.run_root(root):
            if k == 'exc':
                r, mdl = ex.prover.refute(s, None)
                if r == 'unsat':
                    continue
                ex.obl.append({'id': 'control:uncaught exception %s' % (s.exc[1],), 'where': root, 'status': 'failed' if r == 'sat' else 'unknown', 'by': 'z3', 't': 0,
                               'inputs': ex.prover.model_inputs(s, mdl)})
    except Unsupported as e:
        err = 'outside the verified subset: %s' % e
    except Budget as e:
        err = str(e)
    except MemoryError:
        err = 'memory budget exceeded'
    except RecursionError:
        err = 'recursion limit'
    except Exception as e:  # engine defect: the root is undecided, never silently accepted
        import traceback
        err = 'engine error %s: %s' % (type(e).__name__, e)
        sys.stderr.write(traceback.format_exc())
    for o in ex.obl:
        if o.get('info') is not None:
            o['info'] = str(o['info'])[:300]
    bad = [o for o in ex.obl if o['status'] != 'proved']
    by = {}
    groups = {}
    for o in ex.obl:
        if o['status'] == 'proved':
            by[o['by']] = by.get(o['by'], 0) + 1
        groups[o['id']] = groups.get(o['id'], 0) + 1
    rep = {'root': root, 'error': err, 'obligations': len(ex.obl), 'proved': len(ex.obl) - len(bad), 'by': by, 'bad': bad[:40], 'paths': ex.paths,
           'asserts': sum(1 for o in ex.obl if o['id'].startswith('assert:')), 'groups': groups,
           'steps': ex.steps, 'covers': ex.covers, 'solver_s': round(ex.prover.time, 3), 'wall_s': round(time.time() - t0, 3),
           'functions': sorted({dem.get(f, f) for f in ex.fnreached}), 'assumptions': sorted(ex.assumptions), 'trusted': sorted(ex.trusted),
           'notes': sorted(ex.bounded_notes)}
    json.dump(rep, open(out, 'w'))


if __name__ == '__main__':
    main()
