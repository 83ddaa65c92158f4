"""Symbolic worker: python3-vt worker.py JOB.json OUT.json

JOB: {"file", "func", "mode": "pure", "watch": 0, "tier", "seconds"}
"""
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sx  # noqa: E402


def main():
    job = json.load(open(sys.argv[1]))
    t0 = time.time()
    sx.setup_symbolic(watch=job.get('watch', 0))
    import registry
    sys.modules['sxlib'] = registry.make(sx, True)
    mod = sx.load_harness(job['file'], 'harness_under_run', True)
    h = registry.find(mod, job['func'])
    x = sx.Explorer(tier=job['tier'], mode=job['mode'],
                    max_paths=h.max_paths[job['tier']],
                    seconds=job.get('seconds', 600),
                    solver_timeout=h.solver_timeout, prop=job.get('prop'))
    setup_s = time.time() - t0
    x.run(h.func, *h.args)
    out = {
        'complete': x.complete, 'paths': x.paths, 'pruned': x.pruned,
        'queries': x.queries, 'branches': x.branches, 'obligations': x.obligations,
        'solver_s': x.solver_s, 'wall_s': x.wall, 'setup_s': setup_s,
        'unknown': x.unknown, 'undecided': x.undecided, 'incomplete': x.incomplete,
        'covers': x.covers, 'labels': x.labels, 'errors': x.errors,
        'violations': [{'label': v.label, 'case': v.case, 'detail': v.detail}
                       for v in x.violations],
        'witnesses': x.witnesses,
        'encoded': sx.ENCODED,
        'touched': sorted(sx.TOUCHED),
    }
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    main()
