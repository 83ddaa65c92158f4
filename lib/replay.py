"""Run harness cases on the real code: python replay.py JOBS.json OUT.jsonl

JOBS: {"mode": "pure"|"c"|"watch1"..., "src": dir, "tier", "jobs": [{id, file, func, case}], "start": n}
Writes one line per job; a line {"id", "begin": true} precedes each, so that a
crash of the interpreter can be attributed.
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    spec = json.load(open(sys.argv[1]))
    mode = spec['mode']
    watch = 0
    base = mode
    if 'watch' in mode:
        watch = int(mode[-1])
        base = 'c' if mode.startswith('c') else 'pure'
    os.environ['VERIF_MODE'] = mode
    import sx
    sx.setup_plain(base, spec['src'], watch)
    import registry
    sys.modules['sxlib'] = registry.make(sx)
    out = open(sys.argv[2], 'a')

    def emit(d):
        out.write(json.dumps(d) + '\n')
        out.flush()
    mods = {}
    where = None
    for job in spec['jobs'][spec.get('start', 0):]:
        emit({'id': job['id'], 'begin': True})
        try:
            if job['file'] not in mods:
                mods[job['file']] = sx.load_harness(
                    job['file'], 'h_%d' % len(mods), False)
            h = registry.find(mods[job['file']], job['func'])
            if where is None:
                import zope.security.checker as c
                import zope.security.proxy as p
                where = [c.__file__, c.Checker.__module__, p.Proxy.__module__]
                emit({'where': where, 'c': p.Proxy.__module__.endswith('._proxy')})
            ctx = sx.ConcreteCtx(job['case'], base, spec['tier'], spec.get('prop'))
            skipped = ''
            err = exc = ''
            try:
                h.func(ctx, *h.args)
            except sx.Skip as e:
                skipped = str(e) or 'skip'
            except Exception as e:
                import traceback
                err = ''.join(traceback.format_exception(e))[-1500:]
                exc = type(e).__name__
            finally:
                for f in reversed(ctx._cleanup):
                    f()
            emit({'id': job['id'], 'failed': ctx.failed, 'notes': ctx.notes,
                  'skipped': skipped, 'error': err, 'exception': exc})
        except Exception as e:
            import traceback
            emit({'id': job['id'], 'failed': [], 'notes': [], 'skipped': '',
                  'error': ''.join(traceback.format_exception(e))[-1500:]})


if __name__ == '__main__':
    main()
