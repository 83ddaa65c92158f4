"""What harness modules import: `from sxlib import harness, bounds`."""
import os
import types


class H:
    def __init__(self, func, name, props, args, sym, replay, max_paths, tiers, bounds,
                 solver_timeout, doc):
        self.func, self.name, self.props, self.args = func, name, props, args
        self.sym, self.replay = sym, replay
        self.max_paths, self.tiers = max_paths, tiers
        self.bounds, self.doc = bounds, doc
        self.solver_timeout = solver_timeout


def make(sx, instrumented=False):
    m = types.ModuleType('sxlib')
    used = {}

    def use(name):
        """Another module of harnesses, for its helpers."""
        if name not in used:
            path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                'harness', name + '.py')
            if sx is None:
                used[name] = types.ModuleType('used_' + name)
                with open(path, encoding='utf-8') as f:
                    exec(compile(f.read(), path, 'exec'), used[name].__dict__)
            else:
                used[name] = sx.load_harness(path, 'used_' + name, instrumented)
        return used[name]
    m.use = use

    def harness(*props, sym=('pure',), replay=('pure', 'c'), cases=((),), tiers=('quick', 'thorough'),
                quick_paths=6000, thorough_paths=60000, bounds='', solver_timeout=20000):
        """Register a harness for the properties.

        sym     configurations explored symbolically ('pure', 'watch1', 'watch2')
        replay  real builds that replay counterexamples and path witnesses
        cases   argument tuples; each is explored on its own (possibly in parallel)
        """
        def deco(f):
            reg = f.__globals__.setdefault('__harnesses__', [])
            for a in cases:
                name = f.__name__ + ''.join('.%s' % x for x in a)
                reg.append(H(f, name, props, tuple(a), sym, replay,
                             {'quick': quick_paths, 'thorough': thorough_paths},
                             tiers, bounds, solver_timeout, (f.__doc__ or '').strip()))
            return f
        return deco
    m.harness = harness
    return m


def find(mod, name):
    for h in mod.__dict__['__harnesses__']:
        if h.name == name:
            return h
    raise KeyError(name)
