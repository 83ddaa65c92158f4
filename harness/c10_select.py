"""Which checker protects a value (C10)."""
from hlib import fresh
from sxlib import harness

B = ('values: ordinary, exceptions, of unregistered types, of types registered with a checker, '
     'with "no proxy" or with chains of up to three factories (five in the thorough tier) that '
     'end in a checker, nothing, "no proxy" or a failure; instances of subclasses of registered '
     'types; values that name their own checker, no checker, or fail to say; proxies')


@harness('C10', cases=(('Checker.proxy',), ('ProxyFactory',), ('selectChecker',)), bounds=B)
def protecting(ctx, how):
    from zope.security import checker as mod
    from zope.security.proxy import Proxy
    from zope.security.proxy import getChecker
    from zope.security.proxy import removeSecurityProxy
    fresh(ctx)

    class SubChecker(mod.Checker):
        pass
    def truth(self):
        return not ctx.choose('checker is false', 2) == 0
    SubChecker.__bool__ = truth
    registered = (SubChecker if ctx.bool('checker of a subclass') else mod.Checker)({}, {})
    own = SubChecker({'x': 'y'}, {})
    asking = mod.Checker({}, {})
    base = ctx.choose('kind', ('object', 'exception', 'subclass', 'exception subclass', 'falsy'))

    class Parent(Exception if base.startswith('exception') else object):
        def __bool__(self):
            return base != 'falsy'
    Value = Parent
    if 'subclass' in base:
        class Value(Parent):
            pass
    reg = ctx.choose('registered', ('no', 'checker', 'bare', 'chain'))
    log = []
    failures = []
    n = 0
    end = ''
    if reg == 'chain':
        n = ctx.choose('length', 3 if ctx.tier == 'quick' else 5) + 1
        end = ctx.choose('end', ('checker', 'none', 'bare', 'raise'))

    def link(k):
        def factory(o):
            log.append((k, o))
            if k > 1:
                return link(k - 1)
            if end == 'raise':
                failures.append(ctx.choose('failure', [AttributeError, KeyError, TypeError])('factory'))
                raise failures[0]
            return {'checker': registered, 'none': None, 'bare': mod.NoProxy}[end]
        return factory
    # The registration is for exactly one type: the value's or its parent's.
    if reg != 'no':
        mod.defineChecker(Parent, {'checker': registered, 'bare': mod.NoProxy,
                                   'chain': link(n)}[reg])
        ctx.cleanup(lambda: mod._checkers.pop(Parent, None))
    applies = reg if Value is Parent else 'no'
    value = Value()
    names = ctx.choose('names its own', ('no', 'yes', 'none', 'raises'))
    if names == 'yes':
        Value.__Security_checker__ = own
    elif names == 'none':
        Value.__Security_checker__ = None
    elif names == 'raises':
        def fail(self):
            raise AttributeError('__Security_checker__')
        Value.__Security_checker__ = property(fail)
    given = value
    proxied = how != 'selectChecker' and ctx.bool('already a proxy')
    if proxied:
        given = Proxy(value, asking)
    f = {'Checker.proxy': asking.proxy, 'ProxyFactory': mod.ProxyFactory,
         'selectChecker': mod.selectChecker}[how]
    try:
        got, exc = f(given), None
    except Exception as e:
        got, exc = None, e
    ctx.note(type(exc).__name__, len(log))
    if proxied:
        ctx.prove(exc is None and got is given, 'a proxy is returned as it is')
        ctx.prove(not log, 'nobody is asked about a proxy')
        return
    if names == 'none' and how == 'Checker.proxy' and ctx.mode == 'c':
        # The compiled checker takes "my checker is None" for a mistake.
        ctx.prove(type(exc) is ValueError, 'None is refused or ignored')
        return
    if how != 'selectChecker' and names == 'yes':
        want = own
    elif applies == 'no':
        want = mod._defaultChecker
        if ctx.mode == 'c' and base.startswith('exception'):
            want = None
        ctx.prove(not log, 'no factory of another type is asked')
    elif applies == 'checker':
        want = registered
    elif applies == 'bare':
        want = None
    else:
        ctx.prove([k for k, o in log] == list(range(n, 0, -1)) and all(o is value for k, o in log),
                  'each factory is called once with the value')
        if end == 'raise':
            ctx.prove([exc] == failures, "a factory's failure is the outcome")
            return
        want = registered if end == 'checker' else None
    ctx.prove(exc is None, 'a value is protected or handed out', repr(exc))
    if exc is not None:
        return
    if how == 'selectChecker':
        ctx.prove(got is want, 'the right checker is selected')
    elif want is None:
        ctx.prove(got is value, 'the value is handed out bare only if its registration says so')
    else:
        ctx.prove(type(got) is Proxy, 'the value is protected')
        if type(got) is Proxy:
            ctx.prove(removeSecurityProxy(got) is value, 'it is the value that is protected')
            ctx.prove(getChecker(got) is want, 'by the right checker')


BASIC = ('basic types (numbers, text, booleans, None, dates, types) and built-in containers, '
         'functions, modules; any int or string value')


@harness('C10', bounds=BASIC)
def builtin_values(ctx):
    """Basic values are bare, other built-in values protected."""
    import datetime
    import types
    from zope.security import checker as mod
    from zope.security.proxy import Proxy
    from zope.security.proxy import removeSecurityProxy
    fresh(ctx)

    def gen():
        yield 1
    bare = [None, True, 7, 2.5, 1j, 'text', b'bytes', object(), datetime.date(2020, 1, 1),
            datetime.timedelta(1), datetime.datetime(2020, 1, 1), datetime.time(1)]
    protected = [[], {}, (), set(), frozenset(), gen, gen(), types, int, iter([]), iter({}),
                 {}.keys(), {}.values(), {}.items(), len, [].append, NotImplemented, Ellipsis,
                 types.SimpleNamespace(), bytearray(), memoryview(b''), range(3), slice(1),
                 map(len, []), datetime.timezone.utc, zip(), reversed([]), enumerate([]), property(),
                 mod.NamesChecker, mod.selectChecker, gen.__code__, types.MappingProxyType({})]
    f = (mod.Checker({}, {}).proxy, mod.ProxyFactory)[ctx.choose('how', 2)]
    k = ctx.choose('value', len(bare) + len(protected))
    v = (bare + protected)[k]
    got = f(v)
    if k < len(bare):
        ctx.prove(got is v, 'a basic value is bare', repr(v))
    else:
        ctx.prove(type(got) is Proxy and removeSecurityProxy(got) is v,
                  'a value of any other type is protected', repr(type(v)))
    ctx.note(type(got) is Proxy)
