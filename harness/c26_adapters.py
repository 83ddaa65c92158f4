"""Adapter factories (C26, C27) and decorated objects (C28)."""
from hlib import Answers
from hlib import fresh
from hlib import install
from hlib import outcome
from sxlib import harness

B = ('one to three arguments (four in the thorough tier), each bare or security-proxied, '
     'possibly equal, false or itself located; every kind of adapter: with and without location, '
     'with and without parent, its own checker or none, one of the arguments, or a failure')


class Denying:
    """A checker that refuses everything."""
    asked = 0

    def _no(self, obj, name):
        from zope.security.interfaces import ForbiddenAttribute
        self.asked += 1
        raise ForbiddenAttribute(name, obj)
    check = check_getattr = check_setattr = _no

    def proxy(self, value):
        raise AssertionError('nothing to protect')


class Granting:
    """A checker that allows everything and wraps results like itself."""

    def check(self, obj, name):
        pass
    check_getattr = check_setattr = check

    def proxy(self, value):
        from zope.security.proxy import Proxy
        if value is None or type(value) in (str, bool) or Proxy in type(value).__mro__:
            return value
        return Proxy(value, self)


class Arg:
    """An argument; all of them are equal, and some are false."""

    def __init__(self, label, truth):
        self.label, self.truth = label, truth

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __hash__(self):
        return 1

    def __bool__(self):
        return self.truth


class Unequal(Arg):
    """An argument that does not even equal itself."""

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    def __hash__(self):
        return id(self)


def proxies():
    from zope.security.proxy import Proxy

    class Sub(Proxy):
        pass
    return [Proxy, Sub]


def arguments(ctx, n, checker, wrap):
    bare, given = [], []
    kind = ctx.choose('arguments', ['true', 'false', 'unequal'])
    for i in range(n):
        a = (Unequal if kind == 'unequal' else Arg)('arg%d' % i, i > 0 or kind != 'false')
        bare.append(a)
        given.append(wrap(a, checker) if ctx.bool('proxied%d' % i) else a)
    return bare, given


def make_adapter(ctx, bare, own, kinds):
    """(the factory's result or failure, located?, its parent)"""
    from zope.interface import directlyProvides
    from zope.location import ILocation
    kind = ctx.choose('adapter', kinds)
    if kind == 'fails':
        return kind, LookupError('factory'), None
    if kind == 'argument':
        return kind, None, None

    class Adapter:
        pass
    if own:
        Adapter.__Security_checker__ = own
    a = Adapter()
    parent = None
    if kind.startswith('located'):
        directlyProvides(a, ILocation)
        parent = {'located': None, 'located in': Arg('parent', True),
                  'located in false': Arg('parent', False)}[kind]
        a.__parent__ = parent
        a.__name__ = 'n'
    elif kind == 'parent only':
        parent = Arg('parent', True)
        a.__parent__ = parent
    return kind, a, parent


KINDS = ['plain', 'parent only', 'located', 'located in', 'located in false', 'argument', 'fails']


def factory_of(ctx, cls, result, seen, bare):
    def factory(*args):
        seen.append(args)
        if isinstance(result, LookupError):
            raise result
        return args[0] if result is None else result
    factory.__name__ = 'the name'
    factory.__module__ = 'the.module'
    f = cls(factory)
    ctx.prove(f.__name__ == 'the name' and f.__module__ == 'the.module' and f.factory is factory,
              'the factory keeps its name')
    return f


def sizes(ctx):
    return ctx.choose('n', [1, 2, 3] if ctx.tier == 'quick' else [1, 2, 3, 4])


@harness('C26', cases=(('TrustedAdapterFactory',), ('LocatingTrustedAdapterFactory',)), bounds=B)
def trusted(ctx, which):
    from zope.location import ILocation
    from zope.location import LocationProxy
    from zope.proxy import getProxiedObject
    from zope.security import adapter
    from zope.security.checker import Checker
    from zope.security.checker import _defaultChecker
    from zope.security.proxy import Proxy
    from zope.security.proxy import getChecker
    from zope.security.proxy import removeSecurityProxy
    n = sizes(ctx)
    deny = Denying()
    wrap = proxies()[ctx.choose('proxy class', 2)]
    bare, given = arguments(ctx, n, deny, wrap)
    own = Checker({'x': 'p'}, {}) if ctx.bool('own checker') else None
    kind, result, parent = make_adapter(ctx, bare, own, KINDS)
    seen = []
    f = factory_of(ctx, getattr(adapter, which), result, seen, bare)
    got, val = outcome(f, *given)
    proxied = any(g is not b for g, b in zip(given, bare))
    ctx.prove(len(seen) == 1 and len(seen[0]) == n and
              all(x is b for x, b in zip(seen[0], bare)),
              'the factory sees every argument bare, once')
    ctx.prove(deny.asked == 0, 'no protected argument is touched')
    ctx.note(kind, proxied, got)
    if kind == 'fails':
        ctx.prove(got == 'raised' and val is result, "the factory's failure is the outcome")
        return
    ctx.prove(got == 'ok', 'the adapter is returned', got)
    if got != 'ok':
        return
    made = bare[0] if kind == 'argument' else result
    locating = which.startswith('Locating')
    inner = removeSecurityProxy(val)
    ctx.prove((type(val) is Proxy) == proxied, 'the adapter is protected exactly when needed')
    located = kind.startswith('located')
    if proxied and locating and not located:
        ctx.prove(type(inner) is LocationProxy and getProxiedObject(inner) is made,
                  'an unlocated protected adapter is put in a location proxy')
        if type(inner) is not LocationProxy:
            return
        ctx.prove(inner.__parent__ is bare[0], 'the location is the bare first argument')
        ctx.prove('__parent__' not in made.__dict__ or made.__parent__ is parent,
                  'the adapter itself is not changed')
        return
    ctx.prove(inner is made, 'what is returned is the adapter itself')
    if proxied and kind != 'argument':
        c = getChecker(val)
        ctx.prove(c is (own or _defaultChecker), 'the adapter has its own protections')
    if located:
        want = bare[0] if parent is None else parent
        ctx.prove(made.__parent__ is want, 'an unset parent becomes the bare first argument, '
                  'and a parent is never replaced')
    else:
        ctx.prove(made.__dict__.get('__parent__') is parent, 'no location is set on other adapters')
    ctx.prove(ILocation.providedBy(made) == located, 'no interface is added')


@harness('C27', bounds=B)
def untrusted(ctx):
    from zope.location import LocationProxy
    from zope.proxy import getProxiedObject
    from zope.security import adapter
    from zope.security.proxy import removeSecurityProxy
    n = sizes(ctx)
    deny = Denying()
    grant = Granting()
    wrap = proxies()[ctx.choose('proxy class', 2)]
    bare, given = arguments(ctx, n, deny, wrap)
    kind, result, parent = make_adapter(ctx, bare, None, KINDS)
    if kind == 'argument':
        # looking at a protected adapter's interfaces needs its checker's leave
        for i, (b, g) in enumerate(zip(bare, given)):
            if g is not b:
                given[i] = wrap(b, grant)
    protected = kind not in ('fails', 'argument') and ctx.bool('protected adapter')
    if protected:
        made = result
        result = wrap(made, grant)
    seen = []
    f = factory_of(ctx, adapter.LocatingUntrustedAdapterFactory, result, seen, bare)
    got, val = outcome(f, *given)
    ctx.prove(len(seen) == 1 and len(seen[0]) == n and
              all(x is g for x, g in zip(seen[0], given)),
              'the factory sees every argument as received, once')
    ctx.prove(deny.asked == 0, 'no protected argument is touched')
    ctx.note(kind, got)
    if kind == 'fails':
        ctx.prove(got == 'raised' and val is result, "the factory's failure is the outcome")
        return
    ctx.prove(got == 'ok', 'the adapter is returned', got)
    if got != 'ok':
        return
    back = given[0] if kind == 'argument' else result
    inside = removeSecurityProxy(back)
    if kind.startswith('located'):
        ctx.prove(val is back, 'a located adapter is returned as it is')
        p = inside.__parent__
        if parent is None:
            ctx.prove(p is given[0], 'an unset parent becomes the first argument as received')
        else:
            ctx.prove(p is parent, 'a parent is never replaced')
        return
    ctx.prove(type(val) is LocationProxy and getProxiedObject(val) is back,
              'an adapter without location is put, as it is, in a location proxy')
    if type(val) is LocationProxy:
        ctx.prove(val.__parent__ is given[0], 'its parent is the first argument as received')
    ctx.prove(inside.__dict__.get('__parent__') is parent, 'the adapter itself is not changed')


# --------------------------------------------------------------------- C28

BD = ('every way the wrapper and the wrapped object can have a checker; permission tables and '
      'the name asked for: any mapping and any string; interaction: free answers')

SOURCES = ['registered', 'factory', 'factory says none', 'bare', 'unregistered']


def register(ctx, cls, how, checker):
    """Give the type a registration; the checker that it means for its instances."""
    from zope.security import checker as mod
    if how == 'unregistered':
        return mod._defaultChecker
    value = {'registered': checker, 'factory': lambda o: checker,
             'factory says none': lambda o: None, 'bare': mod.NoProxy}[how]
    mod.defineChecker(cls, value)
    ctx.cleanup(lambda: mod._checkers.pop(cls, None))
    return checker if how in ('registered', 'factory') else None


@harness('C28', cases=(('decorator',), ('location',)), bounds=BD)
def decorated(ctx, which):
    from zope.location.location import LocationProxy
    from zope.security.checker import Checker
    from zope.security.checker import CheckerPublic
    from zope.security.checker import ProxyFactory
    from zope.security.decorator import DecoratorBase
    from zope.security.proxy import Proxy
    from zope.security.proxy import getChecker
    fresh(ctx)
    public = ctx.obj('public', CheckerPublic)
    dom = dict(none=True, strings=True, objs=(public,))
    read = ctx.bool('read')
    cs = []

    class Own(Checker):
        def __bool__(self):
            return not ctx.choose('checkers are false', 2) == 0
    for k in ('wrapper', 'object'):
        t = ctx.dict('table of ' + k, **dom)
        cs.append(Own(t, {}) if read else Own({}, t))

    class Wrapper(DecoratorBase if which == 'decorator' else LocationProxy):
        pass

    class Thing:
        pass
    thing = Thing()
    wc = register(ctx, Wrapper, ctx.choose('wrapper has', SOURCES), cs[0])
    how = ctx.choose('object has', SOURCES + ['own', 'own and registered', 'own none', 'proxy',
                                              'proxy and own', 'proxy of a subclass'])
    inner = thing
    other = Checker({'other': public}, {'other': public})
    if how == 'own':
        Thing.__Security_checker__ = oc = cs[1]
    elif how == 'own and registered':
        register(ctx, Thing, 'registered', other)
        Thing.__Security_checker__ = oc = cs[1]
    elif how == 'own none':
        oc = register(ctx, Thing, 'registered', cs[1])
        Thing.__Security_checker__ = None
    elif how.startswith('proxy'):
        if how != 'proxy':
            Thing.__Security_checker__ = other
        oc = cs[1]
        inner = (proxies()[1] if how.endswith('subclass') else Proxy)(thing, oc)
    else:
        oc = register(ctx, Thing, how, cs[1])
    w = Wrapper(inner)
    ctx.note(wc is None, oc is None)
    try:
        w.__Security_checker__ = cs[0]
    except TypeError:
        ctx.prove(True, 'the checker cannot be assigned')
    else:
        ctx.prove(False, 'the checker cannot be assigned')
    got = getattr(w, '__Security_checker__', None)
    if wc is None and oc is None:
        ctx.prove(got is None, 'no checker when neither has one')
        return
    if wc is None or oc is None:
        only = oc if wc is None else wc
        ctx.prove(got is only, 'the checker of the only one that has one')
        prot = ProxyFactory(w)
        ctx.prove(type(prot) is Proxy and getChecker(prot) is only, 'protected by it')
        return
    ctx.prove(got is not None, 'there is a combined checker')
    inter = Answers(ctx, options=('grant', 'refuse'))
    install(ctx, inter)
    name = ctx.str('name')
    op = 'check' if read else 'check_setattr'
    a, ae = outcome(getattr(got, op), thing, name)
    n = len(inter.calls)
    inter = inter.again()
    install(ctx, inter)
    b, be = outcome(getattr(wc, op), thing, name)
    if b in ('forbidden', 'unauthorized'):
        first = b
        b, be = outcome(getattr(oc, op), thing, name)
        if (first, b) == ('unauthorized', 'forbidden'):
            b = first
    ctx.prove(a == b, "the wrapper's checker is tried first, then the object's", '%s %s' % (a, b))
    ctx.prove(len(inter.calls) == n, 'and nothing else is asked')
    ctx.note(a, n)
    ctx.cover(a)
