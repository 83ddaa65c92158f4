"""Operations within operations: whoever is asked, used or made on the way does
something of the same kind itself; both must come out as if alone (C01-C05,
C08-C11, C16, C26, C28)."""
from hlib import DEFAULTS
from hlib import fresh
from hlib import outcome
from sxlib import harness
from sxlib import use

c01 = use('c01_proxy')
c08 = use('c08_checks')
c36 = use('c36_history')
judge, kinds = c01.judge, c01.kinds
OPS, ASKED, METHODS, UNPROTECTED = c36.OPS, c36.ASKED, c36.METHODS, c36.UNPROTECTED


class Log(list):
    """tells the world about every event"""

    def __init__(self, w):
        list.__init__(self)
        self.w = w

    def append(self, e):
        list.append(self, e)
        self.w.after(len(self) - 1)


class Nest(c36.Steps):
    """A world in which, at one event, something else is done first."""
    inner = None
    at = None

    def after(self, k):
        f = self.inner
        if f is None or k != self.at:
            return
        self.inner = None
        was = self.log, self.memo, self.step
        self.memo, self.step = {}, 2
        try:
            f()
        finally:
            self.log, self.memo, self.step = was

    def run(self, f, *args, **kw):
        self.log = Log(self)
        try:
            kind, r = 'ok', f(*args, **kw)
        except Exception as e:
            kind, r = 'raised', e
        log, self.log = self.log, []
        return kind, r, list(log)


BN = ('any of twenty-one operations; the checker while it is asked or protects, or the object '
      'while it is used, does another one of four kinds (or the same) on the same proxy or on '
      'one of the same object with a checker of its own; verdicts and results of their own')


def within(ctx, op):
    from zope.security.proxy import Proxy
    w = Nest(ctx)
    w.same, w.keep = {}, False
    cls = c36.make_thing(w, METHODS)
    fast = ctx.bool('fast checkers')
    obj = cls()
    keepers = c36.make_keeper(w, fast), c36.make_keeper(w, fast)
    proxies = [Proxy(obj, k) for k in keepers]
    w.at = ctx.choose('when', 3)
    other = ctx.choose('does', ['the same', 'getattr', 'setattr', 'add', 'eq'])
    if other == 'the same':
        other = op
    which = ctx.choose('on', 2)

    def one(which, name):
        got = w.run(OPS[name], proxies[which])
        w.inner = None
        bare = w.run(OPS[name], obj)
        asked = ASKED.get(name, '__%s__' % name)
        asks = []
        if asked:
            asks.append(('ask', 'write' if name in ('setattr', 'delattr') else 'read', obj, asked))
        judge(ctx, w, got, obj, keepers[which], asks, bare, protect=name not in UNPROTECTED)
    w.inner = lambda: one(which, other)
    one(0, op)
    ctx.note(other, which)


@harness('C01', 'C03', 'C04', cases=[(o,) for o in ('getattr', 'setattr', 'delattr')], bounds=BN)
def nested_attributes(ctx, op):
    """An attribute, and within it another operation."""
    within(ctx, op)


@harness('C02', 'C03', 'C04', cases=[(o,) for o in METHODS[:13]], bounds=BN)
def nested_operators(ctx, op):
    """An operator, and within it another operation."""
    within(ctx, op)


@harness('C05', cases=(('eq',), ('bool',), ('hash',)), bounds=BN)
def nested_plain(ctx, op):
    """Comparison, hash and truth, and within them another operation."""
    within(ctx, op)


# ------------------------------------------------------- permission tables

class Busy:
    """An interaction that does something else before its first answer."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.calls, self.what, self.step = [], None, 1
        self.inner = None

    def checkPermission(self, permission, object):
        self.calls.append((permission, object))
        if self.inner is not None:
            f, self.inner = self.inner, None
            was = self.calls, self.what
            self.calls, self.what, self.step = [], None, 2
            try:
                f()
            finally:
                self.calls, self.what = was
                self.step = 1
        if self.what is None:
            self.what = self.ctx.choose('answer %d' % self.step, ['grant', 'refuse', 'raise'])
        if self.what == 'raise':
            raise LookupError('interaction')
        return self.what == 'grant'

    @property
    def grants(self):
        return self.what == 'grant'


BC = ('any check, of any name, with any tables; the interaction, while it is asked, makes another '
      'with the same or another checker, of the same or another name and object, and answers it '
      'on its own')


def checks_within(ctx, how, then):
    from zope.security.checker import Checker
    from zope.security.checker import CheckerPublic
    fresh(ctx)
    public = ctx.obj('CheckerPublic', CheckerPublic)
    dom = dict(none=True, strings=True, objs=(public,))
    inter = Busy(ctx)
    c36.place(ctx, inter)
    objs = c08.Plain(), c08.Plain()
    t = ctx.dict('table', **dom)
    checkers, tables = [Checker(t, t)], [t]
    if ctx.bool('another checker'):
        t = ctx.dict('table 2', **dom)
        checkers.append(Checker(t, t))
        tables.append(t)
    names = [ctx.str('name')]
    names.append(ctx.str('name 2') if ctx.bool('another name') else names[0])
    obj2 = objs[ctx.choose('object', 2)]

    def one(how, k, obj, name):
        got, exc = c08.outcome(getattr(checkers[k], how), obj, name)
        inter.inner = None
        read = how != 'check_setattr'
        default_ok = read and ctx.Or(ctx.member(name, DEFAULTS), ctx.same(name, '__iter__'))
        c08.judge(ctx, 'read' if read else 'write', tables[k].get(name), public, name, obj, inter,
                  got, exc, default_ok)
    inter.inner = lambda: one(then, len(checkers) - 1, obj2, names[1])
    one(how, 0, objs[0], names[0])


@harness('C08', cases=(('check', 'check'), ('check_getattr', 'check'), ('check', 'check_setattr')),
         bounds=BC)
def nested_reads(ctx, how, then):
    """A read check, and within it another check."""
    checks_within(ctx, how, then)


@harness('C09', cases=(('check_setattr', 'check_setattr'), ('check_setattr', 'check')), bounds=BC)
def nested_writes(ctx, how, then):
    """A write check, and within it another check."""
    checks_within(ctx, how, then)


@harness('C11', cases=(('check', 'check'), ('check_getattr', 'check'),
                       ('check_setattr', 'check_setattr'), ('check', 'check_setattr')), bounds=BC)
def nested_combined(ctx, how, then):
    """A check of a combination, and within it another of the same."""
    from zope.security.checker import Checker
    from zope.security.checker import CheckerPublic
    from zope.security.checker import CombinedChecker
    from zope.security.interfaces import ForbiddenAttribute
    from zope.security.interfaces import Unauthorized
    fresh(ctx)
    public = ctx.obj('public', CheckerPublic)
    dom = dict(none=True, strings=True, objs=(public,))
    tables = [ctx.dict('table%d' % i, **dom) for i in range(2)]
    both = CombinedChecker(*[Checker(t, t) for t in tables])
    obj = c08.Plain()
    names = [ctx.str('name')]
    names.append(ctx.str('name 2') if ctx.bool('another name') else names[0])
    at = ctx.choose('when', 2)
    state = {'depth': 0, 'calls': [], 'given': []}
    given = {}

    class Inter:
        def checkPermission(self, permission, object):
            k = len(state['calls'])
            state['calls'].append((permission, object))
            if not state['depth'] and k == at:
                was = dict(state)
                state.update(depth=1, calls=[], given=[])
                one(then, names[1])
                state.update(was)
            key = state['depth'], k
            if key not in given:
                given[key] = ctx.choose('answer %d %d' % key, ['grant', 'refuse', 'raise'])
            state['given'].append(given[key])
            if given[key] == 'raise':
                raise LookupError('interaction')
            return given[key] == 'grant'
    c36.place(ctx, Inter())

    def one(how, name):
        got, exc = outcome(getattr(both, how), obj, name)
        read = how != 'check_setattr'
        default_ok = read and ctx.Or(ctx.member(name, DEFAULTS), ctx.same(name, '__iter__'))

        class Seen:
            given = state['given']
        p1, p2 = tables[0].get(name), tables[1].get(name)
        verdict = c36.verdict
        v1, k = verdict(ctx, p1, public, default_ok, Seen, 0)
        perms = [p1] * k
        want = v1
        if v1 not in ('ok', 'raised'):
            v2, n = verdict(ctx, p2, public, default_ok, Seen, k)
            perms += [p2] * (n - k)
            want = 'unauthorized' if (v1, v2) == ('unauthorized', 'forbidden') else v2
        ctx.prove(got == want, 'the outcome is that of the table', '%s %s' % (got, want))
        ctx.prove(len(state['calls']) == len(perms), 'each side asks at most once, if it must')
        for (p, o), q in zip(state['calls'], perms):
            ctx.prove(ctx.And(ctx.same(p, q), o is obj), "asked for each side's own permission")
        if got in ('unauthorized', 'forbidden'):
            ctx.prove(isinstance(exc, (Unauthorized, ForbiddenAttribute)), 'a refusal')
            ctx.prove(ctx.same(exc.args[1 if got == 'unauthorized' else 0], name),
                      'the refusal names the name')
        ctx.note(how, got)
    one(how, names[0])


# ------------------------------------------------------------- selection

BS = ('factories of checkers that, while they are asked, have the same or another value of the '
      'same or of another type protected; every outcome of either')


@harness('C10', cases=(('proxy',), ('ProxyFactory',), ('selectChecker',)), bounds=BS)
def nested_selection(ctx, how):
    """A factory of checkers that has something protected itself."""
    from zope.security import checker as mod
    from zope.security.proxy import Proxy
    from zope.security.proxy import getChecker
    from zope.security.proxy import removeSecurityProxy
    fresh(ctx)

    class A:
        pass

    class B:
        pass
    mine = [mod.Checker({}, {}) for i in range(2)]
    state = {'depth': 0}
    values = A(), A(), B()
    f = {'proxy': mod.Checker({}, {}).proxy, 'ProxyFactory': mod.ProxyFactory,
         'selectChecker': mod.selectChecker}[how]
    then = {'the same': f, 'proxy': mod.Checker({}, {}).proxy,
            'selectChecker': mod.selectChecker}[
        ctx.choose('then', ['the same', 'proxy', 'selectChecker'])]
    second = ctx.choose('value', 3)
    deep = ctx.bool('a factory of a factory')
    ends = {}

    def factory(o):
        d = state['depth']
        if d == 0:
            state['depth'] = 1
            one(then, values[second])
            state['depth'] = 0
        if deep and d == 0:
            return last
        return end(d)

    def last(o):
        ctx.prove(o is values[0], 'the factory is asked about the value')
        return end(0)

    def end(d):
        if d not in ends:
            ends[d] = ctx.choose('outcome %d' % d, ['checker', 'none', 'bare', 'raise'])
        if ends[d] == 'raise':
            raise LookupError(d)
        return {'checker': mine[d], 'none': None, 'bare': mod.NoProxy}[ends[d]]
    mod.defineChecker(A, factory)
    ctx.cleanup(lambda: mod._checkers.pop(A, None))

    def one(f, value):
        d = state['depth']
        got = exc = None
        try:
            got = f(value)
        except LookupError as e:
            exc = e
        if value is values[2]:
            want = mod._defaultChecker
        else:
            if ends[d] == 'raise':
                ctx.prove(exc is not None and exc.args == (d,), "a factory's failure is the outcome")
                return
            want = mine[d] if ends[d] == 'checker' else None
        ctx.prove(exc is None, 'a value is protected or handed out', repr(exc))
        if f is mod.selectChecker:
            ctx.prove(got is want, 'the right checker is selected')
        elif want is None:
            ctx.prove(got is value, 'the value is handed out bare only if its registration says so')
        else:
            ctx.prove(type(got) is Proxy and removeSecurityProxy(got) is value
                      and getChecker(got) is want, 'the value is protected by the right checker')
        ctx.note(d, type(got) is Proxy)
    one(f, values[0])


# ------------------------------------------------------------ interactions

BI = ('a policy that, while it makes an interaction, asks for the current one, starts or ends '
      'or restores one, or fails; an interaction before, ended or not')


@harness('C16', bounds=BI)
def nested_policy(ctx):
    """A policy that itself deals with interactions."""
    from zope.security import management as m
    from zope.security.interfaces import NoInteraction
    fresh(ctx)
    old = m.getSecurityPolicy()
    ctx.cleanup(lambda: m.setSecurityPolicy(old))
    made, seen = [], []
    does = ctx.choose('does', ['nothing', 'asks', 'starts', 'starts and ends', 'ends', 'restores'])
    fails = ctx.bool('fails')
    active = [False]

    class Policy:
        def __init__(self, *participations):
            self.participations = participations
            made.append(self)
            if not active[0]:
                return
            active[0] = False
            seen.append(m.queryInteraction())
            if does == 'asks':
                try:
                    m.getInteraction()
                    seen.append('an interaction')
                except NoInteraction:
                    pass
            elif does.startswith('starts'):
                m.newInteraction()
                seen.append(None if m.queryInteraction() is made[-1] else 'another')
                if does != 'starts':
                    m.endInteraction()
                    seen.append(m.queryInteraction())
            elif does == 'ends':
                m.endInteraction()
                seen.append(m.queryInteraction())
            elif does == 'restores':
                m.restoreInteraction()
                seen.append(None if m.queryInteraction() is before else 'another')
            if fails:
                raise LookupError('policy')
    m.setSecurityPolicy(Policy)
    before = None
    if ctx.bool('one before'):
        m.newInteraction()
        before = m.queryInteraction()
        m.endInteraction()
    if does == 'restores' and before is None:
        return
    active[0] = True
    n = len(made)
    try:
        m.newInteraction()
        failed = False
    except LookupError:
        failed = True
    ctx.prove(failed == fails, "a policy's failure is the outcome")
    ctx.prove(all(s is None for s in seen), 'there is no interaction while one is made', repr(seen))
    if not failed:
        ctx.prove(m.queryInteraction() is made[n], 'the new interaction is the current one')
        m.endInteraction()
        m.restoreInteraction()
        ctx.prove(m.queryInteraction() is made[n], 'the last one to end is restored')
    elif does in ('nothing', 'asks'):
        ctx.prove(m.queryInteraction() is None, 'a failure starts nothing')
        m.restoreInteraction()
        ctx.prove(m.queryInteraction() is before, 'and ends nothing')
    ctx.note(does, failed)
    ctx.cover(does)


# ---------------------------------------------------------------- adapters

BA = ('adapter factories whose factory uses the same adapter factory, or one of another kind, '
      'on a bare or a proxied object')


@harness('C26', bounds=BA)
def nested_adapters(ctx):
    """A factory that adapts something else on the way."""
    from zope.interface import directlyProvides
    from zope.location import ILocation
    from zope.security import adapter as mod
    from zope.security.checker import Checker
    from zope.security.proxy import Proxy
    from zope.proxy import removeAllProxies
    fresh(ctx)

    class Adapter:
        pass
    located = ctx.bool('located')
    state = {'depth': 0}
    args = Adapter(), Adapter()
    given = [Proxy(a, Checker({})) if ctx.bool('proxied %d' % k) else a
             for k, a in enumerate(args)]
    made, seen = {}, {}

    def factory(*bare):
        d = state['depth']
        seen[d] = bare
        if d == 0:
            state['depth'] = 1
            one(again, 1)
            state['depth'] = 0
        made[d] = Adapter()
        if located:
            directlyProvides(made[d], ILocation)
            made[d].__parent__ = None
        return made[d]
    factory.__name__ = 'factory'
    factory.__module__ = 'm'
    cls = ctx.choose('kind', [mod.TrustedAdapterFactory, mod.LocatingTrustedAdapterFactory])
    f = cls(factory)
    again = f
    if ctx.bool('another'):
        again = ctx.choose('kind 2', [mod.TrustedAdapterFactory,
                                      mod.LocatingTrustedAdapterFactory])(factory)

    def one(f, k):
        d = state['depth']
        got = f(given[k])
        a = made[d]
        proxied = given[k] is not args[k]
        ctx.prove(len(seen[d]) == 1 and seen[d][0] is args[k], 'the factory gets the bare object')
        ctx.prove(removeAllProxies(got) is a, "the factory's result is the outcome")
        ctx.prove((type(got) is Proxy) == proxied, 'the adapter of a proxied object is protected')
        if located:
            ctx.prove(a.__parent__ is args[k], 'located in the object adapted')
        ctx.note(d, proxied, type(got) is Proxy)
    one(f, 0)
