"""Two operations in a row: what happened before must not matter, except as
the properties say (C01-C06, C08-C12, C18, C28)."""
import operator

from hlib import DEFAULTS
from hlib import Answers
from hlib import fresh
from hlib import install
from hlib import outcome
from sxlib import harness
from sxlib import use

c01 = use('c01_proxy')
c08 = use('c08_checks')
c11 = use('c11_checkers')
Value, World, judge, kinds, same_log = c01.Value, c01.World, c01.judge, c01.kinds, c01.same_log
Interaction, Iterable, Plain = c08.Interaction, c08.Iterable, c08.Plain
judge_check, check_outcome = c08.judge, c08.outcome
Verdicts, ask, predict, verdict = c11.Verdicts, c11.ask, c11.predict, c11.verdict


class Steps(World):
    """A world in which every step has answers of its own."""

    def __init__(self, ctx):
        World.__init__(self, ctx)
        self.step = 1

    def pick(self, key, options):
        if key not in self.memo:
            self.memo[key] = self.ctx.choose('%d: %s' % (self.step, key), options)
        return self.memo[key]

    def next(self):
        self.step += 1
        self.memo = {}


class Iterator:
    def __iter__(self):
        return self

    def __next__(self):
        raise StopIteration


# What the objects give: new at every step, unless it is a plain value.
GIVES = {'len': lambda n: n, 'contains': lambda n: n == 2, 'eq': lambda n: n == 2,
         'bool': lambda n: n == 2, 'hash': lambda n: n, 'str': lambda n: 'text %d' % n,
         'iter': lambda n: Iterator()}


def make_thing(w, methods):
    class Thing:
        pass

    def method(name):
        def f(self, *args):
            w.log.append(('op', 'target', name, self, args, ()))
            k = 'given', name
            if k not in w.memo:
                w.memo[k] = w.same.get(name) or GIVES.get(
                    name.strip('_'), lambda n: Value(name))(w.step)
                if w.keep:
                    w.same[name] = w.memo[k]
            return w.memo[k]
        return f
    for n in methods:
        setattr(Thing, '__%s__' % n, method('__%s__' % n))
    return Thing


def make_keeper(w, fast):
    """A checker; `label` says whether it is the one of the current step."""
    class Checker:
        label = ''

        def ask(self, kind, obj, name):
            w.log.append(('ask' + self.label, kind, obj, name))
            if w.pick('verdict' + self.label, ('allow', 'refuse')) == 'allow':
                return
            from zope.security.interfaces import Unauthorized
            k = 'refusal', self.label
            if k not in w.memo:
                w.memo[k] = Unauthorized('refused')
            raise w.memo[k]

        def check(self, obj, name):
            self.ask('read', obj, name)

        def check_getattr(self, obj, name):
            self.ask('read', obj, name)

        def check_setattr(self, obj, name):
            self.ask('write', obj, name)

        def proxy(self, value):
            if type(value) in (bool, int, str, type(None), type(NotImplemented)):
                return value
            w.log.append(('protect' + self.label, value))
            return self.protected(value)

        def protected(self, value):
            w.pick('protect', ('wrap',))
            k = 'wrapped', self.label, id(value)
            if k not in w.memo:
                w.memo[k] = Iterator(), value
            return w.memo[k][0]
    if fast:
        def setitem(self, obj, name):
            self.ask('read', obj, name)
        Checker.__setitem__ = setitem
        Checker.__getitem__ = Checker.proxy
    return Checker()


KEY, OTHER = Value('key'), Value('other')
OPS = {
    'getattr': lambda o: o.anything, 'get other': lambda o: o.other,
    'setattr': lambda o: setattr(o, 'anything', KEY), 'delattr': lambda o: delattr(o, 'anything'),
    'call': lambda o: o(KEY), 'getitem': lambda o: o[KEY],
    'setitem': lambda o: operator.setitem(o, KEY, OTHER),
    'delitem': lambda o: operator.delitem(o, KEY),
    'add': lambda o: o + KEY, 'radd': lambda o: KEY + o, 'iadd': lambda o: operator.iadd(o, KEY),
    'pow': lambda o: o ** KEY, 'divmod': lambda o: divmod(o, KEY),
    'neg': operator.neg, 'iter': iter, 'len': len, 'contains': lambda o: KEY in o,
    'eq': lambda o: o == KEY, 'bool': bool, 'hash': hash, 'str': str}
METHODS = ['call', 'getitem', 'setitem', 'delitem', 'add', 'radd', 'iadd', 'pow', 'divmod', 'neg',
           'iter', 'len', 'contains', 'eq', 'bool', 'hash', 'str', 'getattr', 'setattr', 'delattr']
ASKED = {'getattr': 'anything', 'setattr': 'anything', 'delattr': 'anything', 'get other': 'other',
         'eq': None, 'bool': None, 'hash': None}
UNPROTECTED = ('setattr', 'delattr', 'setitem', 'delitem', 'len', 'contains', 'bool', 'hash',
               'str')
NEXT = ('the same proxy', 'another of the same object', 'another object', 'all other',
        'one made of what was left')

BH = ('two operations in a row (thorough: three), any of twenty-one each (the one before: '
      'five): on the same proxy, on one with another checker or of another object, or on one '
      'made after the first is gone; verdicts and results of their own at every step, or the '
      'same object given again')


def two_steps(ctx, second):
    from zope.security.proxy import Proxy
    w = Steps(ctx)
    w.same = {}
    w.keep = ctx.bool('the same values')
    cls = make_thing(w, METHODS)
    fast = ctx.bool('fast checkers')
    objs = cls(), cls()
    keepers = make_keeper(w, fast), make_keeper(w, fast)
    keepers[1].label = '2'
    p = Proxy(objs[0], keepers[0])
    if ctx.tier == 'thorough':
        zeroth = ctx.choose('zeroth', ('nothing', 'getattr', 'setattr', 'call', 'iadd', 'eq'))
        if zeroth != 'nothing':
            w.run(OPS[zeroth], p)
            w.next()
    first = OPS[ctx.choose('first', list(OPS))]
    got = w.run(first, p)
    before = got[1]             # kept, as a caller would
    relation = ctx.choose('then', NEXT)
    w.next()
    o, c = {'the same proxy': (0, 0), 'another of the same object': (0, 1),
            'another object': (1, 0), 'all other': (1, 1),
            'one made of what was left': (1, 1)}[relation]
    q = p
    if relation.startswith('one made'):
        got = before = p = None
        q = Proxy(objs[o], keepers[c])
    elif o or c:
        q = Proxy(objs[o], keepers[c])
    keepers[c].label, keepers[1 - c].label = '', '2'
    target, checker = objs[o], keepers[c]
    f = OPS[second]
    got = w.run(f, q)
    bare = w.run(f, target)
    name = ASKED.get(second, '__%s__' % second)
    asks = []
    if name:
        asks.append(('ask', 'write' if second in ('setattr', 'delattr') else 'read', target, name))
    if second == 'str' and w.memo.get('verdict') == 'refuse':
        # C06: a refused str() is a description
        ctx.prove(got[0] == 'ok' and not got[1].startswith('text'), 'C06: a refused str() is a description')
        ctx.prove(same_log(ctx, [e for e in got[2] if e[0] != 'ask2'], asks),
                  'C06: and does not touch the object', kinds(got[2]))
        return
    judge(ctx, w, got, target, checker, asks, bare, protect=second not in UNPROTECTED)
    ctx.note(relation)
    del before


@harness('C01', 'C03', 'C04', cases=[(o,) for o in ('getattr', 'get other', 'setattr',
                                                    'delattr')], bounds=BH)
def history_attributes(ctx, second):
    """An attribute after any other operation."""
    two_steps(ctx, second)


@harness('C02', 'C03', 'C04', cases=[(o,) for o in METHODS[:13]], bounds=BH)
def history_operators(ctx, second):
    """An operator after any other operation."""
    two_steps(ctx, second)


@harness('C05', cases=(('eq',), ('bool',), ('hash',)), bounds=BH)
def history_plain(ctx, second):
    """Comparison, hash and truth after any other operation."""
    two_steps(ctx, second)


@harness('C06', cases=(('str',),), bounds=BH)
def history_text(ctx, second):
    """Text after any other operation."""
    two_steps(ctx, second)


# ------------------------------------------------------- permission tables

class StepInteraction(Interaction):
    """Answers anew at every step."""
    step = 1

    def checkPermission(self, permission, object):
        if self.what is None:
            self.what = self.ctx.choose('answer %d' % self.step, ['grant', 'refuse', 'raise'])
        self.calls.append((permission, object))
        if self.what == 'raise':
            raise LookupError('interaction')
        return self.what == 'grant'

    def __bool__(self):
        return True

    def next(self):
        self.step += 1
        self.calls = []
        self.what = None


def place(ctx, i):
    from zope.security._definitions import thread_local
    thread_local.interaction = i


CHANGES = ('nothing', 'the object', 'the checker', 'the table', 'the interaction', 'the name')
BT = ('any two checks in a row, of any names, with any tables; between them nothing changes, or '
      'the object, the checker, an entry of the table, the interaction or the name; the '
      'interaction answers each anew')


def two_checks(ctx, first, second):
    from zope.security.checker import Checker
    from zope.security.checker import CheckerPublic
    fresh(ctx)
    public = ctx.obj('CheckerPublic', CheckerPublic)
    dom = dict(none=True, strings=True, objs=(public,))
    inter = StepInteraction(ctx)
    place(ctx, inter)
    cls = Iterable if ctx.bool('iterable') else Plain
    obj = cls()
    change = ctx.choose('change', CHANGES)
    gets, sets = ctx.dict('get', **dom), ctx.dict('set', **dom)
    checker = Checker(gets, sets)
    name = ctx.str('name')
    read = second != 'check_setattr'

    def run(how):
        if how == 'setitem':
            if hasattr(type(checker), '__setitem__'):
                def f(obj, name):
                    checker[obj] = name
                return check_outcome(f, obj, name)
            how = 'check'
        return check_outcome(getattr(checker, how), obj, name)
    ctx.note(run(first)[0])
    inter.next()
    if change == 'the object':
        obj = (Plain if ctx.bool('then plain') else Iterable)()
    elif change == 'the checker':
        gets, sets = ctx.dict('get 2', **dom), ctx.dict('set 2', **dom)
        checker = Checker(gets, sets)
    elif change == 'the table':
        t = gets if read else sets
        k = ctx.str('changed')
        if read and ctx.bool('removed'):
            if k in t:
                del t[k]
        else:
            t[k] = ctx.val('entry', **dom)
    elif change == 'the interaction':
        step = inter.step
        inter = StepInteraction(ctx)
        inter.step = step
        place(ctx, inter)
    elif change == 'the name':
        name = ctx.str('name 2')
    got, exc = run(second)
    perm = (gets if read else sets).get(name)
    default_ok = read and ctx.Or(ctx.member(name, DEFAULTS),
                                 ctx.And(ctx.same(name, '__iter__'), not hasattr(obj, '__iter__')))
    judge_check(ctx, 'read' if read else 'write', perm, public, name, obj, inter, got, exc,
                default_ok)


@harness('C08', cases=[(a, b) for a in ('check', 'check_setattr')
                       for b in ('check', 'check_getattr', 'setitem')], bounds=BT)
def history_reads(ctx, first, second):
    """A read check after any other check."""
    two_checks(ctx, first, second)


@harness('C09', cases=(('check',), ('check_setattr',)), bounds=BT)
def history_writes(ctx, first):
    """A write check after any other check."""
    two_checks(ctx, first, 'check_setattr')


@harness('C11', cases=[(a, b) for a in ('check', 'check_setattr')
                       for b in ('check', 'check_setattr')], bounds=BT)
def history_combined(ctx, first, second):
    """A combination of checkers, asked twice."""
    from zope.security.checker import Checker
    from zope.security.checker import CheckerPublic
    from zope.security.checker import CombinedChecker
    public = ctx.obj('public', CheckerPublic)
    dom = dict(none=True, strings=True, objs=(public,))
    tables = [ctx.dict('table%d' % i, **dom) for i in range(2)]
    cs = [Checker(t, t) for t in tables]
    both = CombinedChecker(*cs)
    inter = Answers(ctx, 'first')
    install(ctx, inter)
    name = ctx.str('name')
    obj = Plain()
    ctx.note(outcome(getattr(both, first), obj, name)[0])
    inter = Answers(ctx, 'second')
    install(ctx, inter)
    change = ctx.choose('change', ('nothing', 'the object', 'the name', 'the combination',
                                   'the first table', 'the second table'))
    if change.endswith('table'):
        t = tables[0 if 'first' in change else 1]
        if ctx.bool('removed'):
            if name in t:
                del t[name]
        else:
            t[name] = ctx.val('entry', **dom)
    if change == 'the object':
        obj = Plain()
    elif change == 'the name':
        name = ctx.str('name 2')
    elif change == 'the combination':
        both = CombinedChecker(cs[1], cs[0])
        tables.reverse()
    got, exc = outcome(getattr(both, second), obj, name)
    default_ok = False
    if second == 'check':
        default_ok = ctx.Or(ctx.member(name, DEFAULTS), ctx.same(name, '__iter__'))
    p1, p2 = tables[0].get(name), tables[1].get(name)
    v1, k = verdict(ctx, p1, public, default_ok, inter, 0)
    if v1 in ('ok', 'raised'):
        want = v1
    else:
        v2, k = verdict(ctx, p2, public, default_ok, inter, k)
        want = 'unauthorized' if (v1, v2) == ('unauthorized', 'forbidden') else v2
    ctx.prove(got == want, 'the outcome is that of the table', '%s %s' % (got, want))
    ctx.prove(len(inter.calls) == k, 'each side asks once, if it must')
    ctx.prove(all(o is obj for p, o in inter.calls), 'about the object')
    ctx.note(got)


@harness('C12', cases=[(a, b) for a in ('canWrite', 'canAccess') for b in ('canWrite', 'canAccess')],
         bounds='two questions in a row about any names; the checker answers each anew; the same '
         'or another object, the same or another checker')
def history_can(ctx, first, second):
    """canAccess and canWrite, after one another."""
    import zope.security.checker as c

    class Thing:
        pass
    checker = Verdicts(ctx, 'v')
    name = ctx.str('name')
    obj = Thing()
    ctx.note(ask(ctx, getattr(c, first), c.ProxyFactory(obj, checker), name))
    change = ctx.choose('change', ('nothing', 'the object', 'the checker', 'the name'))
    if change == 'the object':
        obj = Thing()
    elif change == 'the checker':
        checker = Verdicts(ctx, 'second')
    elif change == 'the name':
        name = ctx.str('name 2')
    n = len(checker.calls)
    checker.verdict = None
    got = ask(ctx, getattr(c, second), c.ProxyFactory(obj, checker), name)
    calls = checker.calls[n:]
    for w, q, m in calls:
        ctx.prove(c.proxy.removeSecurityProxy(q) is obj, 'asks about the object')
        ctx.prove(ctx.same(m, name), 'asks about the name')
    asked = [w == 'check_setattr' for w, q, m in calls]
    if second == 'canAccess':
        ctx.prove(asked == [False], 'one read is asked about')
        ctx.prove(got == predict(ctx, None, checker.verdict)[1], 'the answer follows the check')
    elif len(calls) == 2:
        ctx.prove(asked == [True, False], 'a write, then a read')
        ctx.prove(got == predict(ctx, 'forbidden', checker.verdict)[0],
                  'the answer follows the checks')
    else:
        ctx.prove(asked == [True] and checker.verdict != 'forbidden', 'a write is asked about')
        ctx.prove(got == predict(ctx, checker.verdict, None)[0], 'the answer follows the check')


# --------------------------------------------------------------- selection

BS = ('two values in a row, of the same or of different types, protected in any of three ways; '
      'between them a registration is added, replaced, withdrawn, or a value names a checker')


@harness('C10', cases=[(a, b) for a in ('proxy', 'ProxyFactory', 'selectChecker')
                       for b in ('proxy', 'ProxyFactory', 'selectChecker')], bounds=BS)
def history_selection(ctx, first, second):
    """The selection follows the registrations as they are."""
    from zope.security import checker as mod
    from zope.security.proxy import getChecker
    from zope.security.proxy import removeSecurityProxy
    fresh(ctx)
    asking = mod.Checker({}, {})
    a, b, own = mod.Checker({'a': 'a'}, {}), mod.Checker({'b': 'b'}, {}), mod.Checker({}, {})

    class One:
        pass

    class Two:
        pass

    def select(how, v):
        if how == 'selectChecker':
            return mod.selectChecker(v)
        got = {'proxy': asking.proxy, 'ProxyFactory': mod.ProxyFactory}[how](v)
        if removeSecurityProxy(got) is not v:
            ctx.prove(False, 'it is the value that is protected')
        return None if got is v else getChecker(got)

    asked = []

    def factory(v):
        asked.append(v)
        return latest[0]
    latest = [a]
    OPTIONS = {'none': None, 'a': a, 'b': b, 'bare': mod.NoProxy, 'factory': factory}
    regs = {}

    def register(t, what):
        regs[t] = what
        mod._checkers.pop(t, None)
        if what != 'none':
            mod.defineChecker(t, OPTIONS[what])

    def undo():
        mod._checkers.pop(One, None)
        mod._checkers.pop(Two, None)
    ctx.cleanup(undo)
    regs[Two] = 'none'
    register(One, ctx.choose('registered', tuple(OPTIONS)))
    value = One()
    ctx.note(select(first, value) is not None)
    del asked[:]
    change = ctx.choose('then', ('nothing', 'another value', 'another type', 'registered anew',
                                 'the factory decides anew', 'the value names its own'))
    named = False
    if change == 'another value':
        value = One()
    elif change == 'another type':
        value = Two()
        register(Two, ctx.choose('registered other', tuple(OPTIONS)))
    elif change == 'registered anew':
        register(One, ctx.choose('registered anew', tuple(OPTIONS)))
    elif change == 'the factory decides anew':
        latest[0] = (b, None, mod.NoProxy)[ctx.choose('decides', 3)]
    elif change == 'the value names its own':
        value.__Security_checker__ = own
        named = second != 'selectChecker'
    got = select(second, value)
    reg = regs[type(value)]
    want = {'none': mod._defaultChecker, 'a': a, 'b': b, 'bare': None}.get(reg, latest[0])
    if want is mod.NoProxy:
        want = None
    if named:
        want = own
    ctx.prove(got is want, 'the checker is the one that applies now', change)
    if reg == 'factory' and not named:
        ctx.prove(len(asked) == 1 and asked[0] is value, 'the factory is asked about this value')


# ------------------------------------------------------ checkPermission

@harness('C18', bounds='two questions in a row, any permissions; the same or another object, the '
         'same or another interaction, each with an answer of its own; an interaction may end '
         'in between')
def history_permission(ctx):
    """checkPermission asks the current interaction, every time."""
    from zope.security.interfaces import NoInteraction
    from zope.security.management import checkPermission
    fresh(ctx)
    from zope.security.checker import CheckerPublic
    public = ctx.obj('public', CheckerPublic)
    dom = dict(none=True, strings=True, objs=(public,))
    p = ctx.val('permission', **dom)
    o = Value('object')
    one = Answers(ctx, 'one')
    place(ctx, one)
    ctx.note(outcome(checkPermission, p, o)[0])
    change = ctx.choose('then', ('nothing', 'the object', 'the permission', 'the interaction',
                                 'given', 'none'))
    inter = one
    args = {}
    n = len(one.calls)
    if change == 'the object':
        o = Value('other')
    elif change == 'the permission':
        p = ctx.val('permission 2', **dom)
    elif change in ('the interaction', 'given'):
        inter = Answers(ctx, 'two')
        n = 0
        if change == 'given':
            args['interaction'] = inter
        else:
            place(ctx, inter)
    elif change == 'none':
        from zope.security._definitions import thread_local
        del thread_local.interaction
    got, r = outcome(lambda: checkPermission(p, o, **args))
    calls = inter.calls[n:]
    if ctx.Or(ctx.same(p, None), ctx.same(p, public)):
        ctx.prove(got == 'ok' and r is True, 'public is for everyone')
        return
    if change == 'none':
        ctx.prove(isinstance(r, NoInteraction) and not calls, 'without one, a failure')
        return
    ctx.prove(len(calls) == 1, 'it is asked')
    ctx.prove(ctx.And(ctx.same(calls[0][0], p), calls[0][1] is o), 'exactly this')
    what = inter.given[n]
    ctx.prove((got == 'raised' and r is inter.errors[n]) if what == 'raise' else
              (got == 'ok' and r is (what == 'grant')), 'its answer is the answer', got)


# --------------------------------------------------------------- decorators

@harness('C28', bounds='two decorated views in a row of the same or of different objects, with '
         'checkers replaced in between')
def history_decorated(ctx):
    """The checker of a decorated object is combined anew every time."""
    from zope.security import checker as mod
    from zope.security.decorator import DecoratorBase
    from zope.security.proxy import getChecker
    fresh(ctx)

    class Thing:
        pass

    class Decorator(DecoratorBase):
        pass
    cs = [mod.Checker({'x': 'p%d' % i}, {'x': 'p%d' % i}) for i in range(4)]
    for i, t in enumerate((Decorator, Thing)):
        mod.defineChecker(t, cs[i])

    def undo():
        mod._checkers.pop(Decorator, None)
        mod._checkers.pop(Thing, None)
    ctx.cleanup(undo)

    inter = Answers(ctx, options=('refuse',))
    install(ctx, inter)

    def asked(d):
        n = len(inter.calls)
        how = ctx.choose('check %d' % n, ('check', 'check_setattr'))
        got = outcome(getattr(getChecker(mod.ProxyFactory(d)), how), d, 'x')[0]
        ctx.prove(got == 'unauthorized', 'refused')
        return [p for p, o in inter.calls[n:]]
    o = Thing()
    d = Decorator(o)
    ctx.prove(asked(d) == ['p0', 'p1'], "the decorator's, then the object's")
    want = [0, 1]
    change = ctx.choose('then', ('nothing', 'the object', 'another decorator', "the decorator's",
                                 "the object's", 'the object names its own'))
    if change == 'the object':
        d = Decorator(Thing())
    elif change == 'another decorator':
        d = Decorator(o)
    elif change == "the decorator's":
        mod._checkers[Decorator] = cs[2]
        want[0] = 2
    elif change == "the object's":
        mod._checkers[Thing] = cs[3]
        want[1] = 3
    elif change == 'the object names its own':
        o.__Security_checker__ = cs[3]
        want[1] = 3
    ctx.prove(asked(d) == ['p%d' % i for i in want], 'combined of the checkers as they are',
              change)


# ---------------------------------------------------------------- adapters

BF = ('two calls in a row of one factory or of two factories of the same kind, with arguments '
      'bare or proxied, the same or others; adapters made anew, with or without location')


def two_adapters(ctx, which):
    from zope.interface import directlyProvides
    from zope.location import ILocation
    from zope.location import LocationProxy
    from zope.proxy import getProxiedObject
    from zope.security import adapter
    from zope.security.checker import Checker
    from zope.security.proxy import Proxy
    from zope.security.proxy import removeSecurityProxy
    made, seen, located = [], [], []
    trusted = 'Untrusted' not in which

    class Located:
        __parent__ = None

    def make(*args):
        how = ctx.choose('adapter %d' % len(made), ('plain', 'located', 'plain of this class'))
        a = Plain() if how == 'plain' else Located()
        if how == 'located':
            directlyProvides(a, ILocation)
            located.append(a)
        made.append(a)
        seen.append(args)
        return a

    def factory():
        def f(*args):
            return make(*args)
        return getattr(adapter, which)(f)
    f = factory()
    o = Plain()
    checker = Checker({}, {})

    def given(i):
        return Proxy(o, checker) if ctx.bool('proxied %d' % i) else o
    f(given(0))
    change = ctx.choose('then', ('nothing', 'the object', 'the factory'))
    if change == 'the object':
        o = Plain()
    elif change == 'the factory':
        f = factory()
    arg = given(1)
    got = f(arg)
    ctx.prove(len(made) == 2 and len(seen[1]) == 1, 'the factory is called every time')
    if len(made) != 2:
        return
    proxied = arg is not o
    ctx.prove(seen[1][0] is (o if trusted else arg), 'with the argument of this call')
    inner = removeSecurityProxy(got)
    ctx.prove((inner is not got) == (trusted and proxied), 'protected exactly when needed')
    parent = o if trusted else arg
    if located and located[-1] is made[1]:
        ctx.prove(inner is made[1], 'the adapter of this call is returned')
        ctx.prove(made[1].__parent__ is parent, 'its parent is the argument of this call')
    elif which == 'LocatingUntrustedAdapterFactory' or (proxied and which.startswith('Loc')):
        ctx.prove(type(inner) is LocationProxy and getProxiedObject(inner) is made[1],
                  'the adapter of this call is put in a location proxy')
        if type(inner) is LocationProxy:
            ctx.prove(inner.__parent__ is parent, 'its parent is the argument of this call')
    else:
        ctx.prove(inner is made[1], 'the adapter of this call is returned')


@harness('C26', cases=(('TrustedAdapterFactory',), ('LocatingTrustedAdapterFactory',)), bounds=BF)
def history_trusted(ctx, which):
    """A trusted factory, called twice."""
    two_adapters(ctx, which)


@harness('C27', bounds=BF)
def history_untrusted(ctx):
    """An untrusted factory, called twice."""
    two_adapters(ctx, 'LocatingUntrustedAdapterFactory')


# ------------------------------------------------------------ constructors

@harness('C13', cases=[(a, b) for a in ('names', 'interface', 'multi')
                       for b in ('names', 'interface', 'multi')],
         bounds='two checkers built in a row, of one or two names of any text each (or of the '
                'same interface or names) with permissions None, any string or public, an entry '
                'added to either afterwards')
def history_constructors(ctx, first, second):
    """A checker built after another has its own declarations only."""
    from zope.interface import Attribute
    from zope.interface import Interface
    from zope.interface.interface import InterfaceClass
    from zope.security.checker import CheckerPublic
    from zope.security.checker import InterfaceChecker
    from zope.security.checker import MultiChecker
    from zope.security.checker import NamesChecker
    public = ctx.obj('public', CheckerPublic)
    dom = dict(none=True, strings=True, objs=(public,))
    iface = InterfaceClass('IThing', (Interface,), {'own': Attribute('x')})
    shared = [ctx.str('shared')]

    def build(how, i):
        perm = ctx.val('permission %d' % i, **dom)
        other = ctx.val('other permission %d' % i, **dom)
        if how == 'interface':
            if ctx.bool('nothing further %d' % i):
                return InterfaceChecker(iface, perm), [('own', perm)]
            return InterfaceChecker(iface, perm, further=other), [('own', perm),
                                                                  ('further', other)]
        names = shared if ctx.bool('shared %d' % i) else [ctx.str('name %d' % i)]
        ctx.assume(ctx.Not(ctx.same(names[0], 'further')))
        ctx.assume(ctx.Not(ctx.same(names[0], 'added')))
        if how == 'names':
            return NamesChecker(names, perm, further=other), [(names[0], perm),
                                                              ('further', other)]
        return MultiChecker([(names, perm), {'further': other}]), [(names[0], perm),
                                                                   ('further', other)]
    ctx.assume(ctx.Not(ctx.same(shared[0], 'added')))
    built = [build(first, 1), build(second, 2)]
    added = ctx.choose('added to', ('neither', 'the first', 'the second'))
    if added != 'neither':
        k = added == 'the second'
        built[k][0].get_permissions['added'] = 'later'
        built[k][1].append(('added', 'later'))
    probe = ctx.str('probe')
    for c, pairs in built:
        want = None
        for n, p in pairs:
            if ctx.same(n, probe):
                want = p
        ctx.prove(ctx.same(c.permission_id(probe), want), 'exactly its own declarations')
        ctx.prove(ctx.same(c.setattr_permission_id(probe), None), 'no write is granted')
