"""Combined checkers (C11), canAccess/canWrite (C12), constructors (C13), the
public marker (C32)."""
from hlib import DEFAULTS
from hlib import Answers
from hlib import Obj
from hlib import failure
from hlib import install
from hlib import outcome
from sxlib import harness

B = ('names: any string; tables: any mapping to None, any string or the public marker; '
     'interaction: a free answer (grant, refuse, raise) to every question')


class Plain:
    pass


class Iterable:
    def __iter__(self):
        return iter(())


# --------------------------------------------------------------------- C11

def verdict(ctx, perm, public, default_ok, inter, k):
    """(verdict of one table checker, questions asked so far)"""
    if ctx.same(perm, public):
        return 'ok', k
    if ctx.same(perm, None):
        return ('ok' if default_ok else 'forbidden'), k
    if k >= len(inter.given):
        return 'never asked', k
    return {'grant': 'ok', 'refuse': 'unauthorized', 'raise': 'raised'}[inter.given[k]], k + 1


@harness('C11', cases=(('check',), ('check_getattr',), ('setitem',), ('check_setattr',)), bounds=B)
def combined(ctx, how):
    """A combination of two permission-table checkers."""
    from zope.security.checker import Checker
    from zope.security.checker import CheckerPublic
    from zope.security.checker import CombinedChecker
    public = ctx.obj('public', CheckerPublic)
    dom = dict(none=True, strings=True, objs=(public,))
    read = how != 'check_setattr'
    tables = [ctx.dict('table%d' % i, **dom) for i in range(2)]
    others = [ctx.dict('other%d' % i, **dom) for i in range(2)]
    cs = [Checker(t, o) if read else Checker(o, t) for t, o in zip(tables, others)]
    both = CombinedChecker(*cs)
    inter = Answers(ctx)
    install(ctx, inter)
    name = ctx.str('name')
    obj = Iterable() if ctx.bool('iterable') else Plain()
    if how == 'setitem':
        def f(obj, name):
            both[obj] = name
    else:
        f = getattr(both, how)
    got, exc = outcome(f, obj, name)
    default_ok = False
    if read:
        default_ok = ctx.Or(ctx.member(name, DEFAULTS),
                            ctx.And(ctx.same(name, '__iter__'), not hasattr(obj, '__iter__')))
    p1, p2 = tables[0].get(name), tables[1].get(name)
    v1, k = verdict(ctx, p1, public, default_ok, inter, 0)
    perms = [p1] * k
    if v1 in ('ok', 'raised'):
        want = v1
    else:
        v2, n = verdict(ctx, p2, public, default_ok, inter, k)
        perms += [p2] * (n - k)
        want = 'unauthorized' if (v1, v2) == ('unauthorized', 'forbidden') else v2
    ctx.prove(got == want, 'the outcome is that of the table', '%s %s' % (got, want))
    ctx.prove(len(inter.calls) == len(perms), 'each side asks at most once, and only if it must')
    for (p, o), q in zip(inter.calls, perms):
        ctx.prove(ctx.And(ctx.same(p, q), o is obj), "asked for each side's own permission")
    if got == 'unauthorized':
        a = exc.args
        ctx.prove(ctx.And(a[0] is obj, ctx.same(a[1], name),
                          ctx.Or(ctx.same(a[2], p1), ctx.same(a[2], p2))),
                  'Unauthorized names object, name and permission')
    elif got == 'forbidden':
        ctx.prove(ctx.And(ctx.same(exc.args[0], name), exc.args[1] is obj),
                  'ForbiddenAttribute names name and object')
    ctx.note(got, len(inter.calls))
    ctx.cover(got)


class Verdicts:
    """A checker with a free verdict for every question."""

    def __init__(self, ctx, tag):
        self.ctx, self.tag = ctx, tag
        self.calls = []
        self.get_permissions = {}
        self.set_permissions = {}

    def _do(self, what, object, name):
        from zope.security.interfaces import ForbiddenAttribute
        from zope.security.interfaces import Unauthorized
        self.calls.append((what, object, name))
        v = self.ctx.choose('%s%d' % (self.tag, len(self.calls)),
                            ['ok', 'unauthorized', 'forbidden', 'raised'])
        self.verdict = v
        if v == 'unauthorized':
            raise Unauthorized(object, name, 'p')
        if v == 'forbidden':
            raise ForbiddenAttribute(name, object)
        if v == 'raised':
            raise failure(self.ctx, '%s%d kind' % (self.tag, len(self.calls)), self.tag)

    def check(self, object, name):
        self._do('check', object, name)

    def check_getattr(self, object, name):
        self._do('check_getattr', object, name)

    def check_setattr(self, object, name):
        self._do('check_setattr', object, name)

    def proxy(self, value):
        return value

    def __bool__(self):
        return not self.ctx.choose(self.tag + ' is false', 2) == 0


@harness('C11', cases=(('check',), ('check_getattr',), ('check_setattr',)),
         bounds=B + '; the second checker answers anything')
def combined_any_second(ctx, how):
    """The second checker is an arbitrary one."""
    from zope.security.checker import Checker
    from zope.security.checker import CheckerPublic
    from zope.security.checker import CombinedChecker
    public = ctx.obj('public', CheckerPublic)
    dom = dict(none=True, strings=True, objs=(public,))
    table = ctx.dict('table', **dom)
    other = ctx.dict('other', **dom)
    read = how != 'check_setattr'
    second = Verdicts(ctx, 'second')
    both = CombinedChecker(Checker(table, other) if read else Checker(other, table), second)
    inter = Answers(ctx)
    install(ctx, inter)
    name = ctx.str('name')
    obj = Plain()
    got, exc = outcome(getattr(both, how), obj, name)
    default_ok = ctx.Or(ctx.member(name, DEFAULTS), ctx.same(name, '__iter__')) if read else False
    v1, k = verdict(ctx, table.get(name), public, default_ok, inter, 0)
    if v1 in ('ok', 'raised'):
        ctx.prove(got == v1, 'the first decides if it allows or fails')
        ctx.prove(not second.calls, 'then the second is not asked')
    else:
        ctx.prove(len(second.calls) == 1, 'else the second is asked once')
        w, o, n = second.calls[0]
        ctx.prove(ctx.And(o is obj, ctx.same(n, name), (w == 'check_setattr') == (not read)),
                  'with the same question')
        v2 = second.verdict
        want = 'unauthorized' if (v1, v2) == ('unauthorized', 'forbidden') else v2
        ctx.prove(got == want, 'the outcome is that of the table', '%s %s' % (got, want))
        if v2 == 'raised':
            ctx.prove(exc.args == ('second',), 'its failure is passed through')
    ctx.note(got)
    ctx.cover(got)


# --------------------------------------------------------------------- C12

class Watched:
    """Records changes made to it."""

    def __init__(self):
        object.__setattr__(self, 'changes', [])

    def __setattr__(self, name, value):
        self.changes.append(name)

    def __delattr__(self, name):
        self.changes.append(name)

    def __getattribute__(self, name):
        if name in ('secret', 'value'):
            object.__getattribute__(self, 'changes').append(name)
        return object.__getattribute__(self, name)


class WatchedIterable(Watched):
    def __iter__(self):
        self.changes.append('iter')
        return iter(())


def ask(ctx, f, obj, name):
    got, r = outcome(f, obj, name)
    if got == 'ok':
        ctx.prove(r is True or r is False, 'answers are True or False')
        return 'yes' if r else 'no'
    return got


def predict(ctx, write, read):
    """expected answers of canWrite and canAccess"""
    can_access = {'ok': 'yes', 'unauthorized': 'no'}.get(read, read)
    if write == 'forbidden':
        can_write = read if read in ('forbidden', 'raised') else 'no'
    else:
        can_write = {'ok': 'yes', 'unauthorized': 'no'}.get(write, write)
    return can_write, can_access


@harness('C12', cases=(('canWrite',), ('canAccess',)),
         bounds='any name; checker: any verdict; object given bare or security-proxied')
def can_any_checker(ctx, which):
    import zope.security.checker as c
    checker = Verdicts(ctx, 'v')
    name = ctx.str('name')
    obj = Watched()
    how = ctx.choose('how', ['proxied', 'names its checker'])
    if how == 'proxied':
        o = c.ProxyFactory(obj, checker)
    else:
        object.__setattr__(obj, '__Security_checker__', checker)
        o = obj
    got = ask(ctx, getattr(c, which), o, name)
    kinds = [w for w, _, _ in checker.calls]
    for w, q, n in checker.calls:
        ctx.prove(c.proxy.removeSecurityProxy(q) is obj, 'asks about the object')
        ctx.prove(ctx.same(n, name), 'asks about the name')
    for w in kinds:
        ctx.prove(w in ('check_setattr', 'check_getattr', 'check'), 'asks the checker')
    read = [w for w in kinds if w != 'check_setattr']
    ctx.prove(len(kinds) - len(read) <= 1 and len(read) <= 1, 'each question at most once')
    if which == 'canAccess':
        ctx.prove(len(read) == 1 and len(kinds) == 1, 'one read is asked about')
        ctx.prove(got == predict(ctx, None, checker.verdict)[1], 'the answer follows the check')
    else:
        ctx.prove(kinds[:1] == ['check_setattr'], 'a write is asked about')
        if len(kinds) == 2:
            ctx.prove(got == predict(ctx, 'forbidden', checker.verdict)[0],
                      'the answer follows the checks')
        else:
            ctx.prove(checker.verdict != 'forbidden', 'a forbidden write depends on the read')
            ctx.prove(got == predict(ctx, checker.verdict, None)[0], 'the answer follows the check')
    ctx.prove(not obj.changes, 'the object is not touched')
    ctx.note(got)
    ctx.cover(got)


@harness('C12', cases=(('canWrite',), ('canAccess',)), bounds=B)
def can_table(ctx, which):
    """With a permission table, against the table's own verdicts."""
    import zope.security.checker as c
    public = ctx.obj('public', c.CheckerPublic)
    dom = dict(none=True, strings=True, objs=(public,))
    gets, sets = ctx.dict('get', **dom), ctx.dict('set', **dom)
    checker = c.Checker(gets, sets)
    inter = Answers(ctx)
    install(ctx, inter)
    name = ctx.str('name')
    obj = WatchedIterable() if ctx.bool('iterable') else Watched()
    got = ask(ctx, getattr(c, which), c.ProxyFactory(obj, checker), name)
    k = 0
    default_ok = ctx.Or(ctx.member(name, DEFAULTS),
                        ctx.And(ctx.same(name, '__iter__'), not hasattr(obj, '__iter__')))
    write = read = None
    if which == 'canWrite':
        write, k = verdict(ctx, sets.get(name), public, False, inter, k)
    if which == 'canAccess' or write == 'forbidden':
        read, k = verdict(ctx, gets.get(name), public, default_ok, inter, k)
    want = predict(ctx, write, read)[0 if which == 'canWrite' else 1]
    ctx.prove(got == want, 'the answer follows the table', '%s %s' % (got, want))
    ctx.prove(len(inter.calls) == k, 'nothing else is asked')
    ctx.prove(not obj.changes, 'the object is not touched')
    ctx.note(got)
    ctx.cover(got)


# --------------------------------------------------------------------- C13

def declared(ctx, pairs):
    """None if two declarations conflict, else lookup function"""
    for i, (n, p) in enumerate(pairs):
        for m, q in pairs[:i]:
            if ctx.And(ctx.same(n, m), ctx.Not(ctx.same(p, q))):
                return None

    def lookup(name):
        for n, p in pairs:
            if ctx.same(n, name):
                return p
        return None
    return lookup


def conclude(ctx, build, pairs):
    from zope.exceptions import DuplicationError
    lookup = declared(ctx, pairs)
    try:
        checker = build()
    except DuplicationError:
        ctx.prove(lookup is None, 'duplication is reported only for conflicting declarations')
        ctx.note('duplicate')
        ctx.cover('duplicate')
        return
    ctx.prove(lookup is not None, 'conflicting declarations are refused')
    if lookup is None:
        return
    probe = ctx.str('probe')
    ctx.prove(ctx.same(checker.permission_id(probe), lookup(probe)),
              'every name has exactly its declared permission')
    ctx.prove(ctx.same(checker.setattr_permission_id(probe), None), 'no write is granted')
    ctx.note('built')
    ctx.cover('built')


@harness('C13', bounds='up to 3 listed names (thorough: 4) and up to 2 further name=permission '
                       'pairs; names: any string (the further names: fixed ones, which listed '
                       'names may equal); permissions: None, any string, the public marker')
def names_checker(ctx):
    from zope.security.checker import CheckerPublic
    from zope.security.checker import NamesChecker
    public = ctx.obj('public', CheckerPublic)
    dom = dict(none=True, strings=True, objs=(public,))
    n = ctx.choose('n', 4 if ctx.tier == 'quick' else 5)
    names = [ctx.str('name%d' % i) for i in range(n)]
    kw = {}
    for k in ('alpha', '__beta__')[:ctx.choose('further', 3)]:
        kw[k] = ctx.val('kw ' + k, **dom)
    how = ctx.choose('how', ['permission', 'default'])
    if how == 'permission':
        perm = ctx.val('permission', **dom)
        args = (perm,)
    else:
        perm = public
        args = ()
    as_ = ctx.choose('as', [list, iter])
    pairs = [(k, kw[k]) for k in sorted(kw)] + [(x, perm) for x in names]
    conclude(ctx, lambda: NamesChecker(as_(names), *args, **kw), pairs)


class AnInterface:
    """an interface as far as the constructors look at it"""

    def __init__(self, own, inherited):
        self.own, self.inherited = own, inherited

    def names(self, all=False):
        return list(self.own) + (list(self.inherited) if all else [])


@harness('C13', bounds='interfaces with one own and one inherited name of any text, permission '
                       'None, any string or public, one further pair')
def interface_checker(ctx):
    from zope.security.checker import CheckerPublic
    from zope.security.checker import InterfaceChecker
    public = ctx.obj('public', CheckerPublic)
    dom = dict(none=True, strings=True, objs=(public,))
    own, inh = ctx.str('own'), ctx.str('inherited')
    perm = ctx.val('permission', **dom)
    kw = {}
    if ctx.bool('further'):
        kw['alpha'] = ctx.val('kw', **dom)
    pairs = [(k, kw[k]) for k in sorted(kw)] + [(own, perm), (inh, perm)]
    iface = AnInterface([own], [inh])
    conclude(ctx, lambda: InterfaceChecker(iface, perm, **kw), pairs)


@harness('C13', cases=(('names',), ('interface',), ('real interface',), ('dict',)),
         bounds='up to 2 further specifications (thorough: 3) of each kind: two names and a '
                'permission, an interface and a permission, a two-entry dictionary; any names, '
                'permissions None, any string or public')
def multi_checker(ctx, first):
    from zope.interface import Attribute
    from zope.interface import Interface
    from zope.interface import directlyProvides
    from zope.interface.interface import InterfaceClass
    from zope.interface.interfaces import IInterface
    from zope.security.checker import CheckerPublic
    from zope.security.checker import MultiChecker
    public = ctx.obj('public', CheckerPublic)
    dom = dict(none=True, strings=True, objs=(public,))
    n = ctx.choose('n', 2 if ctx.tier == 'quick' else 3)
    specs, pairs = [], []
    for i in range(1 + n):
        kind = first if i == 0 else ctx.choose('kind%d' % i, ['names', 'interface', 'dict'])
        if kind == 'dict':
            d = ctx.bdict('dict%d' % i, 2, **dom)
            specs.append(d)
            pairs += list(d.items())
            continue
        perm = ctx.val('permission%d' % i, **dom)
        if kind == 'real interface':
            base = InterfaceClass('IBase', (Interface,), {'inherited': Attribute('x')})
            iface = InterfaceClass('IReal', (base,), {'own': Attribute('x')})
            specs.append((iface, perm))
            pairs += [('own', perm), ('inherited', perm)]
            continue
        a, b = ctx.str('a%d' % i), ctx.str('b%d' % i)
        if kind == 'interface':
            iface = AnInterface([a], [b])
            directlyProvides(iface, IInterface)
            specs.append((iface, perm))
        else:
            specs.append(([a, b], perm))
        pairs += [(a, perm), (b, perm)]
    conclude(ctx, lambda: MultiChecker(specs), pairs)


class Mapping:
    def get(self, k, d=None):
        return d

    def __getitem__(self, k):
        raise KeyError(k)

    def keys(self):
        return []


class SubDict(dict):
    pass


@harness('C13', bounds='a table of each kind: dict, subclass of dict, None, list, tuple, str, '
                       'int, set, mapping-like object, mapping proxy')
def only_dicts(ctx):
    import types
    from zope.security.checker import Checker
    bad = [None, [], (), '', 0, {1}, Mapping(), types.MappingProxyType({}), [('a', 'b')], object()]
    which = ctx.choose('which', ['get', 'set', 'ok', 'ok set', 'keywords'])
    if which in ('get', 'set'):
        b = bad[ctx.choose('bad', len(bad))]
        if which == 'set' and b is None:
            return
        try:
            Checker(b, {}) if which == 'get' else Checker({}, b)
        except TypeError:
            ctx.note('refused')
            ctx.cover('refused')
            return
        ctx.prove(False, 'tables that are no dictionaries are refused', type(b).__name__)
    elif which == 'ok':
        ctx.prove(Checker(SubDict(a='p')).permission_id('a') == 'p', 'subclasses of dict are used')
    elif which == 'ok set':
        ctx.prove(Checker({}, SubDict(a='p')).setattr_permission_id('a') == 'p',
                  'subclasses of dict are used')
    else:
        c = Checker(get_permissions={'a': 'p'}, set_permissions={'b': 'q'})
        ctx.prove(c.permission_id('a') == 'p' and c.setattr_permission_id('b') == 'q' and
                  c.permission_id('b') is None and c.setattr_permission_id('a') is None,
                  'tables are not mixed up')
    ctx.note('ok')


# --------------------------------------------------------------------- C32

class Like:
    """Compares equal to anything and prints like the public marker."""

    def __init__(self, text='CheckerPublic'):
        self.__name__ = text
        self.__module__ = 'zope.security.checker'

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 0

    def __str__(self):
        return 'CheckerPublic'
    __repr__ = __str__


@harness('C32', cases=(('check',), ('check_getattr',), ('check_setattr',)),
         bounds='permission: the marker, its unproxied core, a look-alike of its class, an '
                'object equal to everything, any string; any name')
def marker_in_tables(ctx, how):
    """Look-alikes of the marker are permissions like any other."""
    import zope.security.checker as c
    public = ctx.obj('public', c.CheckerPublic)
    core = ctx.obj('core', c.proxy.removeSecurityProxy(c.CheckerPublic))
    twin = ctx.obj('twin', type(core)('CheckerPublic', 'zope.security.checker'))
    like = ctx.obj('like', Like())
    name = ctx.str('name')
    perm = ctx.val('permission', strings=True, objs=(public, core, twin, like))
    table = {name: perm}
    checker = c.Checker({}, table) if how == 'check_setattr' else c.Checker(table)
    inter = Answers(ctx)
    install(ctx, inter)
    obj = Plain()
    got, exc = outcome(getattr(checker, how), obj, name)
    is_public = ctx.same(perm, public)
    if inter.calls:
        ctx.prove(ctx.Not(is_public), 'the marker needs no permission')
        ctx.prove(got == {'grant': 'ok', 'refuse': 'unauthorized', 'raise': 'raised'}[inter.given[0]],
                  'any other object is a permission')
    else:
        ctx.prove(is_public, 'any other object must be granted')
        ctx.prove(got == 'ok', 'the marker is public')
    ctx.note(got)


@harness('C32', bounds='look-alikes as above; both shipped policies and permission queries')
def marker_in_queries(ctx):
    import zope.security.checker as c
    import zope.security.management as m
    from zope.security.simplepolicies import ParanoidSecurityPolicy
    public = ctx.obj('public', c.CheckerPublic)
    core = ctx.obj('core', c.proxy.removeSecurityProxy(c.CheckerPublic))
    twin = ctx.obj('twin', type(core)('CheckerPublic', 'zope.security.checker'))
    like = ctx.obj('like', Like())
    perm = ctx.val('permission', strings=True, objs=(public, core, twin, like))

    class P:
        principal = Obj('nobody')
        interaction = None
    policy = ParanoidSecurityPolicy(P())
    ctx.prove(ctx.Iff(bool(policy.checkPermission(perm, Obj('o'))), ctx.same(perm, public)),
              'the policy grants the marker only')
    inter = Answers(ctx, options=('refuse',))
    ctx.prove(ctx.Iff(m.checkPermission(perm, Obj('o'), inter), ctx.same(perm, public)),
              'queries answer yes for the marker only')
    ctx.note('done')


@harness('C32', bounds='every pickle protocol, copy and deepcopy, both ways of protecting, '
                       'any extra table')
def marker_identity(ctx):
    import copy
    import pickle
    import zope.security.checker as c
    from zope.security.proxy import ProxyFactory
    p = c.CheckerPublic
    how = ctx.choose('how', 6 + pickle.HIGHEST_PROTOCOL)
    if how == 0:
        r = c.ProxyFactory(p)
    elif how == 1:
        r = ProxyFactory(p)
    elif how == 2:
        r = c.Checker({}).proxy(p)
    elif how == 3:
        r = copy.copy(p)
    elif how == 4:
        r = copy.deepcopy(p)
    else:
        r = pickle.loads(pickle.dumps(p, how - 5))
    ctx.prove(r is p, 'the marker stays itself', how)
    red = p.__reduce__()
    ctx.prove(red == 'CheckerPublic' and getattr(c, red) is p, 'it reduces to its global name')
    ctx.note(how)
