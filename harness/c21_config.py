"""Class and module protections (C21, C22, C23), permissions (C24) and
permission ids in configuration (C25)."""
import sys

from hlib import Obj
from sxlib import harness

PUBLIC = 'zope.Public'


class A:
    pass


class B(A):
    pass


class C:
    pass


def clean(ctx):
    from zope.testing.cleanup import cleanUp
    cleanUp()
    ctx.cleanup(cleanUp)


class Table:
    """What is declared for one class or module, as a list of assignments."""

    def __init__(self, gets=(), sets=()):
        self.get, self.set = list(gets), list(sets)

    @staticmethod
    def find(pairs, name, same):
        for n, p in reversed(pairs):
            if same(n, name):
                return p
        return None


def translated(ctx, perm, public):
    """the marker for the public permission's name"""
    return public if ctx.same(perm, PUBLIC) else perm


def compare(ctx, checker, table, probe, what):
    """checker (or None) against the declarations"""
    g = Table.find(table.get, probe, ctx.same) if table is not None else None
    s = Table.find(table.set, probe, ctx.same) if table is not None else None
    if checker is None:
        ctx.prove(table is None, what + ': protected as declared')
        return
    ctx.prove(ctx.same(checker.permission_id(probe), g), what + ': read permission as declared')
    ctx.prove(ctx.same(checker.setattr_permission_id(probe), s),
              what + ': set permission as declared')


# --------------------------------------------------------------------- C21

START = ['bare', 'protected']


@harness('C21', cases=tuple((o, s) for o in ('read', 'set', 'like') for s in START),
         quick_paths=20000,
         bounds='2 (thorough: 3) declarations (read permission, set permission, like another '
                'class) on a class, a subclass and an unrelated class; any names and permissions; '
                'the class unprotected or with one read and one set permission before')
def declarations(ctx, first, start):
    import zope.security.checker as c
    import zope.security.protectclass as pc
    clean(ctx)
    public = ctx.obj('public', c.CheckerPublic)
    classes = {'A': A, 'B': B, 'C': C}
    tables = {'A': None, 'B': None, 'C': None}
    if start == 'protected':
        n0, n1 = ctx.str('start read'), ctx.str('start set')
        p0 = ctx.val('start permission', strings=True, objs=(public,))
        c.defineChecker(A, c.Checker({n0: p0}, {n1: p0}))
        tables['A'] = Table([(n0, p0)], [(n1, p0)])
    before = {k: c.getCheckerForInstancesOf(v) for k, v in classes.items()}
    n = 2 if ctx.tier == 'quick' else 3
    for i in range(n):
        op = first if i == 0 else ctx.choose('op%d' % i, ['read', 'set', 'like'])
        k = ctx.choose('class%d' % i, ['A', 'B', 'C'] if i else ['A', 'B'])
        if op == 'like':
            m = ctx.choose('like%d' % i, [x for x in 'ABC' if x != k])
            pc.protectLikeUnto(classes[k], classes[m])
            if tables[m] is not None:
                if tables[k] is None:
                    tables[k] = Table()
                tables[k].get += tables[m].get
                tables[k].set += tables[m].set
        else:
            name = ctx.str('name%d' % i)
            perm = ctx.val('permission%d' % i, strings=True, objs=(public,))
            f = pc.protectName if op == 'read' else pc.protectSetAttribute
            f(classes[k], name, perm)
            if tables[k] is None:
                tables[k] = Table()
            side = tables[k].get if op == 'read' else tables[k].set
            side.append((name, translated(ctx, perm, public)))
    probe = ctx.str('probe')
    for k in 'ABC':
        checker = c.getCheckerForInstancesOf(classes[k])
        compare(ctx, checker, tables[k], probe, 'class')
        if before[k] is not None:
            ctx.prove(checker is before[k], 'an existing checker is kept')
    ctx.note(*[c.getCheckerForInstancesOf(classes[k]) is not None for k in 'ABC'])


# --------------------------------------------------------------------- C22

class Context:
    """A configuration context that records its actions."""
    info = ''

    def __init__(self):
        self.actions = []

    def action(self, discriminator, callable=None, args=(), kw=None, order=0, **other):
        self.actions.append((discriminator, callable, args, kw or {}, order))

    def run(self):
        """carry out what the directives of this package asked for"""
        for d, f, args, kw, order in sorted(self.actions, key=lambda a: a[4]):
            if f is not None and getattr(f, '__module__', '').startswith('zope.security'):
                f(*args, **kw)


class AnInterface:
    """an interface as far as the directives look at it"""
    __module__ = 'harness'
    __name__ = 'AnInterface'
    __doc__ = ''

    def __init__(self, own, inherited=()):
        self.own, self.inherited = list(own), list(inherited)

    def getName(self):
        return 'AnInterface'

    def names(self, all=False):
        return [n for n, d in self.namesAndDescriptions(all)]

    def namesAndDescriptions(self, all=False):
        return self.own + (self.inherited if all else [])

    def __iter__(self):
        return iter(self.names(True))

    def __getitem__(self, name):
        for n, d in self.namesAndDescriptions(True):
            if n == name:
                return d
        raise KeyError(name)

    get = queryDescriptionFor = getDescriptionFor = direct = __getitem__

    def __contains__(self, name):
        for n in self.names(True):
            if n == name:
                return True
        return False


class Field:
    def __init__(self, readonly):
        self.readonly = readonly

    def __lt__(self, other):
        return False


class Method:
    def __lt__(self, other):
        return False


def a_schema(ctx, tag, sizes):
    """A schema of up to two entries, own or inherited; fields or not.
    Returns it and the (name, writable) pairs."""
    from zope.interface import directlyProvides
    from zope.schema.interfaces import IField
    entries = ctx.choose(tag + ' entries', sizes)
    own, inherited, names = [], [], []
    for j, kind in enumerate(entries):
        name = ctx.str('%s %d' % (tag, j))
        for m, _ in names:
            ctx.assume(ctx.Not(ctx.same(m, name)))
        writable = False
        if 'field' in kind:
            readonly = ctx.bool('%s %d readonly' % (tag, j))
            d = Field(readonly)
            directlyProvides(d, IField)
            writable = ctx.Not(readonly)
        else:
            d = Method()
        (inherited if 'inherited' in kind else own).append((name, d))
        names.append((name, writable))
    return AnInterface(own, inherited), names


SCHEMAS = [('field',), ('inherited field',), ('method',), ('field', 'inherited method'),
           ('field', 'field')]
INTERFACES = [('method',), ('inherited method',), ('method', 'inherited method')]


EXTRAS = {
    'none': ['no', 'like', 'like bare', 'empty'],
    'attributes': ['no', 'like', 'like bare', 'set attributes'],
    'interface': ['no', 'like', 'attributes', 'interface', 'empty'],
    'set attributes': ['no', 'like', 'like bare', 'attributes', 'empty'],
    'set schema': ['no', 'like', 'attributes', 'set attributes', 'schema'],
}


@harness('C22', cases=(('none',), ('attributes',), ('interface',), ('set attributes',)) + tuple(
    ('set schema', e) for e in EXTRAS['set schema']),
         quick_paths=20000,
         bounds='one require directive with up to 2 attributes, up to 2 interfaces of up to 2 names '
                '(own and inherited), up to 2 settable attributes, or up to 2 schemas of up to 2 '
                'entries (fields read-only or not, methods, own and inherited), each alone or '
                'with one further kind or a class to mimic; permission missing, empty or any '
                'text; any names')
def require(ctx, focus, extra=None):
    import zope.security.checker as c
    from zope.configuration.exceptions import ConfigurationError
    from zope.security.metaconfigure import ClassDirective
    clean(ctx)
    public = ctx.obj('public', c.CheckerPublic)
    table = Table()
    kw = {}
    extra = extra or ctx.choose('extra', EXTRAS[focus])
    like = {'like': 'protected', 'like bare': 'bare'}.get(extra, 'no')
    if like == 'protected':
        n0, n1 = ctx.str('like read'), ctx.str('like set')
        c.defineChecker(C, c.Checker({n0: 'like.p'}, {n1: 'like.q'}))
        table.get.append((n0, 'like.p'))
        table.set.append((n1, 'like.q'))
    if like != 'no':
        kw['like_class'] = C
    perm = ctx.val('permission', none=True, strings=True)
    if ctx.bool('permission given'):
        kw['permission'] = perm
    else:
        perm = None
    gets, sets = [], []
    something = focus != 'none'
    if focus == 'attributes' or extra == 'attributes':
        k = ctx.choose('attributes', [1, 2]) if focus == 'attributes' else 1
        kw['attributes'] = [ctx.str('attribute %d' % j) for j in range(k)]
        gets += kw['attributes']
    elif extra == 'empty':
        kw['attributes'] = []
    if focus == 'interface':
        i, names = a_schema(ctx, 'interface', INTERFACES)
        kw['interface'] = [i]
        if extra == 'interface':
            j, more = a_schema(ctx, 'interface2', INTERFACES[:1])
            kw['interface'].append(j)
            names += more
        gets += [n for n, w in names]
    if focus == 'set attributes' or extra == 'set attributes':
        k = ctx.choose('set attributes', [1, 2]) if focus == 'set attributes' else 1
        kw['set_attributes'] = [ctx.str('set attribute %d' % j) for j in range(k)]
        sets += [(n, True) for n in kw['set_attributes']]
    if focus == 'set schema':
        i, names = a_schema(ctx, 'schema', SCHEMAS)
        kw['set_schema'] = [i]
        if extra == 'schema':
            j, more = a_schema(ctx, 'schema2', SCHEMAS[:1])
            kw['set_schema'].append(j)
            names += more
        sets += names
    context = Context()
    d = ClassDirective(context, B)
    try:
        d.require(context, **kw)
        got = 'ok'
    except ConfigurationError:
        got = 'refused'
    # an empty permission is no permission
    no_perm = ctx.Or(ctx.same(perm, None), ctx.same(perm, ''))
    if not something:
        ctx.prove((got == 'ok') == (like != 'no'), 'a directive that requires nothing is an error')
    else:
        ctx.prove(ctx.Iff(got == 'refused', no_perm), 'a missing permission is an error')
    if got == 'ok':
        context.run()
        p = translated(ctx, perm, public)
        probe = ctx.str('probe')
        g, s = Table.find(table.get, probe, ctx.same), Table.find(table.set, probe, ctx.same)
        for n in gets:
            if ctx.same(n, probe):
                g = p
        for n, writable in sets:
            if ctx.And(ctx.same(n, probe), writable):
                s = p
        checker = c.getCheckerForInstancesOf(B)
        if checker is None:
            ctx.prove(ctx.And(ctx.same(g, None), ctx.same(s, None)), 'declared names are protected')
        else:
            ctx.prove(ctx.same(checker.permission_id(probe), g),
                      'exactly the declared names are readable')
            ctx.prove(ctx.same(checker.setattr_permission_id(probe), s),
                      'exactly the declared names are settable')
        ctx.prove(c.getCheckerForInstancesOf(A) is None, 'other classes are not affected')
    ctx.note(got)
    ctx.cover(got)


class Yes:
    """a true value that is neither True nor equal to it"""


READONLY = [True, False, 1, 0, None, '', 'yes', Yes, Yes(), 2, [], [0]]


@harness('C22', bounds='schemas of a field whose readonly is any of 12 true and false values, '
                       'declared directly or by its class, own or inherited; any name')
def readonly_values(ctx):
    """Whether a field can be set is the truth of its readonly, whatever value that is."""
    import zope.security.checker as c
    from zope.interface import classImplements
    from zope.interface import directlyProvides
    from zope.schema.interfaces import IField
    from zope.schema.interfaces import ITextLine
    from zope.security.metaconfigure import ClassDirective
    clean(ctx)
    values = [READONLY[ctx.choose('readonly %d' % i, len(READONLY) if i == 0 else 2)]
              for i in range(2)]

    class MyField(Field):
        pass
    how = ctx.choose('declared', ['directly', 'by class', 'more specific'])
    if how == 'by class':
        classImplements(MyField, IField)
    fields = [MyField(v) for v in values]
    if how != 'by class':
        for f in fields:
            directlyProvides(f, IField if how == 'directly' else ITextLine)
    entries = [('one', fields[0]), ('two', fields[1])]
    schema = AnInterface([], entries) if ctx.bool('inherited') else AnInterface(entries)
    context = Context()
    ClassDirective(context, B).require(context, permission='p', set_schema=[schema])
    context.run()
    checker = c.getCheckerForInstancesOf(B)
    probe = ctx.str('probe')
    settable = [n for (n, f), v in zip(entries, values) if not v]
    if checker is None:
        ctx.prove(not settable, 'fields that are not read-only are settable')
        return
    ctx.prove(ctx.same(checker.setattr_permission_id(probe),
                       'p' if ctx.member(probe, settable) else None),
              'exactly the fields that are not read-only are settable')
    ctx.prove(ctx.same(checker.permission_id(probe), None), 'nothing is readable')


@harness('C22', cases=(('require',), ('allow',)),
         bounds='real schemas with inheritance, overriding, methods, attributes and fields of '
                'several types; any name')
def real_schemas(ctx, directive):
    import zope.security.checker as c
    from zope import schema
    from zope.interface import Attribute
    from zope.interface import Interface
    from zope.security.metaconfigure import ClassDirective
    clean(ctx)
    public = ctx.obj('public', c.CheckerPublic)

    class Root(Interface):
        text = schema.TextLine()
        fixed = schema.TextLine(readonly=True)
        opened = schema.Int(readonly=True)
        closed = schema.Int()
        hidden = schema.Int()
        attr = Attribute('an attribute')

        def method(a):
            """a method"""

    class Side(Interface):
        side = schema.Choice(values=[1, 2])
        sidefixed = schema.List(readonly=True)

    class Leaf(Root, Side):
        opened = schema.Int()
        closed = schema.Int(readonly=True)
        obj = schema.Object(Interface)
        hidden = Attribute('no field any more')

        def leaf():
            """another method"""
    ROOT = {'text': 1, 'fixed': 0, 'opened': 0, 'closed': 1, 'hidden': 1, 'attr': 0, 'method': 0}
    SIDE = {'side': 1, 'sidefixed': 0}
    LEAF = dict(ROOT, opened=1, closed=0, obj=1, hidden=0, leaf=0, **SIDE)
    which = [(Root, ROOT), (Side, SIDE), (Leaf, LEAF)]
    context = Context()
    kw, gets, sets = {}, [], []
    i, names = which[ctx.choose('interface', 3)]
    if directive == 'allow':
        kw['interface'] = [i]
        gets += names
    elif ctx.bool('read'):
        kw['interface'] = [i]
        gets += names
    if directive == 'require':
        kw['permission'] = 'p'
        if 'interface' not in kw or ctx.bool('set'):
            chosen = [which[k] for k in range(3) if ctx.bool('schema %d' % k)]
            kw['set_schema'] = [x for x, _ in chosen]
            for _, names in chosen:
                sets += [n for n in names if names[n]]
            if not chosen and 'interface' not in kw:
                return
    d = ClassDirective(context, B)
    getattr(d, directive)(context, **kw)
    context.run()
    checker = c.getCheckerForInstancesOf(B)
    probe = ctx.str('probe')
    if checker is None:
        ctx.prove(not gets and not sets, 'declared names are protected')
        return
    p = public if directive == 'allow' else 'p'
    ctx.prove(ctx.same(checker.permission_id(probe), p if ctx.member(probe, gets) else None),
              'exactly the declared names are readable')
    ctx.prove(ctx.same(checker.setattr_permission_id(probe),
                       p if ctx.member(probe, sets) else None),
              'exactly the fields that are not read-only are settable')


@harness('C22', bounds='an allow directive with up to 2 attributes and an interface of up to 2 '
                       'names; any names')
def allow(ctx):
    import zope.security.checker as c
    from zope.configuration.exceptions import ConfigurationError
    from zope.security.metaconfigure import ClassDirective
    clean(ctx)
    public = ctx.obj('public', c.CheckerPublic)
    kw, gets = {}, []
    k = ctx.choose('attributes', 3)
    if k:
        kw['attributes'] = [ctx.str('attribute %d' % j) for j in range(k)]
        gets += kw['attributes']
    if ctx.bool('interface too'):
        i, names = a_schema(ctx, 'interface', INTERFACES)
        kw['interface'] = [i]
        gets += [n for n, w in names]
    context = Context()
    d = ClassDirective(context, B)
    try:
        d.allow(context, **kw)
        got = 'ok'
    except ConfigurationError:
        got = 'refused'
    ctx.prove((got == 'ok') == bool(kw), 'allowing nothing is an error')
    if got == 'ok':
        context.run()
        checker = c.getCheckerForInstancesOf(B)
        probe = ctx.str('probe')
        ctx.prove(ctx.same(checker.permission_id(probe),
                           public if ctx.member(probe, gets) else None),
                  'exactly the declared names are public')
        ctx.prove(ctx.same(checker.setattr_permission_id(probe), None), 'nothing is settable')
    ctx.note(got)


KINDS = ['attributes', 'interface', 'set_attributes', 'set_schema']


@harness('C22', cases=tuple((k,) for k in KINDS),
         bounds='two declarations by separate directives on the same or different classes, each '
                'by name, interface or schema; any names')
def conflicts(ctx, kind0):
    from zope.interface import directlyProvides
    from zope.schema.interfaces import IField
    from zope.security.metaconfigure import ClassDirective
    import zope.security.protectclass as pc
    clean(ctx)
    made = []
    for i in range(2):
        context = Context()
        cls = ctx.choose('class%d' % i, [A, B])
        kind = kind0 if i == 0 else ctx.choose('kind1', KINDS)
        name = ctx.str('name%d' % i)
        perm = ctx.choose('perm%d' % i, ['p', 'q'])
        if kind in ('attributes', 'set_attributes'):
            v = [name]
        else:
            f = Field(False)
            directlyProvides(f, IField)
            v = [AnInterface([(name, f)])]
        ClassDirective(context, cls).require(context, permission=perm, **{kind: v})
        ds = [d for d, f, a, k, o in context.actions if d is not None and
              f in (pc.protectName, pc.protectSetAttribute)]
        ctx.prove(len(ds) == 1, 'one declaration each')
        made.append((cls, 'set' in kind, name, ds[0]))
    (c0, s0, n0, d0), (c1, s1, n1, d1) = made
    ctx.prove(ctx.Iff(d0 == d1, ctx.And(c0 is c1, s0 == s1, ctx.same(n0, n1))),
              'declarations conflict exactly for the same name, kind of access and class')
    ctx.note('done')


# --------------------------------------------------------------------- C23

@harness('C23', cases=tuple((s,) for s in START),
         bounds='2 (thorough: 3) declarations on two modules, any names and permissions; the '
                'module with or without a checker before')
def module_names(ctx, start):
    import types
    import zope.security.checker as c
    from zope.security.metaconfigure import protectModule
    clean(ctx)
    public = ctx.obj('public', c.CheckerPublic)
    mods = [types.ModuleType('harness_one'), types.ModuleType('harness_one.two')]
    tables = [None, None]
    for m in mods:
        sys.modules[m.__name__] = m

    def undo():
        for m in mods:
            del sys.modules[m.__name__]
        for m in mods:
            if c.moduleChecker(m) is not None:
                c.undefineChecker(m)
    ctx.cleanup(undo)
    if start == 'protected':
        n0 = ctx.str('start')
        c.defineChecker(mods[0], c.Checker({n0: 'start.p'}, {n0: 'start.q'}))
        tables[0] = Table([(n0, 'start.p')], [(n0, 'start.q')])
    before = c.moduleChecker(mods[0])
    for i in range(2 if ctx.tier == 'quick' else 3):
        k = ctx.choose('module%d' % i, 2)
        name = ctx.str('name%d' % i)
        perm = ctx.val('permission%d' % i, strings=True, objs=(public,))
        protectModule(mods[k], name, perm)
        if tables[k] is None:
            tables[k] = Table()
        tables[k].get.append((name, translated(ctx, perm, public)))
    probe = ctx.str('probe')
    for k in range(2):
        compare(ctx, c.moduleChecker(mods[k]), tables[k], probe, 'module')
    if before is not None:
        ctx.prove(c.moduleChecker(mods[0]) is before, 'an existing checker is kept')
    ctx.note(*[c.moduleChecker(m) is not None for m in mods])


@harness('C23', cases=(('allow',), ('require',)),
         bounds='up to 2 attributes and up to 2 interfaces with 1 and 2 names (one inherited), '
                'any names, any permission')
def module_directives(ctx, which):
    import types
    import zope.security.checker as c
    from zope.security import metaconfigure
    clean(ctx)
    public = ctx.obj('public', c.CheckerPublic)
    module = types.ModuleType('one')
    context = Context()
    context.module = module
    ctx.cleanup(lambda: c.undefineChecker(module) if c.moduleChecker(module) is not None else None)
    names = []
    kw = {}
    k = ctx.choose('attributes', 3)
    if k:
        kw['attributes'] = [ctx.str('attribute %d' % j) for j in range(k)]
        names += kw['attributes']
    n = ctx.choose('interfaces', 3)
    if n:
        kw['interface'] = []
        for j, kinds in zip(range(n), [('method',), ('method', 'inherited method')]):
            i, more = a_schema(ctx, 'interface%d' % j, [kinds])
            kw['interface'].append(i)
            names += [m for m, w in more]
    if which == 'allow':
        metaconfigure.allow(context, **kw)
        want = public
    else:
        perm = ctx.val('permission', strings=True)
        metaconfigure.require(context, permission=perm, **kw)
        want = translated(ctx, perm, public)
    acts = [a for a in context.actions if a[0] is not None]
    # one protection per distinct name
    for i, a in enumerate(acts):
        for b in acts[:i]:
            ctx.prove(ctx.Not(a[0] == b[0]), 'a name is declared once by one directive')
    distinct = []
    for x in names:
        if ctx.Not(ctx.member(x, distinct)):
            distinct.append(x)
    ctx.prove(len(acts) == len(distinct), 'one protection per distinct name')
    context.run()
    probe = ctx.str('probe')
    checker = c.moduleChecker(module)
    if checker is None:
        ctx.prove(not names, 'declared names are protected')
    else:
        ctx.prove(ctx.same(checker.permission_id(probe),
                           want if ctx.member(probe, names) else None),
                  'exactly the declared names are available')
        ctx.prove(ctx.same(checker.setattr_permission_id(probe), None), 'nothing is settable')
    # conflicts with another directive
    other = Context()
    other.module = module if ctx.bool('same module') else types.ModuleType(
        'one' if ctx.bool('same module name') else 'two')
    x = ctx.str('other name')
    metaconfigure.require(other, permission='other.p', attributes=[x])
    d = other.actions[0][0]
    clash = False
    for a in acts:
        clash = ctx.Or(clash, a[0] == d)
    ctx.prove(ctx.Iff(clash, ctx.And(other.module is module, ctx.member(x, names))),
              'directives conflict exactly for the same name of the same module')
    ctx.note(len(acts))


# --------------------------------------------------------------------- C24

class Registry:
    """A component registry with the given permissions."""

    def __init__(self, entries):
        self.entries = entries

    def getUtilitiesFor(self, interface):
        from zope.security.interfaces import IPermission
        if interface is IPermission:
            return [(n, p) for n, p in self.entries]
        return []

    def queryUtility(self, interface, name='', default=None):
        from zope.security.interfaces import IPermission
        if interface is IPermission:
            for n, p in self.entries:
                if n == name:
                    return p
        return default


POOL = ['some.id', 'Some.Id', 'zope.PublicView', 'zope.public', 'Zope.Public', 'a']


def registrations(ctx, most, which='any'):
    from zope.interface import directlyProvides
    from zope.interface.interfaces import IComponentLookup
    from zope.security.permission import Permission
    entries = []
    for i in range(ctx.choose('registered', most + 1)):
        if which == 'any':
            n = ctx.str('id%d' % i, maxlen=6, ascii=True)
        elif which == 'pool':
            n = ctx.choose('pool%d' % i, POOL)
        else:
            n = POOL[i]
        for m, _ in entries:
            ctx.assume(ctx.Not(ctx.same(m, n)))
        if which == 'odd':
            # A permission counts by the id it is registered under, whatever
            # it says of itself.
            said = ctx.choose('says%d' % i, [n, PUBLIC, '', POOL[0], 'elsewhere'])
            perm = Permission(said, ctx.choose('title%d' % i, ['', PUBLIC, 'A title']))
        else:
            perm = Obj('permission %d' % i)
        entries.append((n, ctx.obj('permission %d' % i, perm)))
    if ctx.bool('public registered'):
        entries.insert(ctx.choose('place', len(entries) + 1), (PUBLIC, Obj('public permission')))
    r = Registry(entries)
    directlyProvides(r, IComponentLookup)
    return r, entries


B24 = ('up to 2 (thorough: 3) registered permissions with any distinct printable ASCII ids of '
       'up to 6 characters, and the public one, registered or not, at any place; any queried id; also permissions '
       'which say that they have another id (the public one, an empty one, that of another '
       'permission) than the one they are registered under')


@harness('C24', cases=(('any',), ('pool',), ('odd',)), bounds=B24)
def existence(ctx, which):
    from zope.security.checker import CheckerPublic
    from zope.security.permission import checkPermission
    public = ctx.obj('public', CheckerPublic)
    reg, entries = registrations(ctx, 2 if ctx.tier == 'quick' else 3, which)
    pid = ctx.val('id', strings=True, objs=(public,))
    known = ctx.Or(ctx.same(pid, public), ctx.member(pid, [n for n, p in entries]))
    try:
        checkPermission(reg, pid)
        ctx.prove(known, 'an id that is not registered is an error')
        ctx.note('known')
    except ValueError as e:
        ctx.prove(ctx.Not(known), 'a registered id is no error')
        ctx.prove(ctx.same(e.args[-1], pid), 'the error names the id')
        ctx.note('unknown')


@harness('C24', cases=(('any',), ('pool',), ('odd',)), bounds=B24)
def listing(ctx, which):
    from zope.security.permission import allPermissions
    reg, entries = registrations(ctx, 2 if ctx.tier == 'quick' else 3, which)
    got = list(allPermissions(reg))
    want = [n for n, p in entries if ctx.Not(ctx.same(n, PUBLIC))]
    ctx.prove(len(got) == len(want), 'every registered id but the public one is listed once')
    for n in want:
        ctx.prove(ctx.member(n, got), 'every registered id but the public one is listed')
    ctx.note(len(got))


@harness('C24', cases=(('any',), ('pool',), ('odd',)), bounds=B24, quick_paths=10000)
def vocabularies(ctx, which):
    from zope.security.checker import CheckerPublic
    from zope.security.permission import PermissionIdsVocabulary
    from zope.security.permission import PermissionsVocabulary
    reg, entries = registrations(ctx, 2 if ctx.tier == 'quick' else 3, which)
    if ctx.bool('ids'):
        terms = list(PermissionIdsVocabulary(reg))
        ctx.prove(len(terms) == len(entries), 'one term per registered id')
        has = [n for n, p in entries if ctx.same(n, PUBLIC)]
        rest = terms
        if has:
            ctx.prove(terms[0].value is CheckerPublic, 'the public permission comes first')
            ctx.prove(ctx.same(terms[0].token, PUBLIC), 'under its id')
            rest = terms[1:]
        for n, p in entries:
            if ctx.Not(ctx.same(n, PUBLIC)):
                ctx.prove(ctx.member(n, [t.value for t in rest]), 'every id has a term')
        for t in rest:
            ctx.prove(ctx.And(ctx.same(t.token, t.value), ctx.same(t.title, t.value)),
                      'a term is labelled with its id')
        for a, b in zip(rest, rest[1:]):
            ctx.prove(a.value < b.value, 'terms are sorted by id')
    else:
        terms = list(PermissionsVocabulary(reg))
        ctx.prove(len(terms) == len(entries), 'one term per registered permission')
        for n, p in entries:
            found = [t for t in terms if t.value is p]
            ctx.prove(len(found) == 1 and ctx.same(found[0].token, n),
                      'every permission has a term labelled with its id')
    ctx.note(len(terms))


# --------------------------------------------------------------------- C25

IDS = ['zope.Public', 'some.id', 'other.id', 'http://example.com/id', 'zope.PublicView',
       'zope.Public.more', 'zope.public', 'Zope.Public', 'zope.Publi', 'some.zope.Public']


class Reading(Context):
    pass


@harness('C25', bounds='10 ids (public, dotted, URI, look-alikes of the public one); any '
                       'redefinition mapping or none')
def reading(ctx):
    """A permission id read from configuration."""
    from zope.security.permission import checkPermission
    from zope.security.zcml import Permission
    context = Reading()
    mapping = None
    if ctx.bool('redefinitions'):
        context.permission_mapping = mapping = ctx.dict('mapping', strings=True)
    value = ctx.choose('id', IDS)
    field = Permission().bind(context)
    got = field.fromUnicode(value)
    want = value
    if mapping is not None and ctx.member(value, mapping):
        want = mapping[value]
    ctx.prove(ctx.same(got, want), 'the id is what it was redefined to')
    checks = [a for a in context.actions if a[1] is checkPermission]
    ctx.prove(len(checks) == len(context.actions), 'nothing else is scheduled')
    if value == PUBLIC:
        ctx.prove(not checks, 'the public permission is never verified')
    else:
        ctx.prove(len(checks) >= 1, 'the id is verified')
        for d, f, args, kw, order in checks:
            ctx.prove(d is None, 'verification conflicts with nothing')
            ctx.prove(args[0] is None and args[1] == value, 'this id is verified')
            ctx.prove(order >= 1000000, 'after all other configuration')
    ctx.note(value)


@harness('C25', bounds='validation of the same 10 ids, given directly, with one of them '
                       'redefined to one of them')
def validating(ctx):
    from zope.security.permission import checkPermission
    from zope.security.zcml import Permission
    context = Context()
    value = ctx.choose('id', IDS)
    if ctx.bool('redefined'):
        context.permission_mapping = {ctx.choose('from', IDS): ctx.choose('to', IDS)}
    Permission().bind(context).validate(value)
    checks = [a for a in context.actions if a[1] is checkPermission]
    ctx.prove(len(checks) == (0 if value == PUBLIC else 1), 'every id but the public is verified')
    for d, f, args, kw, order in checks:
        ctx.prove(args[1] == value and d is None and order >= 1000000, 'after everything else')
    ctx.note(value)


@harness('C25', bounds='up to 3 redefinitions of any ids, in one context, then reading any id')
def redefining(ctx):
    from zope.security.zcml import redefinePermission

    class Enclosing:
        pass

    class Directive:
        pass
    outer = Enclosing()
    d = Directive()
    d.context = outer
    pairs = []
    for i in range(ctx.choose('n', 4)):
        f, t = ctx.str('from%d' % i), ctx.str('to%d' % i)
        redefinePermission(d, f, t)
        pairs.append((f, t))
    if not pairs:
        ctx.prove(not hasattr(outer, 'permission_mapping'), 'nothing is redefined')
        return
    probe = ctx.str('probe')
    ctx.prove(ctx.same(outer.permission_mapping.get(probe), Table.find(pairs, probe, ctx.same)),
              'redefinitions accumulate, the last one wins')
    ctx.prove(not hasattr(d, 'permission_mapping'), 'on the enclosing context')
    ctx.note(len(pairs))


@harness('C25', bounds='any policy; permission ids from 10, any title and description')
def directives(ctx):
    import zope.security.management as m
    from zope.component import getUtilitiesFor
    from zope.component import queryUtility
    from zope.security.interfaces import IPermission
    from zope.security.zcml import permission
    from zope.security.zcml import securityPolicy
    clean(ctx)
    old = m.getSecurityPolicy()
    ctx.cleanup(lambda: m.setSecurityPolicy(old))
    if ctx.bool('policy'):
        policies = [Obj('policy'), Obj('another')]
        context = Context()
        p = ctx.choose('which', policies)
        securityPolicy(context, p)
        ctx.prove(m.getSecurityPolicy() is old, 'nothing happens before execution')
        context.run()
        ctx.prove(m.getSecurityPolicy() is p, 'exactly the named policy is installed')
        again = Context()
        securityPolicy(again, policies[0])
        ctx.prove(again.actions[0][0] is not None and
                  again.actions[0][0] == context.actions[0][0], 'two policies conflict')
        ctx.note('policy')
        return
    pid = ctx.choose('id', IDS)
    title, desc = ctx.str('title'), ctx.str('description')
    context = Context()
    if ctx.bool('described'):
        permission(context, pid, title, desc)
    else:
        permission(context, pid, title)
        desc = ''
    for d, f, args, kw, order in context.actions:
        f(*args, **kw)
    all_ = list(getUtilitiesFor(IPermission))
    ctx.prove(len(all_) == 1, 'exactly one permission is registered')
    p = queryUtility(IPermission, pid)
    ctx.prove(p is not None, 'under the given id')
    ctx.prove(ctx.And(ctx.same(p.id, pid), ctx.same(p.title, title),
                      ctx.same(p.description, desc)), 'with the given id, title and description')
    ctx.note('permission')
