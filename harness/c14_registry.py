"""The checker registry (C14), the shipped protections (C15), watching (C29)."""
from hlib import DEFAULTS
from hlib import Answers
from hlib import install
from hlib import outcome
from sxlib import harness


# --------------------------------------------------------------------- C14

class Base:
    pass


class Derived(Base):
    pass


class Model:
    """What the registry should hold for the keys the harness uses."""

    def __init__(self, shipped):
        self.shipped = dict(shipped)
        self.reg = dict(shipped)
        self.basic = {}


STEPS = ['define', 'define', 'define', 'define bad', 'undefine', 'undefine',
         'basic set', 'basic update', 'basic del', 'basic clear', 'cleanup']
OPS14 = ['define Base', 'define Derived', 'define module', 'define Base again',
         'define bad instance', 'define bad name', 'define bad None',
         'undefine Base', 'undefine Derived', 'undefine module',
         'basic set Base', 'basic set checker', 'basic update', 'basic del', 'basic clear',
         'cleanup']


@harness('C14', bounds='registrations of any kind (a checker, a false one, a factory, the '
                       'marker for no protection, None) for a class and for a module')
def registered_values(ctx):
    """Whatever is registered, a second registration is refused."""
    import types
    import zope.security.checker as c
    from zope.exceptions import DuplicationError

    class False_(c.Checker):
        def __bool__(self):
            return False

    class Key:
        pass

    def factory(o):
        return None
    key = types.ModuleType('some.module') if ctx.bool('module') else Key
    values = [c.Checker({}), False_({}), factory, c.NoProxy, None]
    ctx.cleanup(lambda: c._checkers.pop(key, None))
    one, two = ctx.choose('first', values), ctx.choose('second', values)
    look = c.moduleChecker if key is not Key else c.getCheckerForInstancesOf
    c.defineChecker(key, one)
    ctx.prove(look(key) is one, 'registered')
    got, exc = outcome(c.defineChecker, key, two)
    ctx.prove(isinstance(exc, DuplicationError), 'a second registration is refused')
    ctx.prove(look(key) is one, 'and changes nothing')
    c.undefineChecker(key)
    ctx.prove(look(key) is None, 'undefined')
    got, exc = outcome(c.undefineChecker, key)
    ctx.prove(isinstance(exc, KeyError), 'nothing left to undefine')
    c.defineChecker(key, two)
    ctx.prove(look(key) is two, 'it can be registered again')
    ctx.note(got)


@harness('C14', cases=tuple((o,) for o in OPS14), thorough_paths=100000,
         bounds='operation sequences of length 3 (thorough: 4) over define, undefine, basic '
                'type set/update/delete/clear and clean-up, for a class, a subclass of it, a '
                'module and keys that are neither')
def registry(ctx, first):
    """Operation sequences against a model of the registry."""
    import types
    import zope.security.checker as c
    from zope.exceptions import DuplicationError
    from zope.testing.cleanup import cleanUp
    module = types.ModuleType('some.module')
    keys = [Base, Derived, module]
    ca, cb = c.Checker({'a': c.CheckerPublic}), c.Checker({'b': c.CheckerPublic})
    cleanUp()

    def undo():
        for k in keys:
            if k in c.BasicTypes:
                dict.__delitem__(c.BasicTypes, k)
        cleanUp()
    ctx.cleanup(undo)
    reg = {}                 # key -> value
    basic = {}
    sizes = (len(c._checkers), len(c.BasicTypes))
    probes = [int, str, dict, list, type, types.ModuleType, object]
    shipped = [(t, c.getCheckerForInstancesOf(t)) for t in probes]
    default = c.selectChecker(Base())

    def expect(what):
        for k in keys:
            got = c.moduleChecker(k) if k is module else c.getCheckerForInstancesOf(k)
            ctx.prove(got is reg.get(k), 'lookup reports exactly the registration', what)
        for k in (Base, Derived):
            r = reg.get(k)
            want = default if r is None else None if r is c.NoProxy else r
            o = k()
            ctx.prove(c.selectChecker(o) is want, 'selection follows at once', what)
            ctx.prove(c._instanceChecker(o) is (default if r is None else r),
                      "lookup by an instance's class reports the registration", what)
        want = reg.get(module, None)
        got = c.selectChecker(module)
        if want is not None:
            ctx.prove(got is want, "a module is protected by its own checker", what)
        else:
            ctx.prove(got is not None and got is not ca and got is not cb,
                      'other modules by the default for modules', what)
        for t, r in shipped:
            ctx.prove(c.getCheckerForInstancesOf(t) is r, 'other types are not affected', what)
        ctx.prove(len(c._checkers) == sizes[0] + len(reg), 'nothing else is registered', what)
        ctx.prove(len(c.BasicTypes) == sizes[1] + len(basic), 'basic types are as told', what)
        for k in keys:
            ctx.prove(dict.get(c.BasicTypes, k) is basic.get(k), 'basic types are as told', what)

    expect('fresh')
    ops = [first] + [ctx.choose('op%d' % i, OPS14)
                     for i in range(1, 3 if ctx.tier == 'quick' else 4)]
    for op in ops:
        word, _, arg = op.partition(' ')
        got = 'ok'
        want = 'ok'
        if word == 'define':
            key = {'Base': Base, 'Base again': Base, 'Derived': Derived, 'module': module,
                   'bad instance': Base(), 'bad name': 'Base', 'bad None': None}[arg]
            checker = cb if arg == 'Base again' else ca
            if arg.startswith('bad'):
                want = TypeError
            elif key in reg:
                want = DuplicationError
            else:
                reg[key] = checker
            try:
                c.defineChecker(key, checker)
            except Exception as e:
                got = type(e)
        elif word == 'undefine':
            key = {'Base': Base, 'Derived': Derived, 'module': module}[arg]
            if key in reg:
                del reg[key]
            else:
                want = KeyError
            try:
                c.undefineChecker(key)
            except Exception as e:
                got = type(e)
        elif op == 'basic set Base':
            c.BasicTypes[Base] = c.NoProxy
            basic[Base] = reg[Base] = c.NoProxy
        elif op == 'basic set checker':
            c.BasicTypes[Base] = cb
            basic[Base] = reg[Base] = cb
        elif op == 'basic update':
            c.BasicTypes.update({Derived: c.NoProxy, Base: ca})
            basic[Derived] = reg[Derived] = c.NoProxy
            basic[Base] = reg[Base] = ca
        elif op == 'basic del':
            if Base in basic and Base not in reg:
                ctx.assume(False)     # undefined behind the back of the basic types
            if Base in basic:
                del basic[Base], reg[Base]
            else:
                want = KeyError
            try:
                del c.BasicTypes[Base]
            except Exception as e:
                got = type(e)
        elif op == 'basic clear':
            want = NotImplementedError
            try:
                c.BasicTypes.clear()
            except Exception as e:
                got = type(e)
        else:
            cleanUp()
            reg.clear()
            reg.update(basic)
        ctx.prove(got is want or got == want, op + ': outcome', '%s %s' % (got, want))
        expect(op)
    ctx.note('done', *[len(reg), len(basic)])


OPS14S = ['basic set', 'basic update', 'basic del', 'cleanup', 'undefine', 'define',
          'define same', 'update other', 'set other']


@harness('C14', cases=tuple((o,) for o in OPS14S),
         bounds='operation sequences of length 4 (thorough: 5) over define, undefine, basic type '
                'set/update/delete and clean-up for a type with a shipped checker (list) and a '
                'shipped basic type (int); other types change in between')
def shipped_types(ctx, first):
    """The same for types that come with a registration."""
    import zope.security.checker as c
    from zope.exceptions import DuplicationError
    from zope.testing.cleanup import cleanUp
    cleanUp()
    start = dict(c._checkers)
    basics = dict(c.BasicTypes)
    key = ctx.choose('type', [list, int])

    def undo():
        if key in basics:
            dict.__setitem__(c.BasicTypes, key, basics[key])
        elif key in c.BasicTypes:
            dict.__delitem__(c.BasicTypes, key)
        dict.pop(c.BasicTypes, Base, None)
        cleanUp()
    ctx.cleanup(undo)
    other = None
    ca = c.Checker({'a': c.CheckerPublic})
    value = key()
    shipped = start[key]
    reg, basic = shipped, basics.get(key)
    ops = [first] + [ctx.choose('op%d' % i, OPS14S)
                     for i in range(1, 4 if ctx.tier == 'quick' else 5)]
    for op in ops:
        want = got = None
        try:
            if op == 'basic set':
                reg = basic = ca
                c.BasicTypes[key] = ca
            elif op == 'basic update':
                reg = basic = c.NoProxy
                c.BasicTypes.update({key: c.NoProxy})
            elif op == 'basic del':
                if basic is not None and reg is None:
                    ctx.assume(False)
                if basic is None:
                    want = KeyError
                else:
                    reg = basic = None
                del c.BasicTypes[key]
            elif op == 'cleanup':
                # int is shipped as a basic type only
                reg = basic if basic is not None else shipped if key is list else None
                cleanUp()
            elif op == 'update other':
                other = c.NoProxy
                c.BasicTypes.update({Base: other})
            elif op == 'set other':
                other = ca
                c.BasicTypes[Base] = other
            elif op == 'undefine':
                want = KeyError if reg is None else None
                reg = None
                c.undefineChecker(key)
            else:
                checker = reg if op == 'define same' and reg is not None else ca
                want = DuplicationError if reg is not None else None
                if reg is None:
                    reg = checker
                c.defineChecker(key, checker)
        except Exception as e:
            got = type(e)
        ctx.prove(got is want, op + ': outcome', '%s %s' % (got, want))
        ctx.prove(c.getCheckerForInstancesOf(key) is reg, 'lookup reports the registration', op)
        selected = c.selectChecker(value)
        ctx.prove(selected is (None if reg is c.NoProxy else c._defaultChecker if reg is None
                               else reg), 'selection follows at once', op)
        ctx.prove(dict.get(c.BasicTypes, key) is basic, 'basic types are as told', op)
        now = dict(c._checkers)
        now.pop(key, None)
        ctx.prove(now.pop(Base, None) is other, 'the other type is as told', op)
        ctx.prove(len(now) == len(start) - 1 and all(now.get(k) is v for k, v in start.items()
                                                     if k is not key),
                  'every other registration stays', op)
    ctx.note('done')


# --------------------------------------------------------------------- C15

ITER = {'next', '__next__', '__iter__', '__len__', '__length_hint__', '__reversed__',
        '__contains__', '__getitem__', '__str__', 'count', 'index'}
SETOPS = {'__and__', '__or__', '__sub__', '__xor__', '__rand__', '__ror__', '__rsub__',
          '__rxor__'}
COPY = {'copy', '__copy__', '__deepcopy__'}
TEXT = {'__str__', '__repr__', '__format__', '__name__', '__qualname__', '__doc__', '__module__'}
TAGS = {'getTaggedValue', 'queryTaggedValue', 'getTaggedValueTags', 'getDirectTaggedValue',
        'queryDirectTaggedValue', 'getDirectTaggedValueTags', 'getDoc', 'getName'}
# subscribe/unsubscribe: bookkeeping of dependents that adapter lookup needs
SPEC = {'__bases__', '__iro__', '__sro__', '__contains__', '__iter__', '__len__', '__nonzero__',
        '__add__', '__sub__', '_implied', 'extends', 'flattened', 'get', 'implementedBy',
        'isOrExtends', 'providedBy', 'weakref', 'interfaces', 'subscribe', 'unsubscribe'}

# names that may be available, by kind of object: reading and computing only
SAFE = {
    'dict': ITER | COPY | TEXT | {'get', 'has_key', 'keys', 'values', 'items', 'iterkeys',
                                  'itervalues', 'iteritems', '__or__', '__ror__'},
    'list': ITER | COPY | TEXT | {'__add__', '__radd__', '__mul__', '__rmul__'},
    'tuple': ITER | COPY | TEXT | {'__add__', '__radd__', '__mul__', '__rmul__'},
    'set': ITER | COPY | TEXT | SETOPS | {
        'difference', 'intersection', 'issubset', 'issuperset', 'symmetric_difference', 'union',
        'isdisjoint'},
    'view': ITER | TEXT | SETOPS | {'isdisjoint'},
    'decimal': TEXT | COPY | {
        '__cmp__', '__neg__', '__pos__', '__abs__', '__add__', '__radd__', '__sub__', '__rsub__',
        '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__divmod__', '__rdivmod__',
        '__mod__', '__rmod__', '__floordiv__', '__rfloordiv__', '__float__', '__int__',
        '__pow__', '__rpow__', '__round__', '__trunc__', '__floor__', '__ceil__', '__complex__'},
    'callable': TEXT | {'__call__'},
    'iterator': ITER | TEXT,
    'type': TEXT | {'__bases__', '__mro__', '__implemented__', '__base__'},
    'module': TEXT,
    'weakref': TEXT | {'__call__'},
    'interface': TEXT | TAGS | SPEC | {
        '__getitem__', 'direct', 'names', 'namesAndDescriptions', 'validateInvariants',
        'getBases', 'getDescriptionFor', 'queryDescriptionFor', '__identifier__', '__call__'},
    'attribute': TEXT | TAGS | {'getSignatureInfo', 'getSignatureString', 'interface',
                                'positional', 'required', 'optional', 'varargs', 'kwargs'},
    'declaration': TEXT | SPEC | {'__call__'},
    'basic': set(),
}
# documented reads that stay available
READS = {
    'dict': ['__getitem__', '__len__', '__iter__', '__contains__', 'get', 'keys', 'values',
             'items', 'copy', '__str__'],
    'list': ['__getitem__', '__len__', '__iter__', '__contains__', 'index', 'count', '__add__',
             '__radd__', '__str__'],
    'tuple': ['__getitem__', '__len__', '__iter__', '__contains__', '__add__', '__radd__',
              '__str__'],
    'set': ['__iter__', '__len__', '__contains__', 'copy', 'difference', 'intersection',
            'issubset', 'issuperset', 'symmetric_difference', 'union', '__and__', '__or__',
            '__sub__', '__xor__', '__rand__', '__ror__', '__rsub__', '__rxor__', '__str__'],
}


def public_names(o):
    return {n for n in dir(o) if not n.startswith('_')}


def samples():
    """kind and instance, by label"""
    import collections
    import decimal
    import io
    import itertools
    import types
    import weakref
    from zope.interface import Attribute
    from zope.interface import Interface
    from zope.interface import classImplements
    from zope.interface import directlyProvides
    from zope.interface.declarations import Declaration
    import abc
    import BTrees

    class IFace(Interface):
        attr = Attribute('x')

        def meth(a):
            """x"""

    class Cls:
        def meth(self):
            pass

        def __iter__(self):
            return iter(())

    class Seq:
        def __getitem__(self, i):
            raise IndexError
    classImplements(Cls, IFace)

    def func():
        pass

    def gen():
        yield 1
    directlyProvides(Seq, IFace)
    od = collections.OrderedDict({1: 2})
    bt = BTrees.OOBTree.OOBTree({1: 2})
    d = {1: 2}
    out = {
        'dict': ('dict', d), 'list': ('list', [1]), 'tuple': ('tuple', (1,)),
        'set': ('set', {1}), 'frozenset': ('set', frozenset((1,))),
        'decimal': ('decimal', decimal.Decimal(1)),
        'keys': ('view', d.keys()), 'values': ('view', d.values()), 'items': ('view', d.items()),
        'function': ('callable', func), 'method': ('callable', Cls().meth),
        'builtin': ('callable', len), 'builtin method': ('callable', [].append),
        'c method': ('callable', io.BytesIO().getbuffer),
        'method-wrapper': ('callable', ().__repr__),
        'class': ('type', Cls), 'abc': ('type', abc.ABCMeta('A', (), {})),
        'module': ('module', types.ModuleType('m')),
        'weakref': ('weakref', weakref.ref(Seq())),
        'generator': ('iterator', gen()), 'list iterator': ('iterator', iter([])),
        'tuple iterator': ('iterator', iter(())), 'key iterator': ('iterator', iter({})),
        'value iterator': ('iterator', iter(d.values())),
        'item iterator': ('iterator', iter(d.items())),
        'set iterator': ('iterator', iter(set())), 'sequence iterator': ('iterator', iter(Seq())),
        'ordered keys': ('view', od.keys()), 'ordered values': ('view', od.values()),
        'ordered items': ('view', od.items()), 'ordered iterator': ('iterator', iter(od)),
        'btree items': ('view', bt.items()), 'btree iterator': ('iterator', iter(bt)),
        'count': ('iterator', itertools.count()), 'groupby': ('iterator', itertools.groupby([0])),
        'tee': ('iterator', itertools.tee(())[0]), 'islice': ('iterator', itertools.islice((), 1)),
        'interface': ('interface', IFace), 'interface method': ('attribute', IFace['meth']),
        'declaration': ('declaration', Declaration(IFace)),
        'class provides': ('declaration', Seq.__provides__),
    }
    return out


LABELS = ['dict', 'list', 'tuple', 'set', 'frozenset', 'decimal', 'keys', 'values', 'items',
          'function', 'method', 'builtin', 'builtin method', 'c method', 'method-wrapper',
          'class', 'abc', 'module', 'weakref', 'generator', 'list iterator', 'tuple iterator',
          'key iterator', 'value iterator', 'item iterator', 'set iterator', 'sequence iterator',
          'ordered keys', 'ordered values', 'ordered items', 'ordered iterator', 'btree items',
          'btree iterator', 'count', 'groupby', 'tee', 'islice', 'interface',
          'interface method', 'declaration', 'class provides']


@harness('C15', cases=(('check',), ('check_getattr',), ('check_setattr',)), quick_paths=20000,
         bounds='one sample object of each of 41 kinds with shipped protections; any name; an '
                'interaction that grants everything it is asked')
def shipped(ctx, how):
    """Whatever the name, nothing that modifies is available."""
    import zope.security.checker as c
    label = ctx.choose('kind', LABELS)
    kind, obj = samples()[label]
    inter = Answers(ctx, options=('grant',))
    install(ctx, inter)
    name = ctx.str('name')
    checker = c.selectChecker(obj)
    ctx.prove(checker is not None, 'the object is protected')
    got, exc = outcome(getattr(checker, how), obj, name)
    if how == 'check_setattr':
        ctx.prove(got == 'forbidden', 'nothing can be set or deleted')
    else:
        if got == 'ok':
            safe = set(SAFE[kind])
            if kind == 'decimal':
                safe |= public_names(obj)      # decimals are immutable
            ctx.prove(ctx.Or(ctx.member(name, sorted(safe)), ctx.member(name, DEFAULTS),
                             ctx.And(ctx.same(name, '__iter__'), not hasattr(obj, '__iter__'))),
                      'only reading and computing is available')
        else:
            ctx.prove(got == 'forbidden', 'anything else is forbidden')
            ctx.prove(ctx.Not(ctx.member(name, READS.get(kind, ()))),
                      'documented reads are available')
    ctx.note(label, got)
    ctx.cover(got)


@harness('C15', cases=(('check',), ('check_getattr',), ('check_setattr',)),
         bounds='any name; any permission table without that name')
def always_available(ctx, how):
    """Names available without declaration are introspection only."""
    import zope.security.checker as c
    install(ctx, Answers(ctx, options=('grant',)))
    name = ctx.str('name')
    other = ctx.str('declared')
    ctx.assume(ctx.Not(ctx.same(name, other)))
    table = {other: c.CheckerPublic}
    which = ctx.choose('checker', ['default', 'table'])
    obj = Base()
    checker = c.selectChecker(obj) if which == 'default' else c.Checker(table, table)
    got, exc = outcome(getattr(checker, how), obj, name)
    if got == 'ok':
        ctx.prove(ctx.And(how != 'check_setattr', ctx.Or(
            ctx.member(name, DEFAULTS), ctx.same(name, '__iter__'))),
            'only introspection is always available')
    ctx.note(got)
    ctx.cover(got)


# --------------------------------------------------------------------- C29

class Unprintable:
    def __init__(self, error):
        self.error = error

    def __repr__(self):
        raise self.error


def printable_or_not(ctx):
    how = ctx.choose('prints', ['yes', ValueError, KeyError, AttributeError, RuntimeError,
                                'an exception of its own'])
    if how == 'yes':
        return Base()
    if how == 'an exception of its own':
        class how(Exception):
            pass
    return Unprintable(how('no text'))


class Log:
    def __init__(self):
        self.lines = []

    def write(self, text):
        self.lines.append(text)


@harness('C29', sym=('watch1', 'watch2'),
         cases=(('check',), ('check_getattr',), ('setitem',), ('check_setattr',)),
         bounds='any name, any tables, any answers of the interaction; verbosity 0 to 3; '
                'objects that print and one that does not')
def watching(ctx, how):
    """The watching checker against the plain one on the same question."""
    import zope.security.checker as c
    public = ctx.obj('public', c.CheckerPublic)
    dom = dict(none=True, strings=True, objs=(public,))
    gets, sets = ctx.dict('get', **dom), ctx.dict('set', **dom)
    ctx.prove(c.Checker is c.WatchingChecker, 'checkers are watched')
    plain_type = [t for t in c.Checker.__mro__ if t.__name__ in ('CheckerPy', 'Checker')][0]
    watched = c.Checker(gets, sets)
    plain = plain_type(gets, sets)
    verbosity = ctx.choose('verbosity', ['as is', 0, 1, 2, 3])
    if verbosity == 'as is':
        verbosity = c.WATCH_CHECKERS
    else:
        watched.verbosity = verbosity
    log = watched._file = Log()
    name = ctx.str('name')
    obj = printable_or_not(ctx)
    inter = Answers(ctx)

    def run(checker, i):
        install(ctx, i)
        if how == 'setitem' and hasattr(type(checker), '__setitem__'):
            def f(obj, name):
                checker[obj] = name
        else:
            f = getattr(checker, 'check' if how == 'setitem' else how)
        return outcome(f, obj, name)
    got, exc = run(plain, inter)
    second = inter.again()
    got2, exc2 = run(watched, second)
    ctx.prove(got2 == got, 'the same outcome', '%s %s' % (got, got2))
    if got != 'ok':
        ctx.prove(type(exc2) is type(exc) and exc2.__cause__ is exc.__cause__,
                  'the same error')
    if got == 'raised':
        ctx.prove(exc2 is exc, 'the same error')
    ctx.prove(len(second.calls) == len(inter.calls), 'the same questions')
    for (p, o), (q, r) in zip(inter.calls, second.calls):
        ctx.prove(ctx.And(ctx.same(p, q), o is r), 'the same questions')
    if got in ('forbidden', 'unauthorized'):
        ctx.prove(len(exc.args) == len(exc2.args), 'the same error')
        for x, y in zip(exc.args, exc2.args):
            ctx.prove(ctx.same(x, y), 'the same error')
        text = ''.join(log.lines)
        ctx.prove(len(log.lines) == (1 if verbosity >= 1 else 0), 'a refusal is reported once')
        if verbosity >= 1:
            word = {'forbidden': 'Forbidden', 'unauthorized': 'Unauthorized'}[got]
            ctx.prove(word in text, 'with its kind')
            ctx.prove(('%s' % name) in text, 'with the name')
            if isinstance(obj, Base):
                ctx.prove(repr(obj) in text, 'with the object')
    elif got == 'ok':
        ctx.prove(len(log.lines) == (1 if verbosity >= 2 else 0),
                  'grants are reported at the higher verbosity only')
    ctx.note(got, len(log.lines))
    ctx.cover(got)


@harness('C29', sym=('watch1', 'watch2'),
         cases=(('check',), ('check_getattr',), ('setitem',), ('check_setattr',)),
         bounds='combinations of two table checkers with any tables, any answers')
def watching_combined(ctx, how):
    """A watched combination against the outcome table of combinations."""
    import zope.security.checker as c
    public = ctx.obj('public', c.CheckerPublic)
    dom = dict(none=True, strings=True, objs=(public,))
    read = how != 'check_setattr'
    tables = [ctx.dict('table%d' % i, **dom) for i in range(2)]
    cs = [c.Checker(t) if read else c.Checker({}, t) for t in tables]
    both = c.CombinedChecker(*cs)
    for x in cs + [both]:
        x._file = Log()
    name = ctx.str('name')
    obj = printable_or_not(ctx)
    inter = Answers(ctx)
    install(ctx, inter)
    if how == 'setitem':
        def f(obj, name):
            both[obj] = name
    else:
        f = getattr(both, how)
    got, exc = outcome(f, obj, name)
    default_ok = ctx.Or(ctx.member(name, DEFAULTS), ctx.same(name, '__iter__')) if read else False
    k = 0
    vs = []
    for t in tables:
        perm = t.get(name)
        if ctx.same(perm, public):
            v = 'ok'
        elif ctx.same(perm, None):
            v = 'ok' if default_ok else 'forbidden'
        else:
            ctx.prove(k < len(inter.given), 'a permission is asked for')
            v = {'grant': 'ok', 'refuse': 'unauthorized', 'raise': 'raised'}[inter.given[k]]
            k += 1
        vs.append(v)
        if v in ('ok', 'raised'):
            break
    if vs == ['unauthorized', 'forbidden']:
        want = 'unauthorized'
    else:
        want = vs[-1]
    ctx.prove(got == want, 'the same outcome', '%s %s' % (got, want))
    ctx.prove(len(inter.calls) == k, 'the same questions')
    ctx.note(got)
    ctx.cover(got)
