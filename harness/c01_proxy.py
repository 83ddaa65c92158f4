"""Proxies: attributes (C01), operators (C02), results (C03), fidelity (C04),
comparison, hash and truth (C05), text (C06), opacity (C07)."""
import operator

from hlib import fresh
from sxlib import harness

INTERNAL = ('_wrapped', '_checker')


class World:
    """What happens on one path: a log of events and the freely chosen
    answers of everybody involved."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.log = []
        self.memo = {}

    def pick(self, key, options):
        if key not in self.memo:
            self.memo[key] = self.ctx.choose(key, options)
        return self.memo[key]

    def exception(self, key):
        k = 'exception', key
        if k not in self.memo:
            self.memo[k] = LookupError(key)
        return self.memo[k]

    def result(self, key, options, value):
        """value, or what else is chosen for key"""
        what = self.pick(key, options)
        if what == 'raise':
            raise self.exception(key)
        if what == 'not implemented':
            return NotImplemented
        return value(what)

    def run(self, f, *args, **kw):
        """(outcome, value or exception, events)"""
        self.log = []
        try:
            kind, r = 'ok', f(*args, **kw)
        except Exception as e:
            kind, r = 'raised', e
        log, self.log = self.log, []
        return kind, r, log


class Wrapped:
    """What a checker makes of a result."""

    def __init__(self, value):
        self.value = value

    def __iter__(self):
        return self

    def __next__(self):
        raise StopIteration

    def __bool__(self):
        raise AssertionError('result used')


PLAIN = (bool, int, str, type(None), type(NotImplemented))


def make_checker(w, label='', verdicts=('allow', 'forbidden', 'unauthorized', 'raise'),
                 protects=('same', 'wrap', 'raise'), plain=PLAIN, fast=True):
    from zope.security.interfaces import ForbiddenAttribute
    from zope.security.interfaces import Unauthorized

    class Checker:
        def ask(self, kind, obj, name):
            w.log.append(('ask' + label, kind, obj, name))
            v = w.pick('verdict' + label, verdicts)
            if v == 'allow':
                return
            k = 'refusal', label
            if k not in w.memo:
                w.memo[k] = {'forbidden': ForbiddenAttribute, 'unauthorized': Unauthorized,
                             'raise': LookupError}[v]('refused')
            raise w.memo[k]

        def check(self, obj, name):
            self.ask('read', obj, name)

        def check_getattr(self, obj, name):
            self.ask('read', obj, name)

        def check_setattr(self, obj, name):
            self.ask('write', obj, name)

        def proxy(self, value):
            if type(value) in plain:
                return value
            w.log.append(('protect' + label, value))
            return self.protected(value)

        def protected(self, value):
            what = w.pick('protect' + label, protects)
            if what == 'raise':
                raise w.exception('protect' + label)
            if what == 'same':
                return value
            k = 'wrapped', label, id(value)
            if k not in w.memo:
                w.memo[k] = Wrapped(value), value
            return w.memo[k][0]
    if fast and w.ctx.bool('fast checker' + label):
        def setitem(self, obj, name):
            self.ask('read', obj, name)
        Checker.__setitem__ = setitem
        Checker.__getitem__ = Checker.proxy
    return Checker()


def same_event(ctx, a, b):
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        if type(x) is tuple and type(y) is tuple:
            conds.append(same_event(ctx, x, y))
        else:
            conds.append(ctx.same(x, y))
    return ctx.And(*conds)


def same_log(ctx, a, b):
    if len(a) != len(b):
        return False
    return ctx.And(*[same_event(ctx, x, y) for x, y in zip(a, b)])


def kinds(log):
    return ' '.join(e[0] + ('.' + e[2] if e[0] == 'op' else '') for e in log)


def judge(ctx, w, got, target, checker, asks, bare, protect=True, plain=PLAIN):
    """Compare what happened through the proxy with the specification."""
    kind, val, log = got
    n = len(asks)
    touched = [e for e in log[:n] if e[0] in ('op', 'attr')]
    ctx.prove(ctx.And(len(log) >= n, not touched, same_log(ctx, log[:n], asks)),
              'C01 C02: the checker is asked first, for exactly this', kinds(log))
    rest = log[n:]
    if asks and w.pick('verdict', ()) != 'allow':
        ctx.prove(not rest, 'C01 C02: a refused operation touches nothing', kinds(log))
        ctx.prove(kind == 'raised' and val is w.memo['refusal', ''],
                  "C01 C02: the checker's refusal reaches the caller", '%s %r' % (kind, val))
        ctx.note('refused')
        return
    bkind, bval, blog = bare
    ops = [e for e in rest if not e[0] == 'protect']
    blog = list(blog)
    ctx.prove(same_log(ctx, ops, blog), 'C04 C05: exactly the requested operation, once, '
              'with its own operands', '%s | %s' % (kinds(ops), kinds(blog)))
    prot = [e for e in rest if e[0] == 'protect']
    if bkind == 'raised':
        ctx.prove(kind == 'raised' and (val is bval or (
            type(bval) is not LookupError and type(val) is type(bval))),
            "C04 C05: the operation's exception is the outcome", '%s %r %r' % (kind, val, bval))
        ctx.prove(not prot, 'C03: nothing to protect')
        ctx.note('raised')
        return
    if not protect or type(bval) in plain:
        ctx.prove(kind == 'ok' and (ctx.same(val, bval) if type(bval) is not complex else
                                    val == bval), 'C04 C05: the value is the outcome',
                  '%s %r %r' % (kind, type(val), bval))
        ctx.note('plain')
        return
    ctx.prove(len(prot) == 1 and prot[0][1] is bval and rest[-1] is prot[0],
              'C03 C05: the result is protected once', kinds(rest))
    p = w.pick('protect', ())
    ctx.note(p)
    if p == 'raise':
        ctx.prove(kind == 'raised' and val is w.exception('protect'),
                  'C03 C05: a failure to protect is the outcome', '%s' % kind)
    else:
        ctx.prove(kind == 'ok' and val is checker.protected(bval),
                  'C03 C05: the caller gets what the checker returned', '%s' % kind)


# ------------------------------------------------------------- attributes

BA = ('attribute names: any string; checkers, with and without the fast path: every verdict '
      '(allow, two refusals, failure) and every way to protect; the attribute exists, is '
      'missing or fails')


def make_target(w):
    class Target:
        def __getattribute__(self, name):
            w.log.append(('attr', 'get', self, name))
            what = w.pick('attribute', ('value', 'missing', 'raise', 'none'))
            if what == 'missing':
                raise AttributeError(name)
            return w.result('attribute', (), lambda _: None if what == 'none' else value)

        def __setattr__(self, name, val):
            w.log.append(('attr', 'set', self, name, val))
            if w.pick('store', ('value', 'raise')) == 'raise':
                raise w.exception('store')

        def __delattr__(self, name):
            w.log.append(('attr', 'del', self, name))
            if w.pick('store', ('value', 'raise')) == 'raise':
                raise w.exception('store')

    class Value:
        pass
    value = Value()
    return Target()


def dedupe(log):
    """The Python proxy asks about a missing attribute twice."""
    out = []
    for e in log:
        if out and e[0] == 'ask' and out[-1][0] == 'ask':
            continue
        out.append(e)
    return out


@harness('C01', 'C03', 'C04', cases=(('get',), ('set',), ('delete',)), bounds=BA)
def attribute(ctx, how):
    """Any attribute of any name."""
    from zope.security.proxy import Proxy
    w = World(ctx)
    target = make_target(w)
    checker = make_checker(w, protects=('same', 'wrap', 'raise') if how == 'get' else ('same',))
    p = Proxy(target, checker)
    name = ctx.str('name')
    ctx.assume(ctx.Not(ctx.member(name, INTERNAL)))     # C07
    if how == 'get':
        got = w.run(lambda: ctx.invoke_getattr(p, name))
        bare = w.run(lambda: ctx.invoke_getattr(target, name))
        kind, val, log = got
        asked = [e for e in log if e[0] == 'ask']
        log = dedupe(log)
        if asked:
            # asked again only about an attribute that is missing
            ctx.prove(len(asked) == 1 or isinstance(val, AttributeError),
                      'C04: the checker is asked once')
            log = [log[0]] + [e for e in log[1:] if e[0] != 'ask']
        if kind == 'raised' and w.memo.get('verdict') == 'forbidden' and val is not \
                w.memo.get(('refusal', '')) and ctx.mode == 'pure':
            # asked twice, refused twice
            val = w.memo['refusal', '']
        if w.memo.get('attribute') == 'missing' and w.memo['verdict'] == 'allow':
            ctx.prove(len([e for e in log if e[0] == 'attr']) == 1, 'C01 C04: tried once')
            ctx.prove(kind == 'raised', 'C04: a missing attribute is an error')
            ctx.note('missing')
            return
        judge(ctx, w, (kind, val, log), target, checker, [('ask', 'read', target, name)], bare)
        return
    value = None
    if how == 'set':
        value = [World(ctx), None, target, checker, p, '', Proxy(World(ctx), checker)][
            ctx.choose('new value', 7)]
        got = w.run(lambda: ctx.invoke_setattr(p, name, value))
        bare = w.run(lambda: ctx.invoke_setattr(target, name, value))
    else:
        got = w.run(lambda: ctx.invoke_delattr(p, name))
        bare = w.run(lambda: ctx.invoke_delattr(target, name))
    judge(ctx, w, got, target, checker, [('ask', 'write', target, name)], bare)


# -------------------------------------------------------------- operators

BO = ('one operation, every verdict of the checker, every way to protect the result; the object '
      'and the other operands give a value, fail, or do not implement the operation; other '
      'operands bare or proxies with a checker of their own')

BINARY = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'divmod', 'pow', 'lshift',
          'rshift', 'and', 'xor', 'or']


def syntax(op):
    if op == 'divmod':
        return divmod
    return getattr(operator, {'and': 'and_', 'or': 'or_'}.get(op, op))


def inplace(op):
    return getattr(operator, 'i' + op)


class Value:
    def __init__(self, label):
        self.label = label

    def __iter__(self):
        return iter(())


def make_class(w, label, methods, options=('value', 'raise', 'not implemented'), value=None,
               base=object):
    """A class whose special methods record and answer freely."""
    class Thing(base):
        pass

    def method(name):
        def f(self, *args, **kw):
            w.log.append(('op', label, name, self, args, tuple(sorted(kw.items()))))
            return w.result(label + name, options,
                            lambda what: self if what == 'itself' else
                            value(name) if value else w.memo.setdefault(
                                ('value', label, name), Value(label + name)))
        f.__name__ = name
        return f
    for n in methods:
        setattr(Thing, n, method(n))
    return Thing


@harness('C02', 'C03', 'C04', cases=[(o,) for o in BINARY], bounds=BO)
def binary(ctx, op):
    """proxy op other: the proxy on the left."""
    from zope.security.proxy import Proxy
    w = World(ctx)
    names = ['__%s__' % op, '__r%s__' % op]
    target = make_class(w, 'target', names)()
    checker = make_checker(w)
    p = Proxy(target, checker)
    other = make_class(w, 'other', names)()
    if ctx.bool('other is a proxy'):
        other = Proxy(other, make_checker(w, '2', ('allow', 'unauthorized'), ('wrap', 'raise')))
    f = syntax(op)
    got = w.run(f, p, other)
    bare = w.run(f, target, other)
    judge(ctx, w, got, target, checker, [('ask', 'read', target, names[0])], bare)


@harness('C02', 'C03', 'C04', cases=[(o,) for o in BINARY], bounds=BO)
def reflected(ctx, op):
    """other op proxy: the proxy on the right of something else."""
    from zope.security.proxy import Proxy
    w = World(ctx)
    names = ['__%s__' % op, '__r%s__' % op]
    target = make_class(w, 'target', names)()
    checker = make_checker(w)
    p = Proxy(target, checker)
    other = make_class(w, 'other', names)()
    f = syntax(op)
    kind, val, log = w.run(f, other, p)
    first = ('op', 'other', names[0], other, (p,), ())
    ctx.prove(len(log) > 0 and same_event(ctx, log[0], first),
              'C04: the left operand goes first', kinds(log))
    if w.memo['other' + names[0]] != 'not implemented':
        ctx.prove(len(log) == 1, 'C02: the proxy is left alone', kinds(log))
        return
    bare = w.run(f, other, target)
    judge(ctx, w, (kind, val, log[1:]), target, checker,
          [('ask', 'read', target, names[1])], bare)


@harness('C02', 'C03', 'C04', cases=[(o,) for o in BINARY if o != 'divmod'], bounds=BO)
def augmented(ctx, op):
    """proxy op= other."""
    from zope.security.proxy import Proxy
    from zope.security.proxy import removeSecurityProxy
    w = World(ctx)
    names = ['__i%s__' % op, '__%s__' % op]
    has = names if ctx.bool('own in-place method') else names[1:]
    target = make_class(w, 'target', has, ('value', 'itself', 'raise', 'not implemented'))()
    checker = make_checker(w)
    p = Proxy(target, checker)
    other = make_class(w, 'other', ['__r%s__' % op], ('value', 'not implemented'))()
    if ctx.bool('other is a proxy'):
        other = Proxy(other, make_checker(w, '2', ('allow', 'unauthorized'), ('wrap',)))
    f = inplace(op)
    got = w.run(f, p, other)
    bare = w.run(f, target, other)
    asks = [('ask', 'read', target, names[0])]
    if got[0] == 'ok' and bare[1] is target and w.memo['verdict'] == 'allow':
        ctx.prove(got[1] is p, 'C03: in place gives back the same proxy')
        ctx.prove(same_log(ctx, got[2], asks + bare[2]),
                  'C02 C04: asked, then done once', kinds(got[2]))
    else:
        judge(ctx, w, got, target, checker, asks, bare)
    ctx.prove(removeSecurityProxy(p) is target, 'C03 C04: the proxy still protects its object')


@harness('C02', 'C03', 'C04', cases=(('left',), ('middle',), ('right',)), bounds=BO)
def power(ctx, where):
    """pow() with a modulus."""
    from zope.security.proxy import Proxy
    w = World(ctx)
    names = ['__pow__', '__rpow__']
    things = [make_class(w, x, names)() for x in 'abc']
    k = {'left': 0, 'middle': 1, 'right': 2}[where]
    target = things[k]
    checker = make_checker(w)
    p = Proxy(target, checker)
    args = things[:k] + [p] + things[k + 1:]
    got = w.run(pow, *args)
    bare = w.run(pow, *things)
    if k == 0:
        judge(ctx, w, got, target, checker, [('ask', 'read', target, '__pow__')], bare)
        return
    # The interpreter turns to the later operands only after a.__pow__
    # declined, and then only if their types can take it.
    kind, val, log = got
    first = ('op', 'a', '__pow__', things[0], tuple(args[1:]), ())
    ctx.prove(len(log) > 0 and same_event(ctx, log[0], first), 'C04: the left operand goes first',
              kinds(log))
    rest = log[1:]
    if ctx.mode == 'pure' or w.memo['a__pow__'] != 'not implemented':
        ctx.prove(not rest, 'C02: the proxy is left alone', kinds(log))
        return
    judge(ctx, w, (kind, val, rest), target, checker,
          [('ask', 'read', target, {1: '__rpow__', 2: '__3pow__'}[k])], bare)


UNARY = {
    'neg': operator.neg, 'pos': operator.pos, 'abs': abs, 'invert': operator.invert,
    'int': int, 'float': float, 'complex': complex, 'index': operator.index,
    'len': len, 'iter': iter, 'next': next}
TYPED = {'int': 7, 'float': 1.5, 'complex': 1j, 'index': 7, 'len': 3}


@harness('C02', 'C03', 'C04', cases=[(o,) for o in UNARY], bounds=BO)
def unary(ctx, op):
    """Unary operators, conversions, length and iteration."""
    from zope.security.proxy import Proxy
    w = World(ctx)
    name = '__%s__' % op
    if op == 'complex' and ctx.mode == 'c':
        return            # goes through __float__ there
    typed = op in TYPED
    plain = PLAIN + (float, complex) if typed else PLAIN

    class Iterator:
        def __iter__(self):
            return self

        def __next__(self):
            raise StopIteration
    iterator = Iterator()

    def value(n):
        return TYPED[op] if typed else iterator
    cls = make_class(w, 'target', [name], ('value', 'raise'), value)
    if op == 'index':
        cls = make_class(w, 'target', [name, '__int__', '__float__'], ('value', 'raise'), value)
    target = cls()
    checker = make_checker(w, plain=plain)
    p = Proxy(target, checker)
    f = UNARY[op]
    got = w.run(f, p)
    bare = w.run(f, target)
    judge(ctx, w, got, target, checker, [('ask', 'read', target, name)], bare,
          protect=not typed)


@harness('C02', 'C04', cases=(('int',), ('float',), ('index',), ('len',), ('next',), ('iter',),
                              ('neg',), ('call',), ('getitem',), ('setitem',), ('delitem',),
                              ('contains',)), bounds=BO)
def unsupported(ctx, op):
    """The object has no such operation."""
    from zope.security.proxy import Proxy
    w = World(ctx)

    class Target:
        pass
    target = Target()
    checker = make_checker(w, protects=('same',))
    p = Proxy(target, checker)
    f = {'call': lambda o: o(), 'getitem': lambda o: o['k'],
         'setitem': lambda o: operator.setitem(o, 'k', 'v'),
         'delitem': lambda o: operator.delitem(o, 'k'),
         'contains': lambda o: 'k' in o}.get(op) or UNARY[op]
    kind, val, log = w.run(f, p)
    ctx.prove(len(log) == 1 and same_event(ctx, log[0], ('ask', 'read', target, '__%s__' % op)),
              'C02: the checker is asked all the same', kinds(log))
    if w.memo.get('verdict') != 'allow':
        ctx.prove(kind == 'raised' and val is w.memo.get(('refusal', '')),
                  "C02: the checker's refusal reaches the caller")
    else:
        ctx.prove(kind == 'raised' and isinstance(val, (TypeError, AttributeError)),
                  'C04: an operation that is not there is an error', '%s %r' % (kind, val))


@harness('C02', 'C03', 'C04', cases=(('getitem',), ('setitem',), ('delitem',), ('contains',),
                                     ('call',)), bounds=BO)
def container(ctx, op):
    """Items, membership and calls."""
    from zope.security.proxy import Proxy
    w = World(ctx)
    name = '__%s__' % op
    result = Value('result')
    value = (lambda n: True) if op == 'contains' else (lambda n: result)
    target = make_class(w, 'target', [name], ('value', 'raise'), value)()
    checker = make_checker(w)
    p = Proxy(target, checker)
    items = [Value('key'), slice(1, 2), -1, (1, Value('x'))]
    k = Proxy(items[0], checker) if ctx.bool('proxied key') else items[ctx.choose('key', 4)]
    v = Value('value')
    if ctx.bool('proxied value'):
        v = Proxy(v, checker)
    f = {'getitem': operator.getitem, 'setitem': operator.setitem,
         'delitem': operator.delitem, 'contains': operator.contains}.get(op)
    if op == 'setitem':
        got = w.run(f, p, k, v)
        bare = w.run(f, target, k, v)
    elif op == 'call':
        n = ctx.choose('shape', 4)
        args, kw = [((), {}), ((k,), {}), ((k, v), {}), ((k,), {'a': v, 'name': k})][n]
        got = w.run(p, *args, **kw)
        bare = w.run(target, *args, **kw)
    else:
        got = w.run(f, p, k)
        bare = w.run(f, target, k)
    judge(ctx, w, got, target, checker, [('ask', 'read', target, name)], bare,
          protect=op in ('getitem', 'call'))


BASES = [object, type, dict, list, tuple, str, int, float, Exception]

OPERANDS = ['fresh', 'none', 'true', 'zero', 'empty text', 'empty tuple', 'not implemented',
            'the object', 'the proxy', 'class', 'equals all', 'equals nothing', 'proxied',
            'proxied none', 'ellipsis', 'exception']


def make_operand(w, kind, target, p, checker):
    from zope.security.proxy import Proxy

    class EqualsAll:
        def __eq__(self, other):
            return True

        def __ne__(self, other):
            return False

        def __bool__(self):
            return False
        __hash__ = None

    class EqualsNothing:
        def __eq__(self, other):
            return False

        def __ne__(self, other):
            return True
        __hash__ = None
    return {'fresh': Value('fresh'), 'none': None, 'true': True, 'zero': 0, 'empty text': '',
            'empty tuple': (), 'not implemented': NotImplemented, 'the object': target,
            'the proxy': p, 'class': Value, 'equals all': EqualsAll(),
            'equals nothing': EqualsNothing(), 'proxied': Proxy(Value('inner'), checker),
            'proxied none': Proxy(None, checker), 'ellipsis': ...,
            'exception': KeyError('k')}[kind]


WITH_OPERAND = {
    'getattr': lambda o, a: getattr(o, 'anything', a) if a is not None else o.anything,
    'setattr': lambda o, a: setattr(o, 'anything', a), 'delattr': lambda o, a: delattr(
        o, 'anything'),
    'call': lambda o, a: o(a), 'call two': lambda o, a: o(a, a),
    'call keyword': lambda o, a: o(word=a), 'call both': lambda o, a: o(1, a, x=a, self_=2),
    'getitem': lambda o, a: o[a], 'setitem': lambda o, a: operator.setitem(o, a, a),
    'setitem value': lambda o, a: operator.setitem(o, 'k', a),
    'delitem': lambda o, a: operator.delitem(o, a), 'contains': lambda o, a: a in o,
    'pow modulus': lambda o, a: pow(o, 2, a), 'pow none': lambda o, a: pow(o, a, None)}
for _op in BINARY:
    WITH_OPERAND[_op] = syntax(_op)
    WITH_OPERAND['r' + _op] = lambda o, a, f=syntax(_op): f(a, o)
    if _op != 'divmod':
        WITH_OPERAND['i' + _op] = inplace(_op)
WATCHED = {'bool': True, 'len': 1, 'eq': False, 'ne': True, 'hash': 5, 'repr': '', 'str': ''}


BW = ('any operation on objects of nine base types (classes, containers, text, numbers, '
      'exceptions), with operands of sixteen kinds, granted or refused; every further touch of '
      'the object is seen')
ATTRIBUTE_OPS = ['getattr', 'setattr', 'delattr']


@harness('C01', 'C03', 'C04', cases=[(o,) for o in ATTRIBUTE_OPS], bounds=BW)
def attribute_operands(ctx, op):
    """Values arrive as they are, whatever they are."""
    with_operand(ctx, op)


@harness('C02', 'C03', 'C04', cases=[(o,) for o in WITH_OPERAND if o not in ATTRIBUTE_OPS],
         bounds=BW)
def operands(ctx, op):
    """Operands arrive as they are, whatever they are."""
    with_operand(ctx, op)


def with_operand(ctx, op):
    from zope.security.proxy import Proxy
    w = World(ctx)
    special = op.split()[0]
    name = '__%s__' % special
    base = ctx.choose('base', BASES)
    watched = [n for n in WATCHED if base is not type or n in ('bool', 'len', 'repr', 'str')]

    def value(n):
        n = n.strip('_')
        if n in WATCHED:
            return WATCHED[n]
        return True if n == 'contains' else w.memo.setdefault(('result', n), Value(n))
    methods = [name] + ['__%s__' % n for n in watched]
    asked = name
    if special == 'getattr':
        asked = 'anything'
    cls = make_class(w, 'target', methods, ('value',), value, base)
    target = cls('Made', (), {}) if base is type else cls()
    checker = make_checker(w, verdicts=('allow', 'unauthorized') + (
        ('forbidden',) if special in ATTRIBUTE_OPS else ()), protects=('wrap',),
        fast=base is object)
    p = Proxy(target, checker)
    a = make_operand(w, OPERANDS[ctx.choose('operand', len(OPERANDS) if base is object else 2)],
                     target, p, make_checker(w, '2', ('unauthorized',), ('wrap',), fast=False))
    if op in ['r' + o for o in BINARY] and (type(a) is Proxy or op == 'rmod' and a == ''):
        return          # decided on the left
    write = special in ('setattr', 'delattr')
    if write:
        asked = 'anything'
    f = WITH_OPERAND[op]
    got = w.run(f, p, a)
    bare = w.run(f, target, a)
    if special == 'getattr' and a is not None and w.memo.get('verdict') == 'forbidden' and \
            got[0] == 'ok':
        # getattr(o, name, default): a forbidden attribute is a missing one
        ctx.prove(got[1] is a, 'C01 C04: the default, if forbidden')
        got = 'raised', w.memo['refusal', ''], got[2]
    if special == 'getattr':
        log = dedupe(got[2])
        ctx.prove(len(log) == len(got[2]) or w.memo.get('verdict') == 'forbidden',
                  'C04: asked once')
        got = got[0], got[1], log
        if got[0] == 'raised' and w.memo.get('verdict') == 'forbidden' and ctx.mode == 'pure':
            got = got[0], w.memo['refusal', ''], log
    judge(ctx, w, got, target, checker, [('ask', 'write' if write else 'read', target, asked)],
          bare, protect=special not in ('setattr', 'delattr', 'setitem', 'delitem', 'contains'))


CALLED = ['function', 'method', 'partial', 'class', 'class giving another', 'metaclass', 'builtin',
          'bound builtin', 'instance']


@harness('C02', 'C03', 'C04', cases=[(k,) for k in CALLED], bounds='calls of nine kinds of '
         'callables giving values of sixteen kinds, granted or refused')
def callables(ctx, kind):
    """Whatever is called, its result is handed to the checker."""
    import functools
    from zope.security.proxy import Proxy
    w = World(ctx)

    class Plain:
        pass
    value = [Value('v'), 1.5, 12345678901, 'text', b'bytes', (1, 2), [1], {1: 2}, Value, len,
             KeyError('k'), (), Plain(), iter(()), frozenset(), type][ctx.choose('result', 16)]

    def give(*args, **kw):
        w.log.append(('op', 'target', '__call__', target, args, tuple(sorted(kw.items()))))
        return value

    class Giver:
        def method(self, *args, **kw):
            return give(*args, **kw)

        def __call__(self, *args, **kw):
            return give(*args, **kw)

    class Meta(type):
        def __call__(cls, *args, **kw):
            return give(*args, **kw)
    args, kw = (1, None), {'word': None}
    if kind == 'function':
        target = give
    elif kind == 'method':
        target = Giver().method
    elif kind == 'instance':
        target = Giver()
    elif kind == 'partial':
        target = functools.partial(give)
    elif kind == 'metaclass':
        target = Meta('M', (), {})
    elif kind == 'builtin':
        target = iter
        args, kw = ([1],), {}
    elif kind == 'bound builtin':
        target = {'k': value}.get
        args, kw = ('k',), {}
    elif kind == 'class':
        made = []

        class Target:
            def __new__(cls, *args, **kw):
                give(*args, **kw)
                if not made:
                    made.append(object.__new__(cls))
                return made[0]
        target = Target
    else:
        class Target2:
            def __new__(cls, *args, **kw):
                return give(*args, **kw)
        target = Target2
    checker = make_checker(w, verdicts=('allow', 'unauthorized'), plain=(),
                           fast=kind in ('function', 'class'))
    p = Proxy(target, checker)
    got = w.run(p, *args, **kw)
    if kind == 'builtin':
        if w.memo['verdict'] == 'allow':
            prot = [e for e in got[2] if e[0] == 'protect']
            ctx.prove(len(prot) == 1 and list(prot[0][1]) == [1], 'C03: protected once')
            if len(prot) == 1 and w.memo['protect'] != 'raise':
                ctx.prove(got[1] is checker.protected(prot[0][1]),
                          'C03 C05: the caller gets what the checker returned')
        return
    bare = w.run(target, *args, **kw)
    judge(ctx, w, got, target, checker, [('ask', 'read', target, '__call__')], bare, plain=())


RESULTS = ['object', 'float', 'complex', 'int', 'true', 'none', 'str', 'bytes', 'tuple', 'list',
           'dict', 'class', 'function', 'itself', 'proxy', 'iterator']

GIVERS = {'getattr': lambda p: p.anything, 'call': lambda p: p(), 'getitem': lambda p: p['k'],
          'add': lambda p: p + 1, 'radd': lambda p: 1 + p, 'iadd': lambda p: operator.iadd(p, 1),
          'pow': lambda p: p ** 2, 'divmod': lambda p: divmod(p, 2), 'neg': operator.neg,
          'abs': abs, 'next': next, 'iter': iter, 'lt': lambda p: p < 1, 'eq': lambda p: p == 1,
          'reversed': lambda p: next(reversed(p))}


@harness('C03', cases=[(o,) for o in GIVERS], bounds='results of sixteen kinds (numbers, text, '
         'containers, classes, functions, the object itself, proxies, iterators), under checkers '
         'that protect every kind')
def results(ctx, op):
    """Whatever an operation gives is handed to the checker, whatever it is."""
    from zope.security.proxy import Proxy
    w = World(ctx)
    kind = ctx.choose('result', RESULTS)

    class Target:
        def __getattr__(self, name):
            if name != 'anything':
                raise AttributeError(name)
            return give(self)

        def __len__(self):
            return 1

    def give(self, *args):
        return value
    for n in ('call', 'getitem', 'add', 'radd', 'iadd', 'pow', 'divmod', 'neg', 'abs', 'next',
              'iter', 'lt', 'eq'):
        setattr(Target, '__%s__' % n, give)
    target = Target()
    value = {'object': lambda: Value('v'), 'float': lambda: 1.5, 'complex': lambda: 1j,
             'int': lambda: 12345678901, 'true': lambda: True, 'none': lambda: None,
             'str': lambda: 'text', 'bytes': lambda: b'bytes', 'tuple': lambda: (1, 2),
             'list': lambda: [1], 'dict': lambda: {1: 2}, 'class': lambda: Value,
             'function': lambda: give, 'itself': lambda: target,
             'proxy': lambda: Proxy(Value('inner'), make_checker(w, '2', ('allow',), ('same',))),
             'iterator': lambda: iter([1])}[kind]()
    checker = make_checker(w, plain=(), verdicts=('allow',))
    p = Proxy(target, checker)
    if op == 'iter' and not hasattr(type(value), '__next__'):
        return
    outcome, val, log = w.run(GIVERS[op], p)
    if op == 'reversed':
        # positions are found by the length, which is a number
        log = [e for e in log if e[0] != 'ask']
        if w.memo.get('protect') is not None:
            log = log[-1:]
    prot = [e for e in log if e[0] == 'protect']
    if op in ('lt', 'eq') and kind == 'true':
        return          # the two truth values need no protection (C05)
    if op == 'iadd' and kind == 'itself':
        ctx.prove(outcome == 'ok' and val is p, 'in place gives back the same proxy')
        return
    ctx.prove(len(prot) == 1 and prot[0][1] is value, 'the checker is given the result', kinds(log))
    if len(prot) != 1:
        return
    what = w.pick('protect', ())
    if what == 'raise':
        ctx.prove(outcome == 'raised' and val is w.exception('protect'),
                  'a failure to protect is the outcome')
    else:
        ctx.prove(outcome == 'ok' and val is checker.protected(value),
                  'the caller gets what the checker returned', '%s %r' % (outcome, type(val)))


@harness('C02', 'C03', 'C04', bounds='sequences of two items read by position; every '
                                     'combination of verdicts on the names involved')
def positional(ctx):
    """reversed() reads by position: length and items are asked for."""
    from zope.security.interfaces import Unauthorized
    from zope.security.proxy import Proxy
    w = World(ctx)

    class Target:
        def __len__(self):
            w.log.append(('op', 'len'))
            return 2

        def __getitem__(self, k):
            w.log.append(('op', 'item', k))
            if k < 0:
                raise IndexError(k)
            return items[k]

        def __iter__(self):
            w.log.append(('op', 'iter'))
            return iter(items)
    items = [Value('a'), Value('b')]

    class Checker:
        def check(self, obj, name):
            w.log.append(('ask', name))
            if w.pick(name, ('allow', 'refuse')) == 'refuse':
                raise Unauthorized(name)
        check_getattr = check

        def proxy(self, value):
            w.log.append(('protect', value))
            return Value(value)
    p = Proxy(Target(), Checker())
    def read():
        r = reversed(p)
        return [next(r), next(r)]
    kind, val, log = w.run(read)
    want = [('ask', '__len__')]
    ok = w.pick('__len__', ()) == 'allow'
    if ok:
        want += [('op', 'len')]
        log = [e for e in log if e not in (('protect', 2),)]
        for k in (1, 0):
            want += [('ask', '__getitem__')]
            ok = ok and w.pick('__getitem__', ()) == 'allow'
            if not ok:
                break
            want += [('op', 'item', k), ('protect', items[k])]
    ctx.prove(log == want, 'each item is asked for, read and protected', '%r' % log)
    if ok:
        ctx.prove(kind == 'ok' and [v.label for v in val] == [items[1], items[0]],
                  'the protected items come back')
    else:
        ctx.prove(kind == 'raised' and isinstance(val, Unauthorized), 'the refusal comes back')


FALLBACKS = {'contains iter': ('contains', ['iter'], lambda p: 3 in p),
             'contains getitem': ('contains', ['getitem'], lambda p: 3 in p),
             'iter getitem': ('iter', ['getitem'], lambda p: type(iter(p)).__name__),
             'int index': ('int', ['index'], int), 'float index': ('float', ['index'], float),
             'contains nothing': ('contains', [], lambda p: 3 in p),
             'iadd radd': ('iadd', ['radd'], lambda p: operator.iadd(p, 1)),
             'pow ipow': ('ipow', ['pow'], lambda p: operator.ipow(p, 1)),
             'getitem class': ('getitem', ['class_getitem'], lambda p: p[int])}


@harness('C02', 'C04', cases=[(o,) for o in FALLBACKS], bounds='operations the object supports '
         'only by way of another one; the verdict is about the operation requested')
def fallback(ctx, how):
    from zope.security.proxy import Proxy
    w = World(ctx)
    name, methods, f = FALLBACKS[how]
    if how == 'int index' or how == 'float index':
        value = lambda n: 3
    elif how == 'contains iter':
        value = lambda n: iter([1, 3])
    elif how == 'contains getitem':
        value = lambda n: 3
    else:
        value = None
    cls = make_class(w, 'target', ['__%s__' % m for m in methods], ('value', 'raise'), value)
    target = cls()
    if how == 'getitem class':
        target = type('Generic', (cls,), {'__class_getitem__': classmethod(lambda c, k: [k])})
    checker = make_checker(w, plain=PLAIN + (float, list, Value), protects=('same',))
    p = Proxy(target, checker)
    kind, val, log = w.run(f, p)
    ctx.prove(len(log) > 0 and same_event(ctx, log[0], ('ask', 'read', target, '__%s__' % name)),
              'the checker is asked first', kinds(log))
    if w.pick('verdict', ()) != 'allow':
        ctx.prove(len(log) == 1 and kind == 'raised' and val is w.memo['refusal', ''],
                  'a refused operation touches nothing', kinds(log))
        return
    bkind, bval, blog = w.run(f, target)
    log = [e for e in log if e[0] == 'op']
    ctx.prove(same_log(ctx, log, blog), 'the same happens as on the object itself',
              '%s | %s' % (kinds(log), kinds(blog)))
    ctx.prove(kind == bkind and (type(val) is type(bval) if kind == 'raised' else val == bval),
              'the outcome is the same', '%r %r' % (val, bval))


def others():
    import contextlib
    import copy
    import math
    import pickle
    return {
        'matmul': lambda p: p @ Value('x'), 'rmatmul': lambda p: Value('x') @ p,
        'imatmul': lambda p: operator.imatmul(p, Value('x')),
        'round': round, 'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil,
        'format': lambda p: format(p, '>10'), 'reversed': reversed, 'bytes': bytes,
        'fspath': __import__('os').fspath, 'memoryview': memoryview,
        'with': lambda p: contextlib.ExitStack().enter_context(p), 'dir': dir, 'vars': vars,
        'copy': copy.copy, 'deepcopy': copy.deepcopy, 'pickle': pickle.dumps,
        'list': list, 'star': lambda p: (lambda *a: a)(*p),
        'doublestar': lambda p: (lambda **a: a)(**p), 'dict': dict, 'unpack': lambda p: [*p],
        'slice': lambda p: [1, 2][p:], 'index': lambda p: [1, 2][p],
        'range': range, 'hex': hex, 'sum': sum, 'sorted': sorted, 'min': min,
        'percent': lambda p: '%s' % p, 'percent d': lambda p: '%d' % p,
        'join': lambda p: ''.join(p), 'super': lambda p: super(Value, p),
        'issubclass': lambda p: issubclass(int, p), 'isinstance': lambda p: isinstance(1, p),
        'subclass': lambda p: type('X', (p,), {}), 'await': lambda p: p.__await__(),
        'anext': anext, 'aiter': aiter, 'concat': operator.concat.__call__
        if False else (lambda p: operator.concat(p, [])),
        'iconcat': lambda p: operator.iconcat(p, []), 'length_hint': operator.length_hint,
        'repeat': lambda p: [1] * p, 'chr': chr, 'complex': complex, 'sqrt': math.sqrt,
        'map': lambda p: list(map(str, p)), 'call': lambda p: p(1), 'pow': lambda p: pow(p, 2, 3),
        'pow3': lambda p: pow(2, 3, p), 'zip': lambda p: list(zip(p)), 'in': lambda p: 1 in p,
        'exec': lambda p: exec(p), 'getattr': lambda p: p.anything, 'open': lambda p: open(p, 'r'),
        'setattr': lambda p: setattr(p, 'x', 1), 'delattr': lambda p: delattr(p, 'x'),
        'set': set, 'tuple': tuple, 'divmod': lambda p: divmod(3, p), 'enumerate': enumerate,
        'property': lambda p: type('Y', (), {'x': p})().x,
        'set name': lambda p: type('Z', (), {'x': p}),
        'class getitem': lambda p: p[int],
    }


SPECIALS = ['abs', 'add', 'aenter', 'aexit', 'aiter', 'and', 'anext', 'await', 'bytes', 'call',
            'ceil', 'class_getitem', 'complex', 'contains', 'copy', 'deepcopy', 'delete',
            'delitem', 'dir', 'divmod', 'enter', 'exit', 'float', 'floor', 'floordiv', 'format',
            'fspath', 'get', 'getitem', 'getnewargs', 'getstate', 'iadd', 'iand', 'imatmul',
            'imul', 'index', 'instancecheck', 'int', 'invert', 'ior', 'iter', 'isub', 'len',
            'lshift', 'matmul', 'mod', 'mro_entries', 'mul', 'neg', 'next', 'or', 'pos', 'pow',
            'radd', 'rand', 'rdivmod', 'reduce', 'reduce_ex', 'repr', 'reversed', 'rfloordiv',
            'rlshift', 'rmatmul', 'rmod', 'rmul', 'ror', 'round', 'rpow', 'rrshift', 'rshift',
            'rsub', 'rtruediv', 'rxor', 'set', 'set_name', 'setitem', 'setstate', 'sizeof',
            'str', 'sub', 'subclasscheck', 'truediv', 'trunc', 'xor', 'missing', 'buffer']


@harness('C02', bounds='every other built-in operation the interpreter knows, on an object that '
                       'implements every special method, under a checker that refuses everything')
def refused_everything(ctx):
    """Whatever is tried through a refusing proxy, the object is not touched."""
    from zope.security.proxy import Proxy
    w = World(ctx)
    target = make_class(w, 'target', ['__%s__' % s for s in SPECIALS], ('value',))()
    checker = make_checker(w, verdicts=('forbidden', 'unauthorized', 'raise'))
    p = Proxy(target, checker)
    table = others()
    op = ctx.choose('operation', sorted(table))
    kind, val, log = w.run(table[op], p)
    touched = [e for e in log if e[0] != 'ask']
    ctx.prove(not touched, 'a refused operation touches nothing', '%s: %s' % (op, kinds(log)))
    ctx.note(op, not touched)


# ------------------------------------------------- comparison, hash, truth

COMPARE = {'lt': operator.lt, 'le': operator.le, 'eq': operator.eq, 'ne': operator.ne,
           'gt': operator.gt, 'ge': operator.ge}
SWAP = {'lt': 'gt', 'le': 'ge', 'eq': 'eq', 'ne': 'ne', 'gt': 'lt', 'ge': 'le'}

BC = ('every checker verdict and way to protect; the object and the other operand answer true, '
      'false, another value, not implemented or fail; proxy on either side or both')


def compare_class(w, label, names):
    return make_class(w, label, names, ('value', 'true', 'false', 'raise', 'not implemented'))


@harness('C05', cases=[(o,) for o in COMPARE], bounds=BC)
def comparison(ctx, op):
    from zope.security.proxy import Proxy
    w = World(ctx)
    names = ['__%s__' % op, '__%s__' % SWAP[op]]
    options = ('value', 'true', 'raise', 'not implemented')

    def cls(label):
        class T:
            __hash__ = None
        for n in set(names):
            def f(self, other, n=n):
                w.log.append(('op', label, n, self, (other,), ()))
                return w.result(label + n, options, lambda what: True if what == 'true' else
                                w.memo.setdefault(('value', label, n), Value(label)))
            setattr(T, n, f)
        return T
    target = cls('target')()
    checker = make_checker(w, verdicts=('unauthorized',))
    p = Proxy(target, checker)
    other = cls('other')()
    f = COMPARE[op]
    if ctx.bool('proxy on the right'):
        kind, val, log = w.run(f, other, p)
        ctx.prove(len(log) > 0 and same_event(ctx, log[0],
                                              ('op', 'other', names[0], other, (p,), ())),
                  'the left operand goes first')
        if w.memo['other' + names[0]] != 'not implemented':
            ctx.prove(len(log) == 1, 'the proxy is left alone')
            return
        got = kind, val, log[1:]
        # the interpreter now asks the right operand the swapped question
        bare = w.run(COMPARE[SWAP[op]], target, other)
        if kind == 'raised' and bare[0] == 'raised' and type(val) is TypeError:
            ctx.prove(type(bare[1]) is TypeError, 'no answer either way')
            return
        if w.memo.get('target' + names[1]) == 'not implemented' and op in ('eq', 'ne'):
            return        # identity decides, differently for different objects
    else:
        if ctx.bool('other is a proxy'):
            other = Proxy(other, make_checker(w, '2', ('unauthorized',), ('wrap', 'raise')))
        got = w.run(f, p, other)
        bare = w.run(f, target, other)
    judge(ctx, w, got, target, checker, [], bare)
    ctx.prove(not [e for e in got[2] if e[0] == 'ask'], 'no permission is needed')


@harness('C05', cases=(('hash',), ('bool',)), bounds=BC)
def hash_and_truth(ctx, op):
    from zope.security.proxy import Proxy
    w = World(ctx)
    kind = ctx.choose('object', ('own method', 'length', 'nothing', 'unhashable'))

    class Target:
        pass
    if kind == 'own method':
        def f(self):
            w.log.append(('op', 'target', op, self, (), ()))
            return w.result('answer', ('one', 'zero', 'raise'),
                            lambda v: (v == 'one') if op == 'bool' else {'one': -7, 'zero': 0}[v])
        setattr(Target, '__%s__' % op, f)
    elif kind == 'length':
        def g(self):
            w.log.append(('op', 'target', 'len', self, (), ()))
            return w.result('answer', ('one', 'zero', 'raise'), lambda v: int(v == 'one'))
        Target.__len__ = g
    elif kind == 'unhashable':
        Target.__hash__ = None
    if kind != 'length' and op == 'bool' and ctx.bool('with a length'):
        def h(self):
            w.log.append(('op', 'target', 'len', self, (), ()))
            return w.result('length', ('one', 'zero', 'raise'), lambda v: int(v == 'one'))
        Target.__len__ = h
    if op == 'hash' and kind != 'unhashable' and ctx.bool('with equality'):
        saved = Target.__hash__

        def eq(self, other):
            w.log.append(('op', 'target', 'eq', self, (), ()))
            return False
        Target.__eq__ = eq
        Target.__hash__ = saved
    target = Target()
    checker = make_checker(w, verdicts=('unauthorized',))
    p = Proxy(target, checker)
    f = {'hash': hash, 'bool': bool}[op]
    got = w.run(f, p)
    bare = w.run(f, target)
    judge(ctx, w, got, target, checker, [], bare)
    ctx.prove(not [e for e in got[2] if e[0] != 'op'], 'no permission is needed')


# -------------------------------------------------------------------- text

BT = ('every verdict; class and module names: ordinary, empty, long, with format characters, not '
      'ASCII, lone surrogates, other objects, missing, or failing to be read')


class Odd:
    """A name that is no string."""

    def __str__(self):
        return 'odd'

    def __format__(self, spec):
        return 'odd'


NAMES = ['Thing', '', 'x' * 600, '%s%n{}{0}', 'Ünïcödé', 'sur\ud800rogate', 'nul\0byte']


@harness('C06', cases=(('str',), ('repr',)), bounds=BT)
def text(ctx, op):
    from zope.security.proxy import Proxy
    w = World(ctx)
    name = NAMES[ctx.choose('class name', len(NAMES))]
    m = ctx.choose('module', len(NAMES) + 2)
    module = (NAMES + [Odd(), None])[m]

    class Target(type if ctx.bool('a class') else object):
        def __str__(self):
            return self._text('__str__')

        def __repr__(self):
            return self._text('__repr__')

        def _text(self, n):
            w.log.append(('op', 'target', n, self, (), ()))
            return w.result('text', ('value', 'raise'), lambda what: 'my own text ' + n)
    try:
        Target.__name__ = name
    except (UnicodeError, ValueError):
        ctx.note('no such class')
        return
    Target.__module__ = module
    target = Target('Instance', (), {}) if issubclass(Target, type) else Target()
    checker = make_checker(w)
    p = Proxy(target, checker)
    f = {'str': str, 'repr': repr}[op]
    kind, val, log = w.run(f, p)
    ctx.prove(len(log) > 0 and same_event(ctx, log[0], ('ask', 'read', target, '__%s__' % op)),
              'the checker is asked first', kinds(log))
    if w.memo.get('verdict') != 'allow':
        ctx.prove(len(log) == 1, "the object's own conversion is not run", kinds(log))
        ctx.prove(kind == 'ok', 'the generic text never fails', '%s %r' % (kind, val))
        if kind == 'ok':
            want = '<security proxied %s.%s instance at 0x%x>' % (
                'odd' if m == len(NAMES) else module, name, id(target))
            ctx.prove(val == want, 'the generic text names class, module and address',
                      '%r %r' % (val, want))
        return
    ctx.prove(len(log) == 2 and log[1][0] == 'op' and log[1][2] == '__%s__' % op,
              "the object's own conversion runs once", kinds(log))
    if w.memo['text'] == 'value':
        ctx.prove(kind == 'ok' and val == 'my own text __%s__' % op, "its text is the outcome")


# ----------------------------------------------------------------- opacity

BP = ('any attribute name; checkers None, true, false or refusing; objects bare, proxied or '
      'doubly proxied, with or without a checker of their own')


@harness('C07', cases=(('get',), ('set',), ('delete',)), bounds=BP)
def internals(ctx, how):
    """Nobody outside gets at the object or the checker by name."""
    from zope.security.proxy import Proxy
    from zope.security.proxy import getChecker
    from zope.security.proxy import removeSecurityProxy
    w = World(ctx)
    target = make_class(w, 'target', ['__setattr__', '__delattr__'], ('value', 'raise'))()
    checker = make_checker(w, verdicts=('allow', 'forbidden'), protects=('same',),
                           plain=PLAIN + (type(target),))
    p = Proxy(target, checker)
    name = ctx.str('name')
    intruder = Value('intruder')

    def do():
        if how == 'get':
            return ctx.invoke_getattr(p, name)
        if how == 'set':
            return ctx.invoke_setattr(p, name, intruder)
        return ctx.invoke_delattr(p, name)
    ctx.assume(ctx.Not(ctx.member(name, ('__class__', '__dict__'))))
    kind, val, log = w.run(do)
    if kind == 'ok' and how == 'get':
        ctx.prove(val is not checker and val is not target,
                  'neither the object nor the checker is handed out')
    ctx.prove(removeSecurityProxy(p) is target, 'the protected object stays')
    ctx.prove(getChecker(p) is checker, 'the checker stays')
    ctx.note(kind)


@harness('C07', bounds=BP)
def construction(ctx):
    """Making and opening proxies."""
    from zope.security.checker import Checker
    from zope.security.checker import ProxyFactory
    from zope.security.proxy import Proxy
    from zope.security.proxy import getChecker
    from zope.security.proxy import isinstance as is_instance
    from zope.security.proxy import removeSecurityProxy
    fresh(ctx)

    class Falsy:
        def __bool__(self):
            return False

        def __eq__(self, o):
            return True
        __hash__ = None
    checkers = [None, Checker({}, {}), Falsy(), 0, '']
    c1 = checkers[ctx.choose('checker', 5)]
    own = Checker({'own': 'p'}, {})

    class Thing:
        pass
    if ctx.bool('own checker'):
        Thing.__Security_checker__ = own
    target = Falsy() if ctx.bool('false object') else Thing()

    class Sub(Proxy):
        __slots__ = ()

    class SubSub(Sub):
        pass
    cls = [Proxy, Sub, SubSub][ctx.choose('class', 3)]
    try:
        p = cls(target, c1)
    except ValueError:
        ctx.prove(c1 is None, 'only a missing checker is refused')
        ctx.note('refused')
        return
    ctx.prove(c1 is not None, 'a proxy needs a checker')
    ctx.prove(type(p) is cls, 'a proxy is made')
    ctx.prove(removeSecurityProxy(p) is target, 'opening gives the object')
    ctx.prove(getChecker(p) is c1, 'the checker is the one given')
    c2 = Checker({}, {})
    pp = Proxy(p, c2)
    ctx.prove(removeSecurityProxy(pp) is p, 'opening takes away one proxy')
    ctx.prove(getChecker(pp) is c2, 'the outer checker')
    ctx.prove(removeSecurityProxy(target) is target, 'a bare object is returned unchanged')
    ctx.prove(ProxyFactory(p) is p, 'a proxy is never wrapped again')
    ctx.prove(ProxyFactory(p, c1) is p or not c1, 'nor with its own checker')
    try:
        r = ProxyFactory(p, c2)
    except TypeError:
        ctx.prove(True, 'a different checker is refused')
    else:
        ctx.prove(False, 'a different checker is refused', repr(type(r)))
    ctx.prove(removeSecurityProxy(p) is target and getChecker(p) is c1, 'the proxy is unchanged')
    ctx.prove(is_instance(p, type(target)) and not is_instance(p, int),
              'the type test looks inside')
    for other in (Proxy, cls, (int, Proxy, cls), (Proxy, (str, dict)), ()):
        ctx.prove(not is_instance(p, other) and not is_instance(target, other),
                  'a proxy is not said to be one')
    for other in (object, (int, type(target)), (int, (str, type(target)))):
        ctx.prove(is_instance(p, other), 'the type test takes what the built-in one takes')
    ctx.prove(is_instance(pp, Proxy) and is_instance(pp, cls) and is_instance(pp, (int, Proxy))
              and not is_instance(pp, type(Falsy)) and is_instance(target, type(target)),
              'the type test looks through one proxy')
    q = ProxyFactory(target, c2)
    ctx.prove(type(q) is Proxy and getChecker(q) is c2 and removeSecurityProxy(q) is target,
              'the checker given is used')
    for junk in (target, 1, None, Proxy):
        try:
            getChecker(junk)
        except TypeError:
            pass
        except AttributeError:
            pass
        else:
            ctx.prove(False, 'only proxies have a checker')
