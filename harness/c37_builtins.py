"""Proxies around values of the interpreter's own types (C01-C06): neither the
type nor the value of what is protected makes a difference."""
import operator

from hlib import fresh
from sxlib import harness
from sxlib import use

c01 = use('c01_proxy')
World, make_checker = c01.World, c01.make_checker


def function(*args, **kw):
    return (args, tuple(sorted(kw.items())))


class Attributes:
    pass


def values():
    """Fresh ones, for the operations that change them."""
    import datetime
    import decimal
    import fractions
    with_dict = Attributes()
    with_dict.real = [1]
    return [
        0, 1, -7, 257, 10 ** 30, True, False, 2.5, 0.0, float('inf'), 1j,
        '', 'k', 'abc', 'text' * 50, b'', b'ab', bytearray(), bytearray(b'xy'),
        (), (1,), (1, 2, 3), ((), ()), [], [0], [3, 1, 2], list(range(300)),
        {}, {'k': 1}, {0: 'zero', 'k': []}, set(), {1, 2}, frozenset(), frozenset([1]),
        range(0), range(1, 9), slice(1, 2), memoryview(b'ab'),
        None, Ellipsis, int, Attributes, type, len, function, 'abc'.upper, [].append,
        iter(()), iter([1, 2]), iter({'k': 1}), (x for x in (1, 2)), zip([1], [2]),
        KeyError('k'), decimal.Decimal('1.5'), fractions.Fraction(1, 3),
        datetime.timedelta(0), datetime.timedelta(1), datetime.date(2020, 2, 2), with_dict]


N = len(values())
INPLACE = ['iadd', 'isub', 'imul', 'imod', 'ifloordiv', 'itruediv', 'ior', 'iand', 'ixor',
           'ilshift', 'irshift']
BINARY = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'mod': operator.mod,
          'floordiv': operator.floordiv, 'truediv': operator.truediv, 'or': operator.or_,
          'and': operator.and_, 'xor': operator.xor, 'lshift': operator.lshift,
          'rshift': operator.rshift, 'divmod': divmod, 'pow': pow}
# asked name -> [operation]; every one is tried with each of the operands
OPS = {
    'len': lambda o, a: len(o), 'neg': lambda o, a: -o, 'pos': lambda o, a: +o,
    'abs': lambda o, a: abs(o), 'invert': lambda o, a: ~o, 'int': lambda o, a: int(o),
    'float': lambda o, a: float(o), 'index': lambda o, a: operator.index(o),
    'iter': lambda o, a: iter(o), 'next': lambda o, a: next(o),
    'call': lambda o, a: o(*a), 'getitem': lambda o, a: o[a],
    'setitem': lambda o, a: operator.setitem(o, *a), 'delitem': lambda o, a: operator.delitem(o, a),
    'contains': lambda o, a: a in o}
ARGS = {'call': [(), (1,), ('x', 2)],
        'getitem': [0, 'k', -1, 5, slice(0, 1), slice(None), slice(None, None, -1)],
        'setitem': [(0, 1), ('k', None), (slice(0, 1), [7]), (9, 9)],
        'delitem': [0, 'k', 9, slice(0, 1), slice(None)],
        'contains': [1, 'k', None, ()]}
for _n, _f in BINARY.items():
    OPS[_n] = lambda o, a, f=_f: f(o, a)
    OPS['r' + _n] = lambda o, a, f=_f: f(a, o)
    ARGS[_n] = ARGS['r' + _n] = [1, 2.5, 'same', 0]
for _n in INPLACE:
    OPS[_n] = lambda o, a, f=getattr(operator, _n): f(o, a)
    ARGS[_n] = [1, 'same', 'list']
# The checker leaves these results as they are.
BARE = c01.PLAIN + (float,)
GROUPS = {
    'unary': ['len', 'neg', 'pos', 'abs', 'invert', 'int', 'float', 'index'],
    'container': ['getitem', 'contains', 'iter', 'next', 'call'],
    'changing': ['setitem', 'delitem'],
    'binary': list(BINARY),
    'reflected': ['r' + n for n in BINARY],
    'augmented': INPLACE}


def supports(v, op):
    def has(name):
        # of the type, not of its metaclass
        return any('__%s__' % name in k.__dict__ for k in type(v).__mro__)
    if op in INPLACE:
        return has(op[1:]) or has(op)
    if op == 'rmod' and isinstance(v, (str, bytes, bytearray)):
        return False
    return has(op)


def alike(a, b):
    """The same to anybody who looks."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if hasattr(a, '__next__'):
        return True
    if isinstance(a, Attributes):
        return a.__dict__ == b.__dict__
    if type(a) in (type([].append), type(Attributes().__init__)):
        return a.__name__ == b.__name__
    if isinstance(a, BaseException):
        return str(a) == str(b)
    try:
        return bool(a == b) or repr(a) == repr(b)
    except Exception:
        return False


def perform(f, *args):
    try:
        return 'ok', f(*args)
    except Exception as e:
        return 'raised', e


BV = ('%d values of the types of the interpreter and its library, empty and not, and every '
      'operation their types have, with up to seven operands; granted or refused, with and '
      'without the fast path' % N)


@harness('C02', 'C03', 'C04', cases=[(g,) for g in GROUPS], bounds=BV)
def builtin_operations(ctx, group):
    """The operations of the interpreter's own types."""
    from zope.security.proxy import Proxy
    i = ctx.choose('value', N)
    target, twin = values()[i], values()[i]
    ops = [op for op in GROUPS[group] if supports(target, op)]
    if not ops:
        return
    op = ctx.choose('operation', ops)
    arg = ctx.choose('operand', ARGS.get(op, [None]))
    other = arg
    if arg == 'same' and group in ('binary', 'reflected', 'augmented'):
        arg, other = values()[i], values()[i]
    elif arg == 'list' and group == 'augmented':
        arg, other = [5], [5]
    if group == 'reflected' and (type(arg).__module__ != 'builtins' or isinstance(arg, dict)):
        return          # looks at the operand first
    if op in ('lshift', 'rlshift', 'ilshift', 'pow', 'rpow', 'imul', 'mul', 'rmul') and (
            isinstance(target, int) and abs(target) > 1000 or
            isinstance(arg, int) and abs(arg) > 1000):
        return          # results of unreasonable size
    w = World(ctx)
    checker = make_checker(w, verdicts=('allow', 'unauthorized'), protects=('wrap',), plain=BARE)
    p = Proxy(target, checker)
    f = OPS[op]
    got, val, log = w.run(f, p, arg)
    name = '__%s__' % op
    ctx.prove(len(log) > 0 and log[0][0] == 'ask' and log[0][1] == 'read' and
              log[0][2] is target and log[0][3] == name, 'C02: the checker is asked first',
              '%s %r %r %r' % (op, target, arg, log))
    if w.memo.get('verdict') != 'allow':
        ctx.prove(got == 'raised' and val is w.memo.get(('refusal', '')),
                  'C02: the refusal reaches the caller', '%s %s %r' % (op, got, val))
        ctx.prove(alike(target, twin), 'C02: what is refused changes nothing',
                  '%s %r %r' % (op, target, twin))
        ctx.note('refused')
        return
    prot = [e for e in log if e[0] == 'protect']
    bkind, bval = perform(f, twin, other)
    if bkind == 'raised':
        ctx.prove(got == 'raised' and type(val) is type(bval),
                  'C04: it fails like the bare value', '%s %r %r' % (op, val, bval))
        ctx.prove(not prot, 'C03: nothing to protect')
    elif group == 'augmented' and bval is twin:
        # carried out in place, or an immutable value giving itself
        ctx.prove(got == 'ok' and (
            val is p or type(bval) in BARE and alike(val, bval) or
            len(prot) == 1 and prot[0][1] is target and val is checker.protected(target)),
                  'C03 C04: the proxy stays, or is made again', op)
    elif type(bval) in BARE:
        ctx.prove(got == 'ok' and alike(val, bval), 'C04: the outcome is that of the bare value',
                  '%s %r %r' % (op, val, bval))
    else:
        ctx.prove(len(prot) == 1 and alike(prot[0][1], bval),
                  'C03 C04: the result is protected, once', '%s %r' % (op, bval))
        if len(prot) == 1:
            ctx.prove(got == 'ok' and val is checker.protected(prot[0][1]),
                      'C03: the caller gets what the checker made of it', op)
    ctx.prove(alike(target, twin), 'C04: what is changed is as with the bare value', op)
    ctx.note(bkind)


NAMES = ['real', 'append', 'keys', 'upper', 'missing', '__len__', '__doc__', '__name__', 'args']


@harness('C01', 'C03', 'C04', cases=(('get',), ('set',), ('delete',)),
         bounds='%d values of the types of the interpreter and its library, %d attribute names, '
                'present and missing; granted or refused, with and without the fast path'
                % (N, len(NAMES)))
def builtin_attributes(ctx, how):
    """The attributes of the interpreter's own types."""
    from zope.security.proxy import Proxy
    i = ctx.choose('value', N)
    vs = values()
    target, twin = vs[i], vs[i]
    if how != 'get':
        twin = values()[i]
        if isinstance(target, type) or target is function:
            return      # shared: a change of one is a change of the other
    name = ctx.choose('name', NAMES)
    if name == '__doc__' and how != 'get':
        return
    w = World(ctx)
    checker = make_checker(w, verdicts=('allow', 'unauthorized'), protects=('wrap',), plain=BARE)
    p = Proxy(target, checker)
    f = {'get': lambda o: getattr(o, name), 'set': lambda o: setattr(o, name, 5),
         'delete': lambda o: delattr(o, name)}[how]
    got, val, log = w.run(f, p)
    ctx.prove(len(log) > 0 and log[0][0] == 'ask' and
              log[0][1] == ('read' if how == 'get' else 'write') and
              log[0][2] is target and log[0][3] == name, 'C01: the checker is asked first', name)
    if w.memo.get('verdict') != 'allow':
        ctx.prove(got == 'raised' and val is w.memo.get(('refusal', '')),
                  'C01: the refusal reaches the caller', '%s %s %r' % (name, got, val))
        ctx.prove(alike(target, twin), 'C01: what is refused changes nothing', name)
        ctx.note('refused')
        return
    prot = [e for e in log if e[0] == 'protect']
    bkind, bval = perform(f, twin)
    if bkind == 'raised':
        ctx.prove(got == 'raised' and type(val) is type(bval),
                  'C04: it fails like the bare value', '%s %r %r' % (name, val, bval))
        ctx.prove(not prot, 'C03: nothing to protect')
    elif type(bval) in BARE:
        ctx.prove(got == 'ok' and alike(val, bval), 'C04: the outcome is that of the bare value',
                  '%s %r %r' % (name, val, bval))
        ctx.prove(alike(target, twin), 'C04: what is changed is as with the bare value', name)
    elif how == 'get':
        ctx.prove(len(prot) == 1 and alike(prot[0][1], bval),
                  'C03 C04: the attribute is protected, once', '%s %r' % (name, bval))
        if len(prot) == 1:
            ctx.prove(got == 'ok' and val is checker.protected(prot[0][1]),
                      'C03: the caller gets what the checker made of it', name)
    ctx.note(bkind)


COMPARED = ['hash', 'bool', 'eq', 'ne', 'lt', 'le', 'gt', 'ge']


@harness('C05', cases=[(o,) for o in COMPARED],
         bounds='%d values of the types of the interpreter and its library: hash, truth and six '
                'comparisons, on either side, with nine of them and themselves' % N)
def builtin_comparisons(ctx, op):
    """Values of the interpreter's own types compare, hash and are true as they are."""
    from zope.security.proxy import Proxy
    w = World(ctx)
    i = ctx.choose('value', N)
    vs = values()
    target = vs[i]
    p = Proxy(target, make_checker(w, verdicts=('unauthorized',), protects=('same',)))
    if op in ('hash', 'bool'):
        f = {'hash': hash, 'bool': bool}[op]
        got, val, log = w.run(f, p)
        bkind, bval = perform(f, target)
    else:
        f = getattr(operator, op)
        other = ([target] + vs[::7])[ctx.choose('other', 1 + len(vs[::7]))]
        if type(other).__module__ == 'builtins' and not isinstance(other, dict) and \
                ctx.bool('on the right'):
            got, val, log = w.run(f, other, p)
            bkind, bval = perform(f, other, target)
        else:
            got, val, log = w.run(f, p, other)
            bkind, bval = perform(f, target, other)
    ctx.prove(not [e for e in log if e[0] == 'ask'], 'nobody is asked', op)
    ctx.prove(got == bkind and (type(val) is type(bval)) and (got == 'raised' or val == bval),
              'the answer is that of the bare value', '%s %r %r' % (op, val, bval))
    if op != 'hash':
        ctx.note(bkind)


@harness('C06', bounds='%d values of the types of the interpreter and its library, granted or '
                       'refused' % N)
def builtin_text(ctx):
    """The text of values of the interpreter's own types."""
    from zope.security.proxy import Proxy
    fresh(ctx)
    w = World(ctx)
    i = ctx.choose('value', N)
    target = values()[i]
    p = Proxy(target, make_checker(w, verdicts=('allow', 'unauthorized', 'forbidden'),
                                   protects=('same',)))
    f = ctx.choose('how', [str, repr])
    got, val, log = w.run(f, p)
    want = f(target)
    ctx.prove(got == 'ok' and type(val) is str, 'there is always a text', got)
    if got != 'ok':
        return
    if w.memo.get('verdict') == 'allow':
        ctx.prove(val == want, 'the own text, if approved', val)
    else:
        ctx.prove('security proxied' in val and (len(want) < 9 or want not in val),
                  'nothing of the own text, if not', val)
    ctx.note(w.memo.get('verdict'))
