"""Run cases found by CBMC on the real extension modules.

    python creplay.py CASES.json OUT.jsonl

CASES: {"src": dir, "prop": id, "start": n, "cases": [{"id", "kind": "violation" | "witness",
"module", "entry", "defs", "choices"}]}.  Slots are called directly, through
ctypes, with Python objects that record what happens to them and answer as the
choices say; the oracle is that of the C harness, over the real objects.  For
C30 an operation is repeated, and references and memory must not drift.
"""
import ctypes
import gc
import itertools
import json
import os
import re
import sys
import types

UNARY = {'neg': 'negative', 'pos': 'positive', 'abs': 'absolute', 'invert': 'invert',
         'int': 'int', 'float': 'float', 'index': 'index'}
BINARY = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'mod': 'remainder',
          'divmod': 'divmod', 'lshift': 'lshift', 'rshift': 'rshift', 'and': 'and', 'xor': 'xor',
          'or': 'or', 'floordiv': 'floor_divide', 'truediv': 'true_divide'}

api = ctypes.pythonapi
api.PyType_GetSlot.restype = ctypes.c_void_p
api.PyType_GetSlot.argtypes = [ctypes.py_object, ctypes.c_int]
api.Py_DecRef.argtypes = [ctypes.c_void_p]
api.Py_DecRef.restype = None
SLOTS = {}
O_, V_, I_, L_ = ctypes.py_object, ctypes.c_void_p, ctypes.c_int, ctypes.c_ssize_t


class Failure(Exception):
    pass


class Refusal(Exception):
    pass


class Broken(Exception):
    pass


(R_VALUE, R_RAISE, R_TARGET, R_OTHER, R_TRUE, R_FALSE, R_NONE, R_NOTIMPL, R_PROXY, R_FRESH,
 R_NULL) = range(11)


def load_slots():
    inc = sys.base_prefix
    import sysconfig
    with open(os.path.join(sysconfig.get_path('include'), 'typeslots.h')) as f:
        for m in re.finditer(r'#define Py_(\w+) (\d+)', f.read()):
            SLOTS[m.group(1)] = int(m.group(2))
    return inc


class World:
    """what the parties do and record"""

    def __init__(self, case):
        self.ch = dict(case['choices'])
        self.defs = case['defs']
        self.entry = case['entry'][2:]
        self.events = []
        self.nops = 0
        self.value = None            # what the last operation gave
        self.have = False
        self.protected = None
        self.failures = []
        self.quiet = False
        self.first = False
        self.case = None
        self.nested = False

    def c(self, name, default=0):
        v = self.ch.get('ch_' + name, default)
        return default if v is None else v

    def log(self, *e):
        # what the oracle itself does to the parties does not count
        if not self.quiet:
            self.events.append(e)
            if len(self.events) - 1 == self.defs.get('NESTAT', -1) and self.case is not None \
                    and not self.nested:
                self.nest()

    def nest(self):
        """whoever is asked or used does the same before it answers"""
        s = self.case
        ch, self.ch = self.ch, dict(self.ch, ch_drop=0)
        self.ch.update(('ch_' + k[9:], v) for k, v in ch.items() if k.startswith('ch_first_'))
        keep = 'events', 'nops', 'have', 'value', 'protected', 'ncalls', 'fact2'
        was = {k: self.__dict__.get(k) for k in keep}
        self.events, self.nops, self.value, self.protected = [], 0, None, None
        self.ncalls, self.fact2 = 0, None
        self.nested = True
        try:
            r = s.once()
            self.quiet = True
            s.oracle(r)
            del r
        finally:
            self.quiet = False
            self.nested = False
            self.ch = ch
            self.__dict__.update(was)


    def choice(self):
        n = self.nops
        self.nops += 1
        return self.c('result' + (str(n) if 0 < n < 4 else '' if n == 0 else '3'))

    def fresh(self):
        return (lambda: Fresh(), lambda: float('1.5'), lambda: int('1' * 20),
                lambda: ''.join(('fre', 'sh', str(len(self.events)))), lambda: (Fresh(),),
                lambda: type('Made', (), {}), lambda: [1], lambda: {1: 2},
                lambda: b'%d by' % len(self.events))[self.c('kind') % 9]()

    def outcome(self, kind=None):
        self.have = True
        self.value = None
        c = self.choice()
        if c == R_RAISE:
            raise Failure()
        v = None
        if kind in ('str', 'int', 'float'):
            v = {'str': lambda: ''.join(('own', ' text', str(len(self.events)))),
                 'int': lambda: int('2' * 20), 'float': lambda: float('2.5')}[kind]()
        elif kind == 'next' and c == R_NULL:
            raise StopIteration
        elif kind == 'iter':
            v = self.T if c == R_TARGET else Fresh()
        elif c == R_TARGET:
            v = self.T
        elif c == R_OTHER:
            v = self.O
        elif c == R_TRUE:
            v = True
        elif c == R_FALSE:
            v = False
        elif c == R_NONE:
            v = None
        elif c == R_NOTIMPL:
            v = self.VALUE
        elif c == R_PROXY:
            v = self.P1
        elif c == R_FRESH:
            v = self.fresh()
        else:
            v = self.VALUE
        self.value = v
        return v

    def number(self, ok):
        if self.choice() == R_RAISE:
            raise Failure()
        return ok

    def check(self, ok, label):
        if not ok:
            self.failures.append(label)
        return ok


W = None


class Fresh:
    def __iter__(self):
        return self

    def __next__(self):
        raise StopIteration


def same(a, b):
    return a is b


class Thing:
    """an object that records what is done to it"""

    def __getattribute__(self, name):
        if W is None or W.quiet:
            return object.__getattribute__(self, name)
        if name == '__class__' and name != W.name:
            W.log('GETATTR', self, name)
            if W.choice() == R_RAISE:
                raise Failure()
            return W.KLASS
        if name == '__length_hint__' and W.entry == 'length_hint':
            if not W.c('hasattr'):
                W.log('LENGTHHINT', self)
                raise AttributeError(name)
            return lambda: (W.log('LENGTHHINT', self), W.outcome())[1]
        W.log('GETATTR', self, name)
        return W.outcome()

    def __setattr__(self, name, v):
        W.log('SETATTR', self, name, v)
        W.number(0)

    def __delattr__(self, name):
        W.log('DELATTR', self, name)
        W.number(0)

    def __call__(self, *a, **k):
        W.log('CALL', self, a, k)
        return W.outcome()

    def __iter__(self):
        W.log('ITER', self)
        return W.outcome('iter')

    def __getitem__(self, k):
        W.log('GETITEM', self, k)
        return W.outcome()

    def __setitem__(self, k, v):
        W.log('SETITEM', self, k, v)
        W.number(0)

    def __delitem__(self, k):
        W.log('DELITEM', self, k)
        W.number(0)

    def __contains__(self, v):
        W.log('CONTAINS', self, v)
        return bool(W.number(W.c('truth')))

    def __len__(self):
        W.log('LENGTH', self)
        return W.number(W.c('truth'))

    def __hash__(self):
        if W is None or W.quiet:
            return object.__hash__(self)
        W.log('HASH', self)
        return W.number(5 + W.c('truth'))

    def __bool__(self):
        W.log('TRUE', self)
        return bool(W.number(W.c('truth')))

    def __str__(self):
        W.log('STR', self)
        return W.outcome('str')

    def __repr__(self):
        W.log('REPR', self)
        return W.outcome('str')

    def __pow__(self, b, m=None):
        W.log('pow', self, b, m)
        return W.outcome()

    def __ipow__(self, b):
        W.log('ipow', self, b, None)
        return W.outcome()


def _unary(n):
    kind = {'int': 'int', 'float': 'float', 'index': 'int'}.get(n)

    def f(self):
        W.log(n, self)
        return W.outcome(kind)
    return f


def _binary(n):
    def f(self, b):
        W.log(n, self, b)
        return W.outcome()
    return f


def _compare(k):
    def f(self, b):
        if W is None or W.quiet:
            return NotImplemented
        W.log('COMPARE', self, b, k)
        return W.outcome()
    return f


for _n in UNARY:
    setattr(Thing, '__%s__' % _n, _unary(_n))
for _n in BINARY:
    setattr(Thing, '__%s__' % _n, _binary(_n))
    if _n != 'divmod':
        setattr(Thing, '__i%s__' % _n, _binary('i' + _n))
for _k, _n in enumerate(('lt', 'le', 'eq', 'ne', 'gt', 'ge')):
    setattr(Thing, '__%s__' % _n, _compare(_k))
_hash = Thing.__hash__
Thing.__hash__ = _hash


class IterThing(Thing):
    def __next__(self):
        W.log('NEXT', self)
        return W.outcome('next')


class Klass:
    def __getattribute__(self, name):
        if W is None or W.quiet:
            return object.__getattribute__(self, name)
        W.log('GETATTR', self, name)
        c = W.choice()
        if c == R_RAISE:
            raise Failure()
        if c == R_NONE:
            raise AttributeError(name)
        if name == '__name__':
            return W.CLASS_NAME
        if name == '__module__':
            return W.MODULE_NAME
        return Fresh()


class Slow:
    def _ask(self, what, obj, name, how):
        W.log(what, self, obj, name, how)
        if W.c('verdict' if self is W.K1 else 'verdict2'):
            raise Refusal()
        a = W.c('answer')
        return W.VALUE if a == 1 else Fresh() if a == 2 else False if a == 3 else None

    def _protect(self, v):
        W.log('PROTECT', self, v)
        p = W.c('protect' if self is W.K1 else 'protect2')
        if p == 0:
            return v
        if p == 1:
            return W.WRAPPED
        if p == 2:
            W.protected = Fresh()
            return W.protected
        raise Failure()

    def check(self, obj, name):
        return self._ask('READ', obj, name, 'check')

    def check_getattr(self, obj, name):
        return self._ask('READ', obj, name, 'check_getattr')

    def check_setattr(self, obj, name):
        return self._ask('WRITE', obj, name, 'check_setattr')

    def proxy(self, v):
        return self._protect(v)


class Half1(Slow):
    def __getitem__(self, v):
        return self._protect(v)


class Half2(Slow):
    def __setitem__(self, obj, name):
        self._ask('READ', obj, name, 0)


class Fast(Half1, Half2):
    pass


class Raised:
    def __init__(self, e):
        # keep no traceback: it would hold everything
        self.type = type(e)
        self.args = e.args
        self.text = str(e) if self.type is SystemError else ''


NULL = object()
FUNCS = {}


def call(fn, restype, argtypes, *args, null_ok=False):
    """the object, the number, Raised or NULL"""
    key = (fn, restype) + tuple(argtypes)
    f = FUNCS.get(key)
    if f is None:
        # addresses, because ctypes would look into objects
        f = FUNCS[key] = ctypes.PYFUNCTYPE(
            *[V_ if t is O_ else t for t in (restype,) + tuple(argtypes)])(fn)
    args = [id(a) if t is O_ else a for a, t in zip(args, argtypes)]
    try:
        r = f(*args)
    except BaseException as e:
        r = Raised(e)
        e.__traceback__ = None
        return r
    if restype is not O_:
        return r
    if r is None:
        return NULL
    o = ctypes.cast(r, O_).value
    api.Py_DecRef(r)
    return o


class ProxyCase:
    def __init__(self, case, w):
        global W
        from zope.security import _proxy
        self.mod = _proxy
        self.Proxy = _proxy._Proxy
        self.w = w
        w.name = None
        w.quiet = True
        e = w.entry
        has_next = not (e == 'next' and not w.c('hasnum'))
        w.T = (IterThing if has_next else Thing)()
        w.O, w.O2, w.M = Thing(), Thing(), Thing()
        w.VALUE, w.WRAPPED, w.KEY = Fresh(), Fresh(), Fresh()
        w.KLASS = Klass()
        w.CLASS_NAME, w.MODULE_NAME = Fresh(), Fresh()
        kt = (Slow, Fast, Half1, Half2)[w.defs.get('FAST', 0) % 4]
        w.K1, w.K2 = kt(), kt()
        w.P1 = self.Proxy(w.T, w.K1)
        w.P2 = None
        w.ARGS = (w.KEY,)
        w.KWARGS = {'k': w.KEY}
        self.side = w.defs.get('SIDE', 0)

    def slot(self, name):
        p = api.PyType_GetSlot(self.Proxy, SLOTS[name])
        if not p:
            raise Broken('C04: the operation is there')
        return p

    def party(self, side):
        w = self.w
        if side == 1:
            if w.P2 is None:
                w.P2 = self.Proxy(w.O2, w.K2)
            return w.P2
        return {2: w.P1, 3: w.T, 4: None}.get(side, w.O)

    # -- outcomes
    def consistent(self, r, null_ok=False):
        if r is NULL and not null_ok:
            self.w.check(False, 'C30: failure is reported exactly with an exception set')
        if (type(r) is Raised) and r.type is SystemError:
            self.w.check(False, 'C30: failure is reported exactly with an exception set')

    def verdict(self, k):
        return self.w.c('verdict' if k is self.w.K1 else 'verdict2')

    def failed(self, r):
        return (type(r) is Raised) or r is NULL

    def ev(self, i, *e):
        es = self.w.events
        return i < len(es) and len(es[i]) == len(e) and all(
            (x is y) or (type(x) in (str, int, tuple, dict) and type(x) is type(y)
                         and x is not NULL and x == y) for x, y in zip(es[i], e))

    def asked(self, r, k, obj, what, name):
        w = self.w
        if not (w.events and self.ev(0, what, k, obj, name, w.events[0][-1])):
            return w.check(False, 'C01 C02: the checker is asked first, for exactly this') and 0
        if not self.verdict(k):
            return 1
        w.check(len(w.events) == 1, 'C01 C02: a refused operation touches nothing')
        w.check((type(r) is Raised) and r.type is Refusal,
                'C01 C02: the checker\'s refusal reaches the caller')
        self.consistent(r)
        return 0

    def performed(self, r, k, first, *event):
        w = self.w
        if not w.check(self.ev(first, *event),
                       'C04 C05: exactly the requested operation, once, with its own operands'):
            return
        raised = w.c('result') == R_RAISE
        stopped = event[0] == 'NEXT' and w.c('result') == R_NULL
        self.consistent(r, null_ok=stopped)
        if raised or stopped:
            w.check(len(w.events) == first + 1,
                    'C03 C04 C05: a failed operation is the end of it')
            if raised:
                w.check((type(r) is Raised) and r.type is Failure,
                        "C04 C05: the operation's exception is the outcome")
            else:
                w.check(r is NULL or ((type(r) is Raised) and r.type is StopIteration),
                        "C04 C05: the operation's exception is the outcome")
            return
        v = w.value
        if event[0] == 'COMPARE' and type(v) is bool and len(w.events) == first + 1:
            w.check(r is v, 'C04 C05: the value is the outcome')
            return
        if not w.check(len(w.events) == first + 2 and self.ev(first + 1, 'PROTECT', k, v),
                       'C03 C05: the result is protected once'):
            return
        p = w.c('protect' if k is w.K1 else 'protect2')
        if p == 3:
            w.check((type(r) is Raised) and r.type is Failure,
                    'C03 C05: a failure to protect is the outcome')
        else:
            w.check(r is (v, w.WRAPPED, w.protected)[p],
                    'C03 C05: the caller gets what the checker returned')

    def mediated(self, r, k, obj, name, *event):
        w = self.w
        if w.events and name != '__next__':
            w.check(w.events[0][-1] in (0, 'check'),
                    'C02: operations are asked about as operations')
        if self.asked(r, k, obj, 'READ', name):
            self.performed(r, k, 1, *event)

    def mediated_int(self, r, ok, k, obj, how, name, *event):
        w = self.w
        if not self.asked(r, k, obj, how, name):
            return
        w.check(len(w.events) == 2 and self.ev(1, *event),
                'C04 C05: exactly the requested operation, once, with its own operands')
        if w.c('result') == R_RAISE:
            w.check((type(r) is Raised) and r.type is Failure,
                    "C04 C05: the operation's exception is the outcome")
        else:
            w.check(r == ok and type(r) is not Raised, 'C04 C05: the value is the outcome')

    # -- entries: once() performs the operation, oracle(r) judges
    def prepare(self):
        w, e = self.w, self.w.entry
        s = self.side
        self.need_int = False
        if e in UNARY:
            fn = self.slot('nb_' + UNARY[e])
            self.once = lambda: call(fn, O_, [O_], w.P1)
            self.oracle = lambda r: self.mediated(r, w.K1, w.T, '__%s__' % e, e, w.T)
        elif e in BINARY:
            fn = self.slot('nb_' + BINARY[e])
            if s < 4:
                a, b = w.P1, self.party(s)
                name, ev = '__%s__' % e, (e, w.T, b)
            else:
                a = w.O if s == 4 else w.T
                b = w.P1
                name, ev = '__r%s__' % e, (e, a, w.T)
            self.once = lambda: call(fn, O_, [O_, O_], a, b)
            self.oracle = lambda r: self.mediated(r, w.K1, w.T, name, *ev)
        elif e == 'pow':
            fn = self.slot('nb_power')
            a, b, c = self.party(s % 3), self.party(s // 3 % 4), self.party(s // 12 % 5)
            p = [x for x in (a, b, c) if type(x) is self.Proxy][0]
            k, o = (w.K1, w.T) if p is w.P1 else (w.K2, w.O2)
            name = '__pow__' if p is a else '__rpow__' if p is b else '__3pow__'
            ev = [a, b, c]
            ev[0 if p is a else 1 if p is b else 2] = o
            self.once = lambda: call(fn, O_, [O_, O_, O_], a, b, c)
            self.oracle = lambda r: self.mediated(r, k, o, name, 'pow', *ev)
        elif e[0] == 'i' and (e[1:] in BINARY or e == 'ipow'):
            fn = self.slot('nb_inplace_' + ('power' if e == 'ipow' else BINARY[e[1:]]))
            b = self.party(w.c('side') if 0 <= w.c('side') < 4 else 0)
            ev = (e, w.T, b) + ((None,) if e == 'ipow' else ())
            if e == 'ipow':
                self.once = lambda: call(fn, O_, [O_, O_, O_], w.P1, b, None)
            else:
                self.once = lambda: call(fn, O_, [O_, O_], w.P1, b)

            def oracle(r):
                if not self.verdict(w.K1) and w.c('result') == R_TARGET:
                    self.asked(r, w.K1, w.T, 'READ', '__%s__' % e)
                    w.check(len(w.events) == 2 and self.ev(1, *ev),
                            'C04: exactly the requested operation, once, with its own operands')
                    w.check(r is w.P1, 'C03: in place gives back the same proxy')
                else:
                    self.mediated(r, w.K1, w.T, '__%s__' % e, *ev)
            self.oracle = oracle
        elif e == 'iter':
            fn = self.slot('tp_iter')
            self.once = lambda: call(fn, O_, [O_], w.P1)
            self.oracle = lambda r: self.mediated(r, w.K1, w.T, '__iter__', 'ITER', w.T)
        elif e == 'next':
            fn = self.slot('tp_iternext')
            self.once = lambda: call(fn, O_, [O_], w.P1)

            def oracle(r):
                if type(w.T) is IterThing:
                    self.mediated(r, w.K1, w.T, '__next__', 'NEXT', w.T)
                elif self.asked(r, w.K1, w.T, 'READ', '__next__'):
                    w.check((type(r) is Raised) and r.type is TypeError and len(w.events) == 1,
                            'C04: an operation that is not there is an error')
            self.oracle = oracle
        elif e == 'call':
            fn = self.slot('tp_call')
            kw = w.KWARGS if w.c('hasattr') else None
            if kw is None:
                self.once = lambda: call(fn, O_, [O_, O_, V_], w.P1, w.ARGS, None)
            else:
                self.once = lambda: call(fn, O_, [O_, O_, O_], w.P1, w.ARGS, kw)
            self.oracle = lambda r: self.mediated(
                r, w.K1, w.T, '__call__', 'CALL', w.T, w.ARGS, kw or {})
        elif e == 'getitem':
            fn = self.slot('mp_subscript')
            b = self.party(w.c('side') % 4)
            self.once = lambda: call(fn, O_, [O_, O_], w.P1, b)
            self.oracle = lambda r: self.mediated(r, w.K1, w.T, '__getitem__', 'GETITEM', w.T, b)
        elif e in ('setitem', 'ass_item'):
            raw = e == 'ass_item'
            fn = self.slot('sq_ass_item' if raw else 'mp_ass_subscript')
            b = self.index() if raw else self.party(w.c('side') % 4)
            kt = L_ if raw else O_
            if w.c('value'):
                v = w.VALUE if raw or w.c('truth') else w.P1
                self.once = lambda: call(fn, I_, [O_, kt, O_], w.P1, b, v)
                self.oracle = lambda r: self.mediated_int(
                    r, 0, w.K1, w.T, 'READ', '__setitem__', 'SETITEM', w.T, b, v)
            else:
                self.once = lambda: call(fn, I_, [O_, kt, V_], w.P1, b, None)
                self.oracle = lambda r: self.mediated_int(
                    r, 0, w.K1, w.T, 'READ', '__delitem__', 'DELITEM', w.T, b)
        elif e == 'item':
            fn = self.slot('sq_item')
            i = self.index()
            self.once = lambda: call(fn, O_, [O_, L_], w.P1, i)
            self.oracle = lambda r: self.mediated(r, w.K1, w.T, '__getitem__', 'GETITEM', w.T, i)
        elif e == 'contains':
            fn = self.slot('sq_contains')
            b = self.party(w.c('side') % 4)
            self.once = lambda: call(fn, I_, [O_, O_], w.P1, b)
            self.oracle = lambda r: self.mediated_int(
                r, w.c('truth'), w.K1, w.T, 'READ', '__contains__', 'CONTAINS', w.T, b)
        elif e == 'len':
            fn = self.slot('sq_length' if w.c('hasnum') else 'mp_length')
            self.once = lambda: call(fn, L_, [O_], w.P1)
            self.oracle = lambda r: self.mediated_int(
                r, w.c('truth'), w.K1, w.T, 'READ', '__len__', 'LENGTH', w.T)
        elif e == 'getattr':
            fn = self.slot('tp_getattro')
            n = w.name = self.text()
            self.once = lambda: call(fn, O_, [O_, O_], w.P1, n)

            def oracle(r):
                w.check(not w.events or w.events[0][-1] in (0, 'check_getattr')
                        or w.defs.get('FAST') in (1, 3),
                        'C01: reading is asked about as reading')
                w.check(not w.events or len(w.events[0]) < 4 or w.events[0][3] == n,
                        'C01: the checker is asked about this name')
                if self.asked(r, w.K1, w.T, 'READ', n):
                    self.performed(r, w.K1, 1, 'GETATTR', w.T, n)
            self.oracle = oracle
        elif e == 'setattr':
            fn = self.slot('tp_setattro')
            n = w.name = self.text()
            if w.c('value'):
                v = w.VALUE if w.c('truth') else w.P1
                self.once = lambda: call(fn, I_, [O_, O_, O_], w.P1, n, v)
                ev = ('SETATTR', w.T, n, v)
            else:
                self.once = lambda: call(fn, I_, [O_, O_, V_], w.P1, n, None)
                ev = ('DELATTR', w.T, n)
            self.oracle = lambda r: self.mediated_int(r, 0, w.K1, w.T, 'WRITE', n, *ev)
        elif e == 'compare':
            fn = self.slot('tp_richcompare')
            b = self.party(w.c('side') % 4)
            op = w.c('op')
            self.once = lambda: call(fn, O_, [O_, O_, I_], w.P1, b, op)

            def oracle(r):
                if not w.check(bool(w.events) and w.events[0][0] == 'COMPARE',
                               'C05: no permission is needed'):
                    return
                w.check(w.events[0][-1] == op, 'C05: the comparison is the one requested')
                self.performed(r, w.K1, 0, 'COMPARE', w.T, b, op)
            self.oracle = oracle
        elif e in ('hash', 'bool'):
            fn = self.slot('tp_hash' if e == 'hash' else 'nb_bool')
            ok = w.c('truth') + (5 if e == 'hash' else 0)
            self.once = lambda: call(fn, L_ if e == 'hash' else I_, [O_], w.P1)

            def oracle(r):
                w.check(len(w.events) == 1 and self.ev(0, 'HASH' if e == 'hash' else 'TRUE', w.T),
                        "C05: it is the object's own, without a permission")
                if w.c('result') == R_RAISE:
                    w.check((type(r) is Raised) and r.type is Failure,
                            "C05: the operation's exception is the outcome")
                else:
                    w.check(type(r) is not Raised and r == ok,
                            'C05: the value is the outcome')
            self.oracle = oracle
        elif e in ('str', 'repr'):
            fn = self.slot('tp_' + e)
            what, name = ('STR', '__str__') if e == 'str' else ('REPR', '__repr__')
            self.once = lambda: call(fn, O_, [O_], w.P1)

            def oracle(r):
                es = w.events
                if not w.check(bool(es) and self.ev(0, 'READ', w.K1, w.T, name, es[0][-1]),
                               'C06: the checker is asked first'):
                    return
                self.consistent(r)
                if not self.verdict(w.K1):
                    w.check(len(es) == 2 and self.ev(1, what, w.T),
                            "C06: the object's own conversion runs once")
                    if w.c('result') == R_RAISE:
                        w.check((type(r) is Raised) and r.type is Failure,
                                'C06: its failure is the outcome')
                    else:
                        w.check(r is w.value, 'C06: its text is the outcome')
                    return
                w.check(not any(x[1] is w.T and x[0] != 'GETATTR' for x in es[1:]),
                        "C06: the object's own conversion is not run")
                w.check(not ((type(r) is Raised) and r.type is Refusal),
                        'C06: the refusal does not reach the caller')
            self.oracle = oracle
        elif e == 'length_hint':
            d = self.Proxy.__dict__.get('__length_hint__')
            if d is None:
                raise Broken('')
            self.once = lambda: self.pycall(d, w.P1)

            def oracle(r):
                w.check(len(w.events) == 1, 'C04: one question to the object')
                self.consistent(r)
            self.oracle = oracle
        elif e == 'new':
            n = s // 18 % 4
            b = s // 3 % 6
            o = self.party(s % 3)
            k = w.K1 if b == 5 else w.P1 if b == 1 else self.party(b)
            args = (o, k, w.O2)[:n]

            def once():
                r = self.pycall(self.Proxy, *args)
                if type(r) is not Raised:
                    self.new_ok = (type(r) is self.Proxy and self.mod.getObject(r) is o
                                   and self.mod.getChecker(r) is k and gc.is_tracked(r)
                                   and sys.getrefcount(r) == 2)
                return r
            self.once = once

            def oracle(r):
                if n != 2 or k is None:
                    if w.check((type(r) is Raised), 'C07: a proxy needs an object and a checker') \
                            and n == 2:
                        w.check(r.type is ValueError, 'C07: a missing checker is a ValueError')
                    return
                w.check(type(r) is not Raised and self.new_ok and not w.events,
                        'C07 C30: a proxy is made')
            self.oracle = oracle
        elif e in ('getchecker', 'getobject'):
            s = w.c('side')
            o = self.Proxy(w.P1, w.K2) if s == 5 else self.party(s)
            f = self.mod.getChecker if e == 'getchecker' else self.mod.getObject
            self.once = lambda: self.pycall(f, o)

            def oracle(r):
                w.check(not w.events, 'C07: nothing is run')
                if e == 'getobject':
                    want = {2: w.T, 1: w.O2, 5: w.P1}.get(s, o)
                    w.check(r is want, 'C07: opening takes away one proxy')
                elif s in (1, 2):
                    w.check(r is (w.K1 if s == 2 else w.K2), 'C07: the checker is the one given')
                else:
                    w.check((type(r) is Raised) and r.type is TypeError,
                            'C07: only proxies have a checker')
            self.oracle = oracle
        elif e == 'traverse':
            self.once = lambda: None

            def oracle(r):
                ts = gc.get_referents(w.P1)
                w.check(gc.is_tracked(w.P1), 'C30: proxies take part in garbage collection')
                w.check(sorted(map(id, ts)) == sorted(map(id, (w.T, w.K1))),
                        'C30: traversal visits everything held, once')
                w.check(all(any(x is w.P1 for x in gc.get_referrers(t)) for t in (w.T, w.K1)),
                        'C30: traversal stops when it is told to')
            self.oracle = oracle
        elif e == 'clear':
            def once():
                p = self.Proxy(w.T, w.K1)
                f = api.PyType_GetSlot(self.Proxy, SLOTS['tp_clear'])
                if f:
                    call(f, I_, [O_], p)
                del p
            self.once = once
            self.oracle = lambda r: None
        elif e == 'others':
            tried = []
            for n in ('nb_matrix_multiply', 'nb_inplace_matrix_multiply', 'sq_concat',
                      'sq_inplace_concat', 'sq_repeat', 'sq_inplace_repeat'):
                fn = api.PyType_GetSlot(self.Proxy, SLOTS[n])
                if fn:
                    tried.append((fn, 'repeat' in n))

            def once():
                self.bad = []
                for fn, number in tried:
                    w.events.clear()
                    call(fn, O_, [O_, L_ if number else O_], w.P1, 2 if number else w.O)
                    if w.events and w.events[0][0] != 'READ':
                        self.bad.append('C02: every operation is asked about')
                    if w.c('verdict') and any(x[0] not in ('READ', 'PROTECT') for x in w.events):
                        self.bad.append('C02: a refused operation touches nothing')
            self.once = once
            self.oracle = lambda r: [w.check(False, b) for b in self.bad]
        else:
            raise Broken('no replay for ' + e)

    def pycall(self, f, *args):
        try:
            return f(*args)
        except BaseException as e:
            r = Raised(e)
            e.__traceback__ = None
            return r

    def index(self):
        i = self.w.c('index')
        return max(-sys.maxsize, min(sys.maxsize, i))

    def text(self):
        w = self.w
        if w.c('name', -1) >= 0 and not w.c('namelen'):
            return ('__iter__', '__add__', '__class__', '__call__', '__str__', '__getitem__',
                    '__len__')[w.c('name') % 7]
        cs = w.ch.get('ch_chars') or []
        n = w.c('namelen')
        return ''.join(chr(x if x and 0 < x < 128 else 97) for x in (cs + [97] * 16)[:n])

    def parties(self):
        w = self.w
        return [x for x in (w.T, w.O, w.O2, w.VALUE, w.WRAPPED, w.KEY, w.K1, w.K2, w.P1, w.P2,
                            w.ARGS, w.KWARGS, w.KLASS, w.CLASS_NAME, w.MODULE_NAME)
                if x is not None]

    def reset(self):
        pass

    def close(self):
        pass


class Interaction:
    def checkPermission(self, permission, obj):
        W.log('ASK', permission, obj)
        W.foreign()
        return W.outcome()


class Truthy:
    """an answer whose truth is the choice's"""

    def __bool__(self):
        W.log('TRUE', self)
        return bool(W.number(W.c('truth')))


class Obj:
    def __getattribute__(self, name):
        if W is None or W.quiet:
            return object.__getattribute__(self, name)
        W.log('GETATTR', self, name)
        if name == '__iter__':
            if W.c('hasattr'):
                return 1
            raise AttributeError(name)
        if name == '__class__':
            if W.c('isexc') == 2:
                raise Failure()
            return Exception if W.c('isexc') == 1 else Obj
        W.foreign()
        own = W.defs.get('OWN', 0)
        if own == 0:
            raise AttributeError(name)
        if own == 1:
            raise Failure()
        return None if own == 2 else W.OTHERK if own == 3 else W.fresh_checker()


class Factory:
    def __call__(self, obj):
        w = W
        w.log('FACTORY', self, obj)
        w.foreign()
        w.ncalls += 1
        f = w.defs.get('F1', 0) if w.ncalls == 1 else w.defs.get('F2', 0) if w.ncalls == 2 else 0
        if f == 3:
            raise Failure()
        if f == 5:
            w.fact2 = Factory()
            return w.fact2
        return (w.CUT, w.NOPROXY, None, None, w.DEFAULT, None, w.FACTORY)[f]


class CheckerCase(ProxyCase):
    def __init__(self, case, w):
        from zope.security import _proxy
        from zope.security import _zope_security_checker as m
        from zope.security import checker as pure
        from zope.security import interfaces
        from zope.security._definitions import thread_local
        self.mod = m
        self.w = w
        self.interfaces = interfaces
        self.thread_local = thread_local
        self.side = w.defs.get('SIDE', 0)
        w.quiet = True
        w.name = None
        w.T, w.O = Obj(), Fresh()
        w.VALUE = Truthy()
        w.K1 = w.K2 = None
        w.PUBLIC = pure.CheckerPublic
        w.NOPROXY, w.DEFAULT = m.NoProxy, m._defaultChecker
        w.OTHERK = m.Checker({})
        w.fresh_checker = lambda: m.Checker({})
        w.FACTORY = Factory()
        w.fact2 = None
        w.ncalls = 0
        w.interaction = Interaction()
        w.foreign = self.foreign
        self.Checker = m.Checker
        self.GETP, self.SETP = {}, {}
        self.PROXIED = Obj()
        t = w.defs.get('TABLES', 2)
        w.CUT = self.make(t)
        w.P1 = _proxy._Proxy(self.PROXIED, w.OTHERK)
        self.Proxy = _proxy._Proxy
        self.name = [w.O] if w.c('nonstr') and w.c('unhash') else \
            w.O if w.c('nonstr') else self.text()
        self.avail = list(m._available_by_default)
        self.registry = dict(m._checkers)
        self.reset()

    def make(self, t):
        return self.Checker.__new__(self.Checker) if t == 0 else \
            self.Checker(self.GETP) if t == 1 else self.Checker(self.GETP, self.SETP)

    def foreign(self):
        if self.w.c('drop') and not self.dropped:
            self.dropped = True
            self.GETP.clear()
            self.SETP.clear()

    def reset(self):
        w, m = self.w, self.mod
        self.dropped = False
        w.ncalls = 0
        n = self.name
        if w.defs.get('TWICE'):
            # the same one both times
            self.twice = self.__dict__.get('twice') or ''.join(('perm', 'ission'))
            self.perm = self.twice
        else:
            self.perm = 'perm %d' % len(w.failures) + ''.join(('', 'ission'))

        def entry(d, c):
            d.clear()
            if c and not isinstance(n, list):
                d[n] = (None, w.PUBLIC, self.perm, None)[c]
        self.PERMID = id(self.perm)
        entry(self.GETP, w.c('perm'))
        entry(self.SETP, w.c('sperm'))
        self.perm = None           # held by the tables alone
        a = m._available_by_default
        a[:] = [n] if w.c('avail') and isinstance(n, str) else []
        sel = w.defs.get('SEL', 0)
        if sel == 0:
            m._checkers.pop(Obj, None)
        else:
            m._checkers[Obj] = (None, w.NOPROXY, w.DEFAULT, w.CUT, w.FACTORY)[sel]
        if w.c('inter'):
            self.thread_local.interaction = w.interaction
        elif hasattr(self.thread_local, 'interaction'):
            del self.thread_local.interaction

    def close(self):
        m = self.mod
        m._available_by_default[:] = self.avail
        m._checkers.clear()
        m._checkers.update(self.registry)
        if hasattr(self.thread_local, 'interaction'):
            del self.thread_local.interaction

    def slot(self, name):
        p = api.PyType_GetSlot(self.Checker, SLOTS[name])
        if not p:
            raise Broken('')
        return p

    def is_perm(self, p):
        return id(p) == self.PERMID and type(p) is str

    def decided(self, r, entry, read):
        w, es, n = self.w, self.w.events, self.name
        ok = not self.failed(r)
        self.consistent(r)
        if isinstance(n, list):
            entry = 0            # no table can have it
        if entry == 1:
            w.check(ok and not es, 'C08 C09: public names are available to all')
            return
        if entry == 2:
            if not w.c('inter'):
                w.check(not ok and r.type is AttributeError and not es,
                        'C08 C09: without an interaction nothing is available')
                return
            if not w.check(bool(es) and es[0][0] == 'ASK' and self.is_perm(es[0][1])
                           and es[0][2] is w.T,
                           'C08 C09: the interaction is asked for exactly this permission on this '
                           'object'):
                return
            if w.c('result') == R_RAISE:
                w.check(not ok and len(es) == 1 and r.type is Failure,
                        "C08 C09: the interaction's failure is the outcome")
                return
            v = w.value
            if v is w.VALUE:
                truth = -1 if w.c('result1') == R_RAISE else w.c('truth')
            else:
                truth = bool(v)
            if truth == -1:
                w.check(not ok and r.type is Failure,
                        "C08 C09: the interaction's failure is the outcome")
            elif truth:
                w.check(ok, 'C08 C09: what the interaction grants is available')
            elif w.check(not ok and r.type is self.interfaces.Unauthorized,
                         'C08 C09: what the interaction denies is unauthorized'):
                a = r.args
                w.check(len(a) == 3 and a[0] is w.T and a[1] is n and self.is_perm(a[2]),
                        'C08 C09: the refusal names object, name and permission')
            return
        if read and isinstance(n, str) and n[:2] == '__':
            if w.c('avail'):
                w.check(ok and not es, 'C08: always available names are available')
                return
            if n == '__iter__' and not w.c('hasattr'):
                w.check(ok, 'C08: a missing __iter__ is reported by the object')
                return
        w.check(not ok, 'C08 C09: names without a permission are forbidden')
        if not ok and not isinstance(n, list):
            w.check(r.type is self.interfaces.ForbiddenAttribute,
                    'C08 C09: names without a permission are forbidden')
            a = r.args
            w.check(len(a) == 2 and a[0] is n and a[1] is w.T,
                    'C08 C09: the refusal names name and object')
        w.check(not es or (n == '__iter__' and len(es) == 1),
                'C08 C09: a forbidden name asks nothing')

    def chain(self, first):
        """(failed, checker, events)"""
        w = self.w
        sel = w.defs.get('SEL', 0)
        c = (w.DEFAULT, None, w.DEFAULT, w.CUT, w.FACTORY)[sel]
        k = first
        if c is w.DEFAULT:
            # the real isinstance looks at __class__
            k += len([e for e in w.events if e[0] == 'GETATTR' and e[2] == '__class__'])
            if w.c('isexc') == 2:
                return True, None, k
            if w.c('isexc') == 1:
                return False, None, k
        i = 0
        while c is not None and not isinstance(c, self.Checker):
            w.check(self.ev(k, 'FACTORY', c, w.T),
                    'C10: a factory makes the checker, for this object')
            k += 1
            f = w.defs.get('F1', 0) if i == 0 else w.defs.get('F2', 0) if i == 1 else 0
            i += 1
            if f == 3:
                return True, None, k
            c = (w.CUT, None, None, None, w.DEFAULT, w.fact2, w.FACTORY)[f]
        return False, c, k

    def prepare(self):
        w, e, s = self.w, self.w.entry, self.side
        t = w.defs.get('TABLES', 2)
        n = self.name
        if e in ('check_slot', 'check_del'):
            fn = self.slot('mp_ass_subscript')
            if e == 'check_del':
                self.once = lambda: call(fn, I_, [O_, O_, V_], w.CUT, w.T, None)

                def oracle(r):
                    w.check((type(r) is Raised) and r.type is not SystemError and not w.events,
                            'C30: failure is reported exactly with an exception set')
                self.oracle = oracle
            else:
                self.once = lambda: call(fn, I_, [O_, O_, O_], w.CUT, w.T, n)
                self.oracle = lambda r: self.decided(r, w.c('perm') if t else 0, 1)
        elif e == 'check':
            f = w.CUT.check_getattr if s % 2 else w.CUT.check
            self.once = lambda: self.pycall(f, w.T, n)
            self.oracle = lambda r: self.decided(r, w.c('perm') if t else 0, 1)
        elif e == 'check_setattr':
            f = w.CUT.check_setattr
            self.once = lambda: self.pycall(f, w.T, n)
            self.oracle = lambda r: self.decided(r, w.c('sperm') if t > 1 else 0, 0)
        elif e in ('permission_id', 'setattr_permission_id'):
            f = getattr(w.CUT, e)
            c = (w.c('perm') if t else 0) if e[0] == 'p' else (w.c('sperm') if t > 1 else 0)
            self.once = lambda: self.pycall(f, n)

            def oracle(r):
                w.check(not w.events, 'C08 C09: nothing is run')
                if isinstance(n, list):
                    return
                w.check((r is w.PUBLIC) if c == 1 else self.is_perm(r) if c == 2 else r is None,
                        'C08 C09: the permission of the table, or None')
            self.oracle = oracle
        elif e == 'select':
            f = self.mod.selectChecker
            self.once = lambda: self.pycall(f, w.T)

            def oracle(r):
                failed, c, k = self.chain(0)
                if failed:
                    w.check((type(r) is Raised) and r.type is Failure,
                            'C10: a failure to select is the outcome')
                    return
                w.check(r is c, 'C10: the checker the type calls for')
                w.check(len(w.events) == k, 'C10: nothing else is run')
            self.oracle = oracle
        elif e == 'proxy':
            v = w.P1 if s // 2 % 2 else w.T
            if s % 2:
                fn = self.slot('mp_subscript')
                self.once = lambda: call(fn, O_, [O_, O_], w.CUT, v)
            else:
                f = w.CUT.proxy
                self.once = lambda: self.pycall(f, v)

            def wrapped(r, c):
                if w.check(type(r) is self.Proxy, 'C10: the value is wrapped with its checker'):
                    from zope.security._proxy import getChecker
                    from zope.security._proxy import getObject
                    w.check(getObject(r) is w.T and (c is None or getChecker(r) is c),
                            'C10: the value is wrapped with its checker')

            def oracle(r):
                if v is w.P1:
                    w.check(r is w.P1 and not w.events, 'C07 C10: a proxy is not wrapped again')
                    return
                own = w.defs.get('OWN', 0)
                if not w.check(self.ev(0, 'GETATTR', w.T, '__Security_checker__'),
                               "C10: the object's own checker comes first"):
                    return
                if own >= 3:
                    wrapped(r, w.OTHERK if own == 3 else None)
                    return
                if own and (type(r) is Raised) and r.type is not AttributeError:
                    return
                failed, c, k = self.chain(1)
                if failed:
                    w.check((type(r) is Raised) and r.type is Failure,
                            'C10: a failure to select is the outcome')
                elif c is None:
                    w.check(r is w.T and len(w.events) == k,
                            'C10: values without a checker come bare')
                else:
                    wrapped(r, c)
            self.oracle = oracle
        elif e == 'init':
            cs = [self.GETP, self.SETP, w.O, None]
            args = (cs[s % 4], cs[s // 4 % 4], w.O)[:s // 16 % 4]

            def once():
                c = self.make(t)
                return self.pycall(c.__init__, *args)
            self.once = once

            def oracle(r):
                fine = len(args) in (1, 2) and all(type(x) is dict for x in args)
                if fine:
                    w.check(type(r) is not Raised, 'C13: tables are dictionaries')
                elif not (len(args) == 2 and args[1] is None):
                    w.check((type(r) is Raised) and r.type is TypeError,
                            'C13: tables are dictionaries')
            self.oracle = oracle
        elif e == 'tables':
            a = ('get_permissions', 'set_permissions')[s % 2]

            def once():
                c = self.make(t)
                x, y = getattr(c, a), getattr(c, a)
                self.ok = x is y and type(x) is dict and \
                    (t <= s % 2 or x is (self.GETP, self.SETP)[s % 2])
            self.once = once
            self.oracle = lambda r: w.check(self.ok, 'C08 C09: a checker has its tables')
        elif e == 'ctraverse':
            self.once = lambda: None

            def oracle(r):
                held = [self.GETP, self.SETP][:t]
                ts = [x for x in gc.get_referents(w.CUT) if x is not self.Checker]
                w.check(gc.is_tracked(w.CUT), 'C30: checkers take part in garbage collection')
                w.check(sorted(map(id, ts)) == sorted(map(id, held)),
                        'C30: traversal visits everything held, once')
                w.check(all(any(x is w.CUT for x in gc.get_referrers(d)) for d in held),
                        'C30: traversal stops when it is told to')
            self.oracle = oracle
        elif e == 'cclear':
            fn = api.PyType_GetSlot(self.Checker, SLOTS['tp_clear'])

            def once():
                c = self.make(t)
                if fn:
                    call(fn, I_, [O_], c)
                    self.pycall(c.check, w.T, n)
            self.once = once
            self.oracle = lambda r: None
        else:
            raise Broken('no replay for ' + e)

    def parties(self):
        w = self.w
        return [w.T, w.O, w.VALUE, w.PUBLIC, w.NOPROXY, w.DEFAULT, w.OTHERK, w.FACTORY,
                w.interaction, w.CUT, w.P1, self.GETP, self.SETP, self.PROXIED]


def run_once(s, w):
    """one operation from a fresh start, after an earlier one if the case says so"""
    if w.defs.get('TWICE') and not w.first:
        w.first = True
        now = w.ch
        w.ch = dict(now, ch_drop=0)
        w.ch.update(('ch_' + k[9:], v) for k, v in now.items() if k.startswith('ch_first_'))
        defs, w.defs = w.defs, dict(w.defs)
        if w.entry in ('select', 'proxy'):
            w.defs.update(SEL=defs.get('FSEL', 0), F1=defs.get('FF1', 0))
        t = w.T
        if now.get('ch_first_other') and w.entry.startswith('check'):
            w.T = Obj()
        try:
            run_once(s, w)
        finally:
            w.ch, w.defs, w.first, w.T = now, defs, False, t
    s.reset()
    w.events.clear()
    w.nops = 0
    w.value = w.protected = None
    w.fact2 = None
    w.quiet = False
    w.case = s
    try:
        r = s.once()
    finally:
        w.quiet = True
        w.case = None
    return r


def settle(s, w, reps):
    """references and memory after many of the same"""
    held = s.parties()
    gc.collect()
    gc.disable()
    keep = [list(held) for _ in range(reps * 3)]     # others hold them, too
    for _ in range(5):
        run_once(s, w)
    w.value = w.protected = w.fact2 = None
    w.events.clear()
    gc.collect()
    before = [sys.getrefcount(x) for x in held]
    blocks = sys.getallocatedblocks()
    for _ in range(reps):
        run_once(s, w)
        w.value = w.protected = w.fact2 = None
        w.events.clear()
    gc.collect()
    blocks = sys.getallocatedblocks() - blocks
    after = [sys.getrefcount(x) for x in held]
    drift = max((abs(a - b) for a, b in zip(after, before)), default=0)
    gc.enable()
    w.check(drift < reps * 0.8, 'C30: reference counts change only by the reference handed out')
    w.check(blocks < reps * 0.8, 'C30: objects made on the way are released')
    del keep


def run(case, prop, extra=None):
    global W
    c = dict(case, choices=dict(case['choices'], **(extra or {})))
    w = World(c)
    W = w
    s = None
    try:
        s = (ProxyCase if c['module'] == 'proxy' else CheckerCase)(c, w)
        try:
            s.prepare()
        except Broken as e:
            w.check(not str(e).startswith('C'), str(e))
            return w.failures
        r = run_once(s, w)
        s.oracle(r)
        del r
        if prop == 'C30':
            settle(s, w, 60)
    finally:
        w.quiet = True
        if s is not None:
            s.close()
        W = None
    return w.failures


def relevant(failures, prop):
    return [f for f in failures if prop in f.partition(':')[0].split()]


def main():
    spec = json.load(open(sys.argv[1]))
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import sx
    sx.setup_plain('c', spec['src'], 0)
    load_slots()
    out = open(sys.argv[2], 'a')
    prop = spec['prop']

    def emit(d):
        out.write(json.dumps(d) + '\n')
        out.flush()
    from zope.security import _proxy
    emit({'where': _proxy.__file__})
    for k, case in enumerate(spec['cases']):
        if k < spec.get('start', 0):
            continue
        emit({'id': case['id'], 'begin': True})
        try:
            bad = relevant(run(case, prop), prop)
            how = ''
            if not bad and case['kind'] == 'violation':
                for e in neighbours(case):
                    bad = relevant(run(case, prop, e), prop)
                    if bad:
                        how = ' (with %s)' % e
                        break
            emit({'id': case['id'], 'failed': bad, 'how': how})
        except Exception:
            import traceback
            emit({'id': case['id'], 'failed': [], 'error': traceback.format_exc()[-1500:]})


def neighbours(case):
    if case['module'] == 'proxy':
        space = {'ch_verdict': (0, 1), 'ch_result': (0, 1, 2, 6, 9), 'ch_protect': (0, 1, 2, 3),
                 'ch_answer': (0, 2)}
        if case['entry'] in ('e_str', 'e_repr'):
            space = {'ch_verdict': (0, 1), 'ch_result': (0, 1, 6), 'ch_result1': (0, 1, 6),
                     'ch_result2': (0, 1, 6)}
    else:
        space = {'ch_perm': (0, 1, 2, 3), 'ch_sperm': (0, 1, 2, 3), 'ch_inter': (0, 1),
                 'ch_drop': (0, 1), 'ch_result': (0, 1, 5)}
    for vs in itertools.product(*space.values()):
        yield dict(zip(space, vs))


if __name__ == '__main__':
    main()
