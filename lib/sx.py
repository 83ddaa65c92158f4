"""Symbolic execution of real Python code.

The modules under test are loaded through an AST instrumentation (class
Instrument) that routes the few constructs CPython does not let a value
intercept (identity, containment, isinstance/type/getattr with symbolic
arguments, dict keys) through this module.  Everything else is run by CPython
itself on symbolic values (SymVal, SymBool), whose truth value forks the path:
both sides are explored if the solver (Z3) finds them feasible under the path
condition.  A harness states assertions with ctx.prove(); each is discharged by
asking the solver for a model of (path condition and not assertion).

The same harness can be run with ConcreteCtx on the plain modules, with the
values of a model: that is how counterexamples are replayed on the real code
and how path witnesses validate this engine.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import re
import sys
import time
import types

try:
    import z3
except ImportError:          # concrete mode under the project's interpreter
    z3 = None

REPO = os.environ.get('VERIF_REPO', '/repo')
ENGINE_FILE = __file__
CTX = None                   # the running context


class Steering(BaseException):
    """Not caught by the code under test, except by a bare except clause: the
    context remembers it, so that the path is abandoned all the same."""

    def __init__(self, *args):
        BaseException.__init__(self, *args)
        if CTX is not None and CTX.dead is None:
            CTX.dead = self


class PathEnd(Steering):
    """The current path is abandoned (infeasible assumption)."""


class Unsupported(Steering):
    """The engine cannot encode what the code does."""


class Budget(Steering):
    """A stated bound on the exploration was reached."""


# --------------------------------------------------------------------------
# The universe of symbolic values

if z3 is not None:
    _V = z3.Datatype('V')
    _V.declare('none')
    _V.declare('str', ('s', z3.StringSort()))
    _V.declare('bool', ('b', z3.BoolSort()))
    _V.declare('int', ('i', z3.IntSort()))
    _V.declare('obj', ('o', z3.IntSort()))
    V = _V.create()


def decode_z3str(s):
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def enc(v):
    """Python constant -> JSON encoding used in case files."""
    if v is None:
        return {'k': 'none'}
    if isinstance(v, bool):
        return {'k': 'bool', 'v': v}
    if isinstance(v, int):
        return {'k': 'int', 'v': v}
    if isinstance(v, str):
        return {'k': 'str', 'v': [ord(c) for c in v], 'text': ascii(v)}
    raise Unsupported('enc %r' % type(v))


# --------------------------------------------------------------------------
# Symbolic values

class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, tobool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, tobool(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        return eq_(self, o)

    def __ne__(self, o):
        return not_(eq_(self, o))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return '<SymBool>'

    @property
    def __class__(self):
        return bool


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def tobool(x):
    """z3 Bool of the truth value of x."""
    t = type(x)
    if t is SymBool:
        return x.e
    if t is SymVal:
        return x.truth()
    return z3.BoolVal(builtins.bool(x))


def not_(x):
    if type(x) in (SymBool, SymVal):
        return mkbool(z3.Not(tobool(x)))
    return not x


def lift(x):
    t = type(x)
    if t is SymVal:
        return x.e
    if t is SymBool:
        return V.bool(x.e)
    if x is None:
        return V.none
    if t is bool:
        return V.bool(z3.BoolVal(x))
    if t is int:
        return V.int(z3.IntVal(x))
    if t is str:
        return V.str(z3str(x))
    return V.obj(z3.IntVal(CTX.oid(x)))


def z3str(x):
    return z3.StringVal(''.join(
        c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in x))


def is_sym(x):
    return type(x) is SymVal or type(x) is SymBool


def is_(a, b):
    ta, tb = type(a), type(b)
    if ta is not SymVal and tb is not SymVal and ta is not SymBool and tb is not SymBool:
        return a is b
    return mkbool(lift(a) == lift(b))


def isnot_(a, b):
    return not_(is_(a, b))


def eq_(a, b):
    """a == b where at least one is symbolic."""
    other = b if type(a) in (SymVal, SymBool) else a
    if type(other) not in (SymVal, SymBool) and not issubclass(
            type(other), (str, int, bool, type(None))):
        # a concrete object with its own equality: resolve the symbolic side
        sym = a if other is b else b
        if type(other).__eq__ is not object.__eq__:
            s = concretize(sym)
            if type(s) not in (SymVal, SymBool):
                return s == b if sym is a else a == s
    ea, eb = lift(a), lift(b)
    # bool/int cross equality is not needed by the code under test
    return mkbool(ea == eb)


class SymVal:
    """A value of the universe V."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    # tags
    def tag(self):
        """'str', 'int', ... if syntactically known, else None"""
        e = self.e
        if z3.is_app(e) and e.decl().name() in ('none', 'str', 'bool', 'int', 'obj'):
            return e.decl().name()
        return None

    def truth(self):
        e = self.e
        return z3.simplify(z3.If(
            V.is_none(e), z3.BoolVal(False),
            z3.If(V.is_str(e), z3.Length(V.s(e)) > 0,
                  z3.If(V.is_bool(e), V.b(e),
                        z3.If(V.is_int(e), V.i(e) != 0,
                              CTX.obj_truth(V.o(e)))))))

    def __bool__(self):
        return CTX.branch(self.truth())

    def __eq__(self, o):
        return eq_(self, o)

    def __ne__(self, o):
        return not_(eq_(self, o))

    def __hash__(self):
        v = concretize(self, full=True)
        return hash(v)

    def _strpair(self, o):
        a, b = concretize(self), concretize(o) if is_sym(o) else o
        if is_sym(a) and a.tag() == 'str' and (isinstance(b, str) or (
                is_sym(b) and b.tag() == 'str')):
            return V.s(a.e), V.s(lift(b)), 's'
        if is_sym(a) and a.tag() == 'int' and (type(b) in (int, bool) or (
                is_sym(b) and b.tag() == 'int')):
            return V.i(a.e), V.i(lift(int(b) if type(b) is bool else b)), 'i'
        if not is_sym(a) and not is_sym(b):
            return a, b, 'c'
        return None

    def _order(self, o, fs, fc):
        p = self._strpair(o)
        if p is None:
            return NotImplemented
        if p[2] == 'c':
            return fc(p[0], p[1])
        return mkbool(fs(p[0], p[1], p[2]))

    def __lt__(self, o):
        return self._order(o, lambda a, b, k: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._order(o, lambda a, b, k: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._order(o, lambda a, b, k: b < a, lambda a, b: a > b)

    def __ge__(self, o):
        return self._order(o, lambda a, b, k: b <= a, lambda a, b: a >= b)

    def __add__(self, o):
        p = self._strpair(o)
        if p is None:
            return NotImplemented
        if p[2] == 'c':
            return p[0] + p[1]
        if p[2] == 's':
            return SymVal(V.str(z3.Concat(p[0], p[1])))
        return SymVal(V.int(p[0] + p[1]))

    def __radd__(self, o):
        if isinstance(o, str):
            a = concretize(self)
            if is_sym(a) and a.tag() == 'str':
                return SymVal(V.str(z3.Concat(z3str(o), V.s(a.e))))
        if isinstance(o, int):
            return self + o
        return NotImplemented

    def __mod__(self, o):
        return concretize(self, full=True) % o

    def __contains__(self, o):
        return builtins.bool(contains_(self, o))

    def __iter__(self):
        return iter(concretize(self, full=True))

    def __len__(self):
        v = concretize(self)
        if is_sym(v):
            n = pick_int(z3.Length(V.s(v.e)))
            return n
        return len(v)

    def __getitem__(self, k):
        return getitem(self, k)

    def __call__(self, *a, **kw):
        v = concretize(self)
        if is_sym(v):
            raise TypeError('symbolic %s is not callable' % v.tag())
        return v(*a, **kw)

    def __getattr__(self, name):
        if name.startswith('__sx'):
            raise AttributeError(name)
        v = concretize(self)
        if not is_sym(v):
            return getattr(v, name)
        if v.tag() == 'str':
            m = STR_METHODS.get(name)
            if m is not None:
                return lambda *a: m(v, *a)
            if not hasattr('', name):
                raise AttributeError(name)
        v = concretize(self, full=True)
        return getattr(v, name)

    def __repr__(self):
        return '\u27e6%s\u27e7' % CTX.placeholder(self)

    def __str__(self):
        return '\u27e6%s\u27e7' % CTX.placeholder(self)

    def __format__(self, spec):
        return '\u27e6%s\u27e7' % CTX.placeholder(self)

    @property
    def __class__(self):
        return type_(self)


def _s(v):
    return V.s(lift(v))


def _sym_startswith(v, p):
    if isinstance(p, tuple):
        return mkbool(z3.Or([z3.PrefixOf(_s(x), _s(v)) for x in p]))
    return mkbool(z3.PrefixOf(_s(p), _s(v)))


def _sym_endswith(v, p):
    if isinstance(p, tuple):
        return mkbool(z3.Or([z3.SuffixOf(_s(x), _s(v)) for x in p]))
    return mkbool(z3.SuffixOf(_s(p), _s(v)))


def _sym_encode(v, encoding='utf-8', errors='strict'):
    # printable ASCII text stands for its own encoding (see decode)
    if CTX.branch(z3.InRe(_s(v), ascii_re())):
        return v
    return concretize(v, full=True).encode(encoding, errors)


def ascii_re():
    return z3.Star(z3.Range(' ', '~'))


STR_METHODS = {
    'encode': _sym_encode,
    'decode': lambda v, *a: v,
    'startswith': _sym_startswith,
    'endswith': _sym_endswith,
    '__eq__': lambda v, o: eq_(v, o),
    '__ne__': lambda v, o: not_(eq_(v, o)),
    '__len__': lambda v: v.__len__(),
    '__contains__': lambda v, o: contains_(v, o),
}


def pick_int(e):
    """Fork over the feasible values of an integer term (bounded)."""
    for _ in range(CTX.max_int_forks):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        m = CTX.any_model()
        v = m.eval(e, model_completion=True).as_long()
        if CTX.branch(e == v):
            return v
    CTX.note_incomplete('integer term forked more than %d ways' % CTX.max_int_forks)
    raise PathEnd


def concretize(x, full=False):
    """Resolve the tag of x (forking); objects, booleans and None become
    concrete.  full=True also fixes strings and integers to one model value
    (recorded as an incompleteness)."""
    if type(x) is SymBool:
        return builtins.bool(x)
    if type(x) is not SymVal:
        return x
    e = z3.simplify(x.e)
    t = SymVal(e).tag()
    if t is None:
        if CTX.branch(V.is_none(e)):
            return None
        elif CTX.branch(V.is_str(e)):
            e = V.str(V.s(e))
            t = 'str'
        elif CTX.branch(V.is_bool(e)):
            e = V.bool(V.b(e))
            t = 'bool'
        elif CTX.branch(V.is_int(e)):
            e = V.int(V.i(e))
            t = 'int'
        else:
            e = V.obj(V.o(e))
            t = 'obj'
    if t == 'none':
        return None
    if t == 'bool':
        return CTX.branch(V.b(e))
    if t == 'obj':
        o = z3.simplify(V.o(e))
        if z3.is_int_value(o):
            return CTX.objs[o.as_long()]
        for i in sorted(CTX.objs):
            if CTX.branch(o == i):
                return CTX.objs[i]
        raise PathEnd
    e = z3.simplify(e)
    if t == 'str':
        s = z3.simplify(V.s(e))
        if z3.is_string_value(s):
            return decode_z3str(s.as_string())
        if full:
            # literals of the code and harness first, then one model value
            m = CTX.any_model()
            v = m.eval(s, model_completion=True)
            CTX.note_incomplete('string fixed to a model value at a native boundary')
            CTX.assume(s == v)
            return decode_z3str(v.as_string())
        return SymVal(V.str(s))
    i = z3.simplify(V.i(e))
    if z3.is_int_value(i):
        return i.as_long()
    if full:
        return pick_int(i)
    return SymVal(V.int(i))


# --------------------------------------------------------------------------
# Interception of constructs

def contains_(c, x):
    """x in c"""
    tc = type(c)
    if tc is SymVal:
        c = concretize(c)
        if type(c) is SymVal and c.tag() == 'str':
            x = concretize(x)
            return mkbool(z3.Contains(_s(c), _s(x)))
        tc = type(c)
    if tc is SDict:
        return c.__contains__(x)
    if issubclass(type(c), SList):
        return c.contains(x)
    if is_sym(x):
        if issubclass(type(c), (list, tuple, set, frozenset, dict, types.MappingProxyType)) \
                or tc in (type({}.keys()),):
            r = False
            for y in list(c):
                r = or_(r, _eqq(x, y))
            return r
        if issubclass(type(c), str):
            v = concretize(x)
            if is_sym(v) and v.tag() == 'str':
                return mkbool(z3.Contains(z3str(c), V.s(v.e)))
            return v in c
    elif issubclass(type(c), (list, tuple)) and any(is_sym(y) for y in c):
        r = False
        for y in c:
            r = or_(r, True if y is x else _eqq(y, x))
        return r
    return x in c


def _eqq(a, b):
    """equality as containment uses it: identity or =="""
    if is_sym(a) or is_sym(b):
        return eq_(a, b)
    return a is b or builtins.bool(a == b)


def or_(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return mkbool(z3.Or(tobool(a), tobool(b)))


def in_(x, c):
    return contains_(c, x)


def notin_(x, c):
    return not_(contains_(c, x))


def getitem(c, k):
    if type(c) is SymVal:
        c = concretize(c)
        if type(c) is SymVal and c.tag() == 'str':
            s = V.s(c.e)
            n = z3.Length(s)
            if isinstance(k, slice):
                if k.step is not None:
                    return concretize(c, full=True)[k]

                def norm(i, default):
                    if i is None:
                        return default
                    i = V.i(lift(i))
                    i = z3.If(i < 0, z3.If(i + n < 0, 0, i + n), i)
                    return z3.If(i > n, n, i)
                a, b = norm(k.start, z3.IntVal(0)), norm(k.stop, n)
                return SymVal(V.str(z3.simplify(
                    z3.If(b > a, z3.SubString(s, a, b - a), z3.StringVal('')))))
            i = V.i(lift(k))
            i = z3.If(i < 0, i + n, i)
            if not CTX.branch(z3.And(i >= 0, i < n)):
                raise IndexError('string index out of range')
            return SymVal(V.str(z3.SubString(s, i, 1)))
    if is_sym(k) and not issubclass(type(c), (SDict, SList)):
        if issubclass(type(c), (dict, types.MappingProxyType)):
            for y in list(c):
                if builtins.bool(_eqq(k, y)):
                    return c[y]
            if hasattr(type(c), '__missing__'):
                return type(c).__missing__(c, k)
            raise KeyError(k)
        if issubclass(type(c), (list, tuple, str)):
            k = concretize(k)
            if is_sym(k):
                k = pick_int(V.i(k.e))
    return c[k]


def isinstance_(x, cls):
    t = type(x)
    if t is SymBool:
        return isinstance(True, cls)
    if t is not SymVal:
        return isinstance(x, cls)
    e = x.e
    return mkbool(z3.Or(
        z3.And(V.is_none(e), isinstance(None, cls)),
        z3.And(V.is_str(e), isinstance('', cls)),
        z3.And(V.is_bool(e), isinstance(True, cls)),
        z3.And(V.is_int(e), isinstance(0, cls)),
        z3.And(V.is_obj(e), z3.Or([V.o(e) == i for i, ob in sorted(CTX.objs.items())
                                   if isinstance(ob, cls)] or [z3.BoolVal(False)]))))


def type_(*args):
    if len(args) != 1:
        return type(*args)
    x = args[0]
    t = type(x)
    if t is SymBool:
        return bool
    if t is SDict:
        return dict
    if t is not SymVal:
        return t
    v = concretize(x)
    if is_sym(v):
        return str if v.tag() == 'str' else int
    return type(v)


_MISSING = object()


def getattr_(o, name, *default):
    if type(name) is SymVal:
        n = concretize(name)
        if is_sym(n) and n.tag() == 'str':
            try:
                return sym_getattribute(concretize(o), n)
            except AttributeError:
                if default:
                    return default[0]
                raise
        name = n
    return getattr(o, name, *default)


def sym_getattribute(o, name):
    """o.<name> with a symbolic string name"""
    t = type(o)
    hook = getattr(t, '__sx_getattr__', None)
    if hook is not None:
        return hook(o, name)
    ga = t.__getattribute__
    if isinstance(ga, types.FunctionType):
        try:
            return ga(o, name)
        except AttributeError:
            if hasattr(t, '__getattr__'):
                return t.__getattr__(o, name)
            raise
    for y in known_names(o):
        if builtins.bool(_eqq(name, y)):
            return getattr(o, y)
    if hasattr(t, '__getattr__'):
        return t.__getattr__(o, name)
    raise AttributeError(name)


def known_names(o):
    names = set(dir(o)) | set(dir(type(o)))
    return sorted(names)


def hasattr_(o, name):
    try:
        getattr_(o, name)
    except AttributeError:
        return False
    return True


def setattr_(o, name, value):
    if type(name) is SymVal:
        n = concretize(name)
        if is_sym(n) and n.tag() == 'str':
            o = concretize(o)
            sa = type(o).__setattr__
            if isinstance(sa, types.FunctionType):
                return sa(o, n, value)
            for y in known_names(o):
                if builtins.bool(_eqq(n, y)):
                    return setattr(o, y, value)
            n = concretize(n, full=True)
        name = n
    return setattr(o, name, value)


def delattr_(o, name):
    if type(name) is SymVal:
        n = concretize(name)
        if is_sym(n) and n.tag() == 'str':
            o = concretize(o)
            da = type(o).__delattr__
            if isinstance(da, types.FunctionType):
                return da(o, n)
            for y in known_names(o):
                if builtins.bool(_eqq(n, y)):
                    return delattr(o, y)
            raise AttributeError(n)
        name = n
    return delattr(o, name)


def len_(x):
    if type(x) is SymVal:
        v = concretize(x)
        if is_sym(v) and v.tag() == 'str':
            return SymVal(V.int(z3.Length(V.s(v.e))))
        return len(v)
    return len(x)


def str_(*a):
    if len(a) == 1 and type(a[0]) is SymVal:
        v = concretize(a[0])
        if is_sym(v) and v.tag() == 'str':
            return v
        return str(v)
    return str(*a)


def bool_(*a):
    return builtins.bool(*a)


def id_(x):
    if type(x) is SymVal:
        x = concretize(x, full=True)
    return id(x)


def getframe_(n=0):
    """sys._getframe as seen by the instrumented code."""
    f = sys._getframe(1)
    while True:
        while f.f_code.co_filename == ENGINE_FILE:
            f = f.f_back
        if n == 0:
            return f
        n -= 1
        f = f.f_back


def dict_(*a, **kw):
    d = SDict()
    d.update(*a, **kw)
    return d


def hasattr_concrete(o, n):
    return hasattr(o, n)


def callable_(x):
    if type(x) is SymVal:
        x = concretize(x)
        return False if is_sym(x) else callable(x)
    return callable(x)


def set_(*a):
    if a and any_sym(a[0]):
        return sset(a[0])
    return set(*a)


def any_sym(it):
    try:
        return any(is_sym(x) for x in it)
    except TypeError:
        return False


def sset(items):
    """A set with symbolic members, represented as a list of distinct ones."""
    r = SList()
    for x in items:
        r.add(x)
    return r


class SList(list):
    """list of pairwise distinct symbolic members (set stand-in)"""

    def contains(self, x):
        r = False
        for y in self:
            r = or_(r, _eqq(x, y))
        return r

    def __contains__(self, x):
        return builtins.bool(self.contains(x))

    def add(self, x):
        if not builtins.bool(self.contains(x)):
            self.append(x)

    def update(self, it):
        for x in it:
            self.add(x)

    def discard(self, x):
        for i, y in enumerate(self):
            if builtins.bool(_eqq(x, y)):
                del self[i]
                return

    __hash__ = None


def sorted_(it, **kw):
    it = list(it)
    if any_sym(it) and not kw:
        # insertion sort with symbolic comparisons
        out = []
        for x in it:
            i = 0
            while i < len(out) and not builtins.bool(x < out[i]):
                i += 1
            out.insert(i, x)
        return out
    return sorted(it, **kw)


SPECIAL = {
    id(isinstance): isinstance_, id(type): type_, id(getattr): getattr_,
    id(hasattr): hasattr_, id(setattr): setattr_, id(delattr): delattr_,
    id(len): len_, id(str): str_, id(id): id_, id(sys._getframe): getframe_,
    id(dict): dict_, id(callable): callable_, id(set): set_, id(frozenset): set_,
    id(sorted): sorted_,
}
_DICT_METHODS = ('get', '__getitem__', '__contains__', 'pop', 'setdefault')
_BOUND = type({}.get)
import operator as _op   # noqa: E402
SPECIAL[id(_op.is_)] = is_
SPECIAL[id(_op.is_not)] = isnot_
SPECIAL[id(_op.contains)] = contains_
SPECIAL[id(_op.getitem)] = getitem
SPECIAL[id(_op.not_)] = lambda x: not x


def _object_get(o, name):
    if type(name) is SymVal:
        name = concretize(name)
        if is_sym(name):
            for y in known_names(o):
                if builtins.bool(_eqq(name, y)):
                    return object.__getattribute__(o, y)
            raise AttributeError(name)
    return object.__getattribute__(o, name)


def _object_set(o, name, value):
    if type(name) is SymVal:
        name = concretize(name)
        if is_sym(name):
            for y in known_names(o):
                if builtins.bool(_eqq(name, y)):
                    return object.__setattr__(o, y, value)
            name = concretize(name, full=True)
    return object.__setattr__(o, name, value)


def _object_del(o, name):
    if type(name) is SymVal:
        name = concretize(name)
        if is_sym(name):
            for y in known_names(o):
                if builtins.bool(_eqq(name, y)):
                    return object.__delattr__(o, y)
            raise AttributeError(name)
    return object.__delattr__(o, name)


_OBJECT = {'__getattribute__': _object_get, '__setattr__': _object_set,
           '__delattr__': _object_del}
for _n, _f in _OBJECT.items():
    SPECIAL[id(getattr(object, _n))] = _f
_WRAPPER = type(object().__getattribute__)


def sel(f):
    r = SPECIAL.get(id(f))
    if r is not None:
        return r
    if type(f) is _BOUND:
        s = f.__self__
        if isinstance(s, (dict, types.MappingProxyType)) and type(s) is not SDict:
            n = f.__name__
            if n == 'get':
                def get(k, d=None):
                    if not is_sym(k):
                        return f(k, d)
                    try:
                        return getitem_plain(s, k)
                    except KeyError:
                        return d
                return get
            if n == '__getitem__':
                return lambda k: getitem(s, k)
            if n == '__contains__':
                return lambda k: contains_(s, k)
        elif type(s) in (list, tuple) and f.__name__ in ('remove', 'index', 'count'):
            return f        # native ==, symbolic elements fork through __eq__
        elif type(s) is str and f.__name__ == 'startswith':
            return lambda p, *a: (mkbool(z3.PrefixOf(_s(p), z3str(s)))
                                  if is_sym(p) else f(p, *a))
        elif type(s) is str and f.__name__ == 'join':
            def join(it):
                it = list(it)
                return f([str(x) if is_sym(x) else x for x in it])
            return join
        elif isinstance(s, (set, frozenset)) and f.__name__ == '__contains__':
            return lambda k: contains_(s, k)
        elif isinstance(s, set) and f.__name__ in ('add', 'discard', 'remove'):
            def setop(k):
                return f(concretize(k, full=True) if is_sym(k) else k)
            return setop
    elif type(f) is _WRAPPER:
        # object's own method, bound (super().__getattribute__ and the like)
        g = _OBJECT.get(f.__name__)
        if g is not None and f.__objclass__ is object:
            return lambda *a: g(f.__self__, *a)
    elif f is dict.get:
        return lambda d, k, *a: d.get(k, *a) if type(d) is SDict else sel(d.get)(k, *a)
    return f


def getitem_plain(c, k):
    for y in list(c):
        if builtins.bool(_eqq(k, y)):
            return c[y]
    raise KeyError(k)


# --------------------------------------------------------------------------
# Dictionaries with symbolic keys

class SDict(dict):
    """A dict whose keys may be symbolic.

    Without symbolic keys it is a plain dict.  With them, entries live in an
    association list with pairwise distinct keys (under the path condition).
    `base`, if given, is an arbitrary mapping (uninterpreted functions).
    """
    __slots__ = ('sym', 'base', 'deleted')

    def __init__(self, *a, **kw):
        self.sym = None
        self.base = None
        self.deleted = []
        dict.__init__(self)
        if a or kw:
            self.update(*a, **kw)

    # representation
    def _go_sym(self):
        if self.sym is None:
            self.sym = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def _find(self, k):
        """the entry list whose key equals k, or None (forks)"""
        if self.sym is None:
            return None
        if not is_sym(k):
            # identical/equal concrete key first
            for ent in self.sym:
                if not is_sym(ent[0]) and (ent[0] is k or ent[0] == k):
                    return ent
        for ent in self.sym:
            if not is_sym(k) and not is_sym(ent[0]):
                continue
            if builtins.bool(_eqq(ent[0], k)):
                return ent
        return None

    def _base_present(self, k):
        if self.base is None:
            return False
        for d in self.deleted:
            if builtins.bool(_eqq(d, k)):
                return False
        return self.base.present(k)

    def _symbolic_access(self, k):
        return self.sym is not None or self.base is not None or is_sym(k)

    def __getitem__(self, k):
        if not self._symbolic_access(k):
            return dict.__getitem__(self, k)
        self._go_sym()
        ent = self._find(k)
        if ent is not None:
            return ent[1]
        if builtins.bool(self._base_present(k)):
            return self.base.value(k)
        raise KeyError(k)

    def get(self, k, default=None):
        if not self._symbolic_access(k):
            return dict.get(self, k, default)
        self._go_sym()
        ent = self._find(k)
        if ent is not None:
            return ent[1]
        p = self._base_present(k)
        if p is False:
            return default
        if p is True:
            return self.base.value(k)
        try:
            d = lift(default)
        except Exception:
            return self.base.value(k) if p else default
        return SymVal(z3.If(p.e, lift(self.base.value(k)), d))

    def __contains__(self, k):
        return builtins.bool(self.contains(k)) if self._symbolic_access(k) \
            else dict.__contains__(self, k)

    def contains(self, k):
        if not self._symbolic_access(k):
            return dict.__contains__(self, k)
        self._go_sym()
        if self._find(k) is not None:
            return True
        return self._base_present(k)

    has_key = contains

    def __setitem__(self, k, v):
        if not self._symbolic_access(k):
            dict.__setitem__(self, k, v)
            return
        self._go_sym()
        ent = self._find(k)
        if ent is not None:
            ent[1] = v
            return
        if self.base is not None:
            pos = self._base_present(k)   # keep insertion semantics simple
            del pos
        self.sym.append([k, v])

    def __delitem__(self, k):
        if not self._symbolic_access(k):
            dict.__delitem__(self, k)
            return
        self._go_sym()
        ent = self._find(k)
        if ent is not None:
            self.sym.remove(ent) if False else self._drop(ent)
            if self.base is not None:
                self.deleted.append(k)
            return
        if builtins.bool(self._base_present(k)):
            self.deleted.append(k)
            return
        raise KeyError(k)

    def _drop(self, ent):
        self.sym = [e for e in self.sym if e is not ent]

    def pop(self, k, *d):
        try:
            v = self[k]
        except KeyError:
            if d:
                return d[0]
            raise
        del self[k]
        return v

    def setdefault(self, k, d=None):
        if self.contains(k):
            return self[k]
        self[k] = d
        return d

    def _entries(self):
        if self.base is not None:
            return self.base.entries(self)
        if self.sym is None:
            return [[k, v] for k, v in dict.items(self)]
        return self.sym

    def keys(self):
        if self.sym is None and self.base is None:
            return dict.keys(self)
        return SList(e[0] for e in self._entries())

    def values(self):
        if self.sym is None and self.base is None:
            return dict.values(self)
        return [e[1] for e in self._entries()]

    def items(self):
        if self.sym is None and self.base is None:
            return dict.items(self)
        return [(e[0], e[1]) for e in self._entries()]

    def __iter__(self):
        if self.sym is None and self.base is None:
            return dict.__iter__(self)
        return iter([e[0] for e in self._entries()])

    def __len__(self):
        if self.sym is None and self.base is None:
            return dict.__len__(self)
        if self.base is not None:
            return 1 if self._nonempty() else 0
        return len(self.sym)

    def _nonempty(self):
        if self.sym:
            return True
        return builtins.bool(self.base.nonempty(self))

    def __bool__(self):
        if self.sym is None and self.base is None:
            return dict.__len__(self) > 0
        if self.base is not None:
            return self._nonempty()
        return len(self.sym) > 0

    def clear(self):
        dict.clear(self)
        self.sym = None
        self.base = None
        self.deleted = []

    def update(self, *a, **kw):
        for x in a:
            if isinstance(x, SDict):
                for k, v in x.items():
                    self[k] = v
            elif hasattr(x, 'keys'):
                for k in x.keys():
                    self[k] = x[k]
            else:
                for k, v in x:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        d = SDict()
        d.sym = None if self.sym is None else [list(e) for e in self.sym]
        d.base = self.base
        d.deleted = list(self.deleted)
        if self.sym is None:
            for k, v in dict.items(self):
                dict.__setitem__(d, k, v)
        return d

    __copy__ = copy

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if self.sym is None and self.base is None and not isinstance(o, SDict):
            return dict.__eq__(self, o)
        if not isinstance(o, dict):
            return False
        o = o if isinstance(o, SDict) else SDict(o)
        if self is o:
            return True
        if self.base is not None or o.base is not None:
            raise Unsupported('== of arbitrary dicts')
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if not o.contains(k):
                return False
            if not _eqq(o[k], v):
                return False
        return True

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __repr__(self):
        if self.sym is None and self.base is None:
            return dict.__repr__(self)
        return '{<symbolic>}'


class Base:
    """An arbitrary mapping from keys to V: uninterpreted present()/value()."""

    def __init__(self, ctx, name, valid):
        self.name = name
        self.P = z3.Function(name + '.present', V, z3.BoolSort())
        self.F = z3.Function(name + '.value', V, V)
        self.N = z3.Bool(name + '.nonempty')
        self.valid = valid          # expr -> constraint on values
        self.touched = []
        self.rests = []             # (deleted keys, whether anything else is there)

    def _touch(self, k):
        e = lift(k)
        for x in self.touched:
            if x.eq(e):
                return e
        self.touched.append(e)
        CTX.add(self.valid(self.F(e)))
        CTX.add(z3.Implies(self.P(e), self.N))
        for gone, r in self.rests:
            self._outside(e, gone, r)
        return e

    def _outside(self, e, gone, r):
        CTX.add(z3.Implies(z3.And(self.P(e), *[e != g for g in gone]), r))

    def present(self, k):
        e = self._touch(k)
        return mkbool(self.P(e))

    def value(self, k):
        e = self._touch(k)
        return SymVal(self.F(e))

    def nonempty(self, d):
        if not d.deleted:
            return mkbool(self.N)
        gone = [self._touch(k) for k in d.deleted]
        for old, r in self.rests:
            if len(old) == len(gone) and all(x.eq(y) for x, y in zip(old, gone)):
                return mkbool(r)
        r = z3.Bool('%s.rest%d' % (self.name, len(self.rests)))
        self.rests.append((gone, r))
        CTX.add(z3.Implies(r, self.N))
        CTX.add(z3.Implies(z3.And(self.N, z3.Not(r)), z3.Or(*[self.P(g) for g in gone])))
        for e in self.touched:
            self._outside(e, gone, r)
        return mkbool(r)

    def entries(self, d):
        raise Unsupported('iteration over an arbitrary dict')


# --------------------------------------------------------------------------
# Instrumentation

class Instrument(ast.NodeTransformer):

    KEEP = {'super', 'locals', 'globals', 'vars', 'eval', 'exec'}

    def __init__(self, module=None):
        self.module = module
        self.qual = []

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        self.generic_visit(node)
        self.qual.pop()
        return node

    def visit_FunctionDef(self, node):
        self.qual.append(node.name)
        self.generic_visit(node)
        if self.module is not None:
            mark = ast.Expr(self._call('enter', ast.Constant(
                value='%s.%s' % (self.module, '.'.join(self.qual)))))
            has_doc = (node.body and isinstance(node.body[0], ast.Expr) and
                       isinstance(node.body[0].value, ast.Constant) and
                       isinstance(node.body[0].value.value, str))
            i = 1 if has_doc else 0
            for n in ast.walk(mark):
                ast.copy_location(n, node.body[i] if i < len(node.body) else node)
            node.body.insert(i, mark)
        self.qual.pop()
        return node

    def _n(self, name):
        return ast.Name(id='__sx_%s__' % name, ctx=ast.Load())

    def _call(self, name, *args):
        return ast.Call(func=self._n(name), args=list(args), keywords=[])

    def visit_Call(self, node):
        keep = isinstance(node.func, ast.Name) and node.func.id in self.KEEP
        self.generic_visit(node)
        if keep:
            return node
        node.func = ast.copy_location(self._call('sel', node.func), node.func)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        table = {ast.Is: 'is', ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}
        if not any(type(o) in table for o in node.ops):
            return node
        if len(node.ops) == 1:
            return ast.copy_location(
                self._call(table[type(node.ops[0])], node.left, node.comparators[0]), node)
        # chains: (a op b) and (b op c); operands of these in this code base are
        # side-effect free names, so evaluating the middle twice is harmless
        parts = []
        left = node.left
        for op, right in zip(node.ops, node.comparators):
            if type(op) in table:
                parts.append(self._call(table[type(op)], left, right))
            else:
                parts.append(ast.Compare(left=left, ops=[op], comparators=[right]))
            left = right
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                none = ast.Constant(value=None)
                sl = ast.Call(func=ast.Name(id='slice', ctx=ast.Load()),
                              args=[sl.lower or none, sl.upper or none, sl.step or none],
                              keywords=[])
            return ast.copy_location(self._call('getitem', node.value, sl), node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        elts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                elts.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                elts.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return ast.copy_location(
            self._call('mkdict', ast.List(elts=elts, ctx=ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                          generators=node.generators)
        return ast.copy_location(self._call('mkdict', lc), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            self._call('mkset', ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            self._call('mkset', ast.ListComp(elt=node.elt, generators=node.generators)), node)


def mkdict(pairs):
    d = SDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def mkset(items):
    items = list(items)
    if any_sym(items):
        return sset(items)
    return set(items)


def TOUCHED_add(name):
    if CTX is not None:
        TOUCHED.add(name)


HELPERS = {
    '__sx_sel__': sel, '__sx_is__': is_, '__sx_isnot__': isnot_, '__sx_in__': in_,
    '__sx_notin__': notin_, '__sx_getitem__': getitem, '__sx_mkdict__': mkdict,
    '__sx_mkset__': mkset, '__sx_enter__': TOUCHED_add,
}
ENCODED = {}     # module name -> number of functions instrumented
TOUCHED = set()  # functions of the code under test entered while exploring


def instrument_source(src, filename, module=None):
    tree = ast.parse(src, filename)
    n = sum(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(tree))
    tree = ast.fix_missing_locations(Instrument(module).visit(tree))
    return compile(tree, filename, 'exec', dont_inherit=True), n


class Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding='utf-8') as f:
            code, n = instrument_source(f.read(), path, fullname)
        ENCODED[fullname] = n
        return code

    def exec_module(self, module):
        module.__dict__.update(HELPERS)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):

    def __init__(self, prefixes):
        self.prefixes = prefixes

    def find_spec(self, fullname, path=None, target=None):
        if not any(fullname == p or fullname.startswith(p + '.') for p in self.prefixes):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


# --------------------------------------------------------------------------
# Contexts

class BaseCtx:
    """What a harness sees.  See SymCtx and ConcreteCtx."""


_TAGS = re.compile(r'(C\d\d(?: C\d\d)*): ')


def wanted(label, prop):
    """Labels such as 'C02 C04: text' belong to the named properties only."""
    m = _TAGS.match(label)
    return m is None or prop is None or prop in m.group(1).split()


class Violation:
    def __init__(self, label, case, detail=''):
        self.label, self.case, self.detail = label, case, detail


class SymCtx(BaseCtx):
    symbolic = True
    max_int_forks = 12

    def __init__(self, explorer, prefix, mode):
        self.x = explorer
        self.mode = mode
        self.tier = explorer.tier
        self.prefix = prefix
        self.trail = []
        self.solver = z3.SolverFor('ALL') if False else z3.Solver()
        self.solver.set('timeout', explorer.solver_timeout)
        self.objs = {}
        self._oid = {}
        self.labels = {}       # oid -> label
        self.vars = {}         # name -> ('kind', expr)
        self.bases = {}
        self.falsy = set()
        self.notes = []
        self.covers = []
        self.proved = 0
        self.dead = None
        self.ph = []
        self._cleanup = []

    # solver
    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.x.queries += 1
        self.x.solver_s += time.time() - t
        if r == z3.unknown:
            self.x.unknown += 1
        return r

    def add(self, e):
        self.solver.add(e)

    def any_model(self):
        r = self._check()
        if r != z3.sat:
            raise PathEnd
        return self.solver.model()

    def branch(self, e):
        if self.dead is not None:
            raise self.dead
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trail.append(d)
            self.solver.add(e if d else z3.Not(e))
            return d
        self.x.branches += 1
        if self.x.branches > self.x.max_branches or time.time() > self.x.deadline:
            raise Budget('branch/time budget')
        ne = z3.Not(e)
        can_t = self._check(e) != z3.unsat
        if not can_t:
            self.trail.append(False)
            self.solver.add(ne)
            return False
        can_f = self._check(ne) != z3.unsat
        if can_f:
            self.x.push(self.trail + [False])
        self.trail.append(True)
        self.solver.add(e)
        return True

    def assume(self, c):
        e = tobool(c) if not z3.is_expr(c) else c
        self.solver.add(e)
        if self._check() == z3.unsat:
            raise PathEnd

    def prove(self, c, label, detail=''):
        """Assert c on this path."""
        if not wanted(label, self.x.prop):
            return
        if self.dead is not None:
            raise self.dead
        self.x.obligations += 1
        self.x.label(label)
        if type(c) in (SymBool, SymVal):
            e = tobool(c)
            r = self._check(z3.Not(e))
            if r == z3.unknown:
                self.x.undecided.append(label)
            elif r == z3.sat:
                self.x.violation(self, label, self.solver.model(), detail)
                # go on under the assumption that it holds
                self.assume(e)
                return
            self.proved += 1
            return
        if not c:
            r = self._check()
            if r == z3.sat:
                self.x.violation(self, label, self.solver.model(), detail)
            elif r == z3.unknown:
                self.x.undecided.append(label)
            raise PathEnd
        self.proved += 1

    def cover(self, label):
        """The path reaching here is feasible (reachability witness)."""
        self.covers.append(label)

    def note(self, *what):
        """Record an outcome; compared with concrete runs of path witnesses."""
        self.notes.append('/'.join(str(w) for w in what))

    def note_incomplete(self, why):
        self.x.incomplete[why] = self.x.incomplete.get(why, 0) + 1

    def placeholder(self, v):
        for i, x in enumerate(self.ph):
            if x.eq(v.e):
                return 's%d' % i
        self.ph.append(v.e)
        return 's%d' % (len(self.ph) - 1)

    # objects
    def oid(self, o):
        i = self._oid.get(id(o))
        if i is None:
            i = len(self._oid)
            self._oid[id(o)] = i
            self.objs[i] = o
        return i

    def obj(self, label, o):
        """Register a concrete object that symbolic values may denote."""
        i = self.oid(o)
        self.labels[i] = label
        return o

    def obj_truth(self, o):
        """truth of objects: registered ones are truthy unless declared falsy"""
        return z3.And([o != i for i in sorted(self.falsy)] or [z3.BoolVal(True)])

    def declare_falsy(self, o):
        self.falsy.add(self.oid(o))

    # symbolic inputs
    def _fresh(self, name):
        if name in self.vars or name in self.bases:
            raise Unsupported('duplicate input %s' % name)

    def str(self, name, maxlen=None, ascii=False):
        self._fresh(name)
        s = z3.String(name)
        self.vars[name] = ('str', s)
        if maxlen is not None:
            self.add(z3.Length(s) <= maxlen)
        if ascii:
            self.add(z3.InRe(s, ascii_re()))
        return SymVal(V.str(s))

    def bool(self, name):
        self._fresh(name)
        b = z3.Bool(name)
        self.vars[name] = ('bool', b)
        return SymBool(b)

    def int(self, name, lo, hi):
        self._fresh(name)
        i = z3.Int(name)
        self.vars[name] = ('int', i)
        self.add(z3.And(i >= lo, i <= hi))
        return SymVal(V.int(i))

    def choose(self, name, n):
        """A number below n, resolved by forking; n may be a list of options."""
        opts = None
        if not isinstance(n, int):
            opts, n = list(n), len(n)
        self._fresh(name)
        i = z3.Int(name)
        self.vars[name] = ('int', i)
        self.add(z3.And(i >= 0, i < n))
        for k in range(n):
            if self.branch(i == k):
                return k if opts is None else opts[k]
        raise PathEnd

    def valid(self, e, none=False, strings=False, bools=False, ints=False, objs=()):
        alts = []
        if none:
            alts.append(V.is_none(e))
        if strings:
            alts.append(V.is_str(e))
        if bools:
            alts.append(V.is_bool(e))
        if ints:
            alts.append(V.is_int(e))
        for o in objs:
            alts.append(e == V.obj(self.oid(o)))
        return z3.Or(alts)

    def val(self, name, **dom):
        self._fresh(name)
        e = z3.Const(name, V)
        self.vars[name] = ('val', e)
        self.add(self.valid(e, **dom))
        return SymVal(e)

    def dict(self, name, **dom):
        """An arbitrary dict (any keys) with values in the given domain."""
        self._fresh(name)
        b = Base(self, name, lambda e: self.valid(e, **dom))
        self.bases[name] = b
        d = SDict()
        d.base = b
        d.sym = []
        return d

    def bdict(self, name, n, **dom):
        """An arbitrary dict of at most n entries with distinct string keys."""
        self._fresh(name)
        k = self.choose(name + '.len', n + 1)
        d = SDict()
        d.sym = []
        keys = []
        for j in range(k):
            key = self.str('%s.key%d' % (name, j))
            for other in keys:
                self.assume(not_(eq_(key, other)))
            keys.append(key)
            d.sym.append([key, self.val('%s.val%d' % (name, j), **dom)])
        return d

    # specification helpers (formulas, no forking)
    def And(self, *a):
        return mkbool(z3.And([tobool(x) for x in a]))

    def Or(self, *a):
        return mkbool(z3.Or([tobool(x) for x in a] or [z3.BoolVal(False)]))

    def Not(self, a):
        return mkbool(z3.Not(tobool(a)))

    def Implies(self, a, b):
        return mkbool(z3.Implies(tobool(a), tobool(b)))

    def Iff(self, a, b):
        return mkbool(tobool(a) == tobool(b))

    def same(self, a, b):
        """a and b are the same value (identity for objects)"""
        if type(a) is type(b) and type(a) in (str, int, bool):
            return a == b
        return is_(a, b)

    def member(self, x, c):
        return contains_(c, x)

    def invoke_getattr(self, o, name):
        return getattr_(o, name)

    def invoke_setattr(self, o, name, v):
        return setattr_(o, name, v)

    def invoke_delattr(self, o, name):
        return delattr_(o, name)

    def cleanup(self, f):
        self._cleanup.append(f)

    # models
    def case(self, m):
        def val(e):
            v = m.eval(e, model_completion=True)
            return self._decode(v)
        out = {'inputs': {}, 'dicts': {}}
        for n, (k, e) in self.vars.items():
            if k == 'str':
                out['inputs'][n] = enc(decode_z3str(
                    m.eval(e, model_completion=True).as_string()))
            elif k == 'bool':
                out['inputs'][n] = enc(z3.is_true(m.eval(e, model_completion=True)))
            elif k == 'int':
                out['inputs'][n] = enc(m.eval(e, model_completion=True).as_long())
            else:
                out['inputs'][n] = val(e)
        for n, b in self.bases.items():
            items, seen, there = [], [], []
            for k in b.touched:
                kv = val(k)
                if kv in seen:
                    continue
                seen.append(kv)
                if z3.is_true(m.eval(b.P(k), model_completion=True)):
                    items.append([kv, val(b.F(k))])
                    there.append(kv)
            more = False
            for gone, r in b.rests:
                gone = [val(g) for g in gone]
                if z3.is_true(m.eval(r, model_completion=True)) and all(k in gone for k in there):
                    more = True
            if more or not items and z3.is_true(m.eval(b.N, model_completion=True)):
                # non-empty with keys the run does not look at
                items.append([enc('unrelated\x01key'), {'k': 'any'}])
            out['dicts'][n] = items
        return out

    def _decode(self, v):
        v = z3.simplify(v)
        d = v.decl().name()
        if d == 'none':
            return {'k': 'none'}
        if d == 'str':
            return enc(decode_z3str(z3.simplify(V.s(v)).as_string()))
        if d == 'bool':
            return enc(z3.is_true(z3.simplify(V.b(v))))
        if d == 'int':
            return enc(z3.simplify(V.i(v)).as_long())
        i = z3.simplify(V.o(v)).as_long()
        return {'k': 'obj', 'label': self.labels.get(i, '#%d' % i)}


class Skip(Exception):
    """A concrete case does not satisfy an assumption."""


class ConcreteCtx(BaseCtx):
    """Runs a harness on plain code with the values of a case."""
    symbolic = False

    def __init__(self, case, mode, tier='quick', prop=None):
        self.c = case
        self.prop = prop
        self.mode = mode
        self.tier = tier
        self.labels = {}
        self.failed = []
        self.notes = []
        self.covers = []
        self._cleanup = []
        self.defaulted = []

    def obj(self, label, o):
        self.labels[label] = o
        return o

    def declare_falsy(self, o):
        pass

    def _dec(self, v, dom=None):
        k = v['k']
        if k == 'none':
            return None
        if k in ('bool', 'int'):
            return v['v']
        if k == 'str':
            return sys.intern(''.join(map(chr, v['v'])))
        if k == 'obj':
            return self.labels[v['label']]
        if k == 'any':
            dom = dom or {}
            if dom.get('none'):
                return None
            if dom.get('strings'):
                return 'unrelated'
            return next(iter(dom.get('objs', ())), None)
        raise Skip(k)

    def _in(self, name, default):
        v = self.c['inputs'].get(name)
        if v is None:
            self.defaulted.append(name)
            return default
        return self._dec(v)

    def str(self, name, maxlen=None, ascii=False):
        return self._in(name, '')

    def bool(self, name):
        return self._in(name, False)

    def int(self, name, lo, hi):
        return self._in(name, lo)

    def choose(self, name, n):
        i = self._in(name, 0)
        return i if isinstance(n, int) else list(n)[i]

    def val(self, name, none=False, strings=False, bools=False, ints=False, objs=()):
        if none:
            d = None
        elif bools:
            d = False
        elif strings:
            d = ''
        elif ints:
            d = 0
        else:
            d = next(iter(objs))
        return self._in(name, d)

    def dict(self, name, **dom):
        return {self._dec(k): self._dec(v, dom) for k, v in self.c['dicts'].get(name, ())}

    def bdict(self, name, n, **dom):
        k = self.choose(name + '.len', n + 1)
        d = {}
        for j in range(k):
            d[self.str('%s.key%d' % (name, j))] = self.val('%s.val%d' % (name, j), **dom)
        return d

    def assume(self, c):
        if not c:
            raise Skip('assumption')

    def prove(self, c, label, detail=''):
        if not wanted(label, self.prop):
            return
        if not c:
            self.failed.append((label, str(detail)))

    def cover(self, label):
        self.covers.append(label)

    def note(self, *what):
        self.notes.append('/'.join(str(w) for w in what))

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def same(self, a, b):
        if type(a) is type(b) and type(a) in (str, int, bool):
            return a == b
        return a is b

    def member(self, x, c):
        return x in c

    def invoke_getattr(self, o, name):
        return getattr(o, name)

    def invoke_setattr(self, o, name, v):
        return setattr(o, name, v)

    def invoke_delattr(self, o, name):
        return delattr(o, name)

    def cleanup(self, f):
        self._cleanup.append(f)


# --------------------------------------------------------------------------
# Exploration

class Explorer:

    def __init__(self, tier='quick', mode='sym', max_paths=20000, max_branches=400000,
                 seconds=600, solver_timeout=20000, max_violations=6, prop=None):
        self.prop = prop
        self.tier, self.mode = tier, mode
        self.stack = [[]]
        self.max_paths = max_paths
        self.max_branches = max_branches
        self.deadline = time.time() + seconds
        self.solver_timeout = solver_timeout
        self.max_violations = max_violations
        self.paths = self.pruned = 0
        self.queries = self.branches = self.obligations = self.unknown = 0
        self.solver_s = 0.0
        self.undecided = []
        self.violations = []
        self.witnesses = []
        self.incomplete = {}
        self.covers = {}
        self.labels = {}
        self.errors = []
        self.failures = 0
        self.complete = False

    def push(self, prefix):
        self.stack.append(prefix)

    def label(self, l):
        self.labels[l] = self.labels.get(l, 0) + 1

    def violation(self, ctx, label, model, detail):
        n = sum(v.label == label for v in self.violations)
        if n < self.max_violations:
            self.violations.append(Violation(label, ctx.case(model), str(detail)))

    def partial(self, ctx):
        """A path not followed to its end: the real code runs it all the same."""
        try:
            if ctx._check() == z3.sat:
                case = ctx.case(ctx.solver.model())
                case['notes'] = None
                self.witnesses.append(case)
        except Exception:
            pass

    def run(self, harness, *args):
        global CTX
        t0 = time.time()
        try:
            while self.stack:
                if self.paths + self.pruned >= self.max_paths:
                    raise Budget('path budget %d' % self.max_paths)
                prefix = self.stack.pop()
                ctx = SymCtx(self, prefix, self.mode)
                CTX = ctx
                try:
                    harness(ctx, *args)
                    if ctx.dead is not None:
                        raise ctx.dead
                    self.paths += 1
                    r = ctx._check()
                    if r == z3.sat:
                        case = ctx.case(ctx.solver.model())
                        case['notes'] = ctx.notes
                        self.witnesses.append(case)
                        for c in ctx.covers:
                            self.covers[c] = self.covers.get(c, 0) + 1
                except PathEnd:
                    self.pruned += 1
                except Unsupported as e:
                    self.errors.append('unsupported: %s' % e)
                    self.pruned += 1
                    self.partial(ctx)
                except Budget:
                    raise
                except Exception as e:
                    # Nothing the harness expects: the real code decides by
                    # replay whether it is the code's doing or the encoding's.
                    import traceback
                    text = ''.join(traceback.format_exception(e))[-1500:]
                    self.pruned += 1
                    try:
                        sat = ctx._check() == z3.sat
                    except Exception:
                        sat = False
                    if sat:
                        self.violation(ctx, 'unexpected ' + type(e).__name__,
                                       ctx.solver.model(), text)
                    else:
                        self.errors.append('harness error: ' + text)
                    self.failures += 1
                    if self.failures > 200:
                        raise Budget('too many errors')
                    if len(self.errors) > 20:
                        raise Budget('too many errors')
                finally:
                    for f in reversed(ctx._cleanup):
                        f()
            self.complete = True
        except Budget as e:
            self.errors.append('budget: %s' % e)
        finally:
            CTX = None
        self.wall = time.time() - t0
        return self


def setup_symbolic(mode='pure', watch=0, extra=()):
    """Make the instrumented package importable in this process."""
    import site
    os.environ['PURE_PYTHON'] = '1'
    if watch:
        os.environ['ZOPE_WATCH_CHECKERS'] = str(watch)
    else:
        os.environ.pop('ZOPE_WATCH_CHECKERS', None)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    sp = '/opt/venv/lib/python3.12/site-packages'
    sys.path[:0] = [REPO + '/src', sp]
    site.addsitedir(sp)
    zope = sys.modules.get('zope')
    if zope is not None:
        # the tree under test comes first, wherever the package is installed from
        p = os.path.join(REPO, 'src', 'zope')
        zope.__path__ = [p] + [x for x in zope.__path__ if os.path.abspath(x) not in (
            os.path.abspath(p), '/repo/src/zope')]
    sys.meta_path.insert(0, Finder(('zope.security', 'zope.proxy', 'zope.schema.vocabulary') + tuple(extra)))


def setup_plain(mode, src, watch=0):
    """Plain package (mode 'pure' or 'c') from the given source directory."""
    os.environ['PURE_PYTHON'] = '1' if mode.startswith('pure') else '0'
    if watch:
        os.environ['ZOPE_WATCH_CHECKERS'] = str(watch)
    else:
        os.environ.pop('ZOPE_WATCH_CHECKERS', None)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, src)
    pr = sys.modules.get('zope')
    if pr is not None:
        p = os.path.join(src, 'zope')
        pr.__path__ = [p] + [x for x in pr.__path__
                             if os.path.abspath(x) not in (p, os.path.abspath(REPO + '/src/zope'))]


def load_harness(path, name, instrumented):
    with open(path, encoding='utf-8') as f:
        src = f.read()
    mod = types.ModuleType(name)
    mod.__file__ = path
    sys.modules[name] = mod
    if instrumented:
        code, _ = instrument_source(src, path)
        mod.__dict__.update(HELPERS)
    else:
        code = compile(src, path, 'exec', dont_inherit=True)
    exec(code, mod.__dict__)
    return mod
