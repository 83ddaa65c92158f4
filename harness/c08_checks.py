"""Permission-table checks: reads (C08) and writes (C09)."""
from hlib import failure
from sxlib import harness

B = ('names: any string (no length bound); permission tables: any mapping with values '
     'None, any string or the public marker; interaction answers: grant, refuse or raise; '
     'object: with or without iteration')


class Interaction:
    """Answers as told and records what it is asked."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.calls = []
        self.what = None

    def checkPermission(self, permission, object):
        if self.what is None:
            self.what = self.ctx.choose('answer', ['grant', 'refuse', 'raise', 'truthy', 'falsy'])
        self.calls.append((permission, object))
        if self.what == 'raise':
            raise failure(self.ctx, 'answer kind', 'interaction')
        return {'grant': True, 'refuse': False, 'truthy': 7, 'falsy': ()}[self.what]

    def __bool__(self):
        return not self.ctx.choose('interaction is false', 2) == 0

    @property
    def grants(self):
        return self.what in ('grant', 'truthy')


class Plain:
    pass


class Iterable:
    def __iter__(self):
        return iter(())


def setup(ctx):
    from zope.security._definitions import thread_local
    from zope.security.checker import CheckerPublic
    i = Interaction(ctx)
    old = thread_local.__dict__.get('interaction')
    thread_local.interaction = i

    def undo():
        thread_local.interaction = old
    ctx.cleanup(undo)
    ctx.obj('CheckerPublic', CheckerPublic)
    return i, CheckerPublic


def outcome(f, *args):
    from zope.security.interfaces import ForbiddenAttribute
    from zope.security.interfaces import Unauthorized
    try:
        r = f(*args)
    except ForbiddenAttribute as e:
        return 'forbidden', e
    except Unauthorized as e:
        return 'unauthorized', e
    except Exception as e:
        if e.args == ('interaction',):
            return 'interaction raised', e
        return 'other ' + type(e).__name__, e
    return 'ok', r


DEFAULTS = ('__lt__', '__le__', '__eq__', '__gt__', '__ge__', '__ne__', '__hash__', '__bool__',
            '__class__', '__providedBy__', '__implements__', '__repr__', '__conform__',
            '__name__', '__parent__')


def judge(ctx, what, perm, public, name, obj, inter, got, exc, default_ok):
    """The verdict that the tables, the name and the interaction's answer imply."""
    no_perm = ctx.same(perm, None)
    is_public = ctx.same(perm, public)
    asked = ctx.And(ctx.Not(no_perm), ctx.Not(is_public))
    n = len(inter.calls)
    ctx.prove(n <= 1, what + ' consults the interaction at most once')
    if n:
        ctx.prove(asked, what + ' consults the interaction only for a permission')
        ctx.prove(ctx.same(inter.calls[0][0], perm), what + ' asks for the declared permission')
        ctx.prove(inter.calls[0][1] is obj, what + ' asks about the object')
    else:
        ctx.prove(ctx.Not(asked), what + ' consults the interaction for a permission')
    if got == 'ok':
        ctx.prove(ctx.Or(is_public, ctx.And(asked, inter.grants),
                         ctx.And(no_perm, default_ok)), what + ' allowed only as declared')
        ctx.prove(exc is None, what + ' returns nothing')
    elif got == 'unauthorized':
        ctx.prove(ctx.And(asked, inter.what in ('refuse', 'falsy')),
                  what + ' unauthorized only if refused')
        a = exc.args
        ctx.prove(len(a) == 3 and a[0] is obj, what + ' Unauthorized names the object')
        ctx.prove(ctx.And(ctx.same(a[1], name), ctx.same(a[2], perm)),
                  what + ' Unauthorized names name and permission')
    elif got == 'forbidden':
        ctx.prove(ctx.And(no_perm, ctx.Not(default_ok)), what + ' forbidden only without permission')
        a = exc.args
        ctx.prove(len(a) == 2 and a[1] is obj, what + ' ForbiddenAttribute names the object')
        ctx.prove(ctx.same(a[0], name), what + ' ForbiddenAttribute names the name')
    else:
        ctx.prove(got == 'interaction raised' and inter.what == 'raise',
                  what + ' fails only if the interaction does', got)
    ctx.note(what, got, n)
    ctx.cover(what + ' ' + got)


SPECIAL = DEFAULTS + ('__iter__', '__next__', '__getitem__', '__len__', '__call__', '__str__',
                      '__dict__', '__init__', '__reduce__', '__doc__', '__module__', '__iadd__',
                      '__length_hint__', '_private', '__', '', '_v_cache',
                      # nearly one of the always available ones
                      '__class__\0', '__name__\0__', '\0__class__', '__class__ ', '__CLASS__',
                      '__class', '_class__', '__hash__\ud800', '__repr__\u2028', '__iter__\0',
                      '\uff3f\uff3fclass\uff3f\uff3f')


def a_name(ctx, which):
    """any name, or one that code might take for a special one"""
    return ctx.str('name') if which == 'any' else ctx.choose('special', SPECIAL)


@harness('C08', cases=[(h, n) for h in ('check', 'check_getattr', 'setitem')
                       for n in ('any', 'special')], bounds=B)
def read_check(ctx, how, which):
    from zope.security.checker import Checker
    inter, public = setup(ctx)
    name = a_name(ctx, which)
    table = ctx.dict('get', none=True, strings=True, objs=(public,))
    others = ctx.dict('set', none=True, strings=True, objs=(public,))
    obj = Iterable() if ctx.bool('iterable') else Plain()
    checker = Checker(table, others)
    if how == 'setitem':
        if not hasattr(type(checker), '__setitem__'):
            how = 'check'       # the operator alias exists in the compiled build only
    if how == 'setitem':
        def f(obj, name):
            checker[obj] = name
    else:
        f = getattr(checker, how)
    got, exc = outcome(f, obj, name)
    perm = table.get(name)
    default_ok = ctx.Or(ctx.member(name, DEFAULTS),
                        ctx.And(ctx.same(name, '__iter__'), not hasattr(obj, '__iter__')))
    judge(ctx, 'read', perm, public, name, obj, inter, got, exc, default_ok)


@harness('C08', bounds=B)
def read_permission_id(ctx):
    from zope.security.checker import Checker
    inter, public = setup(ctx)
    name = ctx.str('name')
    table = ctx.dict('get', none=True, strings=True, objs=(public,))
    others = ctx.dict('set', none=True, strings=True, objs=(public,))
    checker = Checker(table, others)
    ctx.prove(ctx.same(checker.permission_id(name), table.get(name)),
              'permission_id is the read permission')
    ctx.prove(not inter.calls, 'permission_id asks nobody')
    ctx.note('done')


@harness('C09', cases=(('any',), ('special',)), bounds=B)
def write_check(ctx, which):
    from zope.security.checker import Checker
    inter, public = setup(ctx)
    name = a_name(ctx, which)
    gets = ctx.dict('get', none=True, strings=True, objs=(public,))
    table = ctx.dict('set', none=True, strings=True, objs=(public,))
    obj = Iterable() if ctx.bool('iterable') else Plain()
    if ctx.bool('no set table'):
        checker = Checker(gets)
        perm = None
    else:
        checker = Checker(gets, table)
        perm = table.get(name)
    got, exc = outcome(checker.check_setattr, obj, name)
    judge(ctx, 'write', perm, public, name, obj, inter, got, exc, False)


@harness('C09', bounds=B)
def write_permission_id(ctx):
    from zope.security.checker import Checker
    inter, public = setup(ctx)
    name = ctx.str('name')
    gets = ctx.dict('get', none=True, strings=True, objs=(public,))
    table = ctx.dict('set', none=True, strings=True, objs=(public,))
    checker = Checker(gets, table)
    ctx.prove(ctx.same(checker.setattr_permission_id(name), table.get(name)),
              'setattr_permission_id is the write permission')
    ctx.prove(not inter.calls, 'setattr_permission_id asks nobody')
    ctx.note('done')
