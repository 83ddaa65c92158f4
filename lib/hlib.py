"""Helpers for harnesses (not instrumented)."""
import sys
import threading


def fresh(ctx):
    """Make the current thread one without interaction, for this path."""
    from zope.security._definitions import thread_local
    d = thread_local.__dict__
    saved = dict(d)
    d.clear()

    def undo():
        d = thread_local.__dict__
        d.clear()
        d.update(saved)
    ctx.cleanup(undo)


class Recorder:
    """Collects the judgements of other threads (which the solver must not be
    used from), to be handed over to the context."""

    def __init__(self):
        self.log = []

    def prove(self, cond, label, detail=''):
        self.log.append(('prove', bool(cond), label, str(detail)))

    def note(self, *what):
        self.log.append(('note',) + tuple(str(w) for w in what))

    def hand_over(self, ctx):
        for e in self.log:
            if e[0] == 'prove':
                ctx.prove(*e[1:])
            else:
                ctx.note(*e[1:])


class Worker:
    """A persistent thread that runs closures one at a time, synchronously."""

    def __init__(self):
        self.go = threading.Semaphore(0)
        self.done = threading.Semaphore(0)
        self.job = None
        self.stop = False
        self.t = threading.Thread(target=self._loop, daemon=True)
        self.t.start()

    def _loop(self):
        while True:
            self.go.acquire()
            if self.stop:
                return
            try:
                self.result = (True, self.job())
            except BaseException as e:
                self.result = (False, e)
            self.done.release()

    def run(self, f):
        self.job = f
        self.go.release()
        self.done.acquire()
        ok, v = self.result
        if ok:
            return v
        raise v

    def close(self):
        self.stop = True
        self.go.release()
        self.t.join()


def trace_lines(filename_suffixes, hook, f):
    """Run f, calling hook() before every line of the named source files."""
    def local(frame, event, arg):
        if event == 'line':
            sys.settrace(None)
            try:
                hook()
            finally:
                sys.settrace(tracer)
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.endswith(filename_suffixes):
            return local
        return None
    sys.settrace(tracer)
    try:
        return f()
    finally:
        sys.settrace(None)


class Obj:
    """A nameable object."""

    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return '<%s>' % self.label


def failure(ctx, name, tag):
    """an exception that is none of a check's own verdicts"""
    from zope.security.interfaces import Forbidden
    kind = ctx.choose(name, [Forbidden, AttributeError, LookupError, TypeError])
    return kind(tag)


class Answers:
    """An interaction that answers as the inputs say and records what it is
    asked.  Each question has its own answer."""
    ALL = ('grant', 'refuse', 'raise')

    def __init__(self, ctx, tag='answer', options=ALL):
        self.ctx, self.tag, self.options = ctx, tag, options
        self.calls = []
        self.given = []
        self.errors = {}

    def checkPermission(self, permission, object):
        k = len(self.calls)
        self.calls.append((permission, object))
        if k >= len(self.given):
            self.given.append(self.ctx.choose('%s%d' % (self.tag, k), self.options))
        what = self.given[k]
        if what == 'raise':
            if k not in self.errors:
                self.errors[k] = failure(self.ctx, '%s%d kind' % (self.tag, k), 'interaction')
            raise self.errors[k]
        return what == 'grant'

    def __bool__(self):
        return not self.ctx.choose(self.tag + ' is false', 2) == 0

    def again(self):
        """an interaction giving the same answers"""
        i = Answers(self.ctx, self.tag, self.options)
        i.given = self.given
        i.errors = self.errors
        return i


def install(ctx, interaction):
    from zope.security._definitions import thread_local
    old = thread_local.__dict__.get('interaction')
    thread_local.interaction = interaction

    def undo():
        thread_local.interaction = old
    ctx.cleanup(undo)


def outcome(f, *args):
    from zope.security.interfaces import ForbiddenAttribute
    from zope.security.interfaces import Unauthorized
    try:
        r = f(*args)
    except ForbiddenAttribute as e:
        return 'forbidden', e
    except Unauthorized as e:
        return 'unauthorized', e
    except LookupError as e:
        return 'raised', e
    except Exception as e:
        if e.args in (('interaction',), ('second',), ('v',)):
            return 'raised', e
        return 'other ' + type(e).__name__, e
    return 'ok', r


DEFAULTS = ('__lt__', '__le__', '__eq__', '__gt__', '__ge__', '__ne__', '__hash__', '__bool__',
            '__class__', '__providedBy__', '__implements__', '__repr__', '__conform__',
            '__name__', '__parent__')
