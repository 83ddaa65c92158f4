"""Interactions: life cycle (C16), threads (C17), queries (C18), policies
(C19), participations (C20), test support (C31)."""
from hlib import Obj
from hlib import Recorder
from hlib import Worker
from hlib import fresh
from hlib import trace_lines
from sxlib import harness


class Failing(Exception):
    pass


class Grave(BaseException):
    """not an Exception"""


# --------------------------------------------------------------------- C16

class Made(Obj):
    """An interaction as a policy makes it."""

    def __init__(self, label, truth):
        Obj.__init__(self, label)
        self.participations = []
        self.truth = truth

    def add(self, participation):
        self.participations.append(participation)

    def remove(self, participation):
        self.participations.remove(participation)

    def checkPermission(self, permission, object):
        return True

    def __bool__(self):
        return self.truth


class Life:
    """Drives the real operations and a reference model in step."""

    def __init__(self, ctx, tag='', nargs=0):
        import zope.security.management as m
        self.ctx, self.m, self.tag, self.nargs = ctx, m, tag, nargs
        self.active = None
        self.remembered = None
        self.made = None
        self.n = 0
        self.fail = False
        self.policies = [self.policy0, self.policy1]
        self.current = 0
        self.runner = lambda f: f()

    def policy0(self, *participations):
        return self._policy(0, participations)

    def policy1(self, *participations):
        return self._policy(1, participations)

    def _policy(self, which, participations):
        self.calls.append((which, participations))
        if self.fail:
            raise self.fail
        self.n += 1
        self.made = Made('interaction%s%d' % (self.tag, self.n), self.nargs != 1)
        return self.made

    def step(self, op, k):
        ctx, m = self.ctx, self.m
        self.calls = []
        self.made = None
        if op in ('new', 'new fails', 'new dies'):
            self.fail = {'new': None, 'new fails': Failing('policy'),
                         'new dies': Grave('policy')}[op]
            parts = [Obj('p%d' % i) for i in range(self.nargs)]
            try:
                self.runner(lambda: m.newInteraction(*parts))
                got = 'ok'
            except m.ExistingInteraction:
                got = 'existing'
            except (Failing, Grave) as e:
                got = 'failed' if e is self.fail else 'other'
            if self.active is not None:
                ctx.prove(got == 'existing', 'a second interaction is refused')
                ctx.prove(not self.calls, 'a refused start does not ask the policy')
            else:
                ctx.prove(len(self.calls) == 1, 'starting asks the policy once')
                which, ps = self.calls[0]
                ctx.prove(which == self.current, 'starting asks the current policy')
                ctx.prove(len(ps) == len(parts) and all(a is b for a, b in zip(ps, parts)),
                          'the policy gets the participations')
                if self.fail:
                    ctx.prove(got == 'failed', 'a failing policy is reported')
                else:
                    ctx.prove(got == 'ok', 'starting succeeds')
                    self.active = self.made
        elif op == 'end':
            self.runner(m.endInteraction)
            self.remembered = self.active
            self.active = None
        elif op == 'restore':
            self.runner(m.restoreInteraction)
            self.active = self.remembered
        elif op == 'policy':
            old = self.current
            self.current = 1 - old
            was = m.setSecurityPolicy(self.policies[self.current])
            ctx.prove(was == self.policies[old], 'setting the policy returns the previous one')
        self.check(op)
        ctx.note(op, self.active)

    def check(self, op):
        ctx, m = self.ctx, self.m
        ctx.prove(m.queryInteraction() is self.active, 'query tells the active interaction', op)
        try:
            got = m.getInteraction()
        except m.NoInteraction:
            got = None
            ctx.prove(self.active is None, 'get fails only without interaction', op)
        except Exception as e:
            got = None
            ctx.prove(False, 'get fails with NoInteraction', type(e).__name__)
        else:
            ctx.prove(self.active is not None, 'get fails without interaction', op)
        ctx.prove(got is self.active, 'get gives the active interaction', op)
        ctx.prove(m.getSecurityPolicy() == self.policies[self.current],
                  'the current policy is reported', op)


OPS = ['new', 'end', 'restore', 'new fails', 'policy', 'new dies']
B16 = ('operation sequences of length up to 4 (quick) or 5 (thorough) from a fresh thread over '
       'new/end/restore/set-policy with up to 2 participations, the policy call succeeding, '
       'raising an Exception or a BaseException; interactions are objects of either truth value')


@harness('C16', cases=tuple((o,) for o in OPS), bounds=B16, thorough_paths=200000)
def lifecycle(ctx, first):
    """Every operation sequence against a two-register reference model."""
    import zope.security.management as m
    n = 4 if ctx.tier == 'quick' else 5
    old = m.getSecurityPolicy()
    ctx.cleanup(lambda: m.setSecurityPolicy(old))
    ops = [first] + [ctx.choose('op%d' % k, OPS) for k in range(1, n)]
    rec = Recorder()
    life = Life(rec, nargs=ctx.choose('args', 3))

    def go():
        m.setSecurityPolicy(life.policies[0])
        life.check('fresh')
        for k, op in enumerate(ops):
            life.step(op, k)
    w = Worker()
    ctx.cleanup(w.close)
    w.run(go)
    rec.hand_over(ctx)


@harness('C16', bounds='cleanup after up to 2 interaction operations')
def cleanup_hooks(ctx):
    """The registered test clean-up ends the interaction and resets the policy."""
    import zope.security.management as m
    from zope.security.simplepolicies import ParanoidSecurityPolicy
    from zope.testing.cleanup import cleanUp
    old = m.getSecurityPolicy()
    ctx.cleanup(lambda: m.setSecurityPolicy(old))
    ops = [ctx.choose('op%d' % k, ['new', 'end', 'restore']) for k in range(2)]
    rec = Recorder()

    def go():
        life = Life(rec)
        m.setSecurityPolicy(life.policies[0])
        for k, op in enumerate(ops):
            life.step(op, k)
        cleanUp()
        rec.prove(m.queryInteraction() is None, 'clean-up leaves no interaction')
        rec.prove(m.getSecurityPolicy() is ParanoidSecurityPolicy, 'clean-up resets the policy')
        rec.note('clean')
    w = Worker()
    ctx.cleanup(w.close)
    w.run(go)
    rec.hand_over(ctx)


# --------------------------------------------------------------------- C17

class Other:
    """The other thread: runs its next operation when scheduled."""

    def __init__(self, life, ops, worker):
        self.life, self.ops, self.worker = life, list(ops), worker
        self.k = 100
        self.busy = False

    def turn(self):
        if not self.ops or self.busy:
            return
        op = self.ops.pop(0)
        self.k += 1
        self.busy = True
        try:
            self.worker.run(lambda: self.life.step(op, self.k))
        finally:
            self.busy = False


def observed(ctx, life, who):
    """permission checks are decided by the thread's own interaction"""
    m = life.m
    ctx.prove(m.queryInteraction() is life.active, who + ' sees its own active interaction')
    asked = []
    if life.active is not None:
        life.active.checkPermission = lambda p, o: asked.append((p, o)) or True
    try:
        m.checkPermission('some.Permission', 'obj')
        ctx.prove(life.active is not None and len(asked) == 1,
                  who + ' is answered by its own interaction')
    except m.NoInteraction:
        ctx.prove(life.active is None, who + ' has no interaction only without one')
    from zope.security.checker import Checker
    from zope.security.interfaces import Unauthorized
    del asked[:]
    try:
        Checker({'x': 'some.Permission'}).check(object(), 'x')
        ctx.prove(life.active is not None and len(asked) == 1,
                  who + ' is checked by its own interaction')
    except Unauthorized:
        ctx.prove(False, who + ' is not refused')
    except AttributeError:
        ctx.prove(life.active is None, who + ' is unchecked only without interaction')


class NoTag(Life):
    """The default policy is shared, so it is not part of the comparison."""

    def check(self, op):
        observed(self.ctx, self, 'thread ' + self.tag)


TOPS = ['new', 'end', 'restore']


@harness('C17', cases=tuple((o, p) for o in TOPS for p in TOPS), thorough_paths=100000,
         bounds='two threads; thread A runs 2 (thorough: 3) operations, thread B 2, any '
                'interleaving with a switch before every source line of the management '
                'module run by A; switches to B run one whole operation')
def isolation(ctx, a0, a1):
    """Interleavings of two threads at source-line granularity."""
    import zope.security.management as m
    old = m.getSecurityPolicy()
    ctx.cleanup(lambda: m.setSecurityPolicy(old))
    wa, wb = Worker(), Worker()
    ctx.cleanup(wa.close)
    ctx.cleanup(wb.close)
    rec, recb = Recorder(), Recorder()
    a, b = NoTag(rec, 'A'), NoTag(recb, 'B')

    def policy(*parts):
        import threading
        return (a if threading.current_thread() is wa.t else b)._policy(0, parts)
    m.setSecurityPolicy(policy)
    ops = [a0, a1]
    if ctx.tier != 'quick':
        ops.append(ctx.choose('a2', TOPS))
    bops = [ctx.choose('b%d' % i, TOPS) for i in range(2)]
    other = Other(b, bops, wb)
    # the lines of A's operations before which thread B gets its turns
    n = 7 * len(ops)
    t0 = ctx.choose('turn0', n)
    t1 = t0 + ctx.choose('turn1', n - t0)
    at = [t0, t1]
    st = {'line': 0}

    def hook():
        for t in at:
            if t == st['line']:
                other.turn()
        st['line'] += 1

    def run():
        a.runner = lambda f: trace_lines('zope/security/management.py', hook, f)
        for k, op in enumerate(ops):
            a.step(op, k)
            rec.prove(m.queryInteraction() is a.active, 'thread A keeps its interaction')
    wa.run(run)
    while other.ops:
        other.turn()
    wa.run(lambda: a.check('end'))
    wb.run(lambda: b.check('end'))
    rec.hand_over(ctx)
    recb.hand_over(ctx)
    ctx.note(a.active, b.active, a.remembered, b.remembered)


@harness('C17', bounds='policy set in one thread, read and used in another, up to 3 changes')
def shared_policy(ctx):
    import zope.security.management as m
    old = m.getSecurityPolicy()
    ctx.cleanup(lambda: m.setSecurityPolicy(old))
    ws = [Worker(), Worker()]
    for w in ws:
        ctx.cleanup(w.close)
    pols = [Obj('policy0'), Obj('policy1')]
    last = old
    for k in range(3):
        w = ctx.choose('thread%d' % k, 2)
        p = pols[ctx.choose('policy%d' % k, 2)]
        was = ws[w].run(lambda: m.setSecurityPolicy(p))
        ctx.prove(was is last, 'the previous policy is the one any thread set last')
        last = p
        for x in ws:
            ctx.prove(x.run(m.getSecurityPolicy) is p, 'every thread sees the policy')
    ctx.note('done')


class Together(Life):
    """One of several threads under one policy."""
    shared = None

    @property
    def current(self):
        return self.shared['current']

    @current.setter
    def current(self, value):
        if self.shared is not None:
            self.shared['current'] = value


POPS = ['A new', 'A end', 'A restore', 'A policy', 'B new', 'B end', 'B policy', 'B new fails']


@harness('C17', 'C16', cases=tuple((o,) for o in POPS), thorough_paths=100000,
         bounds='sequences of 4 (thorough: 5) operations of two threads: starting, ending and '
                'restoring interactions and setting the policy')
def policy_and_interactions(ctx, first):
    """The policy is everybody's, the interaction the thread's, in any order of operations."""
    import zope.security.management as m
    old = m.getSecurityPolicy()
    ctx.cleanup(lambda: m.setSecurityPolicy(old))
    shared = {'current': 0}
    lives, workers = {}, {}
    actor = []

    def policy0(*participations):
        return actor[0]._policy(0, participations)

    def policy1(*participations):
        return actor[0]._policy(1, participations)
    rec = Recorder()
    for t in 'AB':
        workers[t] = Worker()
        ctx.cleanup(workers[t].close)
        lives[t] = Together(rec, t, 1)
        lives[t].policies = [policy0, policy1]
        lives[t].shared = shared
    m.setSecurityPolicy(policy0)
    n = 4 if ctx.tier == 'quick' else 5
    for k, op in enumerate([first] + [ctx.choose('op%d' % k, POPS) for k in range(1, n)]):
        t, _, what = op.partition(' ')
        actor[:] = [lives[t]]
        workers[t].run(lambda: lives[t].step(what, k))
        for x in 'AB':
            workers[x].run(lambda: lives[x].check(op))
    rec.hand_over(ctx)


# --------------------------------------------------------------------- C18

class Like:
    """Compares equal to anything and prints like the public marker."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 0

    def __str__(self):
        return 'CheckerPublic'
    __repr__ = __str__


@harness('C18', bounds='permission: None, the public marker, an object equal to it, any string; '
                       'object: any; interaction passed or active, each answering anything or raising')
def permission_query(ctx):
    import zope.security.management as m
    from zope.security._definitions import thread_local
    from zope.security.checker import CheckerPublic
    ctx.obj('public', CheckerPublic)
    like = ctx.obj('like', Like())
    obj = Obj('object')
    obj = ctx.choose('object', [obj, None, '', 0, like, CheckerPublic])
    answer = Obj('answer')
    perm = ctx.val('permission', none=True, strings=True, objs=(CheckerPublic, like))
    what = ctx.choose('answer', [True, False, None, 0, answer, 'raise'])

    class Interaction:
        def __init__(self):
            self.calls = []

        def checkPermission(self, permission, object):
            self.calls.append((permission, object))
            if what == 'raise':
                raise Failing('interaction')
            return what

        def __bool__(self):
            return not ctx.choose('interaction is false', 2) == 0
    passed = Interaction() if ctx.bool('passed') else None
    active = Interaction() if ctx.bool('active') else None
    how = ctx.choose('how', ['keyword', 'positional', 'omitted'])
    if how == 'omitted':
        passed = None

    def go():
        if active is not None:
            thread_local.interaction = active
        try:
            if how == 'keyword':
                got = m.checkPermission(perm, obj, interaction=passed)
            elif how == 'positional':
                got = m.checkPermission(perm, obj, passed)
            else:
                got = m.checkPermission(perm, obj)
            end = 'ok'
        except m.NoInteraction:
            got, end = None, 'none'
        except Failing:
            got, end = None, 'raised'
        free = ctx.Or(ctx.same(perm, None), ctx.same(perm, CheckerPublic))
        who = passed if passed is not None else active
        for i in (passed, active):
            if i is not None and i is not who:
                ctx.prove(not i.calls, 'no other interaction is asked')
        n = len(who.calls) if who is not None else 0
        ctx.prove(n <= 1, 'asked at most once')
        if n:
            ctx.prove(ctx.Not(free), 'nobody is asked about the public or no permission')
            ctx.prove(ctx.And(ctx.same(who.calls[0][0], perm), who.calls[0][1] is obj),
                      'asked for this permission on this object')
            if what == 'raise':
                ctx.prove(end == 'raised', 'failure of the interaction is passed on')
            else:
                ctx.prove(end == 'ok' and got is what, 'the answer is passed on')
        elif end == 'none':
            ctx.prove(ctx.And(ctx.Not(free), who is None), 'NoInteraction only without any')
        else:
            ctx.prove(free, 'everything else asks an interaction')
            ctx.prove(end == 'ok' and got is True, 'public and no permission are held')
        ctx.note(end, n)
        ctx.cover(end)
    fresh(ctx)
    go()


# --------------------------------------------------------------------- C19

class Principal:
    id = 'zope.security.management.system_user'
    title = 'System'
    description = ''

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 0


class Participation:
    interaction = None

    def __init__(self, principal):
        self.principal = principal


@harness('C19', cases=(('paranoid',), ('permissive',)),
         bounds='up to 6 (thorough: 9) participations; principals: the system user, an equal '
                'look-alike of its class or another, None; permission: None, public marker, '
                'an equal object, any string; any object')
def policy_decision(ctx, which):
    from zope.security import simplepolicies
    from zope.security._definitions import SystemUser
    from zope.security._definitions import system_user
    from zope.security.checker import CheckerPublic
    ctx.obj('system', system_user)
    ctx.obj('public', CheckerPublic)
    like = ctx.obj('like', Like())
    twin = ctx.obj('twin', SystemUser())
    other = ctx.obj('principal', Principal())
    n = ctx.choose('n', 7 if ctx.tier == 'quick' else 10)
    ps = [ctx.val('principal%d' % i, none=True, objs=(system_user, twin, other))
          for i in range(n)]
    perm = ctx.val('permission', none=True, strings=True, objs=(CheckerPublic, like))
    cls = {'paranoid': simplepolicies.ParanoidSecurityPolicy,
           'permissive': simplepolicies.PermissiveSecurityPolicy}[which]
    interaction = cls(*[Participation(p) for p in ps])
    obj = ctx.val('object', none=True, strings=True, objs=(system_user, CheckerPublic, other))
    got = interaction.checkPermission(perm, obj)
    ctx.prove(got is True or got is False, 'the answer is a boolean')
    if which == 'permissive':
        ctx.prove(got is True, 'the permissive policy grants')
    else:
        want = ctx.Or(ctx.same(perm, CheckerPublic),
                      ctx.And(*[ctx.same(p, system_user) for p in ps]))
        ctx.prove(ctx.Iff(want, got), 'granted exactly to the system and the public')
    ctx.note(got)
    ctx.cover('%s' % got)


@harness('C19', bounds='participation changes (add or remove) between two checks, up to 2 participations')
def policy_follows_changes(ctx):
    """Decisions use the participations at the time of the check."""
    from zope.security import simplepolicies
    from zope.security._definitions import system_user
    ctx.obj('system', system_user)
    other = ctx.obj('principal', Principal())
    ps = [Participation(ctx.val('principal%d' % i, none=True, objs=(system_user, other)))
          for i in range(ctx.choose('n', 3))]
    interaction = simplepolicies.ParanoidSecurityPolicy(*ps)
    for k in range(2):
        op = ctx.choose('op%d' % k, ['nothing', 'add', 'remove', 'change'])
        if op == 'add':
            p = Participation(ctx.val('new%d' % k, none=True, objs=(system_user, other)))
            ps = ps + [p]
            interaction.add(p)
        elif op == 'remove' and ps:
            interaction.remove(ps[0])
            ps = ps[1:]
        elif op == 'change' and ps:
            ps[0].principal = ctx.val('changed%d' % k, none=True, objs=(system_user, other))
        got = interaction.checkPermission('a.Permission', None)
        want = ctx.And(*[ctx.same(p.principal, system_user) for p in ps])
        ctx.prove(ctx.Iff(want, got), 'granted exactly to the present participations')
        ctx.note(got)


# --------------------------------------------------------------------- C20

class Equal:
    """Participations that are equal to each other."""

    def __init__(self, label, interaction):
        self.label, self.interaction = label, interaction
        self.principal = None

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __ne__(self, other):
        return not isinstance(other, Equal)

    __hash__ = None

    def __repr__(self):
        return self.label


class Distinct(Obj):
    def __init__(self, label, interaction):
        Obj.__init__(self, label)
        self.interaction = interaction
        self.principal = None


def ids(ps):
    return [p.label for p in ps]


@harness('C20', cases=tuple((c, o) for c in ('paranoid', 'permissive') for o in ('add', 'remove')),
         bounds='interaction with up to 3 (thorough: 4) participations, another interaction with '
                'one; add or remove of any of them, of the other interaction\'s, or of a free '
                'participation; participations distinct or equal to each other')
def membership_step(ctx, which, op):
    from zope.security import simplepolicies
    cls = {'paranoid': simplepolicies.ParanoidSecurityPolicy,
           'permissive': simplepolicies.PermissiveSecurityPolicy}[which]
    kind = ctx.choose('kind', [Distinct, Equal])
    n = ctx.choose('n', 4 if ctx.tier == 'quick' else 5)
    mine = [kind('p%d' % i, None) for i in range(n)]
    this = cls(*mine)
    ctx.prove(ids(this.participations) == ids(mine), 'creation adds the participations in order')
    for p in mine:
        ctx.prove(p.interaction is this, 'created participations belong to the interaction')
    foreign = kind('foreign', None)
    other = cls(foreign)
    ctx.prove(foreign.interaction is other, 'created participations belong to the interaction')
    free = kind('free', None)
    cands = mine + [foreign, free]
    t = ctx.choose('target', len(cands))
    target = cands[t]
    before = {p.label: p.interaction for p in cands}
    lst = ids(this.participations)
    try:
        getattr(this, op)(target)
        got = 'ok'
    except ValueError:
        got = 'refused'
    if op == 'add':
        may = before[target.label] is None
        if may:
            lst = lst + [target.label]
            before[target.label] = this
    else:
        may = before[target.label] is this
        if may:
            lst = [x for x in lst if x != target.label]
            before[target.label] = None
    ctx.prove((got == 'ok') == may, op + ' succeeds exactly when it may')
    ctx.prove(ids(this.participations) == lst, op + ' changes exactly the one participation')
    ctx.prove(ids(other.participations) == ['foreign'], 'other interactions are unaffected')
    for p in cands:
        ctx.prove(p.interaction is before[p.label], 'membership is as recorded after ' + op)
    ctx.note(got, ids(this.participations))


@harness('C20', bounds='up to 3 participations, any of which may be taken or repeated')
def membership_create(ctx):
    from zope.security import simplepolicies
    cls = ctx.choose('class', [simplepolicies.ParanoidSecurityPolicy,
                               simplepolicies.PermissiveSecurityPolicy])
    a, b = Distinct('a', None), Distinct('b', None)
    taken = Distinct('taken', None)
    holder = cls(taken)
    pool = [a, b, taken]
    ps = [pool[ctx.choose('p%d' % i, 3)] for i in range(ctx.choose('n', 4))]
    seen = []
    bad = False
    for p in ps:
        if p is taken or p in seen:
            bad = True
            break
        seen.append(p)
    try:
        i = cls(*ps)
        got = 'ok'
    except ValueError:
        got = 'refused'
    ctx.prove((got == 'refused') == bad, 'creation is refused exactly for a taken participation')
    ctx.prove(taken.interaction is holder and ids(holder.participations) == ['taken'],
              'a taken participation stays where it is')
    if got == 'ok':
        ctx.prove(ids(i.participations) == ids(ps), 'creation adds in order')
        for p in ps:
            ctx.prove(p.interaction is i, 'created participations belong to the interaction')
    ctx.note(got)


# --------------------------------------------------------------------- C31

@harness('C31', bounds='active interaction or not; body finishing, raising an Exception or a '
                       'BaseException, or closed early; any id, title and groups')
def test_interaction(ctx):
    import zope.security.management as m
    from zope.security import testing
    from zope.security.interfaces import IGroupAwarePrincipal
    from zope.security.interfaces import IPrincipal
    from zope.security.simplepolicies import ParanoidSecurityPolicy
    pid = ctx.str('id')
    groups = ctx.choose('groups', [None, 'empty', 'some'])
    groups = {None: None, 'empty': [], 'some': ['g1', 'g2']}[groups]
    kw = {}
    title = ctx.val('title', none=True, strings=True)
    if ctx.bool('with title'):
        kw['title'] = title
    else:
        title = None
    if ctx.bool('with groups'):
        kw['groups'] = groups
    else:
        groups = None
    body = ctx.choose('body', ['finish', 'raise', 'die', 'end inside', 'return', 'closed',
                               'stop', 'leave'])
    active = bool(ctx.bool('active'))
    old = m.getSecurityPolicy()
    ctx.cleanup(lambda: m.setSecurityPolicy(old))
    err = {'raise': Failing('body'), 'die': Grave('body'), 'stop': StopIteration('body'),
           'leave': SystemExit('body')}.get(body)

    def go():
        m.setSecurityPolicy(ParanoidSecurityPolicy)
        before = None
        if active:
            m.newInteraction()
            before = m.queryInteraction()
        inside = None
        got = None
        who = None

        def within():
            with testing.interaction(pid, **kw) as who:
                yield who, m.queryInteraction()

        def returning():
            with testing.interaction(pid, **kw) as who:
                return who, m.queryInteraction()
        try:
            if body == 'return':
                who, inside = returning()
            elif body == 'closed':
                g = within()
                who, inside = next(g)
                g.close()
            else:
                with testing.interaction(pid, **kw) as who:
                    inside = m.queryInteraction()
                    if err is not None:
                        raise err
                    if body == 'end inside' and not active:
                        m.endInteraction()
            got = 'finished'
        except (Failing, Grave, StopIteration, SystemExit) as e:
            got = e
        ctx.prove(got is err if err is not None else got == 'finished',
                  "the body's outcome is passed on")
        if active:
            ctx.prove(inside is before, 'an active interaction stays active inside')
            ctx.prove(m.queryInteraction() is before, 'an active interaction is left alone')
            ctx.prove(len(before.participations) == 0, 'an active interaction is not changed')
        else:
            ctx.prove(m.queryInteraction() is None, 'the interaction is ended on every exit')
            ctx.prove(inside is not None, 'an interaction is active inside')
            ps = inside.participations
            ctx.prove(len(ps) == 1, 'with one participation')
            p = ps[0].principal
            ctx.prove(who is p, 'the principal is handed over')
            describe(ctx, p, pid, title, groups, IPrincipal, IGroupAwarePrincipal)
        ctx.note(body, bool(active))
    fresh(ctx)
    go()


def describe(ctx, p, pid, title, groups, IPrincipal, IGroupAwarePrincipal):
    ctx.prove(ctx.same(p.id, pid), 'with the given id')
    want = title if title else pid
    ctx.prove(ctx.same(p.title, want), 'with the given title, or the id')
    ctx.prove(IPrincipal.providedBy(p), 'a principal')
    ctx.prove(IGroupAwarePrincipal.providedBy(p) == (groups is not None),
              'group aware exactly with groups')
    if groups is not None:
        ctx.prove(p.groups is groups, 'with the given groups')


@harness('C31', bounds='any id, title and groups; with and without an active interaction')
def test_create(ctx):
    import zope.security.management as m
    from zope.security import testing
    from zope.security.interfaces import IGroupAwarePrincipal
    from zope.security.interfaces import IPrincipal
    from zope.security.simplepolicies import ParanoidSecurityPolicy
    pid = ctx.str('id')
    title = ctx.val('title', none=True, strings=True)
    groups = {0: None, 1: [], 2: ['g']}[ctx.choose('groups', 3)]
    active = bool(ctx.bool('active'))
    old = m.getSecurityPolicy()
    ctx.cleanup(lambda: m.setSecurityPolicy(old))

    def go():
        m.setSecurityPolicy(ParanoidSecurityPolicy)
        before = None
        if active:
            m.newInteraction()
            before = m.queryInteraction()
        try:
            p = testing.create_interaction(pid, title=title, groups=groups)
            got = 'ok'
        except m.ExistingInteraction:
            got = 'existing'
        ctx.prove((got == 'existing') == bool(active), 'refused exactly while one is active')
        i = m.queryInteraction()
        if active:
            ctx.prove(i is before, 'the active interaction stays')
        else:
            ctx.prove(i is not None and len(i.participations) == 1, 'one participation')
            ctx.prove(i.participations[0].principal is p, 'carrying the principal')
            describe(ctx, p, pid, title, groups, IPrincipal, IGroupAwarePrincipal)
        ctx.note(got)
    fresh(ctx)
    go()
