"""Whole configuration files (C22, C23, C24, C25): the directives as they are
declared to the configuration machine, their fields, and their execution."""
import sys
import types

from sxlib import harness

PUBLIC = 'zope.Public'
MODULE = 'verif_configured'


def shown(e):
    """The text of an error; a conflict's own fails when it cannot sort."""
    try:
        return str(e)[:300]
    except Exception:
        return type(e).__name__


def world(ctx):
    """A module of things that configuration can name."""
    from zope.interface import Attribute
    from zope.interface import Interface
    from zope.schema import Int
    from zope.testing.cleanup import cleanUp
    cleanUp()
    ctx.cleanup(cleanUp)
    m = types.ModuleType(MODULE)

    class IBase(Interface):
        a = Attribute('a')
        __module__ = MODULE

    class ISub(IBase):
        b = Attribute('b')
        __module__ = MODULE

    class ISchema(Interface):
        free = Int(title='free')
        fixed = Int(title='fixed', readonly=True)
        attr = Attribute('no field')
        __module__ = MODULE

    class ISubSchema(ISchema):
        more = Int(title='more')
        __module__ = MODULE

    class K:
        __module__ = MODULE

    class L:
        __module__ = MODULE

    class Policy:
        __module__ = MODULE

        def __init__(self, *participations):
            pass
    for c in (IBase, ISub, ISchema, ISubSchema, K, L, Policy):
        setattr(m, c.__name__, c)
    m.sub = types.ModuleType(MODULE + '.sub')
    for x in (m, m.sub):
        old = sys.modules.get(x.__name__)
        sys.modules[x.__name__] = x

        def undo(name=x.__name__, old=old):
            if old is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = old
        ctx.cleanup(undo)
    return m


NAMES = {'IBase': ['a'], 'ISub': ['a', 'b'], 'ISchema': ['free', 'fixed', 'attr'],
         'ISubSchema': ['free', 'fixed', 'attr', 'more']}
WRITABLE = {'IBase': [], 'ISub': [], 'ISchema': ['free'], 'ISubSchema': ['free', 'more']}


def machine():
    """A configuration machine that knows the directives."""
    import zope.configuration.config as config
    import zope.configuration.xmlconfig as xmlconfig
    import zope.component
    import zope.security
    context = config.ConfigurationMachine()
    xmlconfig.registerCommonDirectives(context)
    xmlconfig.file('meta.zcml', zope.security, context, execute=False)
    return context


def load(text, context=None):
    """what came of the configuration file, and why"""
    import zope.configuration.config as config
    import zope.configuration.exceptions as exceptions
    import zope.configuration.xmlconfig as xmlconfig
    context = machine() if context is None else context
    text = ('<configure xmlns="http://namespaces.zope.org/zope" '
            'xmlns:meta="http://namespaces.zope.org/meta" i18n_domain="t">%s</configure>' % text)
    try:
        xmlconfig.string(text, context)
        return 'ok', None
    except config.ConfigurationConflictError as e:
        return 'conflict', e
    except config.ConfigurationExecutionError as e:
        return 'execution', e
    except exceptions.ConfigurationError as e:
        return 'error', e


def known(ids):
    """register permissions"""
    from zope.component import provideUtility
    from zope.security.interfaces import IPermission
    from zope.security.permission import Permission
    for i in ids:
        provideUtility(Permission(i, i), IPermission, i)


def expand(text):
    return text.replace('K', MODULE + '.K').replace('L', MODULE + '.L')


# subdirectives: text, read names, set names, permission, problem
def parts(perm):
    """kind of subdirective: what it says and what it means"""
    out = {
        'attribute': ('<require permission="%s" attributes="a"/>' % perm, ['a'], []),
        'attributes': ('<require permission="%s" attributes="a c"/>' % perm, ['a', 'c'], []),
        'twice': ('<require permission="%s" attributes="a a"/>' % perm, ['a', 'a'], []),
        'interface': ('<require permission="%s" interface="%s.ISub"/>' % (perm, MODULE),
                      NAMES['ISub'], []),
        'interfaces': ('<require permission="%s" interface="%s.IBase %s.ISchema"/>'
                       % (perm, MODULE, MODULE), NAMES['IBase'] + NAMES['ISchema'], []),
        'set': ('<require permission="%s" set_attributes="a free"/>' % perm, [], ['a', 'free']),
        'schema': ('<require permission="%s" set_schema="%s.ISubSchema"/>' % (perm, MODULE), [],
                   WRITABLE['ISubSchema']),
        'read and set': ('<require permission="%s" attributes="x" interface="%s.IBase" '
                         'set_attributes="y" set_schema="%s.ISchema"/>' % (perm, MODULE, MODULE),
                         ['x', 'a'], ['y', 'free']),
    }
    return out


ALLOWS = {
    'allow': ('<allow attributes="a d"/>', ['a', 'd'], []),
    'allow interface': ('<allow interface="%s.ISub"/>' % MODULE, ['a', 'b'], []),
    'allow both': ('<allow attributes="d" interface="%s.ISchema"/>' % MODULE,
                   ['d'] + NAMES['ISchema'], []),
}
WRONG = {
    'nothing': '<require permission="p.one"/>',
    'no permission': '<require attributes="a"/>',
    'no permission for a set': '<require set_attributes="a"/>',
    'no permission for a schema': '<require set_schema="%s.ISchema"/>' % MODULE,
    'no permission for an interface': '<require interface="%s.IBase"/>' % MODULE,
    'empty': '<require/>',
    'nothing allowed': '<allow/>',
}
KINDS = sorted(parts('')) + sorted(ALLOWS)


@harness('C22', cases=[(k,) for k in KINDS] + [('wrong',), ('like',)],
         bounds='configuration files with up to two class directives of two classes, of eleven '
                'kinds each, public or not, and files with mistakes; any name looked up')
def class_configuration(ctx, first):
    import zope.security.checker as c
    m = world(ctx)
    known(['p.one', 'p.two'])
    public = c.CheckerPublic
    if first == 'wrong':
        w = ctx.choose('mistake', sorted(WRONG))
        got, e = load('<class class="%s.K">%s</class>' % (MODULE, WRONG[w]))
        ctx.prove(got == 'error', 'a directive that requires nothing or names no permission is '
                                  'refused', '%s: %s %s' % (w, got, shown(e)))
        ctx.prove(c.getCheckerForInstancesOf(m.K) is None, 'and protects nothing')
        return
    tables = {m.K: None, m.L: None}
    text = ''
    claimed = []
    if first == 'like':
        known_get = {'a': 'p.two', 'q': public}
        c.defineChecker(m.L, c.Checker(dict(known_get), {'s': 'p.two'}))
        tables[m.L] = (dict(known_get), {'s': 'p.two'})
        if ctx.bool('more'):
            kind = ctx.choose('kind', ['attribute', 'set'])
            t, gets, sets = parts('p.one')[kind]
            t = t.replace('<require', '<require like_class="%s.L"' % MODULE)
        else:
            t, gets, sets = '<require like_class="%s.L"/>' % MODULE, [], []
        text = '<class class="%s.K">%s</class>' % (MODULE, t)
        tables[m.K] = (dict(known_get), {'s': 'p.two'})
        tables[m.K][0].update((n, 'p.one') for n in gets)
        tables[m.K][1].update((n, 'p.one') for n in sets)
    else:
        second = ctx.choose('second', ['no'] + KINDS)
        for i, kind in enumerate((first, second)):
            if kind == 'no':
                continue
            cls = m.K if i == 0 or ctx.bool('same class') else m.L
            perm = 'p.one' if i else ctx.choose('permission', ['p.two', PUBLIC])
            if kind in ALLOWS:
                perm = PUBLIC
            t, gets, sets = ALLOWS[kind] if kind in ALLOWS else parts(perm)[kind]
            text += '<class class="%s.%s">%s</class>' % (MODULE, cls.__name__, t)
            if tables[cls] is None and (gets or sets):
                tables[cls] = ({}, {})
            p = public if perm == PUBLIC else perm
            for side, names in ((0, gets), (1, sets)):
                for n in names:
                    claimed.append((cls, side, n))
                    tables[cls][side][n] = p
    got, e = load(text)
    if len(set(claimed)) != len(claimed):
        ctx.prove(got == 'conflict', 'two declarations for one name conflict', '%s %s' % (got, shown(e)))
        ctx.cover('conflict')
        return
    ctx.prove(got == 'ok', 'different names never conflict', '%s %s %s' % (text, got, shown(e)))
    if got != 'ok':
        return
    probe = ctx.str('probe')
    for cls, table in tables.items():
        checker = c.getCheckerForInstancesOf(cls)
        if table is None or checker is None:
            ctx.prove(table is None and checker is None, 'classes are protected as declared')
            continue
        for side, look in ((0, checker.permission_id), (1, checker.setattr_permission_id)):
            want = None
            for n in table[side]:
                if ctx.same(probe, n):
                    want = table[side][n]
            ctx.prove(ctx.same(look(probe), want),
                      'exactly the declared names are ' + ('settable' if side else 'readable'))
    ctx.note(first)


@harness('C23', cases=(('allow',), ('require',)),
         bounds='configuration files with up to two module directives on a module or its '
                'submodule, attributes and interfaces, overlapping or not; any name looked up')
def module_configuration(ctx, first):
    import zope.security.checker as c
    m = world(ctx)
    known(['p.one', 'p.two'])
    public = c.CheckerPublic
    text, claimed, tables = '', set(), {m: None, m.sub: None}
    conflict = False
    n = ctx.choose('directives', [1, 2])
    for i in range(n):
        what = first if i == 0 else ctx.choose('what', ['allow', 'require'])
        mod = m if i == 0 or ctx.bool('same module') else m.sub
        k = ctx.choose('names%d' % i, ['a', 'a c', 'IBase', 'ISub', 'a ISub', 'IBase ISchema'])
        attrs = [x for x in k.split() if x not in NAMES]
        ifaces = [x for x in k.split() if x in NAMES]
        names = set(attrs)
        for x in ifaces:
            names.update(NAMES[x])
        perm = public
        a = ''
        if what == 'require':
            perm = ctx.choose('permission%d' % i, ['p.one', PUBLIC])
            a = ' permission="%s"' % perm
            perm = public if perm == PUBLIC else perm
        if attrs:
            a += ' attributes="%s"' % ' '.join(attrs)
        if ifaces:
            a += ' interface="%s"' % ' '.join(MODULE + '.' + x for x in ifaces)
        text += '<module module="%s"><%s%s/></module>' % (mod.__name__, what, a)
        if tables[mod] is None:
            tables[mod] = {}
        for x in names:
            conflict = conflict or (mod, x) in claimed
            claimed.add((mod, x))
            tables[mod][x] = perm
    got, e = load(text)
    if conflict:
        ctx.prove(got == 'conflict', 'the same name of one module conflicts', '%s %s' % (got, shown(e)))
        return
    ctx.prove(got == 'ok', 'different names or modules do not conflict', '%s %s' % (got, shown(e)))
    if got != 'ok':
        return
    probe = ctx.str('probe')
    for mod, table in tables.items():
        checker = c.moduleChecker(mod)
        if table is None or checker is None:
            ctx.prove(table is None and checker is None, 'modules are protected as declared')
            continue
        want = None
        for x in table:
            if ctx.same(probe, x):
                want = table[x]
        ctx.prove(ctx.same(checker.permission_id(probe), want),
                  'exactly the declared names are protected')
        ctx.prove(ctx.same(checker.setattr_permission_id(probe), None), 'nothing is settable')


IDS = ['p.one', 'p.two', 'p.three', PUBLIC]


@harness('C25', cases=(('class',), ('class set',), ('module',), ('redefine',)),
         thorough_paths=100000,
         bounds='configuration files with up to two redefinitions and a class or module '
                'directive, at any place, over four ids; any of them registered, before or in the '
                'same file, or not')
def permission_configuration(ctx, where):
    """Ids are redefined from where the redefinition stands, and all ids that
    appear are verified once everything has been executed."""
    import zope.security.checker as c
    m = world(ctx)
    public = c.CheckerPublic
    mapping, verified, text = {}, [], ''
    n = ctx.choose('redefinitions', 3)
    at = ctx.choose('place', n + 1) if where != 'redefine' else 0
    full = ctx.tier != 'quick'
    used = None
    for i in range(n + 1):
        if i == at and where != 'redefine':
            pid = ctx.choose('id', IDS)
            if where == 'class':
                text += ('<class class="%s.K"><require permission="%s" attributes="a"/></class>'
                         % (MODULE, pid))
            elif where == 'class set':
                text += ('<class class="%s.K"><require permission="%s" set_attributes="a"/>'
                         '</class>' % (MODULE, pid))
            elif where == 'module':
                text += ('<module module="%s"><require permission="%s" attributes="a"/></module>'
                         % (MODULE, pid))
            verified.append(pid)
            used = mapping.get(pid, pid)
        if i < n:
            f = ctx.choose('from%d' % i, IDS[:2] if i else ['p.one', PUBLIC])
            t = ctx.choose('to%d' % i, IDS if full else
                           ['p.one', 'p.three'] if i else ['p.two', 'p.three', PUBLIC])
            text += '<meta:redefinePermission from="%s" to="%s"/>' % (f, t)
            verified += [f, t]
            mapping[mapping.get(f, f)] = mapping.get(t, t)
    missing = ctx.choose('missing', ['none', 'p.one', 'p.two', 'p.three'])
    there = [x for x in IDS[:3] if x != missing]
    if ctx.bool('in the file') if full else missing in ('none', 'p.two'):
        text += ''.join('<permission id="%s" title="t"/>' % x for x in there)
    else:
        known(there)
    context = machine()
    got, e = load(text, context)
    wrong = [x for x in verified if x == missing]
    if wrong:
        ctx.prove(got == 'execution', 'an id that is not registered is reported',
                  '%s %s %s' % (text, got, shown(e)))
        ctx.prove(isinstance(e.evalue if got == 'execution' else None, ValueError) and
                  e.evalue.args[-1] == missing, 'as a value error that names it')
        return
    ctx.prove(got == 'ok', 'ids that are registered are accepted', '%s %s %s' % (text, got, shown(e)))
    if got != 'ok' or used is None:
        return
    want = public if used == PUBLIC else used
    checker = c.moduleChecker(m) if where == 'module' else c.getCheckerForInstancesOf(m.K)
    look = checker.setattr_permission_id if where == 'class set' else checker.permission_id
    ctx.prove(look('a') is want or look('a') == want, 'the id in force is the redefined one',
              '%s: %s' % (text, look('a')))
    ctx.note(used)


@harness('C25', bounds='configuration files with a policy, one permission of any of five '
                       'ids, described or not, or both')
def policy_and_permission_configuration(ctx):
    import zope.security.management as mg
    from zope.component import getUtilitiesFor
    from zope.security.interfaces import IPermission
    m = world(ctx)
    old = mg.getSecurityPolicy()
    ctx.cleanup(lambda: mg.setSecurityPolicy(old))
    text = ''
    policy = ctx.bool('policy')
    if policy:
        text += '<securityPolicy component="%s.Policy"/>' % MODULE
    pid = ctx.choose('id', ['none', 'p.one', 'zope.Public', 'http://example.com/p', 'a.b.c.d'])
    described = ctx.bool('described')
    if pid != 'none':
        text += '<permission id="%s" title="The title"%s/>' % (
            pid, ' description="More words"' if described else '')
    got, e = load(text)
    ctx.prove(got == 'ok', 'it is accepted', shown(e))
    ctx.prove(mg.getSecurityPolicy() is (m.Policy if policy else old), 'the policy named')
    found = list(getUtilitiesFor(IPermission))
    ctx.prove([n for n, p in found] == ([] if pid == 'none' else [pid]),
              'exactly the permission given')
    for n, p in found:
        ctx.prove(p.id == pid and p.title == 'The title' and
                  p.description == ('More words' if described else ''),
                  'with its id, title and description')
    twice = load('<securityPolicy component="%s.Policy"/><securityPolicy component="%s.K"/>'
                 % (MODULE, MODULE))
    ctx.prove(twice[0] == 'conflict', 'two policies conflict')


@harness('C24', bounds='the permissions that the package itself registers, and one more or none '
                       'of any of four ids')
def shipped_permissions(ctx):
    import zope.configuration.xmlconfig as xmlconfig
    import zope.component
    import zope.security
    from zope.component import getUtility
    from zope.schema.interfaces import IVocabularyFactory
    from zope.security.checker import CheckerPublic
    from zope.security.permission import allPermissions
    from zope.security.permission import checkPermission
    world(ctx)
    xmlconfig.file('configure.zcml', zope.security)
    more = ctx.choose('more', ['none', 'zope', 'a.b', 'zope.Publi', 'zz.top'])
    if more != 'none':
        known([more])
    ids = ['zope.ManageContent', 'zope.ManageServices', 'zope.ManageSite', 'zope.Security',
           'zope.View'] + [more] * (more != 'none')
    ctx.prove(sorted(allPermissions()) == sorted(ids), 'all ids but the public one')
    v = list(getUtility(IVocabularyFactory, 'Permission Ids')(None))
    ctx.prove([t.value for t in v[1:]] == sorted(ids) and v[0].value is CheckerPublic,
              'the vocabulary of ids')
    v = list(getUtility(IVocabularyFactory, 'Permissions')(None))
    ctx.prove(sorted(t.token for t in v) == sorted(ids + [PUBLIC]), 'the vocabulary')
    for t in v:
        ctx.prove(t.value.id == t.token, 'of permissions')
    probe = ctx.choose('probe', ids + [PUBLIC, 'zope.Nothing', '', 'Public', 'zope.public'])
    try:
        checkPermission(None, probe)
        got = True
    except ValueError as e:
        got = False
        ctx.prove(e.args[-1] == probe, 'the id is named')
    ctx.prove(got == (probe in ids or probe == PUBLIC), 'exactly the registered ids exist')
