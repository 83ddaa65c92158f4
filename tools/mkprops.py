"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
S = 'src/zope/security/'
P = []


def p(id, title, statement, over, qtext, why, files, functions, mech, observe, inv=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "functions": functions,
            "mechanism": [{"name": m, "where": w} for m, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        }})


p("C01", "Attribute access through a proxy is always mediated",
  "Reading, assigning or deleting an attribute through a security proxy reaches the underlying object only after the proxy's checker has approved exactly that attribute name, for exactly that kind of access (read, or write for both assignment and deletion), on exactly the underlying object. When the checker refuses, the underlying object is not touched at all and the checker's own exception reaches the caller. This holds for every attribute name, in the compiled and the pure-Python build.",
  ["inputs", "configurations"],
  "every attribute name (any string), every checker answer (grant, Unauthorized, Forbidden, any other exception), every kind of access, both builds, checkers with and without the fast-path protocol",
  "Tests try a handful of names against hand-made checkers; a bypass for one particular name or one kind of access (e.g. deletion) is outside what they sample.",
  ["_proxy.c", "proxy.py"], ["proxy_getattro", "proxy_setattro", "check", "ProxyPy.__getattribute__", "ProxyPy.__getattr__", "ProxyPy.__setattr__", "ProxyPy.__delattr__"],
  [("checker call before delegation", S + "_proxy.c:check"), ("checker call before delegation", S + "proxy.py:ProxyPy")],
  ["getattr/setattr/delattr on a proxy with a recording checker and target"])

p("C02", "Operators on a proxy are always mediated",
  "Every operation syntax on a security proxy - calling, indexing, item assignment and deletion, iteration and next, membership, length, every unary, binary, reflected, three-argument and in-place arithmetic or bitwise operator and every numeric or index conversion - is carried out on the underlying object only after the proxy's checker approved that operation's own special-method name on the underlying object. When a proxy is not the left operand the name approved is the reflected operation's name, never the plain one. When the checker refuses, nothing is carried out on the underlying object and the refusal reaches the caller; only comparison, hashing, truth testing, text conversion and the length hint are exempt.",
  ["inputs", "configurations"],
  "every operator slot of the proxy type, every operand position the proxy can take, every checker answer, every kind of checker, both builds",
  "The test-suite checks most operators with one operand arrangement and one checker class; it does not cover slots inherited from the base type, both operands being proxies, or checkers without the fast path for every operator.",
  ["_proxy.c", "proxy.py"], ["check1", "check2", "check2i", "proxy_pow", "proxy_call", "proxy_iter", "proxy_iternext", "proxy_getitem", "proxy_setitem", "proxy_contains", "proxy_length", "_check_name", "_check_name_inplace"],
  [("UNOP/BINOP/INPLACE slots", S + "_proxy.c"), ("_check_name wrappers", S + "proxy.py")],
  ["each operator applied to proxies with recording checkers and targets"])

p("C03", "Results of mediated operations never escape unprotected",
  "Whatever object a mediated attribute read or operator obtains from the underlying object is handed to the caller only after the proxy's checker has been asked to protect it, and what the caller receives is exactly what the checker returned. An in-place operation whose result is the underlying object itself gives back the same proxy. If protecting the result fails, the caller gets the failure and never the raw result.",
  ["inputs", "configurations"],
  "every operation that returns an object, every result the underlying object may return, every answer of the checker's protection step, both builds",
  "Tests compare a few result types; an unprotected result on one operator, one operand position or one kind of checker is invisible to them.",
  ["_proxy.c", "proxy.py"], ["PROXY_RESULT", "check1", "check2", "check2i", "proxy_pow", "proxy_richcompare", "_check_name", "ProxyPy.__getattribute__"],
  [("PROXY_RESULT", S + "_proxy.c"), ("checker.proxy(res)", S + "proxy.py")],
  ["the object returned by each operation on a proxy"])

p("C04", "An approved operation is performed once, faithfully",
  "When the checker approves, the operation that runs on the underlying object is the same operation the caller requested, exactly once, with the caller's other operands passed through unchanged and in the caller's order (in particular other security proxies among them are not opened). Its outcome - value or exception - is the caller's outcome.",
  ["inputs", "configurations"],
  "every operator and attribute operation, every operand arrangement including several proxies, every outcome of the underlying operation, both builds",
  "The tests use commutative or identical operands in many places, and cannot try every arrangement of proxies and outcomes.",
  ["_proxy.c", "proxy.py"], ["check1", "check2", "check2i", "proxy_pow", "proxy_call", "proxy_getitem", "proxy_setitem", "proxy_igetitem", "proxy_isetitem", "_check_name"],
  [("operation(...) delegation", S + "_proxy.c")],
  ["operations and arguments seen by a recording target"])

p("C05", "Comparison, hash and truth of a proxy are those of its object",
  "Comparing a proxy with anything, hashing it and testing its truth never need a permission and give exactly the answer, or raise exactly the exception, that the underlying object gives for the same comparison in the same direction. A comparison result that is not a plain boolean is protected by the proxy's checker before the caller sees it.",
  ["inputs", "configurations"],
  "all six comparisons, every other operand, every result (including non-boolean results and exceptions), both builds",
  "Tests compare integers and a few objects; rich results of comparisons and swapped directions are not sampled for both builds.",
  ["_proxy.c", "proxy.py"], ["proxy_richcompare", "proxy_hash", "proxy_bool", "ProxyPy.__lt__", "ProxyPy.__eq__", "ProxyPy.__hash__", "ProxyPy.__bool__"],
  [("proxy_richcompare", S + "_proxy.c"), ("comparison methods", S + "proxy.py")],
  ["comparison, hash and bool of a proxy"])

p("C06", "Text conversion reveals an object's own text only when allowed",
  "str() or repr() of a proxy yields the text the underlying object computes for itself only if the checker approves that conversion; otherwise the object's own conversion is not run and the caller gets a generic description naming only the object's class, module and address. No class or module name of the object makes the conversion fail or crash the interpreter.",
  ["inputs", "configurations"],
  "every checker answer and every class/module name value (including missing or non-text ones), both conversions, both builds",
  "Tests exercise ordinary classes only; odd class metadata and every refusal kind are not sampled.",
  ["_proxy.c", "proxy.py"], ["proxy_str", "proxy_repr", "default_repr", "ProxyPy.__str__", "ProxyPy.__repr__", "_fmt_address"],
  [("default_repr", S + "_proxy.c")], ["str(proxy), repr(proxy)"])

p("C07", "Proxies are opaque, immutable and never re-wrapped",
  "Creating a proxy requires a checker; protecting something that is already a proxy returns that same proxy, and an attempt to give it a different checker is refused. The trusted unwrapping function removes exactly one security proxy and returns any unproxied object unchanged, the trusted checker lookup returns exactly the proxy's checker, and the proxy-aware type test answers for the underlying object. Code outside the proxy cannot read or replace the protected object or the checker through attribute access.",
  ["inputs", "histories", "configurations"],
  "every object, every checker argument including none, every attribute name, both builds",
  "Tests check a few object/checker combinations and never ask for every attribute name or nesting.",
  ["proxy.py", "_proxy.c", "checker.py"], ["ProxyFactory", "proxy_new", "getObjectPy", "getCheckerPy", "module_getObject", "module_getChecker", "isinstance", "ProxyPy.__getattribute__", "ProxyPy.__setattr__"],
  [("ProxyFactory", S + "checker.py"), ("guards on internal names", S + "proxy.py")], ["ProxyFactory, removeSecurityProxy, getChecker, zope.security.proxy.isinstance"])

p("C08", "Read checks follow the permission table exactly",
  "A permission-table checker lets a read or an operation through exactly when the name is public in its table, or the name has a permission that the current interaction grants for that very permission and object, or the name has no permission but is one of the always-available names (or is an iteration request on an object that has no iteration). A name with a permission that is not granted raises Unauthorized carrying the object, the name and the permission; any other name raises ForbiddenAttribute carrying the name and the object; the interaction is consulted at most once and never for public or permission-less names. The compiled and the reference checker give identical answers for every name.",
  ["inputs", "configurations"],
  "every name string, every permission table (entries may be absent, empty, public or any permission), every answer of the interaction (any value or exception), every object, both builds",
  "Tests sample some names and boolean answers; they cannot compare the two implementations on every name, table and answer.",
  ["checker.py", "_zope_security_checker.c"], ["CheckerPy.check", "CheckerPy.permission_id", "Checker_check_int", "Checker_check", "checkPermission", "Checker_permission_id"],
  [("check", S + "checker.py"), ("Checker_check_int", S + "_zope_security_checker.c")], ["check, check_getattr, permission_id and the fast path"])

p("C09", "Write checks follow the set-permission table exactly",
  "A permission-table checker lets an attribute be set or deleted exactly when the name is public in its set-permission table or has there a permission the current interaction grants for that permission and object. Read permissions and the always-available names never authorise a write; a name without a set-permission raises ForbiddenAttribute, a refused permission raises Unauthorized with object, name and permission. Both builds agree for every name.",
  ["inputs", "configurations"],
  "every name string, every pair of read and set tables, every answer of the interaction, both builds",
  "Tests sample a few names; confusion between the two tables for an untested name or table shape is not visible to them.",
  ["checker.py", "_zope_security_checker.c"], ["CheckerPy.check_setattr", "CheckerPy.setattr_permission_id", "Checker_check_setattr", "Checker_setattr_permission_id"],
  [("check_setattr", S + "checker.py"), ("Checker_check_setattr", S + "_zope_security_checker.c")], ["check_setattr, setattr_permission_id"])

p("C10", "Values are protected by the right checker or not at all",
  "Protecting a value returns an existing proxy as it is, and otherwise wraps the value with the checker the value itself names, or failing that with the checker registered for its exact type, where a registered checker factory is called with the value until it produces a checker. The value is handed out bare only when the registration (or its factory) says so - the basic immutable types - or, for exceptions of unregistered types, in the compiled build; a value of any unregistered type gets the deny-by-default checker. Errors raised by a checker factory reach the caller and never yield a bare value.",
  ["inputs", "configurations"],
  "every registry content for the value's type (absent, no-proxy marker, checker, chains of factories), every own-checker value, proxied or plain values, both builds",
  "Tests cover each branch once for one build; chains of factories, failures and the interplay of the sources are not quantified over.",
  ["checker.py", "_zope_security_checker.c"], ["selectCheckerPy", "CheckerPy.proxy", "ProxyFactory", "selectChecker", "Checker_proxy"],
  [("selectChecker", S + "checker.py"), ("selectChecker", S + "_zope_security_checker.c")], ["Checker.proxy, ProxyFactory, selectChecker"])

p("C11", "A combined checker is the documented logical or",
  "Combining two permission-table checkers allows an access exactly when the first allows it or, failing that, the second does, for reads, operations and writes alike. If neither allows it the outcome is Unauthorized when either said Unauthorized and ForbiddenAttribute only when both said so; the second is not consulted when the first allows. Any other exception of either checker passes through.",
  ["inputs", "configurations"],
  "every outcome pair (allowed, Unauthorized, Forbidden, other exception) for reads, operations, fast path and writes, every name and table, all builds including watching",
  "Tests enumerate the table for one name through one entry point.",
  ["checker.py"], ["CombinedChecker.check", "CombinedChecker.check_setattr", "CombinedChecker.__init__"],
  [("CombinedChecker", S + "checker.py")], ["CombinedChecker(c1, c2).check / check_getattr / check_setattr / item-set fast path"])

p("C12", "canAccess and canWrite predict what the checker decides",
  "canAccess answers true exactly when a read of that name would be allowed and false exactly when it would be Unauthorized, and lets every other outcome through as an exception. canWrite answers true exactly when a write would be allowed, false when it would be Unauthorized, and when writing is forbidden it answers false if reading is allowed or Unauthorized and raises otherwise. Neither ever changes the object or grants more than the checker.",
  ["inputs", "configurations"],
  "every combination of read and write outcome of the checker including unexpected exceptions, every name, plain and proxied objects, both builds",
  "Tests cover part of the outcome table with hand-written checkers.",
  ["checker.py"], ["canAccess", "canWrite"], [("canAccess/canWrite", S + "checker.py")], ["canAccess, canWrite"])

p("C13", "Checker constructors produce exactly the declared table",
  "A checker built from names, an interface or several specifications protects exactly the declared names (for an interface, including inherited ones), each with exactly the permission declared for it, and nothing else, and grants no writes. If the declarations give one name two different permissions the construction fails with a duplication error rather than picking one, and does not fail otherwise. Permission tables that are not dictionaries are refused.",
  ["inputs"],
  "every sequence of name lists, interfaces, dictionaries and keyword declarations up to the stated sizes, with arbitrary names and permissions that may coincide",
  "Tests use fixed small declarations; coincidences between names across specifications are the rare inputs.",
  ["checker.py"], ["NamesChecker", "InterfaceChecker", "MultiChecker", "CheckerPy.__init__", "Checker_init"],
  [("DuplicationError tests", S + "checker.py")], ["NamesChecker, InterfaceChecker, MultiChecker, Checker(...)"])

p("C14", "The checker registry changes only as asked and resets exactly",
  "Defining a checker for a type or module registers it for that key alone, refuses keys that are neither and refuses a key that already has one without altering the registration; undefining removes that key alone. Adding, updating or removing a basic type takes effect on checker selection at once, basic types cannot be cleared, and clean-up restores exactly the shipped registrations plus the current basic types. Looking up a module's or a class's checker reports the registration itself, with no inheritance.",
  ["histories", "inputs"],
  "every prior registry content for the keys involved and every operation on it; sequences of operations up to the stated length",
  "Tests run single operations from a clean registry.",
  ["checker.py"], ["defineChecker", "undefineChecker", "getCheckerForInstancesOf", "moduleChecker", "_BasicTypes", "_clear", "_instanceChecker"],
  [("_checkers", S + "checker.py")], ["defineChecker, undefineChecker, BasicTypes, clean-up"])

p("C15", "Shipped protections never expose mutation of built-in objects",
  "Under the protections shipped for built-in containers, numbers, functions, methods, iterators, types, modules and interface declarations, no operation or attribute that can modify the object - and none that reaches implementation internals such as a function's globals or code - is available through a proxy, whatever its name. No attribute of such an object can be set or deleted through a proxy. The documented read operations of dictionaries, lists, tuples, sets and frozensets remain available, and always-available names are limited to comparison, hash, truth, class and interface introspection, adaptation, text and naming.",
  ["inputs"],
  "every attribute or operation name (any string) for every shipped registration",
  "Tests check some names per type; 'no other name is granted' quantifies over all names.",
  ["checker.py"], ["_default_checkers", "_available_by_default", "_setChecker", "_callableChecker", "_typeChecker", "_iteratorChecker", "_fixup_dictlike"],
  [("_default_checkers", S + "checker.py")], ["check on proxies of built-in objects under the default configuration"])

p("C16", "A thread has at most one interaction; its life cycle is exact",
  "Starting an interaction succeeds exactly when none is active, makes the new interaction of the current policy with the given participations the active one, and otherwise fails leaving the active one in place. Ending removes the active interaction and remembers it, or forgets what was remembered if none was active; restoring makes the remembered interaction active again, or leaves none active if nothing is remembered. Queries report exactly the active interaction, and a policy that fails to start leaves none active.",
  ["histories", "fault_sequences"],
  "every reachable thread state and every operation on it (one inductive step), plus every operation sequence up to the stated length, with the policy call succeeding or failing",
  "Tests run a few fixed sequences.",
  ["management.py"], ["newInteraction", "endInteraction", "restoreInteraction", "queryInteraction", "getInteraction", "setSecurityPolicy", "getSecurityPolicy"],
  [("thread_local", S + "_definitions.py")], ["the functions of zope.security.management"])

p("C17", "Interactions of one thread are invisible to other threads",
  "No sequence of interaction operations performed by other threads changes what a thread sees as its active or remembered interaction, nor which interaction decides its permission checks. The default policy, by contrast, is shared by all threads.",
  ["schedules", "histories"],
  "every interleaving of operations of two threads up to the stated length, from every reachable state of both",
  "The existing tests run in one thread.",
  ["management.py", "_definitions.py", "checker.py"], ["newInteraction", "endInteraction", "restoreInteraction", "checkPermission", "CheckerPy.check"],
  [("threading.local", S + "_definitions.py")], ["management functions and checker decisions called from interleaved threads"])

p("C18", "Permission queries are answered by the right interaction",
  "Asking whether a permission is held is always answered yes for the public marker and for no permission, without consulting any interaction. Any other query is answered by the interaction passed in, or by the current one when none is passed, with exactly the permission and object given and exactly its answer; without either, it fails with the no-interaction error rather than answering.",
  ["inputs"],
  "every permission value, every object, every combination of passed and active interaction, every answer",
  "Tests cover few combinations and stub answers.",
  ["management.py"], ["checkPermission", "getInteraction"], [("checkPermission", S + "management.py")], ["zope.security.management.checkPermission"])

p("C19", "The default policy admits only the system and the public",
  "Under the shipped paranoid policy a permission is granted exactly when it is the public marker or every participation's principal is the system user (so also when there are no participations); neither the permission name nor the object nor a principal merely resembling the system user changes that. The permissive policy grants everything.",
  ["inputs", "histories"],
  "every number of participations up to the bound, any mix of principals (including ones equal or identically named to the system user), every permission and object",
  "Tests try two or three fixed participation lists.",
  ["simplepolicies.py", "_definitions.py"], ["ParanoidSecurityPolicy.checkPermission", "PermissiveSecurityPolicy.checkPermission"],
  [("checkPermission", S + "simplepolicies.py")], ["interaction.checkPermission"])

p("C20", "A participation belongs to at most one interaction",
  "Adding a participation succeeds exactly when it belongs to no interaction and then it belongs to this one, last in order; removing succeeds exactly when it belongs to this one and then it belongs to none. A refused addition or removal changes neither the interaction nor the participation, and other participations are never affected. Creating an interaction adds the given participations in order.",
  ["histories", "inputs"],
  "every consistent pre-state up to the bound and every add or remove on it (inductive step), and every creation with up to the bound participations any of which may already belong elsewhere",
  "Tests run single fixed additions and removals.",
  ["simplepolicies.py"], ["ParanoidSecurityPolicy.add", "ParanoidSecurityPolicy.remove", "ParanoidSecurityPolicy.__init__"],
  [("participation.interaction", S + "simplepolicies.py")], ["add, remove, construction"])

p("C21", "Protecting a name of a class changes that name of that class only",
  "Declaring a permission to read or to set a name on a class makes exactly that name of exactly that class require exactly that permission for exactly that kind of access, creating a checker for the class if it has none, and the public permission's name becomes unconditional access. Copying protections from another class adds all of the other class's read and set permissions, overrides same-named ones, keeps the rest, and later changes to either class do not affect the other; copying from an unprotected class changes nothing.",
  ["inputs", "histories"],
  "every name and permission, every prior protection of the classes involved (arbitrary tables), either kind of access",
  "Tests use single names from empty tables; frame conditions over arbitrary prior tables are not sampled.",
  ["protectclass.py"], ["protectName", "protectSetAttribute", "protectLikeUnto"],
  [("getCheckerForInstancesOf", S + "protectclass.py")], ["checker tables after protectName, protectSetAttribute, protectLikeUnto"])

p("C22", "Class security directives protect exactly what they declare",
  "A class 'require' directive makes exactly the listed attributes and the names of the listed interfaces (with inherited names) readable with the permission, exactly the listed settable attributes and the writable - not read-only, field - names of the listed schemas settable with it, after first taking over the protections of the class to be mimicked if one is named; 'allow' does the same with public access and never makes anything settable. A directive that requires nothing or names no permission is a configuration error. Two declarations for the same name and kind of access on a class are reported as conflicting, and different names never are.",
  ["inputs", "configurations"],
  "every combination of directive arguments, with interfaces whose members, inheritance, field-ness and read-only flags are arbitrary within the stated size",
  "The functional tests run fixed ZCML snippets.",
  ["metaconfigure.py"], ["ClassDirective.require", "ClassDirective.allow"],
  [("configuration actions", S + "metaconfigure.py")], ["actions emitted by the directive and the resulting checkers"])

p("C23", "Module protections cover exactly the declared names",
  "Protecting a name of a module makes exactly that name of that module require exactly that permission (public meaning unconditional access), leaves other names and modules as they were, and creates the module's checker when there is none. The module 'allow' and 'require' directives issue one such protection per distinct declared attribute or interface name, whichever of them declares it, with discriminators that conflict exactly for the same name of the same module.",
  ["inputs"],
  "every name, permission and prior table; every list of attributes and interface names up to the bound, with arbitrary coincidences",
  "Tests use fixed snippets.",
  ["metaconfigure.py", "checker.py"], ["protectModule", "_names", "allow", "require", "moduleChecker"],
  [("protectModule", S + "metaconfigure.py")], ["module checker tables and emitted actions"])

p("C24", "Permission listings and existence checks match registrations",
  "Checking a permission id succeeds exactly when it is the public marker or a permission is registered under that id, and otherwise is reported as a value error naming the id. Listing all permission ids yields every registered id except the public one; the permission vocabulary has one term per registered permission; the id vocabulary has one term per registered id sorted by id, with the public permission, if registered, first and standing for the public marker.",
  ["inputs", "configurations"],
  "every set of registered permissions up to the bound with arbitrary ids, any of which may be the public one; every id asked for",
  "Tests register one or two fixed permissions.",
  ["permission.py"], ["checkPermission", "allPermissions", "PermissionsVocabulary", "PermissionIdsVocabulary"],
  [("utility lookups", S + "permission.py")], ["functions of zope.security.permission"])

p("C25", "Permission ids in configuration are redefined and verified",
  "A permission id read from configuration is replaced by the id it was redefined to in that context, if any, and otherwise kept; redefinitions are recorded on the enclosing context, accumulate, and the last one for an id wins. Every id other than the public one is scheduled to be verified for existence after all other configuration, and the public one never is. The policy directive installs exactly the named policy and the permission directive registers exactly one permission with the given id, title and description.",
  ["inputs", "histories"],
  "every id, every sequence of redefinitions up to the bound with arbitrary coinciding ids",
  "Tests run one fixed redefinition file.",
  ["zcml.py"], ["Permission.fromUnicode", "Permission._validate", "redefinePermission", "securityPolicy", "permission"],
  [("permission_mapping", S + "zcml.py")], ["field conversion, emitted actions"])

p("C26", "Trusted adapters see bare objects and stay protected",
  "A trusted adapter factory called with at least one security-proxied argument passes every argument bare to the wrapped factory and returns the adapter security-proxied; called with no proxied argument it passes the arguments as they are and returns the adapter bare. The adapter's location is set to the bare first argument when the adapter provides a location whose parent is unset, an existing parent is never replaced, and the locating variant wraps protected adapters without location in a location proxy.",
  ["inputs"],
  "every number of arguments up to the bound with any subset proxied, every adapter kind (with location or not, parent set or not), failing factories included",
  "Tests use one or two arguments in fixed arrangements.",
  ["adapter.py"], ["LocatingTrustedAdapterFactory.__call__", "TrustedAdapterFactory", "assertLocation"],
  [("removeSecurityProxy per argument", S + "adapter.py")], ["arguments seen by the wrapped factory and the object returned"])

p("C27", "Untrusted adapters never gain access; they are located",
  "An untrusted locating adapter factory passes its arguments to the wrapped factory exactly as received, proxied or not, and returns the adapter located: unchanged when it already has a parent, with its parent set to the first argument when it has a location with no parent, and inside a location proxy with that parent when it has no location. No security proxy is removed or added.",
  ["inputs"],
  "every number of arguments up to the bound, any subset proxied, every adapter kind",
  "Tests use fixed arrangements.",
  ["adapter.py"], ["LocatingUntrustedAdapterFactory.__call__", "assertLocation"],
  [("assertLocation", S + "adapter.py")], ["arguments and result of the factory"])

p("C28", "Decorated objects combine wrapper and object protections",
  "The checker of a decorated or location-wrapped object is the wrapper's own when only the wrapper has one, the wrapped object's when only that has one, and otherwise the combination that tries the wrapper's first; the wrapped object's is its proxy's checker if it is security-proxied, else the one it names itself, else its type's. When neither has a checker the wrapper is treated as having none, and the checker can never be assigned.",
  ["inputs", "configurations"],
  "every combination of wrapper registration, wrapped-object registration, own checker and proxying",
  "Tests cover four fixed combinations.",
  ["decorator.py"], ["DecoratedSecurityCheckerDescriptor.__get__", "DecoratedSecurityCheckerDescriptor.__set__"],
  [("CombinedChecker(wrapper, object)", S + "decorator.py")], ["the security checker attribute of decorators and location proxies"])

p("C29", "Watching checkers observe without changing any decision",
  "With checker watching on, at any verbosity, every check on every checker gives the same outcome - allowed, or the same exception - as without it, for reads, operations, writes and the fast path. Every refusal is reported once with its kind, name and object, and grants are reported only at the higher verbosity.",
  ["inputs", "configurations"],
  "every name, table and interaction answer, every verbosity, single and combined checkers, both builds",
  "The watch configuration of the test-suite re-runs sample checks; it does not compare decisions for every name and answer.",
  ["checker.py"], ["CheckerLoggingMixin.check", "CheckerLoggingMixin.check_getattr", "CheckerLoggingMixin.check_setattr", "WatchingChecker", "WatchingCombinedChecker"],
  [("super() call then log", S + "checker.py")], ["watching checkers' outcomes and log lines"])

p("C30", "The compiled proxy and checker never corrupt memory or leak",
  "Whatever the protected object, the checker, the names and the operands do - succeed, fail, return any object - an operation on a compiled proxy or checker never crashes, never uses a released object, returns a result exactly when no exception is pending, and leaves every object's reference count changed only by the references it hands out or stores. Destroying or traversing proxies and checkers releases and reports exactly the references they hold.",
  ["inputs", "fault_sequences"],
  "every operator slot, method and module function of the two extensions, every success/failure outcome of each interpreter call they make, every name up to the stated length",
  "Reference errors on rarely taken failure paths do not show in functional tests.",
  ["_proxy.c", "_zope_security_checker.c"], ["all slot functions of both types", "default_repr", "selectChecker", "Checker_proxy", "Checker_check_int", "proxy_dealloc", "proxy_traverse"],
  [("Py_INCREF/Py_DECREF discipline", S + "_proxy.c")], ["slot calls in a symbolic heap; sanitised or counted real runs for replay"])

p("C31", "Temporary test interactions are ended on every exit",
  "The interaction context manager for a principal starts an interaction with exactly that principal when none is active and ends it whether the body finishes or fails, letting the body's exception through; when an interaction is already active it leaves it alone throughout. Creating an interaction for a principal id makes an interaction current whose only participation carries a principal with that id, title and groups.",
  ["inputs", "fault_sequences"],
  "with or without an active interaction, body finishing or raising any exception, every principal id, title and group argument",
  "Tests cover the plain paths.",
  ["testing.py"], ["interaction", "create_interaction", "Principal", "Participation", "addCheckerPublic"],
  [("try/finally", S + "testing.py")], ["management state around the context manager"])

p("C32", "The public marker keeps its identity",
  "The marker for public access is recognised only by identity: no other object, equal or like-named, is ever treated as public by a checker, a policy or a permission query. Protecting the marker gives back the marker itself, and reducing it for pickling yields its global name, so that an unpickled configuration means the same public access.",
  ["inputs"],
  "every permission value that is not the marker itself (including equal-comparing objects and its printed name), every pickle protocol, both builds",
  "Tests pickle it once and compare identity once.",
  ["checker.py"], ["Global.__reduce__", "CheckerPublic", "CheckerPy.check"],
  [("identity tests", S + "checker.py")], ["checks with look-alike permissions; proxying and pickling the marker"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
