/* The compiled checker: one entry per function.
 *
 * The module's own source is compiled separately, unchanged, and linked; this
 * file finds the functions through what the module exports.
 */
#include "model.h"

PyMODINIT_FUNC PyInit__zope_security_checker(void);

/* Fixed for each run, to spare the solver the dispatch: SIDE, TABLES (how many
   tables the checker has), SEL (what the registry holds for the type), OWN (what is asked for its
   own checker says), F1 and F2 (what
   its factories make).  The driver runs them all. */
#ifndef TABLES
#define TABLES 2
#endif
#ifndef SEL
#define SEL 0
#endif
#ifndef OWN
#define OWN 0
#endif
#ifndef F2
#define F2 0
#endif
#ifndef F1
#define F1 0
#endif

/* What the module imports. */
static PyObject PROXY, THREAD, PUBLIC, FORBIDDEN, UNAUTHORIZED, NOPROXY, INTERACTION;
static PyTypeObject proxy_type;

/* The tables: dictionaries with one entry of interest. */
static PyObject GETP, SETP, PERM, FACTORY, OTHERK;
static PyObject *CUT;                   /* the checker under test */
static PyObject *AVAILABLE, *CHECKERS, *DEFAULT;
static PyTypeObject *CheckerT;

static int ch_perm, ch_sperm, ch_tables, ch_avail, ch_drop, ch_inter, ch_sel, ch_f1, ch_f2, ch_own,
    ch_unhash;
static PyObject *got_name, *got_table;
static int nlookups, dropped;

enum { P_ABSENT, P_PUBLIC, P_PERM, P_NONE };

static PyObject *table_value(int c)
{
    switch (c) {
    case P_PUBLIC: return &PUBLIC;
    case P_PERM: return &PERM;
    case P_NONE: return Py_None;
    default: return NULL;
    }
}

enum { S_ABSENT, S_NOPROXY, S_DEFAULT, S_CHECKER, S_FACTORY };

static PyObject *dict_lookup(PyObject *d, PyObject *k)
{
    nlookups++;
    got_name = k;
    got_table = d;
    if (d == &GETP || d == &SETP) {
        if (ch_unhash && k->ob_type != &PyUnicode_Type) {
            raise_(PyExc_TypeError);
            return NULL;
        }
        return table_value(d == &GETP ? ch_perm : ch_sperm);
    }
    if (d == CHECKERS) {
        switch (ch_sel) {
        case S_NOPROXY: return &NOPROXY;
        case S_DEFAULT: return DEFAULT;
        case S_CHECKER: return CUT;
        case S_FACTORY: return &FACTORY;
        default: return NULL;
        }
    }
    return NULL;
}

/* Code of the application runs: it may take entries out of the tables. */
static void foreign(void)
{
    if (ch_drop && !dropped) {
        dropped = 1;
        Py_DECREF(&PERM);
    }
}

static PyObject *call_special(PyObject *o, unsigned meth, PyObject *a, PyObject *b, int *done)
{
    if (o == &INTERACTION) {
        *done = 1;
        event(OP_ASKPERMISSION, a, b, NULL, meth, 0);
        foreign();
        return outcome();
    }
    return NULL;
}

static PyObject *getattr_special(PyObject *o, PyObject *name, int *done)
{
    if (o == &import_object) {
        *done = 1;
        switch (namecode(name)) {
        case H__Proxy: return new_ref((PyObject *)&proxy_type);
        case H_thread_local: return new_ref(&THREAD);
        case H_ForbiddenAttribute: return new_ref(&FORBIDDEN);
        case H_Unauthorized: return new_ref(&UNAUTHORIZED);
        case H_CheckerPublic: return new_ref(&PUBLIC);
        default: return fresh(&plain_type);
        }
    }
    if (o == &THREAD) {
        *done = 1;
        event(OP_INTERACTION, o, name, NULL, textcode(name), 0);
        if (!ch_inter) { raise_(PyExc_AttributeError); return NULL; }
        return new_ref(&INTERACTION);
    }
    if (o == &INTERACTION && namecode(name) == H_checkPermission) {
        *done = 1;
        return bound(o, name);
    }
    if (o == &T || o == &PROXY) {
        *done = 1;
        event(OP_GETATTR, o, name, NULL, namecode(name), 0);
        foreign();
        switch (ch_own) {
        case 0: raise_(PyExc_AttributeError); return NULL;
        case 1: raise_(&x_Failure); return NULL;
        case 2: return new_ref(Py_None);
        case 3: return new_ref(&OTHERK);
        default: return fresh(&plain_type);
        }
    }
    return NULL;
}

static PyObject *fact2;
static PyObject *made_by(int c, int free)
{
    switch (c) {
    case 0: return new_ref(CUT);
    case 1: return new_ref(&NOPROXY);
    case 2: return new_ref(Py_None);
    case 3: raise_(&x_Failure); return NULL;
    case 4: return new_ref(DEFAULT);
    case 5: return fact2 = fresh_in(free, &plain_type);
    default: return new_ref(&FACTORY);
    }
}

static int ncalls;
static PyObject *call_object(PyObject *f, PyObject *a, PyObject *b, PyObject *c)
{
    if (f == (PyObject *)&PyBaseObject_Type)
        return new_ref(&NOPROXY);
    event(OP_CALL, f, a, b, 0, 0);
    if (f == (PyObject *)&proxy_type)
        return outcome();
    int free = room();
    foreign();
    ncalls++;
    return made_by(ncalls == 1 ? ch_f1 : ncalls == 2 ? ch_f2 : 0, free);
}
static int contains_special(PyObject *o, PyObject *v, int *done)
{
    if (o == AVAILABLE) {
        *done = 1;
        return ch_avail;
    }
    return 0;
}
static int truth_special(PyObject *o, int *done) { return 0; }
static int ch_isexc;
static int isinstance_special(PyObject *o, PyObject *c, int *done)
{
    *done = 1;
    if (ch_isexc == 2) { raise_(&x_Failure); return -1; }
    CHECK(c == PyExc_Exception, "C10: exceptions are told by their class");
    return ch_isexc;
}
static const char *name_utf8(PyObject *o) { return "name"; }

PyObject *PyObject_CallFunction(PyObject *f, const char *fmt, ...)
{
    PyTypeObject *t = (PyTypeObject *)f;
    CHECK(!running && *fmt == '{', "model: not supported");
    PyObject *d = PyDict_New();
    PyObject *args = make_tuple(1, &d);
    PyObject *o = t->tp_new(t, args, NULL);
    if (t->tp_init != NULL)
        t->tp_init(o, args, NULL);
    Py_DECREF(args);
    Py_DECREF(d);
    return o;
}

/* ------------------------------------------------------------------ setup */

static PyObject *new_checker(PyObject *g, PyObject *s)
{
    PyObject *it[2] = {g, s};
    int n = s != NULL ? 2 : g != NULL;
    PyObject *t = make_tuple(n, it);
    PyObject *o = CheckerT->tp_new(CheckerT, t, NULL);
    __CPROVER_assume(o != NULL);
    if (g != NULL) {
        int r = CheckerT->tp_init(o, t, NULL);
        CHECK(r == 0 && !pending, "C13 C30: a checker is made of its tables");
    }
    Py_DECREF(t);
    return o;
}

static void setup(void)
{
    if (nested_now)
        return;
    setup_world();
    proxy_type = plain_type;
    is_world(&PROXY, &proxy_type); is_world(&THREAD, &plain_type); is_world(&PUBLIC, &plain_type);
    is_world(&FORBIDDEN, &PyType_Type); is_world(&UNAUTHORIZED, &PyType_Type);
    is_world(&NOPROXY, &plain_type); is_world(&INTERACTION, &plain_type);
    is_world(&GETP, &PyDict_Type); is_world(&SETP, &PyDict_Type);
    is_world(&FACTORY, &plain_type); is_world(&OTHERK, &plain_type);
    PyInit__zope_security_checker();
    running = 1;
    CHECK(!pending, "model: the module initialises");
    CheckerT = (PyTypeObject *)exported(H_Checker);
    own_type = CheckerT;
    AVAILABLE = exported(H__available_by_default);
    CHECKERS = exported(H__checkers);
    DEFAULT = exported(H__defaultChecker);
    CHOOSE(ch_perm, 0, 3); CHOOSE(ch_sperm, 0, 3); CHOOSE(ch_avail, 0, 1);
    CHOOSE(ch_drop, 0, 1); CHOOSE(ch_inter, 0, 1); CHOOSE(ch_hasattr, 0, 1);
    ch_sel = SEL; ch_f1 = F1; ch_f2 = F2; ch_own = OWN;
    CHOOSE(ch_isexc, 0, 2); CHOOSE(ch_unhash, 0, 1); CHOOSE(ch_kind, 0, 8);
    CHOOSE(ch_result, 0, R_FRESH); CHOOSE(ch_result1, 0, R_FRESH); CHOOSE(ch_result2, 0, R_FRESH);
    CHOOSE(ch_truth, 0, 1); ch_tables = TABLES;
#ifdef NESTAT
    ch_drop = ch_unhash = ch_kind = 0;
#endif
    P1 = &PROXY;
    PERM.ob_type = &plain_type;
    PERM.ob_refcnt = 1;                 /* held by its table alone */
    CUT = new_checker(ch_tables > 0 ? &GETP : NULL, ch_tables > 1 ? &SETP : NULL);
    dealloc_ok = &PERM;
}

static void settled(PyObject *r)
{
    settle(r);
    if (nested_now)
        return;
    CHECK(Py_REFCNT(&PERM) == (dropped ? 0 : 1) + (r == &PERM),
          "C30: reference counts change only by the reference handed out");
}

/* any text, or something that is no text */
static int ch_nonstr;
static PyObject *some_name(void)
{
    if (nested_now)
        return the_name;
    CHOOSE(ch_nonstr, 0, 1);
#ifdef NESTAT
    ch_nonstr = 0;
#endif
    PyObject *n = text_name();
    if (ch_nonstr) {
        the_name_code = 0;
        return the_name = &O;
    }
    return n;
}

static int name_is(PyObject *n, const char *s)
{
    return n->ob_type == &PyUnicode_Type && str_is(n, s);
}

static int name_is_operator(PyObject *n)
{
    return n->ob_type == &PyUnicode_Type && PyUnicode_GET_LENGTH(n) >= 2
        && PyUnicode_READ_CHAR(n, 0) == '_' && PyUnicode_READ_CHAR(n, 1) == '_';
}

/* ---------------------------------------------------------------- oracle */

/* One permission of the table against one answer.  ok: the call succeeded. */
static void decided(int ok, PyObject *table, int entry, PyObject *obj, PyObject *name, int read)
{
    CHECK(ok ? !pending : pending, "C30: failure is reported exactly with an exception set");
    if (ch_unhash && name->ob_type != &PyUnicode_Type)
        entry = P_ABSENT;
    if (table != NULL)
        CHECK(nlookups >= 1 && got_name == name && got_table == table,
              "C08 C09: this checker's own table decides, under this name");
    else
        entry = P_ABSENT;
    if (entry == P_PUBLIC) {
        CHECK(ok && nev == 0, "C08 C09: public names are available to all");
        COVER("public");
        return;
    }
    if (entry == P_PERM) {
        CHECK(nev >= 1 && EV[0].what == OP_INTERACTION && EV[0].n == H_interaction,
              "C08 C09: the thread's interaction is asked");
        if (!ch_inter) {
            CHECK(!ok && nev == 1 && exc_type == PyExc_AttributeError,
                  "C08 C09: without an interaction nothing is available");
            COVER("no interaction");
            return;
        }
        CHECK(nev >= 2 && EV[1].what == OP_ASKPERMISSION && EV[1].a == &PERM && EV[1].b == obj
              && EV[1].n == H_checkPermission,
              "C08 C09: the interaction is asked for exactly this permission on this object");
        PyObject *v = op_value;
        if (v == NULL) {
            CHECK(!ok && nev == 2 && exc_type == &x_Failure, "C08 C09: the interaction's failure is the outcome");
            COVER("interaction failed");
            return;
        }
        int truth;
        if (v == Py_True) truth = 1;
        else if (v == Py_False || v == Py_None) truth = 0;
        else {
            CHECK(nev == 3 && event_is(2, OP_TRUE, v, NULL, NULL), "C08 C09: its answer counts by its truth");
            truth = ch_result1 == R_RAISE ? -1 : ch_truth;
        }
        if (truth < 0)
            CHECK(!ok && exc_type == &x_Failure, "C08 C09: the interaction's failure is the outcome");
        else if (truth) {
            CHECK(ok, "C08 C09: what the interaction grants is available");
            COVER("granted");
        }
        else {
            CHECK(!ok && exc_type == &UNAUTHORIZED, "C08 C09: what the interaction denies is unauthorized");
            CHECK(exc_nargs == 3 && exc_args[0] == obj && exc_args[1] == name && exc_args[2] == &PERM,
                  "C08 C09: the refusal names object, name and permission");
            COVER("denied");
        }
        return;
    }
    if (read && name_is_operator(name)) {
        if (ch_avail) {
            CHECK(ok && nev == 0, "C08: always available names are available");
            COVER("always available");
            return;
        }
        if (name_is(name, "__iter__") && nev > 0 && !ch_hasattr) {
            CHECK(ok && nev == 1 && event_is(0, OP_HASATTR, obj, name, NULL),
                  "C08: a missing __iter__ is reported by the object");
            COVER("missing iter");
            return;
        }
    }
    CHECK(!ok, "C08 C09: names without a permission are forbidden");
    if (!(ch_unhash && name->ob_type != &PyUnicode_Type)) {
        CHECK(exc_type == &FORBIDDEN, "C08 C09: names without a permission are forbidden");
        CHECK(exc_nargs == 2 && exc_args[0] == name && exc_args[1] == obj,
              "C08 C09: the refusal names name and object");
    }
    CHECK(nev == 0 || (nev == 1 && read && name_is(name, "__iter__")
                       && event_is(0, OP_HASATTR, obj, name, NULL)),
          "C08 C09: a forbidden name asks nothing");
    COVER("forbidden");
}

static void start(void) { begin(); nlookups = 0; got_name = got_table = NULL; op_value = NULL; }

#ifdef TWICE
#ifndef FSEL
#define FSEL 0
#endif
#ifndef FF1
#define FF1 0
#endif
static int ch_first_perm, ch_first_sperm, ch_first_inter, ch_first_avail, ch_first_result,
    ch_first_result1, ch_first_truth, ch_first_isexc, ch_first_other;
#define FIRST(STMT) do { \
    AGAIN_(perm, 0, 3); AGAIN_(sperm, 0, 3); AGAIN_(inter, 0, 1); AGAIN_(avail, 0, 1); \
    AGAIN_(result, 0, R_FRESH); AGAIN_(result1, 0, R_FRESH); AGAIN_(truth, 0, 1); \
    AGAIN_(isexc, 0, 2); int was_f1 = ch_f1, was_sel = ch_sel; ch_f1 = FF1; ch_sel = FSEL; \
    int was_drop = ch_drop; ch_drop = 0; \
    CHOOSE(ch_first_other, 0, 1); \
    PyObject *first = ch_first_other ? &O : &T; (void)first; \
    start(); STMT; pending = 0; ncalls = 0; \
    ch_perm = was_perm; ch_sperm = was_sperm; ch_inter = was_inter; ch_avail = was_avail; \
    ch_result = was_result; ch_result1 = was_result1; ch_truth = was_truth; \
    ch_isexc = was_isexc; ch_f1 = was_f1; ch_sel = was_sel; ch_drop = was_drop; } while (0)
#else
#define FIRST(STMT)
#endif

#ifdef NESTAT
static int was_ncalls, was_nlookups;
static PyObject *was_got_name, *was_got_table, *was_fact2;
static void nest_aside(void)
{
    was_ncalls = ncalls; was_nlookups = nlookups;
    was_got_name = got_name; was_got_table = got_table;
    was_fact2 = fact2;
    ncalls = 0;
}
static void nest_back(void)
{
    ncalls = was_ncalls; nlookups = was_nlookups;
    got_name = was_got_name; got_table = was_got_table;
    fact2 = was_fact2;
}
static void nest(void)
{
    if (nested_now || !running || current == NULL)
        return;
    SWAP_(result, 0, R_FRESH); SWAP_(result1, 0, R_FRESH); SWAP_(truth, 0, 1);
    nest_();
    ch_result = was_result; ch_result1 = was_result1; ch_truth = was_truth;
}
#endif

void e_check_slot(void)
{
    ENTER(e_check_slot); setup();
    PyObject *n = some_name();
    CHECK(CheckerT->tp_as_mapping != NULL && CheckerT->tp_as_mapping->mp_ass_subscript != NULL,
          "model: the slot is there");
    FIRST(CheckerT->tp_as_mapping->mp_ass_subscript(CUT, first, n));
    start();
    int r = CheckerT->tp_as_mapping->mp_ass_subscript(CUT, &T, n);
    decided(r >= 0, ch_tables > 0 ? &GETP : NULL, ch_perm, &T, n, 1);
    settled(NULL);
}

void e_check_del(void)
{
    setup();
    start();
    int r = CheckerT->tp_as_mapping->mp_ass_subscript(CUT, &T, NULL);
    CHECK(r == -1 && pending && nev == 0, "C30: failure is reported exactly with an exception set");
    settled(NULL);
    COVER("done");
}

void e_check(void)
{
    ENTER(e_check); setup();
    PyObject *n = some_name();
    PyMethodDef *m = method_of(CheckerT->tp_methods, SIDE % 2 ? H_check_getattr : H_check);
    FIRST(DROP(invoke(m, CUT, 2, first, n)));
    start();
    PyObject *r = invoke(m, CUT, 2, &T, n);
    CHECK(r == NULL || r == Py_None, "C08: nothing is returned");
    decided(r != NULL, ch_tables > 0 ? &GETP : NULL, ch_perm, &T, n, 1);
    settled(r);
}

void e_check_setattr(void)
{
    ENTER(e_check_setattr); setup();
    PyObject *n = some_name();
    PyMethodDef *m = method_of(CheckerT->tp_methods, H_check_setattr);
    FIRST(DROP(invoke(m, CUT, 2, first, n)));
    start();
    PyObject *r = invoke(m, CUT, 2, &T, n);
    CHECK(r == NULL || r == Py_None, "C09: nothing is returned");
    decided(r != NULL, ch_tables > 1 ? &SETP : NULL, ch_sperm, &T, n, 0);
    settled(r);
}

static void permission(unsigned meth, PyObject *table, int entry)
{
    PyObject *n = some_name();
    PyMethodDef *m = method_of(CheckerT->tp_methods, meth);
    start();
    PyObject *r = invoke(m, CUT, 1, n, NULL);
    CHECK(r != NULL ? !pending : pending, "C30: failure is reported exactly with an exception set");
    settled(r);
    CHECK(nev == 0, "C08 C09: nothing is run");
    if (ch_unhash && n->ob_type != &PyUnicode_Type)
        return;
    PyObject *want = table != NULL && table_value(entry) != NULL ? table_value(entry) : Py_None;
    CHECK(r == want, "C08 C09: the permission of the table, or None");
    COVER("done");
}
void e_permission_id(void) { setup(); permission(H_permission_id, ch_tables > 0 ? &GETP : NULL, ch_perm); }
void e_setattr_permission_id(void) { setup(); permission(H_setattr_permission_id, ch_tables > 1 ? &SETP : NULL, ch_sperm); }

/* Which checker a value's type calls for: NULL for none, or a failure. */
static int expected_failed, expected_events;
static PyObject *expected_checker(int first)
{
    int k = first;
    expected_failed = 0;
    expected_events = k;
    PyObject *c = ch_sel == S_ABSENT || ch_sel == S_DEFAULT ? DEFAULT :
        ch_sel == S_NOPROXY ? NULL : ch_sel == S_CHECKER ? CUT : &FACTORY;
    if (c == DEFAULT) {
        if (ch_isexc == 2) { expected_failed = 1; return NULL; }
        if (ch_isexc == 1) return NULL;
    }
    for (int i = 0; i < 3 && c != NULL && c->ob_type != CheckerT; i++) {
        CHECK(event_is(k, OP_CALL, c, &T, NULL), "C10: a factory makes the checker, for this object");
        k++;
        switch (i == 0 ? ch_f1 : i == 1 ? ch_f2 : 0) {
        case 0: c = CUT; break;
        case 1: case 2: c = NULL; break;
        case 3: expected_failed = 1; c = NULL; break;
        case 4: c = DEFAULT; break;
        case 5: c = fact2; break;
        default: c = &FACTORY;
        }
    }
    expected_events = k;
    return c;
}

void e_select(void)
{
    ENTER(e_select); setup();
    FIRST(DROP(module_call(H_selectChecker, &T)));
    start();
    PyObject *r = module_call(H_selectChecker, &T);
    consistent(r == NULL);
    settled(r);
    PyObject *c = expected_checker(0);
    if (expected_failed) {
        CHECK(r == NULL && exc_type == &x_Failure, "C10: a failure to select is the outcome");
        COVER("failed");
        return;
    }
    CHECK(nlookups == 1 && got_table == CHECKERS && got_name == (PyObject *)T.ob_type,
          "C10: the object's type selects");
    CHECK(r == (c == NULL ? Py_None : c), "C10: the checker the type calls for");
    CHECK(nev == expected_events, "C10: nothing else is run");
    COVER("done");
}

void e_proxy(void)
{
    ENTER(e_proxy); setup();
    ch_value = SIDE / 2 % 2;
    PyObject *v = ch_value ? &PROXY : &T;
    FIRST(DROP(invoke(method_of(CheckerT->tp_methods, H_proxy), CUT, 1, v, NULL)));
    start();
    PyObject *r = SIDE % 2 ? CheckerT->tp_as_mapping->mp_subscript(CUT, v)
        : invoke(method_of(CheckerT->tp_methods, H_proxy), CUT, 1, v, NULL);
    consistent(r == NULL);
    settled(r);
    if (ch_value) {
        CHECK(r == &PROXY && nev == 0, "C07 C10: a proxy is not wrapped again");
        COVER("proxy");
        return;
    }
    CHECK(nev >= 1 && EV[0].what == OP_GETATTR && EV[0].a == &T && EV[0].n == H___Security_checker__,
          "C10: the object's own checker comes first");
    PyObject *c;
    if (ch_own >= 3) {
        CHECK(nev == 2 && EV[1].what == OP_CALL && EV[1].a == (PyObject *)&proxy_type && EV[1].b == &T,
              "C10: the value is wrapped with its checker");
        if (ch_own == 3)
            CHECK(nev == 2 && EV[1].c == &OTHERK, "C10: the value is wrapped with its checker");
        CHECK(r == op_value, "C10: the wrapped value is the outcome");
        COVER("own checker");
        return;
    }
    if (ch_own && nev == 1 && r == NULL && exc_type != PyExc_AttributeError)
    {
        COVER("no usable checker of its own");
        return;
    }
    c = expected_checker(1);
    if (expected_failed) {
        CHECK(r == NULL && exc_type == &x_Failure, "C10: a failure to select is the outcome");
        COVER("failed");
        return;
    }
    if (c == NULL) {
        CHECK(r == &T && nev == expected_events, "C10: values without a checker come bare");
        COVER("bare");
        return;
    }
    CHECK(nev == expected_events + 1 && event_is(nev - 1, OP_CALL, (PyObject *)&proxy_type, &T, c),
          "C10: the value is wrapped with its checker");
    CHECK(r == op_value, "C10: the wrapped value is the outcome");
    COVER("wrapped");
}

/* the arguments of Checker() */
void e_init(void)
{
    setup();
    PyObject *choices[4] = {&GETP, &SETP, &O, Py_None};
    int ch_arg1 = SIDE % 4, ch_arg2 = SIDE / 4 % 4;
    ch_value = SIDE / 16 % 4;
    PyObject *it[3] = {choices[ch_arg1], choices[ch_arg2], &O};
    PyObject *t = make_tuple(ch_value, it);
    real_dealloc = 1;
    start();
    int r = CheckerT->tp_init(CUT, t, NULL);
    consistent(r < 0);
    int fine = (ch_value == 1 || ch_value == 2) && ch_arg1 < 2 && (ch_value == 1 || ch_arg2 < 2);
    if (!fine && !(ch_value == 2 && it[1] == Py_None))
        CHECK(r == -1 && exc_type == PyExc_TypeError, "C13: tables are dictionaries");
    if (fine)
        CHECK(r == 0, "C13: tables are dictionaries");
    CHECK(nev == 0, "C13: making a checker runs nothing");
    /* whatever it holds now, it gives back */
    Py_DECREF(t);
    Py_DECREF(CUT);
    CHECK(inst_freed[inst_index(CUT)] && !inst_tracked[inst_index(CUT)],
          "C30: an unreferenced checker is freed");
    CHECK(Py_REFCNT(&GETP) == WORLD && Py_REFCNT(&SETP) == WORLD && Py_REFCNT(&O) == WORLD
          && Py_REFCNT(&T) == WORLD, "C30: a freed checker holds nothing");
    COVER("done");
}

void e_tables(void)
{
    setup();
    PyGetSetDef *g = CheckerT->tp_getset;
    unsigned name = SIDE % 2 ? H_set_permissions : H_get_permissions;
    for (int k = 0; k < 4 && g->name != NULL && code_of(g->name) != name; k++)
        g++;
    CHECK(g->name != NULL && g->get != NULL && g->set == NULL, "model: the tables are attributes");
    __CPROVER_assume(g->name != NULL);
    real_dealloc = 1;
    start();
    PyObject *a = g->get(CUT, g->closure), *b = g->get(CUT, g->closure);
    CHECK(!pending && a != NULL && a == b && a->ob_type == &PyDict_Type, "C08 C09: a checker has its tables");
    __CPROVER_assume(a != NULL && a == b);
    if (ch_tables > (int)(SIDE % 2))
        CHECK(a == (SIDE % 2 ? &SETP : &GETP), "C08 C09: the tables are the ones given");
    CHECK(nev == 0, "C08 C09: nothing is run");
    Py_DECREF(a); Py_DECREF(b);
    Py_DECREF(CUT);
    settle_rest();
    CHECK(Py_REFCNT(&GETP) == WORLD && Py_REFCNT(&SETP) == WORLD, "C30: a freed checker holds nothing");
    COVER("done");
}

void e_ctraverse(void)
{
    setup(); 
    CHECK((CheckerT->tp_flags & Py_TPFLAGS_HAVE_GC) != 0 && CheckerT->tp_traverse != NULL,
          "C30: checkers take part in garbage collection");
    __CPROVER_assume(CheckerT->tp_traverse != NULL);
    CHOOSE(ch_visit, -1, 2);
    start();
    int r = CheckerT->tp_traverse(CUT, visit, &nvisited);
    int t = 0, k = 0;
    for (int i = 0; i < nvisited && i < 6; i++) {
        t += visited[i] == &GETP;
        k += visited[i] == &SETP;
    }
    if (ch_visit >= 0 && ch_visit < ch_tables) {
        CHECK(r == (ch_truth ? 1 : -1) && nvisited == ch_visit + 1,
              "C30: traversal stops when it is told to");
    }
    else
        CHECK(r == 0 && t == (ch_tables > 0) && k == (ch_tables > 1) && nvisited == ch_tables,
              "C30: traversal visits everything held, once");
    settled(NULL);
    COVER("done");
}

void e_cclear(void)
{
    setup();
    real_dealloc = 1;
    start();
    if (CheckerT->tp_clear != NULL) {
        int r = CheckerT->tp_clear(CUT);
        CHECK(r == 0, "C30: clearing succeeds");
        /* used by whoever still has it */
        PyObject *n = some_name();
        r = CheckerT->tp_as_mapping->mp_ass_subscript(CUT, &T, n);
        CHECK(r < 0 ? pending : !pending, "C30: failure is reported exactly with an exception set");
        pending = 0;
    }
    Py_DECREF(CUT);
    CHECK(Py_REFCNT(&GETP) == WORLD && Py_REFCNT(&SETP) == WORLD, "C30: a freed checker holds nothing");
    CHECK(inst_freed[inst_index(CUT)] && !inst_tracked[inst_index(CUT)],
          "C30: an unreferenced checker is freed");
    COVER("done");
}
