/* The compiled proxy: one entry per group of slots.
 *
 * The module's own source is compiled separately, unchanged, and linked; this
 * file finds the slots through what the module exports.
 */
#include "model.h"

PyMODINIT_FUNC PyInit__proxy(void);

/* ----------------------------------------------------- zope.proxy's type */

typedef struct { PyObject ob; PyObject *object; } BaseProxy;

static PyObject *base_1(PyObject *o)
{
    event(OP_OTHER, ((BaseProxy *)o)->object, NULL, NULL, 0, 0);
    return outcome();
}
static PyObject *base_2(PyObject *o, PyObject *p)
{
    event(OP_OTHER, o, p, NULL, 0, 0);
    return outcome();
}
static PyObject *base_3(PyObject *o, PyObject *p, PyObject *q)
{
    event(OP_OTHER, o, p, q, 0, 0);
    return outcome();
}
static int base_i1(PyObject *o)
{
    event(OP_OTHER, o, NULL, NULL, 0, 0);
    return outcome_int(1);
}
static int base_i2(PyObject *o, PyObject *p)
{
    event(OP_OTHER, o, p, NULL, 0, 0);
    return outcome_int(1);
}
static int base_i3(PyObject *o, PyObject *p, PyObject *q)
{
    event(OP_OTHER, o, p, q, 0, 0);
    return outcome_int(0);
}
static Py_ssize_t base_len(PyObject *o)
{
    event(OP_OTHER, o, NULL, NULL, 0, 0);
    return outcome_int(1);
}
static PyObject *base_item(PyObject *o, Py_ssize_t i)
{
    event(OP_OTHER, o, NULL, NULL, 0, 0);
    return outcome();
}
static int base_ass_item(PyObject *o, Py_ssize_t i, PyObject *v)
{
    event(OP_OTHER, o, v, NULL, 0, 0);
    return outcome_int(0);
}
static PyObject *base_compare(PyObject *o, PyObject *p, int op)
{
    event(OP_OTHER, o, p, NULL, 0, op);
    return outcome();
}
static int base_clear(PyObject *o)
{
    PyObject *t = ((BaseProxy *)o)->object;
    if (t != NULL) {
        ((BaseProxy *)o)->object = NULL;
        Py_DECREF(t);
    }
    return 0;
}
static void base_dealloc(PyObject *o)
{
    PyObject_GC_UnTrack(o);
    base_clear(o);
    o->ob_type->tp_free(o);
}
static int base_traverse(PyObject *o, visitproc visit, void *arg)
{
    PyObject *t = ((BaseProxy *)o)->object;
    return t != NULL ? visit(t, arg) : 0;
}
static int base_init(PyObject *o, PyObject *a, PyObject *k)
{
    event(OP_OTHER, o, a, k, 0, 0);
    return 0;
}

static PyNumberMethods base_number = {
    base_2, base_2, base_2, base_2, base_2, base_3, base_1, base_1, base_1, base_i1, base_1,
    base_2, base_2, base_2, base_2, base_2, base_1, 0, base_1,
    base_2, base_2, base_2, base_2, base_3, base_2, base_2, base_2, base_2, base_2,
    base_2, base_2, base_2, base_2, base_1 };
static PySequenceMethods base_sequence = { base_len, 0, 0, base_item, 0, base_ass_item, 0, base_i2 };
static PyMappingMethods base_mapping = { base_len, base_2, base_i3 };
static PyTypeObject base_type;

static int api_check(PyObject *o) { return PyObject_TypeCheck(o, &base_type); }
static PyObject *api_create(PyObject *o) { return NULL; }
static PyObject *api_getobject(PyObject *o) { return ((BaseProxy *)o)->object; }
static struct {
    PyTypeObject *type; int (*check)(PyObject *);
    PyObject *(*create)(PyObject *); PyObject *(*getobject)(PyObject *);
} api = { &base_type, api_check, api_create, api_getobject };
static PyObject capsule;

void *PyCapsule_GetPointer(PyObject *o, const char *name) { return &api; }
void *PyCapsule_Import(const char *name, int nb) { return &api; }
int PyCapsule_IsValid(PyObject *o, const char *name) { return 1; }

/* ------------------------------------------------------- the world's part */

static PyObject *call_special(PyObject *o, unsigned meth, PyObject *a, PyObject *b, int *done)
{
    if (meth == H___length_hint__ && o == &T) {
        *done = 1;
        event(OP_LENGTHHINT, o, NULL, NULL, 0, 0);
        if (ch_hasattr == 0) { raise_(PyExc_AttributeError); return NULL; }
        return outcome();
    }
    return NULL;
}

static PyObject *getattr_special(PyObject *o, PyObject *name, int *done)
{
    if (o == &import_object) {
        *done = 1;
        return new_ref(&capsule);
    }
    if (o == &T && namecode(name) == H___class__ && name != the_name) {
        *done = 1;
        event(OP_GETATTR, o, name, NULL, H___class__, 0);
        if (choice_now() == R_RAISE) { raise_(&x_Failure); return NULL; }
        return new_ref(&KLASS);
    }
    if (o == &KLASS) {
        *done = 1;
        event(OP_GETATTR, o, name, NULL, namecode(name), 0);
        int c = choice_now();
        if (c == R_RAISE) { raise_(&x_Failure); return NULL; }
        if (c == R_NONE) { raise_(PyExc_AttributeError); return NULL; }
        if (namecode(name) == H___name__)
            return new_ref(&CLASS_NAME);
        if (namecode(name) == H___module__)
            return new_ref(&MODULE_NAME);
        return fresh(&plain_type);
    }
    return NULL;
}

static PyObject *call_object(PyObject *f, PyObject *a, PyObject *b, PyObject *c)
{
    event(OP_CALL, f, a, b, 0, 0);
    return outcome();
}
static int contains_special(PyObject *o, PyObject *v, int *done) { return 0; }
static int truth_special(PyObject *o, int *done) { return 0; }
static int isinstance_special(PyObject *o, PyObject *c, int *done) { return 0; }
static PyObject *dict_lookup(PyObject *d, PyObject *k) { return NULL; }
static const char *name_utf8(PyObject *o) { return "name"; }

/* the wrapped object's own slots, for code that uses them directly */
static PyTypeObject t_type;
static PyNumberMethods t_number;
#define SLOT1(NAME) static PyObject *t_##NAME(PyObject *o) \
{ READY(); ALIVE(o); event(OP_##NAME, o, NULL, NULL, 0, 0); return outcome(); }
SLOT1(neg) SLOT1(pos) SLOT1(abs) SLOT1(invert) SLOT1(int) SLOT1(float) SLOT1(index)
static PyObject *t_iternext(PyObject *o)
{
    READY(); ALIVE(o);
    event(OP_NEXT, o, NULL, NULL, 0, 0);
    return outcome();
}
static PyObject *t_iter(PyObject *o) { return PyObject_GetIter(o); }

/* ------------------------------------------------------------------ setup */

static PyTypeObject *ProxyT;
static PyObject O2, ARGS, KWARGS, KEY, NAMEX;

static PyObject *make_proxy(PyObject *o, PyObject *k)
{
    PyObject *it[2] = {o, k};
    PyObject *t = make_tuple(2, it);
    PyObject *p = ProxyT->tp_new(ProxyT, t, NULL);
    Py_DECREF(t);
    __CPROVER_assume(p != NULL);
    return p;
}

static PyTypeObject *checker_type(int how)
{
    switch (how) {
    case 1: return &fast_checker_type;
    case 2: return &half_checker_type1;
    case 3: return &half_checker_type2;
    default: return &slow_checker_type;
    }
}

static void setup(void)
{
    if (nested_now)
        return;
    setup_world();
    base_type.ob_base.ob_base.ob_refcnt = 1000;
    base_type.tp_name = "zope.proxy.ProxyBase";
    base_type.tp_basicsize = sizeof(BaseProxy);
    base_type.tp_base = &PyBaseObject_Type;
    base_type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_HAVE_GC | Py_TPFLAGS_BASETYPE;
    base_type.tp_as_number = &base_number;
    base_type.tp_as_sequence = &base_sequence;
    base_type.tp_as_mapping = &base_mapping;
    base_type.tp_repr = base_1; base_type.tp_str = base_1;
    base_type.tp_hash = (hashfunc)base_len;
    base_type.tp_call = base_3;
    base_type.tp_getattro = base_2; base_type.tp_setattro = base_i3;
    base_type.tp_richcompare = base_compare;
    base_type.tp_iter = base_1; base_type.tp_iternext = base_1;
    base_type.tp_init = base_init;
    base_type.tp_dealloc = base_dealloc; base_type.tp_clear = base_clear;
    base_type.tp_traverse = base_traverse;
    base_type.tp_alloc = PyType_GenericAlloc; base_type.tp_free = PyObject_GC_Del;
    is_world(&capsule, &PyCapsule_Type);
    t_type = plain_type;
    t_number.nb_negative = t_neg; t_number.nb_positive = t_pos; t_number.nb_absolute = t_abs;
    t_number.nb_invert = t_invert; t_number.nb_int = t_int; t_number.nb_float = t_float;
    t_number.nb_index = t_index;
    t_type.tp_as_number = &t_number;
    t_type.tp_iternext = t_iternext;
    T.ob_type = &t_type;
    is_world(&O2, &plain_type); is_world(&ARGS, &plain_type); is_world(&KWARGS, &plain_type);
    is_world(&KEY, &plain_type); is_world(&KLASS, &PyType_Type);
    is_world(&CLASS_NAME, &plain_type); is_world(&MODULE_NAME, &plain_type);
    PyInit__proxy();
    running = 1;
    CHECK(!pending, "model: the module initialises");
    ProxyT = (PyTypeObject *)exported(H__Proxy);
    own_type = ProxyT;
    CHOOSE(ch_verdict, 0, 1); CHOOSE(ch_verdict2, 0, 1);
    CHOOSE(ch_protect, 0, 3); CHOOSE(ch_protect2, 0, 3);
    ch_fast = ch_fast2 = FAST;
    CHOOSE(ch_result, 0, R_FRESH); CHOOSE(ch_result1, 0, R_FRESH);
    CHOOSE(ch_result2, 0, R_FRESH); CHOOSE(ch_result3, 0, R_FRESH);
    CHOOSE(ch_answer, 0, 3); CHOOSE(ch_truth, 0, 1); CHOOSE(ch_hasattr, 0, 1); CHOOSE(ch_hasnum, 0, 1);
    CHOOSE(ch_kind, 0, 8); CHOOSE(ch_isinst, 0, 1);
    K1 = &K1_; K2 = &K2_;
    is_world(K1, checker_type(ch_fast));
    is_world(K2, checker_type(ch_fast2));
    P1 = make_proxy(&T, K1);
}

/* ---------------------------------------------------------------- oracle */

static int touched(int from, int to)    /* anything but questions to checkers */
{
    for (int k = from; k < to && k < MAXEV; k++)
        if (EV[k].what != ASK_READ && EV[k].what != ASK_WRITE && EV[k].what != PROTECT)
            return 1;
    return 0;
}

static int verdict(PyObject *k) { return k == K1 ? ch_verdict : ch_verdict2; }

#define NOT_INT 0
#define IS_INT 1

/* The checker k is asked for this name, and nothing happens if it refuses.
   1 if the operation goes on. */
static int asked(PyObject *r, int failed, PyObject *k, PyObject *obj, int what, unsigned name)
{
    CHECK(nev > 0 && EV[0].what == what && EV[0].a == k && EV[0].b == obj && EV[0].n == name,
          "C01 C02: the checker is asked first, for exactly this");
    if (!verdict(k))
        return 1;
    CHECK(nev == 1, "C01 C02: a refused operation touches nothing");
    CHECK(failed && pending && exc_type == &x_Refusal,
          "C01 C02: the checker's refusal reaches the caller");
    consistent(failed);
    settle(r);
    COVER("refused");
    return 0;
}

static int method_is(unsigned slot, unsigned a, unsigned b)
{
    return EV[0].x == 0 ? slot : EV[0].x == a || EV[0].x == b;
}

/* One operation, then protection of what it gave. */
static void performed(PyObject *r, PyObject *k, int first, int what, PyObject *a, PyObject *b,
                      PyObject *c)
{
    CHECK(event_is(first, what, a, b, c), "C04 C05: exactly the requested operation, once, with its own operands");
    consistent(r == NULL && (what != OP_NEXT || op_value != NULL || pending));
    if (op_value == NULL) {
        CHECK(nev == first + 1, "C03 C04 C05: a failed operation is the end of it");
        CHECK(r == NULL, "C04 C05: the operation's exception is the outcome");
        if (ch_result == R_RAISE)
            CHECK(pending && exc_type == &x_Failure, "C04 C05: the operation's exception is the outcome");
        settle(r);
        COVER("raised");
        return;
    }
    if (what == OP_COMPARE && (op_value == Py_True || op_value == Py_False) && nev == first + 1) {
        CHECK(r == op_value, "C04 C05: the value is the outcome");
        settle(r);
        return;
    }
    CHECK(nev == first + 2 && event_is(first + 1, PROTECT, k, op_value, NULL),
          "C03 C05: the result is protected once");
    int p = k == K1 ? ch_protect : ch_protect2;
    if (p == 3)
        CHECK(r == NULL && pending && exc_type == &x_Failure,
              "C03 C05: a failure to protect is the outcome");
    else if (p == 0)
        CHECK(r == op_value, "C03 C05: the caller gets what the checker returned");
    else if (p == 1)
        CHECK(r == &WRAPPED, "C03 C05: the caller gets what the checker returned");
    else
        CHECK(r != NULL && r == protected_value,
              "C03 C05: the caller gets what the checker returned");
    settle(r);
    COVER("done");
}

static void mediated(PyObject *r, PyObject *k, PyObject *obj, unsigned name, int what, PyObject *a,
                     PyObject *b, PyObject *c)
{
    CHECK(nev == 0 || name == H___next__ || method_is(1, H_check, H_check),
          "C02: operations are asked about as operations");
    if (asked(r, r == NULL, k, obj, ASK_READ, name))
        performed(r, k, 1, what, a, b, c);
}

/* operations that only report success, or a number */
static void mediated_int(long r, long ok, PyObject *k, PyObject *obj, int how, unsigned name,
                         int what, PyObject *a, PyObject *b, PyObject *c)
{
    if (!asked(NULL, r == -1, k, obj, how, name))
        return;
    CHECK(nev == 2 && event_is(1, what, a, b, c), "C04 C05: exactly the requested operation, once, with its own operands");
    consistent(r == -1);
    if (ch_result == R_RAISE)
        CHECK(r == -1 && exc_type == &x_Failure, "C04 C05: the operation's exception is the outcome");
    else
        CHECK(r == ok, "C04 C05: the value is the outcome");
    settle(NULL);
    COVER("done");
}

/* ---------------------------------------------------------------- entries */

#ifdef TWICE
static int ch_first_verdict, ch_first_protect, ch_first_result, ch_first_result1, ch_first_truth;
#define FIRST(STMT) do { \
    AGAIN_(verdict, 0, 1); AGAIN_(protect, 0, 3); AGAIN_(result, 0, R_FRESH); \
    AGAIN_(result1, 0, R_FRESH); AGAIN_(truth, 0, 1); \
    begin(); STMT; pending = 0; \
    ch_verdict = was_verdict; ch_protect = was_protect; ch_result = was_result; \
    ch_result1 = was_result1; ch_truth = was_truth; } while (0)
#else
#define FIRST(STMT)
#endif

#ifdef NESTAT
static int ch_first_verdict, ch_first_protect;
static int was_nformat;
static void nest_aside(void) { was_nformat = nformat; nformat = 0; }
static void nest_back(void) { nformat = was_nformat; }
static void nest(void)
{
    if (nested_now || !running || current == NULL)
        return;
    SWAP_(verdict, 0, 1); SWAP_(protect, 0, 3); SWAP_(result, 0, R_FRESH);
    SWAP_(result1, 0, R_FRESH); SWAP_(truth, 0, 1);
    nest_();
    ch_verdict = was_verdict; ch_protect = was_protect; ch_result = was_result;
    ch_result1 = was_result1; ch_truth = was_truth;
}
#endif

#define NB(S) (ProxyT->tp_as_number->nb_##S)
#define PRESENT(F) do { CHECK((F) != NULL, "C04: the operation is there"); __CPROVER_assume((F) != NULL); } while (0)

#define ENTRY_UN(NAME, FIELD) \
void e_##NAME(void) { \
    ENTER(e_##NAME); setup(); PRESENT(NB(FIELD)); FIRST(DROP(NB(FIELD)(P1))); begin(); \
    PyObject *r = NB(FIELD)(P1); \
    mediated(r, K1, &T, H___##NAME##__, OP_##NAME, &T, NULL, NULL); }

ENTRY_UN(neg, negative)
ENTRY_UN(pos, positive)
ENTRY_UN(abs, absolute)
ENTRY_UN(invert, invert)
ENTRY_UN(int, int)
ENTRY_UN(float, float)
ENTRY_UN(index, index)

static int ch_side;

static PyObject *party(int side)
{
    switch (side) {
    case 1: if (!nested_now) P2 = make_proxy(&O2, K2); return P2;
    case 2: return P1;
    case 3: return &T;
    case 4: return Py_None;
    default: return &O;
    }
}

static void binary(binaryfunc f, unsigned name, unsigned rname, int what)
{
    ch_side = SIDE % 6;
    PyObject *a = P1, *b;
    if (ch_side < 4)
        b = party(ch_side);
    else {                          /* on the right of something else */
        a = ch_side == 4 ? &O : &T;
        b = P1;
    }
    FIRST(DROP(f(a, b)));
    begin();
    PyObject *r = f(a, b);
    if (a == P1)
        mediated(r, K1, &T, name, what, &T, b, NULL);
    else
        mediated(r, K1, &T, rname, what, a, &T, NULL);
}

#define ENTRY_BIN(NAME, FIELD) \
void e_##NAME(void) { \
    ENTER(e_##NAME); setup(); PRESENT(NB(FIELD)); \
    binary(NB(FIELD), H___##NAME##__, H___r##NAME##__, OP_##NAME); }

ENTRY_BIN(add, add)
ENTRY_BIN(sub, subtract)
ENTRY_BIN(mul, multiply)
ENTRY_BIN(mod, remainder)
ENTRY_BIN(divmod, divmod)
ENTRY_BIN(lshift, lshift)
ENTRY_BIN(rshift, rshift)
ENTRY_BIN(and, and)
ENTRY_BIN(xor, xor)
ENTRY_BIN(or, or)
ENTRY_BIN(floordiv, floor_divide)
ENTRY_BIN(truediv, true_divide)

static int ch_side2, ch_side3;

void e_pow(void)
{
    setup(); PRESENT(NB(power));
    ch_side = SIDE % 3; ch_side2 = SIDE / 3 % 4; ch_side3 = SIDE / 12 % 5;
    __CPROVER_assume((ch_side == 1) + (ch_side2 == 1) + (ch_side3 == 1) <= 1);
    PyObject *a = party(ch_side), *b = party(ch_side2), *c = party(ch_side3);
    /* the interpreter calls the slot for one of them */
    __CPROVER_assume(a->ob_type == ProxyT || b->ob_type == ProxyT || c->ob_type == ProxyT);
    begin();
    PyObject *r = NB(power)(a, b, c);
    PyObject *p = a->ob_type == ProxyT ? a : b->ob_type == ProxyT ? b : c;
    PyObject *k = p == P1 ? K1 : K2, *o = p == P1 ? &T : &O2;
    unsigned name = p == a ? H___pow__ : p == b ? H___rpow__ : H___3pow__;
    if (p == a)
        a = o;
    else if (p == b)
        b = o;
    else
        c = o;
    mediated(r, k, o, name, OP_pow, a, b, c);
}

static void inplace_done(PyObject *r, PyObject *other, unsigned name, int what, PyObject *third)
{
    if (!verdict(K1) && nev > 1 && op_value == &T) {
        asked(r, r == NULL, K1, &T, ASK_READ, name);
        CHECK(nev == 2 && event_is(1, what, &T, other, third),
              "C04: exactly the requested operation, once, with its own operands");
        CHECK(r == P1 && !pending, "C03: in place gives back the same proxy");
        settle(r);
        COVER("in place");
        return;
    }
    mediated(r, K1, &T, name, what, &T, other, third);
}

#define ENTRY_IN(NAME, FIELD) \
void e_i##NAME(void) { \
    ENTER(e_i##NAME); setup(); PRESENT(NB(inplace_##FIELD)); \
    CHOOSE(ch_side, 0, 3); \
    PyObject *b = party(ch_side); \
    FIRST(DROP(NB(inplace_##FIELD)(P1, b))); \
    begin(); \
    PyObject *r = NB(inplace_##FIELD)(P1, b); \
    inplace_done(r, b, H___i##NAME##__, OP_i##NAME, NULL); }

ENTRY_IN(add, add)
ENTRY_IN(sub, subtract)
ENTRY_IN(mul, multiply)
ENTRY_IN(mod, remainder)
ENTRY_IN(lshift, lshift)
ENTRY_IN(rshift, rshift)
ENTRY_IN(and, and)
ENTRY_IN(xor, xor)
ENTRY_IN(or, or)
ENTRY_IN(floordiv, floor_divide)
ENTRY_IN(truediv, true_divide)

void e_ipow(void)
{
    setup(); PRESENT(NB(inplace_power));
    CHOOSE(ch_side, 0, 3);
    PyObject *b = party(ch_side);
    begin();
    /* the slot may be a function that ignores the third argument */
#ifdef IPOW3
    PyObject *r = NB(inplace_power)(P1, b, Py_None);
#else
    PyObject *r = ((binaryfunc)NB(inplace_power))(P1, b);
#endif
    inplace_done(r, b, H___ipow__, OP_ipow, Py_None);
}

void e_iter(void)
{
    ENTER(e_iter); setup(); PRESENT(ProxyT->tp_iter);
    t_type.tp_iter = t_iter;
    FIRST(DROP(ProxyT->tp_iter(P1)));
    begin();
    PyObject *r = ProxyT->tp_iter(P1);
    mediated(r, K1, &T, H___iter__, OP_ITER, &T, NULL, NULL);
}

void e_next(void)
{
    setup(); PRESENT(ProxyT->tp_iternext);
    int nd; ch_result = nd; __CPROVER_assume(nd >= 0 && nd <= R_NULL);
    if (!ch_hasnum)
        t_type.tp_iternext = NULL;
    begin();
    PyObject *r = ProxyT->tp_iternext(P1);
    if (!ch_hasnum) {
        if (asked(r, r == NULL, K1, &T, ASK_READ, H___next__)) {
            CHECK(r == NULL && pending && exc_type == PyExc_TypeError && nev == 1,
                  "C04: an operation that is not there is an error");
            settle(r);
        }
        return;
    }
    mediated(r, K1, &T, H___next__, OP_NEXT, &T, NULL, NULL);
}

void e_call(void)
{
    ENTER(e_call); setup(); PRESENT(ProxyT->tp_call);
    PyObject *kw = ch_hasattr ? &KWARGS : NULL;
    FIRST(DROP(ProxyT->tp_call(P1, &ARGS, kw)));
    begin();
    PyObject *r = ProxyT->tp_call(P1, &ARGS, kw);
    mediated(r, K1, &T, H___call__, OP_CALL, &T, &ARGS, kw);
}

void e_getitem(void)
{
    ENTER(e_getitem); setup();
    CHECK(ProxyT->tp_as_mapping != NULL, "C04: the operation is there");
    PRESENT(ProxyT->tp_as_mapping->mp_subscript);
    CHOOSE(ch_side, 0, 3);
    PyObject *b = party(ch_side);
    FIRST(DROP(ProxyT->tp_as_mapping->mp_subscript(P1, b)));
    begin();
    PyObject *r = ProxyT->tp_as_mapping->mp_subscript(P1, b);
    mediated(r, K1, &T, H___getitem__, OP_GETITEM, &T, b, NULL);
}


void e_setitem(void)
{
    ENTER(e_setitem); setup(); PRESENT(ProxyT->tp_as_mapping->mp_ass_subscript);
    CHOOSE(ch_side, 0, 3); CHOOSE(ch_value, 0, 1);
    PyObject *b = party(ch_side), *v = ch_value ? (ch_truth ? &VALUE : P1) : NULL;
    FIRST(ProxyT->tp_as_mapping->mp_ass_subscript(P1, b, v));
    begin();
    int r = ProxyT->tp_as_mapping->mp_ass_subscript(P1, b, v);
    if (v != NULL)
        mediated_int(r, 0, K1, &T, ASK_READ, H___setitem__, OP_SETITEM, &T, b, v);
    else
        mediated_int(r, 0, K1, &T, ASK_READ, H___delitem__, OP_DELITEM, &T, b, NULL);
}

static long ch_index;

void e_item(void)
{
    setup(); PRESENT(ProxyT->tp_as_sequence->sq_item);
    long nd; ch_index = nd;
    begin();
    PyObject *r = ProxyT->tp_as_sequence->sq_item(P1, ch_index);
    PyObject *key = last_int;
    if (!verdict(K1)) {
        CHECK(key != NULL && last_int_value == ch_index, "C04: the position is the one given");
        CHECK(r == key || r == NULL || Py_REFCNT(key) == 0 || r == op_value, "C30: objects made on the way are released");
    }
    mediated(r, K1, &T, H___getitem__, OP_GETITEM, &T, key, NULL);
}

void e_ass_item(void)
{
    setup(); PRESENT(ProxyT->tp_as_sequence->sq_ass_item);
    CHOOSE(ch_value, 0, 1);
    long nd; ch_index = nd;
    PyObject *v = ch_value ? &VALUE : NULL;
    begin();
    int r = ProxyT->tp_as_sequence->sq_ass_item(P1, ch_index, v);
    PyObject *key = last_int;
    if (!verdict(K1))
        CHECK(key != NULL && last_int_value == ch_index, "C04: the position is the one given");
    if (v != NULL)
        mediated_int(r, 0, K1, &T, ASK_READ, H___setitem__, OP_SETITEM, &T, key, v);
    else
        mediated_int(r, 0, K1, &T, ASK_READ, H___delitem__, OP_DELITEM, &T, key, NULL);
}

void e_contains(void)
{
    ENTER(e_contains); setup(); PRESENT(ProxyT->tp_as_sequence->sq_contains);
    CHOOSE(ch_side, 0, 3);
    PyObject *b = party(ch_side);
    FIRST(ProxyT->tp_as_sequence->sq_contains(P1, b));
    begin();
    int r = ProxyT->tp_as_sequence->sq_contains(P1, b);
    mediated_int(r, ch_truth, K1, &T, ASK_READ, H___contains__, OP_CONTAINS, &T, b, NULL);
}

void e_len(void)
{
    ENTER(e_len); setup(); PRESENT(ProxyT->tp_as_sequence->sq_length);
    PRESENT(ProxyT->tp_as_mapping->mp_length);
    FIRST(ProxyT->tp_as_mapping->mp_length(P1));
    begin();
    long r = ch_hasnum ? ProxyT->tp_as_sequence->sq_length(P1) : ProxyT->tp_as_mapping->mp_length(P1);
    mediated_int(r, ch_truth, K1, &T, ASK_READ, H___len__, OP_LENGTH, &T, NULL, NULL);
}

void e_getattr(void)
{
    ENTER(e_getattr); setup(); PRESENT(ProxyT->tp_getattro);
    PyObject *n = any_name();
    FIRST(DROP(ProxyT->tp_getattro(P1, n)));
    begin();
    PyObject *r = ProxyT->tp_getattro(P1, n);
    CHECK(nev == 0 || method_is(1, H_check_getattr, H_check_getattr),
          "C01: reading is asked about as reading");
    CHECK(nev == 0 || EV[0].c == n, "C01: the checker is asked about this name");
    if (asked(r, r == NULL, K1, &T, ASK_READ, namecode(n)))
        performed(r, K1, 1, OP_GETATTR, &T, n, NULL);
}

void e_setattr(void)
{
    ENTER(e_setattr); setup(); PRESENT(ProxyT->tp_setattro);
    CHOOSE(ch_value, 0, 1);
    PyObject *n = any_name(), *v = ch_value ? (ch_truth ? &VALUE : P1) : NULL;
    FIRST(ProxyT->tp_setattro(P1, n, v));
    begin();
    int r = ProxyT->tp_setattro(P1, n, v);
    CHECK(nev == 0 || EV[0].c == n, "C01: the checker is asked about this name");
    mediated_int(r, 0, K1, &T, ASK_WRITE, namecode(n), v ? OP_SETATTR : OP_DELATTR, &T, n, v);
}

static int ch_op;

void e_compare(void)
{
    ENTER(e_compare); setup(); PRESENT(ProxyT->tp_richcompare);
    CHOOSE(ch_side, 0, 3); CHOOSE(ch_op, 0, 5);
    PyObject *b = party(ch_side);
    FIRST(DROP(ProxyT->tp_richcompare(P1, b, ch_op)));
    begin();
    PyObject *r = ProxyT->tp_richcompare(P1, b, ch_op);
    CHECK(nev > 0 && EV[0].what == OP_COMPARE, "C05: no permission is needed");
    CHECK(nev > 0 && EV[0].x == (unsigned)ch_op, "C05: the comparison is the one requested");
    performed(r, K1, 0, OP_COMPARE, &T, b, NULL);
}

static void unguarded_int(long r, long ok, int what)
{
    CHECK(nev == 1 && event_is(0, what, &T, NULL, NULL), "C05: it is the object's own, without a permission");
    consistent(r == -1);
    if (ch_result == R_RAISE)
        CHECK(r == -1 && exc_type == &x_Failure, "C05: the operation's exception is the outcome");
    else
        CHECK(r == ok, "C05: the value is the outcome");
    settle(NULL);
    COVER("done");
}

void e_hash(void)
{
    ENTER(e_hash); setup(); PRESENT(ProxyT->tp_hash);
    FIRST(ProxyT->tp_hash(P1));
    begin();
    unguarded_int(ProxyT->tp_hash(P1), 5 + ch_truth, OP_HASH);
}

void e_bool(void)
{
    ENTER(e_bool); setup(); PRESENT(NB(bool));
    FIRST(NB(bool)(P1));
    begin();
    unguarded_int(NB(bool)(P1), ch_truth, OP_TRUE);
}

static void text(reprfunc f, unsigned name, int what)
{
    FIRST(DROP(f(P1)));
    begin();
    PyObject *r = f(P1);
    CHECK(nev > 0 && EV[0].what == ASK_READ && EV[0].a == K1 && EV[0].b == &T && EV[0].n == name,
          "C06: the checker is asked first");
    consistent(r == NULL);
    settle(r);
    if (!verdict(K1)) {
        CHECK(nev == 2 && event_is(1, what, &T, NULL, NULL), "C06: the object's own conversion runs once");
        if (op_value == NULL)
            CHECK(r == NULL && pending && exc_type == &x_Failure, "C06: its failure is the outcome");
        else
            CHECK(r == op_value, "C06: its text is the outcome");
        COVER("done");
        return;
    }
    int tried = 0;
    for (int k = 1; k < nev && k < MAXEV; k++)
        if (EV[k].a == &T && EV[k].what != OP_GETATTR)
            tried = 1;
    CHECK(!tried, "C06: the object's own conversion is not run");
    CHECK(!(r == NULL && exc_type == &x_Refusal), "C06: the refusal does not reach the caller");
    if (r != NULL && nformat >= 2)
        CHECK(format_args[nformat - 1] == &T, "C06: the generic text names class, module and address");
    COVER("refused");
}

void e_str(void) { ENTER(e_str); setup(); PRESENT(ProxyT->tp_str); text(ProxyT->tp_str, H___str__, OP_STR); }
void e_repr(void) { ENTER(e_repr); setup(); PRESENT(ProxyT->tp_repr); text(ProxyT->tp_repr, H___repr__, OP_REPR); }

void e_length_hint(void)
{
    setup();
    PyMethodDef *m = method_of(ProxyT->tp_methods, H___length_hint__);
    __CPROVER_assume(m != NULL);
    begin();
    PyObject *r = invoke(m, P1, 0, NULL, NULL);
    consistent(r == NULL);
    settle(r);
    CHECK(nev == 1, "C04: one question to the object");
    COVER("done");
}

/* slots the type has no rule for: absent, or asking before anything else */
#define GUARDED(F, CALL) do { if ((F) != NULL) { begin(); CALL; \
    CHECK(nev == 0 || EV[0].what == ASK_READ, "C02: every operation is asked about"); \
    CHECK(!ch_verdict || !touched(0, nev), "C02: a refused operation touches nothing"); } } while (0)

void e_others(void)
{
    setup();
    CHOOSE(ch_side, 0, 1);
    PyNumberMethods *n = ProxyT->tp_as_number;
    PySequenceMethods *s = ProxyT->tp_as_sequence;
    GUARDED(n->nb_matrix_multiply, n->nb_matrix_multiply(P1, &O));
    GUARDED(n->nb_inplace_matrix_multiply, n->nb_inplace_matrix_multiply(P1, &O));
    GUARDED(s->sq_concat, s->sq_concat(P1, &O));
    GUARDED(s->sq_inplace_concat, s->sq_inplace_concat(P1, &O));
    GUARDED(s->sq_repeat, s->sq_repeat(P1, 2));
    GUARDED(s->sq_inplace_repeat, s->sq_inplace_repeat(P1, 2));
    CHECK(ProxyT->tp_as_async == NULL && ProxyT->tp_as_buffer == NULL &&
          ProxyT->tp_descr_get == NULL && ProxyT->tp_descr_set == NULL &&
          ProxyT->tp_getattr == NULL && ProxyT->tp_setattr == NULL &&
          ProxyT->tp_members == NULL && ProxyT->tp_getset == NULL && ProxyT->tp_finalize == NULL
          && ProxyT->tp_dictoffset == 0, "model: no further ways in");
    CHECK(ProxyT->tp_base == &base_type, "model: the type is zope.proxy's");
    CHECK(ProxyT->tp_itemsize == 0 && ProxyT->tp_basicsize >= (Py_ssize_t)sizeof(BaseProxy),
          "model: layout");
    COVER("done");
}

/* ------------------------------------------------- making and unmaking it */

void e_new(void)
{
    setup();
    int nargs = 0;
    ch_side = SIDE % 3; ch_side2 = SIDE / 3 % 6; ch_value = SIDE / 18 % 4;
    PyObject *o = party(ch_side), *k = ch_side2 == 5 ? K1 : ch_side2 == 1 ? P1 : party(ch_side2);
    PyObject *it[3] = {o, k, &O2};
    PyObject *t = make_tuple(ch_value, it);
    begin();
    PyObject *r = ProxyT->tp_new(ProxyT, t, NULL);
    consistent(r == NULL);
    if (ch_value != 2 || k == Py_None) {
        CHECK(r == NULL, "C07: a proxy needs an object and a checker");
        if (ch_value == 2)
            CHECK(exc_type == PyExc_ValueError, "C07: a missing checker is a ValueError");
        settle(NULL);
        COVER("refused");
        return;
    }
    CHECK(r != NULL && r->ob_type == ProxyT, "C07: a proxy is made");
    __CPROVER_assume(r != NULL);
    CHECK(nev == 0, "C07: making a proxy runs nothing");
    if (ProxyT->tp_init != NULL) {
        CHECK(ProxyT->tp_init(r, t, NULL) == 0 && nev == 0, "C07: making a proxy runs nothing");
    }
    CHECK(((BaseProxy *)r)->object == o, "C07: opening gives the object");
    CHECK(Py_REFCNT(r) == 1, "C30: a new object has one reference");
    real_dealloc = 1;
    Py_DECREF(r);
    CHECK(inst_freed[inst_index(r)], "C30: an unreferenced proxy is freed");
    CHECK(!inst_tracked[inst_index(r)], "C30: a freed object is not tracked");
    settle(NULL);
    COVER("made and freed");
}

void e_traverse(void)
{
    setup(); PRESENT(ProxyT->tp_traverse);
    CHOOSE(ch_visit, -1, 2);
    CHECK((ProxyT->tp_flags & Py_TPFLAGS_HAVE_GC) != 0, "C30: proxies take part in garbage collection");
    begin();
    int r = ProxyT->tp_traverse(P1, visit, &nvisited);
    int t = 0, k = 0;
    for (int i = 0; i < nvisited && i < 6; i++) {
        t += visited[i] == &T;
        k += visited[i] == K1;
    }
    if (ch_visit >= 0 && ch_visit < 2) {
        CHECK(r == (ch_truth ? 1 : -1) && nvisited == ch_visit + 1,
              "C30: traversal stops when it is told to");
    }
    else
        CHECK(r == 0 && t == 1 && k == 1 && nvisited == 2,
              "C30: traversal visits everything held, once");
    settle(NULL);
    COVER("done");
}

/* cleared by the collector, then used by whoever still has it, then freed */
void e_clear(void)
{
    setup();
    real_dealloc = 1;
    begin();
    Py_ssize_t t = Py_REFCNT(&T), k = Py_REFCNT(K1);
    if (ProxyT->tp_clear != NULL) {
        Py_INCREF(P1);
        int r = ProxyT->tp_clear(P1);
        CHECK(r == 0, "C30: clearing succeeds");
        Py_DECREF(P1);
    }
    Py_DECREF(P1);
    CHECK(Py_REFCNT(&T) == t - 1 && Py_REFCNT(K1) == k - 1, "C30: a freed proxy holds nothing");
    CHECK(inst_freed[0] && !inst_tracked[0], "C30: an unreferenced proxy is freed");
    COVER("done");
}

void e_getchecker(void)
{
    setup();
    CHOOSE(ch_side, 0, 4);
    PyObject *o = party(ch_side);
    begin();
    PyObject *r = module_call(H_getChecker, o);
    consistent(r == NULL);
    settle(r);
    CHECK(nev == 0, "C07: nothing is run");
    if (ch_side == 1 || ch_side == 2)
        CHECK(r == (ch_side == 2 ? K1 : K2), "C07: the checker is the one given");
    else
        CHECK(r == NULL && exc_type == PyExc_TypeError, "C07: only proxies have a checker");
    COVER("done");
}

void e_getobject(void)
{
    setup();
    CHOOSE(ch_side, 0, 5);
    PyObject *o = ch_side == 5 ? make_proxy(P1, K2) : party(ch_side);
    begin();
    PyObject *r = module_call(H_getObject, o);
    consistent(r == NULL);
    settle(r);
    CHECK(nev == 0, "C07: nothing is run");
    PyObject *want = ch_side == 2 ? &T : ch_side == 1 ? &O2 : ch_side == 5 ? P1 : o;
    CHECK(r == want, "C07: opening takes away one proxy");
    COVER("done");
}
void e_setup(void) { setup(); COVER("x"); }
