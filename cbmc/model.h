/* A model of the interpreter's C API for CBMC.
 *
 * Real struct layouts and inline functions come from the real Python.h; this
 * file gives bodies to the functions that the extension modules call.  Every
 * call that can run code of the object's logs an event and answers as a free
 * choice says, takes and gives references as documented, and asserts that
 * what it is given is alive and that no exception is pending.
 *
 * Choices are globals named ch_*; the harness makes them nondeterministic, and
 * the driver reads them off counterexamples for the replay.
 */
#include <Python.h>
#include <stdarg.h>
#include "codes.h"

#undef PyObject_DelAttr
#undef PyObject_Length
#undef PySequence_In
#undef PyIter_Check
#undef PyType_HasFeature
#undef PyObject_GC_UnTrack
#undef PyObject_GC_Track
#undef PySequence_Length
#undef PyMapping_Length
#undef PyObject_Del
#undef PyObject_DEL
#undef PyObject_FREE

#define CHECK(c, text) __CPROVER_assert(c, text)

/* ---------------------------------------------------------------- events */

enum {
    E_NONE,
    /* what a checker is asked: a = checker, b = object, n = name */
    ASK_READ, ASK_WRITE, PROTECT,
    /* operations on objects: a = object, b, c = operands, n = name */
    OP_GETATTR, OP_SETATTR, OP_DELATTR, OP_HASATTR, OP_STR, OP_REPR, OP_HASH, OP_TRUE,
    OP_COMPARE, OP_CALL, OP_CALLMETHOD, OP_ITER, OP_NEXT, OP_LENGTH, OP_LENGTHHINT,
    OP_GETITEM, OP_SETITEM, OP_DELITEM, OP_CONTAINS, OP_ISINSTANCE,
    OP_neg, OP_pos, OP_abs, OP_invert, OP_int, OP_float, OP_index,
    OP_add, OP_sub, OP_mul, OP_matmul, OP_mod, OP_divmod, OP_pow, OP_lshift, OP_rshift, OP_and,
    OP_xor, OP_or, OP_floordiv, OP_truediv,
    OP_iadd, OP_isub, OP_imul, OP_imatmul, OP_imod, OP_ipow, OP_ilshift, OP_irshift, OP_iand,
    OP_ixor, OP_ior, OP_ifloordiv, OP_itruediv,
    OP_ASKPERMISSION, OP_OTHER, OP_INTERACTION
};

typedef struct { int what; PyObject *a, *b, *c; unsigned n, x; } Event;
#define MAXEV 10
static Event EV[MAXEV];
static int nev;

/* With NESTAT, whoever is asked or used first, second, ... does the same
   operation itself before it answers, with answers of its own; both are
   judged. */
static int nested_now;
static void (*current)(void);       /* the entry */
#define ENTER(F) current = F
#ifdef NESTAT
static void nest(void);
#endif

static void event(int what, PyObject *a, PyObject *b, PyObject *c, unsigned n, unsigned x)
{
    __CPROVER_assume(nev < MAXEV);
    EV[nev].what = what; EV[nev].a = a; EV[nev].b = b; EV[nev].c = c;
    EV[nev].n = n; EV[nev].x = x;
    nev++;
#ifdef NESTAT
    if (nev == NESTAT + 1)
        nest();
#endif
}

/* --------------------------------------------------------------- objects */

/* Objects of the world outside: somebody else holds WORLD references. */
#define WORLD 3
#define MAXWORLD 24
static PyObject *world[MAXWORLD];
static int nworld;

/* Objects made during the call. */
#define MAXFRESH 12
typedef struct { PyASCIIObject a; Py_UCS4 room[8]; const char *text; } Str;
static Str *fresh_[MAXFRESH];        /* separate objects, easier on the solver */
static int nfresh;

static PyTypeObject plain_type;          /* what ordinary objects are */
static int running;                      /* module initialisation is over */

static void is_world(PyObject *o, PyTypeObject *t)
{
    o->ob_refcnt = WORLD;
    o->ob_type = t;
    world[nworld++] = o;
}

static void is_immortal(PyObject *o, PyTypeObject *t)
{
    o->ob_refcnt = _Py_IMMORTAL_REFCNT;
    o->ob_type = t;
}

static int is_alive(PyObject *o)
{
    return o != NULL && Py_REFCNT(o) > 0;
}

#define ALIVE(o) CHECK(is_alive((PyObject *)(o)), "C30: only live objects are used")

/* Rooms are taken whether used or not, so that their number stays known. */
static int room(void)
{
    __CPROVER_assume(nfresh < MAXFRESH);
    return nfresh++;
}

static PyObject *fresh_in(int k, PyTypeObject *t)
{
    PyObject *o = (PyObject *)fresh_[k];
    o->ob_refcnt = 1;
    o->ob_type = t;
    return o;
}

static PyObject *fresh(PyTypeObject *t) { return fresh_in(room(), t); }

static PyObject *new_ref(PyObject *o)
{
    Py_INCREF(o);
    return o;
}

/* strings */
static unsigned code_of(const char *s)
{
    unsigned h = 5381;
    while (*s)
        h = h * 33 + (unsigned char)*s++;
    return h;
}

#define MAXINTERN 120
static Str *interned[MAXINTERN];
static int ninterned;

static PyObject *make_str(Str *s, const char *text)
{
    s->a.ob_base.ob_type = &PyUnicode_Type;
    s->text = text;
    s->a.state.compact = 1;
    s->a.state.ascii = 1;
    s->a.state.kind = 1;
    s->a.state.interned = 1;
    return (PyObject *)s;
}

static PyObject *intern(const char *text)
{
    __CPROVER_assume(ninterned < MAXINTERN);
    Str *s = __CPROVER_allocate(sizeof(Str), 1);
    interned[ninterned++] = s;
    s->a.ob_base.ob_refcnt = 1000;
    return make_str(s, text);
}

static int is_interned(PyObject *o)
{
    return o->ob_type == &PyUnicode_Type && ((Str *)o)->text != NULL;
}

static PyObject *the_name;       /* the name an attribute access uses */
static unsigned the_name_code;

static unsigned textcode(PyObject *o)
{
    if (o->ob_type == &PyUnicode_Type && ((Str *)o)->text != NULL)
        return code_of(((Str *)o)->text);
    return 0;
}

static unsigned namecode(PyObject *o)
{
    if (o == NULL)
        return 0;
    if (o == the_name)
        return the_name_code;
    return textcode(o);
}

/* ------------------------------------------------------------ exceptions */

static int pending;
static PyObject *exc_type;
static PyObject *exc_args[4];
static int exc_nargs;

static PyObject x_AttributeError, x_TypeError, x_ValueError, x_KeyError, x_Exception,
    x_SystemError, x_RuntimeError, x_OverflowError, x_IndexError, x_StopIteration, x_MemoryError,
    x_BaseException, x_Refusal, x_Failure, x_LookupError, x_NotImplementedError,
    x_UnicodeEncodeError, x_NameError, x_PicklingError;
PyObject *PyExc_AttributeError = &x_AttributeError, *PyExc_TypeError = &x_TypeError,
    *PyExc_ValueError = &x_ValueError, *PyExc_KeyError = &x_KeyError,
    *PyExc_Exception = &x_Exception, *PyExc_SystemError = &x_SystemError,
    *PyExc_RuntimeError = &x_RuntimeError, *PyExc_OverflowError = &x_OverflowError,
    *PyExc_IndexError = &x_IndexError, *PyExc_StopIteration = &x_StopIteration,
    *PyExc_MemoryError = &x_MemoryError, *PyExc_BaseException = &x_BaseException,
    *PyExc_LookupError = &x_LookupError, *PyExc_NotImplementedError = &x_NotImplementedError,
    *PyExc_UnicodeEncodeError = &x_UnicodeEncodeError, *PyExc_NameError = &x_NameError;

static void raise_(PyObject *type)
{
    pending = 1;
    exc_type = type;
    exc_nargs = 0;
}

#define READY() CHECK(!pending, "C30: no exception is pending when other code is called")

PyObject *PyErr_Occurred(void) { return pending ? exc_type : NULL; }
void PyErr_Clear(void) { pending = 0; exc_type = NULL; exc_nargs = 0; }
void PyErr_SetString(PyObject *t, const char *s) { ALIVE(t); raise_(t); }
PyObject *PyErr_NoMemory(void) { raise_(PyExc_MemoryError); return NULL; }

int PyErr_BadArgument(void) { raise_(PyExc_TypeError); return 0; }
void PyErr_SetNone(PyObject *t) { ALIVE(t); raise_(t); }

typedef struct { PyVarObject v; PyObject *item[4]; } Tuple;     /* like PyTupleObject */
#define MAXTUPLE 8
static Tuple *tuples[MAXTUPLE];
static int ntuples;

static PyObject *tuple_item(PyObject *t, int k) { return ((Tuple *)t)->item[k]; }

static PyObject *make_tuple(int n, PyObject **items)
{
    __CPROVER_assume(ntuples < 8);
    Tuple *t = tuples[ntuples++];
    t->v.ob_base.ob_refcnt = 1;
    t->v.ob_base.ob_type = &PyTuple_Type;
    t->v.ob_size = n;
    for (int k = 0; k < n; k++) {
        ALIVE(items[k]);
        Py_INCREF(items[k]);
        t->item[k] = items[k];
    }
    return (PyObject *)t;
}

void PyErr_SetObject(PyObject *t, PyObject *v)
{
    ALIVE(t);
    raise_(t);
    if (v != NULL && v->ob_type == &PyTuple_Type) {
        ALIVE(v);
        exc_nargs = (int)Py_SIZE(v);
        for (int k = 0; k < 4 && k < exc_nargs; k++)
            exc_args[k] = tuple_item(v, k);
    }
    else {
        exc_nargs = 1;
        exc_args[0] = v;
    }
}

static int is_a(PyObject *type, PyObject *of)
{
    if (type == of)
        return 1;
    if (of == PyExc_BaseException || of == PyExc_Exception)
        return 1;
    if (of == PyExc_LookupError)
        return type == PyExc_KeyError || type == PyExc_IndexError;
    return 0;
}

int PyErr_GivenExceptionMatches(PyObject *e, PyObject *of)
{
    ALIVE(of);
    return e != NULL && is_a(e, of);
}

int PyErr_ExceptionMatches(PyObject *of)
{
    /* the real one crashes without a pending exception */
    CHECK(pending, "C30: exceptions are examined only when there is one");
    ALIVE(of);
    return is_a(exc_type, of);
}

/* A fetched exception is the type object: enough to restore it. */
void PyErr_Fetch(PyObject **t, PyObject **v, PyObject **tb)
{
    *t = pending ? new_ref(exc_type) : NULL;
    *v = NULL;
    *tb = NULL;
    pending = 0;
}
void PyErr_Restore(PyObject *t, PyObject *v, PyObject *tb)
{
    if (t != NULL) {
        pending = 1;
        exc_type = t;
        Py_DECREF(t);
    }
    else
        pending = 0;
    Py_XDECREF(v);
    Py_XDECREF(tb);
}
PyObject *PyErr_GetRaisedException(void)
{
    PyObject *t = pending ? new_ref(exc_type) : NULL;
    pending = 0;
    return t;
}
void PyErr_SetRaisedException(PyObject *t)
{
    PyErr_Restore(t, NULL, NULL);
}
void PyErr_NormalizeException(PyObject **t, PyObject **v, PyObject **tb) { }
void PyErr_WriteUnraisable(PyObject *o) { pending = 0; }
void _PyErr_BadInternalCall(const char *f, int l) { raise_(PyExc_SystemError); }

/* ----------------------------------------------------------------- types */

PyTypeObject PyUnicode_Type, PyTuple_Type, PyDict_Type, PyList_Type, PyType_Type,
    PyBaseObject_Type, PyLong_Type, PyBool_Type, PyCapsule_Type, PyFloat_Type, PyBytes_Type,
    PyModule_Type, PyFrozenSet_Type, PySet_Type;
PyObject _Py_NoneStruct, _Py_NotImplementedStruct;
struct _longobject _Py_TrueStruct, _Py_FalseStruct;

static void dealloc_world(PyObject *o)
{
    CHECK(0, "C30: no object is released that somebody still holds");
}

static int in_fresh(PyObject *o)
{
    for (int k = 0; k < MAXFRESH; k++)
        if (o == (PyObject *)fresh_[k])
            return 1;
    return 0;
}

static int in_tuples(PyObject *o)
{
    for (int k = 0; k < MAXTUPLE; k++)
        if (o == (PyObject *)tuples[k])
            return 1;
    return 0;
}

static void (*dealloc_hook)(PyObject *);
static PyTypeObject *own_type;          /* the module's type, if it is its instance */

static PyObject *dealloc_ok;            /* a world object that may go */
static int real_dealloc;                /* instances of the module's type may go */

static void drop(PyObject *o)           /* a reference of a model object */
{
    if (--o->ob_refcnt == 0 && !in_fresh(o))
        dealloc_world(o);
}

void _Py_Dealloc(PyObject *o)
{
    static int depth;
    CHECK(Py_REFCNT(o) == 0, "C30: only unreferenced objects are released");
    __CPROVER_assume(depth < 3);
    depth++;
    if (in_tuples(o)) {
        int n = (int)Py_SIZE(o);
        for (int k = 0; k < n && k < 4; k++)
            drop(tuple_item(o, k));
    }
    else if (in_fresh(o))
        ;
    else if (real_dealloc && own_type != NULL && o->ob_type == own_type)
        own_type->tp_dealloc(o);
    else if (o != dealloc_ok)
        dealloc_world(o);
    depth--;
}

int PyType_IsSubtype(PyTypeObject *a, PyTypeObject *b)
{
    for (int k = 0; k < 5 && a != NULL; k++) {
        if (a == b)
            return 1;
        a = a->tp_base;
    }
    return b == &PyBaseObject_Type;
}

unsigned long PyType_GetFlags(PyTypeObject *t) { return t->tp_flags; }

static int inited_types;

#define INHERIT(F) if (t->F == NULL) t->F = b->F
#define INHERIT2(S, F) if (t->S->F == NULL) t->S->F = b->S->F

static void inherit_number(PyTypeObject *t, PyTypeObject *b)
{
    if (b->tp_as_number == NULL)
        return;
    if (t->tp_as_number == NULL) {
        t->tp_as_number = b->tp_as_number;
        return;
    }
#define N(F) INHERIT2(tp_as_number, nb_##F)
    N(add); N(subtract); N(multiply); N(remainder); N(divmod); N(power); N(negative);
    N(positive); N(absolute); N(bool); N(invert); N(lshift); N(rshift); N(and); N(xor); N(or);
    N(int); N(float); N(inplace_add); N(inplace_subtract); N(inplace_multiply);
    N(inplace_remainder); N(inplace_power); N(inplace_lshift); N(inplace_rshift);
    N(inplace_and); N(inplace_xor); N(inplace_or); N(floor_divide); N(true_divide);
    N(inplace_floor_divide); N(inplace_true_divide); N(index); N(matrix_multiply);
    N(inplace_matrix_multiply);
}

int PyType_Ready(PyTypeObject *t)
{
    PyTypeObject *b = t->tp_base;
    if (b == NULL)
        b = t->tp_base = &PyBaseObject_Type;
    if (t->ob_base.ob_base.ob_type == NULL)
        t->ob_base.ob_base.ob_type = &PyType_Type;
    inherit_number(t, b);
    if (b->tp_as_sequence != NULL) {
        if (t->tp_as_sequence == NULL)
            t->tp_as_sequence = b->tp_as_sequence;
        else {
            INHERIT2(tp_as_sequence, sq_length); INHERIT2(tp_as_sequence, sq_concat);
            INHERIT2(tp_as_sequence, sq_repeat); INHERIT2(tp_as_sequence, sq_item);
            INHERIT2(tp_as_sequence, sq_ass_item); INHERIT2(tp_as_sequence, sq_contains);
            INHERIT2(tp_as_sequence, sq_inplace_concat);
            INHERIT2(tp_as_sequence, sq_inplace_repeat);
        }
    }
    if (b->tp_as_mapping != NULL) {
        if (t->tp_as_mapping == NULL)
            t->tp_as_mapping = b->tp_as_mapping;
        else {
            INHERIT2(tp_as_mapping, mp_length); INHERIT2(tp_as_mapping, mp_subscript);
            INHERIT2(tp_as_mapping, mp_ass_subscript);
        }
    }
    INHERIT(tp_dealloc); INHERIT(tp_repr); INHERIT(tp_call); INHERIT(tp_str);
    if (t->tp_getattr == NULL && t->tp_getattro == NULL)
        t->tp_getattro = b->tp_getattro;
    if (t->tp_setattr == NULL && t->tp_setattro == NULL)
        t->tp_setattro = b->tp_setattro;
    if (t->tp_richcompare == NULL && t->tp_hash == NULL) {
        t->tp_richcompare = b->tp_richcompare;
        t->tp_hash = b->tp_hash;
    }
    INHERIT(tp_iter); INHERIT(tp_iternext); INHERIT(tp_descr_get); INHERIT(tp_descr_set);
    INHERIT(tp_init); INHERIT(tp_alloc); INHERIT(tp_new); INHERIT(tp_free);
    INHERIT(tp_finalize);
    if (!(t->tp_flags & Py_TPFLAGS_HAVE_GC) && (b->tp_flags & Py_TPFLAGS_HAVE_GC)
        && t->tp_traverse == NULL && t->tp_clear == NULL) {
        t->tp_flags |= Py_TPFLAGS_HAVE_GC;
        t->tp_traverse = b->tp_traverse;
        t->tp_clear = b->tp_clear;
    }
    if (t->tp_basicsize == 0)
        t->tp_basicsize = b->tp_basicsize;
    if (t->tp_hash == NULL)
        t->tp_hash = PyObject_HashNotImplemented;
    inited_types++;
    return 0;
}

Py_hash_t PyObject_HashNotImplemented(PyObject *o)
{
    raise_(PyExc_TypeError);
    return -1;
}

/* Instances of the module's own type: room enough, in a static pool. */
#define MAXINST 4
typedef struct { PyObject ob; PyObject *field[6]; } Inst;
static Inst *inst[MAXINST];
static int inst_tracked[MAXINST];
static int inst_freed[MAXINST];
static int ninst;

static int inst_index(void *o)
{
    for (int k = 0; k < MAXINST; k++)
        if (o == (void *)inst[k])
            return k;
    return -1;
}

PyObject *PyType_GenericAlloc(PyTypeObject *t, Py_ssize_t n)
{
    __CPROVER_assume(ninst < MAXINST);
    CHECK((size_t)t->tp_basicsize <= sizeof(Inst), "model: instance size");
    inst_tracked[ninst] = 1;
    PyObject *o = &inst[ninst++]->ob;
    o->ob_refcnt = 1;
    o->ob_type = t;
    return o;
}

PyObject *PyType_GenericNew(PyTypeObject *t, PyObject *a, PyObject *k)
{
    return t->tp_alloc ? t->tp_alloc(t, 0) : PyType_GenericAlloc(t, 0);
}

void PyObject_GC_UnTrack(void *o)
{
    int k = inst_index(o);
    if (k >= 0)
        inst_tracked[k] = 0;
}
void PyObject_GC_Track(void *o)
{
    int k = inst_index(o);
    if (k >= 0)
        inst_tracked[k] = 1;
}
void PyObject_GC_Del(void *o)
{
    int k = inst_index(o);
    CHECK(k >= 0, "C30: only instances are freed");
    if (k >= 0) {
        CHECK(!inst_freed[k], "C30: an instance is freed once");
        inst_freed[k] = 1;
    }
}
void PyObject_Free(void *o) { PyObject_GC_Del(o); }
void PyObject_Del(void *o) { PyObject_GC_Del(o); }
int PyObject_IS_GC(PyObject *o) { return 1; }
void PyObject_ClearWeakRefs(PyObject *o) { }

/* ------------------------------------------ what the world can answer */

/* the parties */
static PyObject T, O, M, VALUE, WRAPPED, BOUND;
static PyObject KLASS, MODULE_NAME, CLASS_NAME;
static PyObject K1_, K2_;
static PyObject *K1, *K2;
static PyObject *P1, *P2;      /* proxies under test */

/* choices */
static int ch_verdict, ch_verdict2, ch_protect, ch_protect2, ch_fast, ch_fast2;
static int ch_result, ch_result1, ch_result2, ch_result3, ch_truth, ch_iter, ch_hasnum,
    ch_refusal, ch_isinst, ch_hasattr;
static int nops;
static int ch_answer;           /* what a checker's approval returns */

enum { R_VALUE, R_RAISE, R_TARGET, R_OTHER, R_TRUE, R_FALSE, R_NONE, R_NOTIMPL, R_PROXY, R_FRESH,
       R_NULL };

static PyObject *op_exc;        /* the exception an operation raised */

static int choice_now(void)
{
    int c = nops == 0 ? ch_result : nops == 1 ? ch_result1 : nops == 2 ? ch_result2 : ch_result3;
    nops++;
    return c;
}

static int ch_kind;             /* what kind of object a fresh result is */
static PyObject *op_value;      /* what the last operation gave */

static PyTypeObject *kind_type(int k)
{
    switch (k) {
    case 1: return &PyFloat_Type;
    case 2: return &PyLong_Type;
    case 3: return &PyUnicode_Type;
    case 4: return &PyTuple_Type;
    case 5: return &PyType_Type;
    case 6: return &PyList_Type;
    case 7: return &PyDict_Type;
    case 8: return &PyBytes_Type;
    default: return &plain_type;
    }
}

/* the outcome of running an object's code */
static PyObject *outcome_(void);
static PyObject *outcome(void)
{
    return op_value = outcome_();
}
static PyObject *outcome_(void)
{
    int k = room();
    switch (choice_now()) {
    case R_RAISE:
        raise_(&x_Failure);
        return NULL;
    case R_TARGET: return new_ref(&T);
    case R_OTHER: return new_ref(&O);
    case R_TRUE: return new_ref(Py_True);
    case R_FALSE: return new_ref(Py_False);
    case R_NONE: return new_ref(Py_None);
    case R_NOTIMPL: return new_ref(Py_NotImplemented);
    case R_PROXY: if (P1 != NULL) return new_ref(P1); return new_ref(&VALUE);
    case R_FRESH: return fresh_in(k, kind_type(ch_kind));
    case R_NULL: return NULL;
    default: return new_ref(&VALUE);
    }
}

static int outcome_int(int ok)
{
    if (choice_now() == R_RAISE) {
        raise_(&x_Failure);
        return -1;
    }
    return ok;
}

/* -------------------------------------------------------------- checkers */

static int is_checker(PyObject *o) { return o == K1 || o == K2; }

static int ask(PyObject *k, int what, PyObject *obj, PyObject *name, unsigned how)
{
    READY(); ALIVE(k); ALIVE(obj); ALIVE(name);
    event(what, k, obj, name, namecode(name), how);
    if (k == K1 ? ch_verdict : ch_verdict2) {
        raise_(&x_Refusal);
        return -1;
    }
    return 0;
}

static PyObject *protected_value;
static PyObject *protect(PyObject *k, PyObject *value)
{
    READY(); ALIVE(k); ALIVE(value);
    int free = room();
    event(PROTECT, k, value, NULL, 0, 0);
    switch (k == K1 ? ch_protect : ch_protect2) {
    case 0: return new_ref(value);
    case 1: return new_ref(&WRAPPED);
    case 2: return protected_value = fresh_in(free, &plain_type);
    default:
        raise_(&x_Failure);
        return NULL;
    }
}

static int k_ass_subscript(PyObject *k, PyObject *obj, PyObject *name)
{
    CHECK(is_checker(k), "model: a checker's slot");
    return ask(k, ASK_READ, obj, name, 0);
}
static PyObject *k_subscript(PyObject *k, PyObject *v) { return protect(k, v); }

static PyMappingMethods fast_map = { 0, k_subscript, k_ass_subscript };
static PyMappingMethods half_map1 = { 0, k_subscript, 0 };
static PyMappingMethods half_map2 = { 0, 0, k_ass_subscript };
static PyTypeObject slow_checker_type, fast_checker_type, half_checker_type1, half_checker_type2;

static PyObject *approval(int refused, int free)
{
    if (refused < 0)
        return NULL;
    switch (ch_answer) {
    case 1: return new_ref(&VALUE);
    case 2: return fresh_in(free, &plain_type);
    case 3: return new_ref(Py_False);
    default: return new_ref(Py_None);
    }
}

static PyObject *call_checker(PyObject *k, unsigned meth, PyObject *a, PyObject *b)
{
    if (meth == H_check || meth == H_check_getattr) {
        if (b == NULL) { raise_(PyExc_TypeError); return NULL; }
        int free = room();
        return approval(ask(k, ASK_READ, a, b, meth), free);
    }
    if (meth == H_check_setattr) {
        if (b == NULL) { raise_(PyExc_TypeError); return NULL; }
        int free = room();
        return approval(ask(k, ASK_WRITE, a, b, meth), free);
    }
    if (meth == H_proxy)
        return protect(k, a);
    event(OP_OTHER, k, a, b, meth, 0);
    raise_(PyExc_AttributeError);
    return NULL;
}

/* to be provided by the module's harness: special receivers */
static PyObject *call_special(PyObject *o, unsigned meth, PyObject *a, PyObject *b, int *done);
static PyObject *getattr_special(PyObject *o, PyObject *name, int *done);
static PyObject *call_object(PyObject *f, PyObject *args, PyObject *kw, PyObject *first);

static PyObject *callmethod(PyObject *o, PyObject *name, PyObject *a, PyObject *b)
{
    READY(); ALIVE(o); ALIVE(name);
    if (a) ALIVE(a);
    if (b) ALIVE(b);
    if (is_checker(o))
        return call_checker(o, textcode(name), a, b);
    int done = 0;
    PyObject *r = call_special(o, textcode(name), a, b, &done);
    if (done)
        return r;
    event(OP_CALLMETHOD, o, a, b, namecode(name), 0);
    return outcome();
}

/* bound methods, should the code fetch one before calling it */
typedef struct { PyObject ob; PyObject *self; PyObject *name; } Bound;
static Bound bounds_[4];
static int nbounds;
static PyTypeObject bound_type;

PyObject *PyObject_CallMethodObjArgs(PyObject *o, PyObject *name, ...)
{
    va_list ap;
    PyObject *a = NULL, *b = NULL;
    va_start(ap, name);
    a = va_arg(ap, PyObject *);
    if (a != NULL) {
        b = va_arg(ap, PyObject *);
        if (b != NULL)
            CHECK(va_arg(ap, PyObject *) == NULL, "model: more than two arguments");
    }
    va_end(ap);
    return callmethod(o, name, a, b);
}

PyObject *PyObject_VectorcallMethod(PyObject *name, PyObject *const *args, size_t nf, PyObject *kw)
{
    size_t n = PyVectorcall_NARGS(nf);
    return callmethod(args[0], name, n > 1 ? args[1] : NULL, n > 2 ? args[2] : NULL);
}

PyObject *PyObject_CallMethod(PyObject *o, const char *name, const char *fmt, ...)
{
    va_list ap;
    PyObject *a = NULL, *b = NULL;
    va_start(ap, fmt);
    if (fmt != NULL) {
        if (fmt[0] == '(') fmt++;
        if (fmt[0] == 'O') {
            a = va_arg(ap, PyObject *);
            if (fmt[1] == 'O')
                b = va_arg(ap, PyObject *);
        }
    }
    va_end(ap);
    return callmethod(o, intern(name), a, b);
}

PyObject *_PyObject_CallMethodId(PyObject *o, void *id, const char *fmt, ...)
{
    CHECK(0, "model: not supported");
    return NULL;
}

static PyObject *call(PyObject *f, PyObject *a, PyObject *b, PyObject *c)
{
    READY(); ALIVE(f);
    if (a) ALIVE(a);
    if (b) ALIVE(b);
    if (c) ALIVE(c);
    if (f->ob_type == &bound_type) {
        Bound *m = (Bound *)f;
        return callmethod(m->self, m->name, a, b);
    }
    return call_object(f, a, b, c);
}

PyObject *PyObject_CallFunctionObjArgs(PyObject *f, ...)
{
    va_list ap;
    PyObject *a[4] = {0, 0, 0, 0};
    va_start(ap, f);
    for (int k = 0; k < 4; k++) {
        a[k] = va_arg(ap, PyObject *);
        if (a[k] == NULL)
            break;
    }
    va_end(ap);
    return call(f, a[0], a[1], a[2]);
}
PyObject *PyObject_CallNoArgs(PyObject *f) { return call(f, NULL, NULL, NULL); }
PyObject *PyObject_CallOneArg(PyObject *f, PyObject *a) { return call(f, a, NULL, NULL); }
PyObject *PyObject_Vectorcall(PyObject *f, PyObject *const *args, size_t nf, PyObject *kw)
{
    size_t n = PyVectorcall_NARGS(nf);
    return call(f, n > 0 ? args[0] : NULL, n > 1 ? args[1] : NULL, n > 2 ? args[2] : NULL);
}
PyObject *PyObject_CallObject(PyObject *f, PyObject *args)
{
    Py_ssize_t n = args == NULL ? 0 : Py_SIZE(args);
    return call(f, n > 0 ? tuple_item(args, 0) : NULL, n > 1 ? tuple_item(args, 1) : NULL,
                n > 2 ? tuple_item(args, 2) : NULL);
}
PyObject *PyObject_Call(PyObject *f, PyObject *args, PyObject *kw)
{
    READY(); ALIVE(f); ALIVE(args);
    if (kw) ALIVE(kw);
    if (args->ob_type == &PyTuple_Type)
        return PyObject_CallObject(f, args);
    /* the arguments of a call through the proxy are opaque */
    event(OP_CALL, f, args, kw, 0, 0);
    return outcome();
}

/* ------------------------------------------------------------ attributes */

static PyObject *bound(PyObject *o, PyObject *name)
{
    __CPROVER_assume(nbounds < 4);
    Bound *m = &bounds_[nbounds++];
    m->ob.ob_refcnt = WORLD;
    m->ob.ob_type = &bound_type;
    m->self = o;
    m->name = name;
    return new_ref(&m->ob);
}

static PyObject *getattr(PyObject *o, PyObject *name)
{
    READY(); ALIVE(o); ALIVE(name);
    int done = 0;
    if (is_checker(o))
        return bound(o, name);
    PyObject *r = getattr_special(o, name, &done);
    if (done)
        return r;
    event(OP_GETATTR, o, name, NULL, namecode(name), 0);
    return outcome();
}
PyObject *PyObject_GetAttr(PyObject *o, PyObject *name) { return getattr(o, name); }
PyObject *PyObject_GetAttrString(PyObject *o, const char *s) { return getattr(o, intern(s)); }
PyObject *PyObject_GenericGetAttr(PyObject *o, PyObject *name) { return getattr(o, name); }
int _PyObject_LookupAttr(PyObject *o, PyObject *name, PyObject **r)
{
    *r = getattr(o, name);
    if (*r == NULL) {
        if (exc_type == PyExc_AttributeError) { PyErr_Clear(); return 0; }
        return -1;
    }
    return 1;
}
int PyObject_GetOptionalAttr(PyObject *o, PyObject *name, PyObject **r)
{
    return _PyObject_LookupAttr(o, name, r);
}
int PyObject_SetAttr(PyObject *o, PyObject *name, PyObject *v)
{
    READY(); ALIVE(o); ALIVE(name);
    if (v) ALIVE(v);
    event(v == NULL ? OP_DELATTR : OP_SETATTR, o, name, v, namecode(name), 0);
    return outcome_int(0);
}
int PyObject_DelAttr(PyObject *o, PyObject *name) { return PyObject_SetAttr(o, name, NULL); }
int PyObject_SetAttrString(PyObject *o, const char *n, PyObject *v)
{
    return PyObject_SetAttr(o, intern(n), v);
}
int PyObject_GenericSetAttr(PyObject *o, PyObject *name, PyObject *v)
{
    return PyObject_SetAttr(o, name, v);
}
int PyObject_HasAttr(PyObject *o, PyObject *name)
{
    READY(); ALIVE(o); ALIVE(name);
    event(OP_HASATTR, o, name, NULL, namecode(name), 0);
    return ch_hasattr;
}
int PyObject_HasAttrString(PyObject *o, const char *s) { return PyObject_HasAttr(o, intern(s)); }

/* --------------------------------------------------------------- objects */

#define UNARY(NAME, EVENT) \
PyObject *NAME(PyObject *o) \
{ READY(); ALIVE(o); event(EVENT, o, NULL, NULL, 0, 0); return outcome(); }

UNARY(PyObject_Str, OP_STR)
UNARY(PyObject_Repr, OP_REPR)
UNARY(PyObject_ASCII, OP_REPR)
UNARY(PyObject_GetIter, OP_ITER)
UNARY(PyIter_Next, OP_NEXT)
UNARY(PyNumber_Negative, OP_neg)
UNARY(PyNumber_Positive, OP_pos)
UNARY(PyNumber_Absolute, OP_abs)
UNARY(PyNumber_Invert, OP_invert)
UNARY(PyNumber_Long, OP_int)
UNARY(PyNumber_Float, OP_float)
UNARY(PyNumber_Index, OP_index)

#define BINARY(NAME, EVENT) \
PyObject *NAME(PyObject *o, PyObject *p) \
{ READY(); ALIVE(o); ALIVE(p); event(EVENT, o, p, NULL, 0, 0); return outcome(); }

BINARY(PyNumber_Add, OP_add)
BINARY(PyNumber_Subtract, OP_sub)
BINARY(PyNumber_Multiply, OP_mul)
BINARY(PyNumber_MatrixMultiply, OP_matmul)
BINARY(PyNumber_Remainder, OP_mod)
BINARY(PyNumber_Divmod, OP_divmod)
BINARY(PyNumber_Lshift, OP_lshift)
BINARY(PyNumber_Rshift, OP_rshift)
BINARY(PyNumber_And, OP_and)
BINARY(PyNumber_Xor, OP_xor)
BINARY(PyNumber_Or, OP_or)
BINARY(PyNumber_FloorDivide, OP_floordiv)
BINARY(PyNumber_TrueDivide, OP_truediv)
BINARY(PyNumber_InPlaceAdd, OP_iadd)
BINARY(PyNumber_InPlaceSubtract, OP_isub)
BINARY(PyNumber_InPlaceMultiply, OP_imul)
BINARY(PyNumber_InPlaceMatrixMultiply, OP_imatmul)
BINARY(PyNumber_InPlaceRemainder, OP_imod)
BINARY(PyNumber_InPlaceLshift, OP_ilshift)
BINARY(PyNumber_InPlaceRshift, OP_irshift)
BINARY(PyNumber_InPlaceAnd, OP_iand)
BINARY(PyNumber_InPlaceXor, OP_ixor)
BINARY(PyNumber_InPlaceOr, OP_ior)
BINARY(PyNumber_InPlaceFloorDivide, OP_ifloordiv)
BINARY(PyNumber_InPlaceTrueDivide, OP_itruediv)
BINARY(PyObject_GetItem, OP_GETITEM)
BINARY(PySequence_Concat, OP_add)
BINARY(PySequence_InPlaceConcat, OP_iadd)

PyObject *PyNumber_Power(PyObject *o, PyObject *p, PyObject *m)
{
    READY(); ALIVE(o); ALIVE(p); ALIVE(m);
    event(OP_pow, o, p, m, 0, 0);
    return outcome();
}
PyObject *PyNumber_InPlacePower(PyObject *o, PyObject *p, PyObject *m)
{
    READY(); ALIVE(o); ALIVE(p); ALIVE(m);
    event(OP_ipow, o, p, m, 0, 0);
    return outcome();
}
int PyObject_SetItem(PyObject *o, PyObject *k, PyObject *v)
{
    READY(); ALIVE(o); ALIVE(k); ALIVE(v);
    event(OP_SETITEM, o, k, v, 0, 0);
    return outcome_int(0);
}
int PyObject_DelItem(PyObject *o, PyObject *k)
{
    READY(); ALIVE(o); ALIVE(k);
    event(OP_DELITEM, o, k, NULL, 0, 0);
    return outcome_int(0);
}
static int contains_special(PyObject *o, PyObject *v, int *done);
int PySequence_Contains(PyObject *o, PyObject *v)
{
    READY(); ALIVE(o); ALIVE(v);
    int done = 0;
    int r = contains_special(o, v, &done);
    if (done)
        return r;
    event(OP_CONTAINS, o, v, NULL, 0, 0);
    return outcome_int(ch_truth);
}
int PySequence_In(PyObject *o, PyObject *v) { return PySequence_Contains(o, v); }
Py_ssize_t PyObject_Size(PyObject *o)
{
    READY(); ALIVE(o);
    event(OP_LENGTH, o, NULL, NULL, 0, 0);
    return outcome_int(ch_truth);
}
#undef PyObject_Length
Py_ssize_t PyObject_Length(PyObject *o) { return PyObject_Size(o); }
Py_ssize_t PySequence_Size(PyObject *o) { return PyObject_Size(o); }
Py_ssize_t PyMapping_Size(PyObject *o) { return PyObject_Size(o); }
Py_ssize_t PyObject_LengthHint(PyObject *o, Py_ssize_t d)
{
    READY(); ALIVE(o);
    event(OP_LENGTHHINT, o, NULL, NULL, 0, 0);
    return outcome_int(ch_truth);
}
Py_hash_t PyObject_Hash(PyObject *o)
{
    READY(); ALIVE(o);
    event(OP_HASH, o, NULL, NULL, 0, 0);
    return outcome_int(5 + ch_truth);
}
static int truth_special(PyObject *o, int *done);
int PyObject_IsTrue(PyObject *o)
{
    READY(); ALIVE(o);
    if (o == Py_True) return 1;
    if (o == Py_False || o == Py_None) return 0;
    int done = 0;
    int r = truth_special(o, &done);
    if (done)
        return r;
    event(OP_TRUE, o, NULL, NULL, 0, 0);
    return outcome_int(ch_truth);
}
int PyObject_Not(PyObject *o)
{
    int r = PyObject_IsTrue(o);
    return r < 0 ? r : !r;
}
PyObject *PyObject_RichCompare(PyObject *o, PyObject *p, int op)
{
    READY(); ALIVE(o); ALIVE(p);
    event(OP_COMPARE, o, p, NULL, 0, op);
    return outcome();
}
int PyObject_RichCompareBool(PyObject *o, PyObject *p, int op)
{
    READY(); ALIVE(o); ALIVE(p);
    event(OP_COMPARE, o, p, NULL, 0, op);
    return outcome_int(ch_truth);
}
int PyIter_Check(PyObject *o)
{
    ALIVE(o);
    return o->ob_type->tp_iternext != NULL;
}
int PyCallable_Check(PyObject *o) { ALIVE(o); return 1; }
PyObject *PyObject_Type(PyObject *o) { ALIVE(o); return new_ref((PyObject *)o->ob_type); }
static int isinstance_special(PyObject *o, PyObject *c, int *done);
int PyObject_IsInstance(PyObject *o, PyObject *c)
{
    READY(); ALIVE(o); ALIVE(c);
    int done = 0;
    int r = isinstance_special(o, c, &done);
    if (done)
        return r;
    event(OP_ISINSTANCE, o, c, NULL, 0, 0);
    return outcome_int(ch_isinst);
}
int PyObject_IsSubclass(PyObject *o, PyObject *c) { return PyObject_IsInstance(o, c); }

/* --------------------------------------------------------------- strings */

PyObject *PyUnicode_InternFromString(const char *s) { return intern(s); }
PyObject *PyUnicode_FromString(const char *s)
{
    return running ? make_str((Str *)fresh(&PyUnicode_Type), s) : intern(s);
}
void PyUnicode_InternInPlace(PyObject **s) { }

static PyObject *format_args[6];
static int nformat;

PyObject *PyUnicode_FromFormatV(const char *f, va_list ap)
{
    PyObject *o;
    int k = 0;
    nformat = 0;
    for (; *f; f++) {
        if (*f != '%')
            continue;
        f++;
        while ((*f >= '0' && *f <= '9') || *f == '.' || *f == '-' || *f == 'l' || *f == 'z')
            f++;
        switch (*f) {
        case 'S': case 'R': case 'A': case 'U': case 'V':
            o = va_arg(ap, PyObject *);
            ALIVE(o);
            if (*f == 'S')
                event(OP_STR, o, NULL, NULL, 0, 1);
            if (*f == 'R' || *f == 'A')
                event(OP_REPR, o, NULL, NULL, 0, 1);
            if (*f == 'U')
                CHECK(o != NULL && o->ob_type == &PyUnicode_Type, "C06 C30: text where the format says so");
            if (k < 6)
                format_args[k++] = o;
            nformat = k;
            break;
        case 's':
            CHECK(va_arg(ap, char *) != NULL, "C06 C30: text where the format says so");
            break;
        case 'p':
            o = va_arg(ap, PyObject *);
            if (k < 6)
                format_args[k++] = o;
            nformat = k;
            break;
        case 'd': case 'i': case 'u': case 'x': case 'c':
            va_arg(ap, long);
            break;
        case '%':
            break;
        default:
            CHECK(0, "model: format not supported");
        }
    }
    int free = room();
    if (choice_now() == R_RAISE) {
        raise_(&x_Failure);
        return NULL;
    }
    return fresh_in(free, &PyUnicode_Type);
}
PyObject *PyUnicode_FromFormat(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    READY();
    PyObject *r = PyUnicode_FromFormatV(f, ap);
    va_end(ap);
    return r;
}
PyObject *PyErr_Format(PyObject *t, const char *f, ...)
{
    ALIVE(t);
    raise_(t);
    return NULL;
}
PyObject *PyErr_FormatV(PyObject *t, const char *f, va_list ap)
{
    ALIVE(t);
    raise_(t);
    return NULL;
}
static const char *name_utf8(PyObject *o);
const char *PyUnicode_AsUTF8(PyObject *o)
{
    ALIVE(o);
    if (o->ob_type != &PyUnicode_Type) { raise_(PyExc_TypeError); return NULL; }
    return name_utf8(o);
}
const char *PyUnicode_AsUTF8AndSize(PyObject *o, Py_ssize_t *n)
{
    const char *s = PyUnicode_AsUTF8(o);
    if (s != NULL && n != NULL)
        *n = PyUnicode_GET_LENGTH(o);
    return s;
}

/* the text of a string object: from its data */
static int str_is(PyObject *o, const char *s)
{
    if (is_interned(o))
        return code_of(((Str *)o)->text) == code_of(s);
    Py_ssize_t n = PyUnicode_GET_LENGTH(o);
    Py_ssize_t k;
    for (k = 0; s[k]; k++) {
        if (k >= n)
            return 0;
        if (PyUnicode_READ_CHAR(o, k) != (Py_UCS4)(unsigned char)s[k])
            return 0;
    }
    return k == n;
}
int PyUnicode_CompareWithASCIIString(PyObject *o, const char *s)
{
    ALIVE(o);
    CHECK(o->ob_type == &PyUnicode_Type, "C30: only text is compared as text");
    return str_is(o, s) ? 0 : 1;
}
int PyUnicode_EqualToUTF8(PyObject *o, const char *s) { return PyUnicode_CompareWithASCIIString(o, s) == 0; }
int _PyUnicode_EqualToASCIIString(PyObject *o, const char *s) { return PyUnicode_CompareWithASCIIString(o, s) == 0; }
int PyUnicode_Compare(PyObject *a, PyObject *b)
{
    ALIVE(a); ALIVE(b);
    if (a == b) return 0;
    if (a->ob_type != &PyUnicode_Type || b->ob_type != &PyUnicode_Type) {
        raise_(PyExc_TypeError);
        return -1;
    }
    if (is_interned(b)) return str_is(a, ((Str *)b)->text) ? 0 : 1;
    if (is_interned(a)) return str_is(b, ((Str *)a)->text) ? 0 : 1;
    return 1;
}
Py_ssize_t PyUnicode_GetLength(PyObject *o)
{
    ALIVE(o);
    if (o->ob_type != &PyUnicode_Type) { raise_(PyExc_TypeError); return -1; }
    return PyUnicode_GET_LENGTH(o);
}
Py_UCS4 PyUnicode_ReadChar(PyObject *o, Py_ssize_t i)
{
    ALIVE(o);
    if (o->ob_type != &PyUnicode_Type) { raise_(PyExc_TypeError); return (Py_UCS4)-1; }
    if (i < 0 || i >= PyUnicode_GET_LENGTH(o)) { raise_(PyExc_IndexError); return (Py_UCS4)-1; }
    return PyUnicode_READ_CHAR(o, i);
}
Py_ssize_t PyUnicode_Tailmatch(PyObject *o, PyObject *p, Py_ssize_t a, Py_ssize_t b, int d)
{
    ALIVE(o); ALIVE(p);
    if (!is_interned(p) && ((Str *)p)->text == NULL)
        return 0;
    const char *s = ((Str *)p)->text;
    Py_ssize_t n = PyUnicode_GET_LENGTH(o);
    for (Py_ssize_t k = 0; s[k]; k++)
        if (k >= n || PyUnicode_READ_CHAR(o, k) != (Py_UCS4)(unsigned char)s[k])
            return 0;
    return 1;
}

/* --------------------------------------------------- numbers, containers */

static PyObject *last_int;
static long last_int_value;
PyObject *PyLong_FromLong(long v)
{
    last_int = fresh(&PyLong_Type);
    last_int_value = v;
    return last_int;
}
PyObject *PyLong_FromSsize_t(Py_ssize_t v) { return PyLong_FromLong(v); }
PyObject *PyBool_FromLong(long v) { return new_ref(v ? Py_True : Py_False); }

PyObject *PyTuple_New(Py_ssize_t n) { CHECK(0, "model: not supported"); return NULL; }
PyObject *PyTuple_Pack(Py_ssize_t n, ...)
{
    PyObject *it[4];
    va_list ap;
    va_start(ap, n);
    for (int k = 0; k < n && k < 4; k++)
        it[k] = va_arg(ap, PyObject *);
    va_end(ap);
    return make_tuple((int)n, it);
}

static PyObject dicts[4], lists[2];
static int ndicts, nlists;
PyObject *PyDict_New(void)
{
    if (running)
        return fresh(&PyDict_Type);
    __CPROVER_assume(ndicts < 4);
    PyObject *d = &dicts[ndicts++];
    d->ob_refcnt = 1;
    d->ob_type = &PyDict_Type;
    return d;
}
PyObject *PyList_New(Py_ssize_t n)
{
    __CPROVER_assume(nlists < 2);
    PyObject *d = &lists[nlists++];
    d->ob_refcnt = 1;
    d->ob_type = &PyList_Type;
    return d;
}
static PyObject *dict_lookup(PyObject *d, PyObject *k);
PyObject *PyDict_GetItem(PyObject *d, PyObject *k)
{
    int had = pending;
    ALIVE(d); ALIVE(k);
    PyObject *r = dict_lookup(d, k);
    if (r == NULL && !had)
        PyErr_Clear();
    return r;
}
PyObject *PyDict_GetItemWithError(PyObject *d, PyObject *k)
{
    READY(); ALIVE(d); ALIVE(k);
    return dict_lookup(d, k);
}
PyObject *PyDict_GetItemString(PyObject *d, const char *k) { return PyDict_GetItem(d, intern(k)); }
int PyDict_Contains(PyObject *d, PyObject *k) { return PyDict_GetItemWithError(d, k) != NULL; }
int PyDict_GetItemRef(PyObject *d, PyObject *k, PyObject **r)
{
    *r = PyDict_GetItemWithError(d, k);
    Py_XINCREF(*r);
    return *r != NULL;
}
PyObject *PyMapping_GetItemString(PyObject *d, const char *k)
{
    PyObject *r = PyDict_GetItemString(d, k);
    if (r == NULL) { raise_(PyExc_KeyError); return NULL; }
    return new_ref(r);
}
void PyDict_Clear(PyObject *d) { ALIVE(d); event(OP_OTHER, d, NULL, NULL, 0, 0); }
int PyDict_SetItem(PyObject *d, PyObject *k, PyObject *v)
{
    ALIVE(d); ALIVE(k); ALIVE(v);
    event(OP_SETITEM, d, k, v, 0, 0);
    return 0;
}
int PyDict_DelItem(PyObject *d, PyObject *k)
{
    ALIVE(d); ALIVE(k);
    event(OP_DELITEM, d, k, NULL, 0, 0);
    return 0;
}
int PyList_Append(PyObject *l, PyObject *v) { ALIVE(l); ALIVE(v); Py_INCREF(v); return 0; }

/* ------------------------------------------------------------- arguments */

PyObject *Py_BuildValue(const char *f, ...)
{
    va_list ap;
    PyObject *it[4];
    PyObject *made = NULL;
    int n = 0, single;
    va_start(ap, f);
    if (*f == '(') f++;
    for (; *f && *f != ')'; f++) {
        if (*f == 'O' || *f == 'S' || *f == 'N') {
            it[n] = va_arg(ap, PyObject *);
            if (it[n] == NULL) { va_end(ap); if (!pending) raise_(PyExc_SystemError); return NULL; }
            ALIVE(it[n]);
            n++;
        }
        else if (*f == 's') {
            va_arg(ap, char *);
            made = it[n++] = fresh(&PyUnicode_Type);
        }
        else
            CHECK(0, "model: format not supported");
        if (n == 4) break;
    }
    va_end(ap);
    PyObject *t = make_tuple(n, it);
    Py_XDECREF(made);
    return t;
}

static int parse(PyObject *args, const char *f, va_list ap)
{
    Py_ssize_t n = Py_SIZE(args), k = 0;
    int optional = 0;
    for (; *f && *f != ':' && *f != ';'; f++) {
        if (*f == '|') { optional = 1; continue; }
        if (*f == '$') continue;
        if (*f == 'O' || *f == 'U' || *f == 'S') {
            PyTypeObject *t = *f == 'U' ? &PyUnicode_Type : NULL;
            if (f[1] == '!') { t = va_arg(ap, PyTypeObject *); f++; }
            PyObject **slot = va_arg(ap, PyObject **);
            if (k >= n) {
                if (optional) continue;
                raise_(PyExc_TypeError);
                return 0;
            }
            PyObject *v = tuple_item(args, (int)k++);
            if (t != NULL && v->ob_type != t) { raise_(PyExc_TypeError); return 0; }
            *slot = v;
        }
        else
            CHECK(0, "model: format not supported");
    }
    if (k < n) { raise_(PyExc_TypeError); return 0; }
    return 1;
}
int PyArg_ParseTuple(PyObject *args, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = parse(args, f, ap);
    va_end(ap);
    return r;
}
int PyArg_ParseTupleAndKeywords(PyObject *args, PyObject *kw, const char *f, char **names, ...)
{
    va_list ap;
    va_start(ap, names);
    int r = parse(args, f, ap);
    va_end(ap);
    return r;
}
int PyArg_UnpackTuple(PyObject *args, const char *name, Py_ssize_t lo, Py_ssize_t hi, ...)
{
    va_list ap;
    Py_ssize_t n = Py_SIZE(args);
    if (n < lo || n > hi) { raise_(PyExc_TypeError); return 0; }
    va_start(ap, hi);
    for (Py_ssize_t k = 0; k < n && k < 4; k++) {
        PyObject **slot = va_arg(ap, PyObject **);
        *slot = tuple_item(args, (int)k);
    }
    va_end(ap);
    return 1;
}

/* --------------------------------------------------------------- modules */

static PyObject module_object, import_object;
static struct PyModuleDef *module_def;
#define MAXEXPORT 12
static struct { unsigned code; PyObject *o; } exports[MAXEXPORT];
static int nexports;

PyObject *PyModule_Create2(struct PyModuleDef *d, int v)
{
    module_def = d;
    module_object.ob_refcnt = WORLD;
    return &module_object;
}
int PyModule_AddObject(PyObject *m, const char *name, PyObject *o)
{
    __CPROVER_assume(nexports < MAXEXPORT);
    exports[nexports].code = code_of(name);
    exports[nexports].o = o;
    nexports++;
    return 0;
}
int PyModule_AddObjectRef(PyObject *m, const char *name, PyObject *o)
{
    Py_INCREF(o);
    return PyModule_AddObject(m, name, o);
}
int PyModule_Add(PyObject *m, const char *name, PyObject *o) { return PyModule_AddObject(m, name, o); }
int PyModule_AddType(PyObject *m, PyTypeObject *t)
{
    if (PyType_Ready(t) < 0)
        return -1;
    const char *n = t->tp_name, *p;
    for (p = n; *p; p++)
        if (*p == '.')
            n = p + 1;
    Py_INCREF(t);
    return PyModule_AddObject(m, n, (PyObject *)t);
}
static PyObject *exported(unsigned code)
{
    for (int k = 0; k < nexports; k++)
        if (exports[k].code == code)
            return exports[k].o;
    CHECK(0, "model: the module does not export what it used to");
    return NULL;
}
PyObject *PyImport_ImportModule(const char *name)
{
    import_object.ob_refcnt = 1000;
    import_object.ob_type = &PyModule_Type;
    return &import_object;
}
PyObject *PyImport_Import(PyObject *name) { return PyImport_ImportModule(""); }

static PyMethodDef *method_of(PyMethodDef *m, unsigned code)
{
    for (int k = 0; k < 12 && m[k].ml_name != NULL; k++)
        if (code_of(m[k].ml_name) == code)
            return &m[k];
    return NULL;
}

/* --------------------------------------------------------------- harness */

static void setup_world(void)
{
    for (int k = 0; k < MAXFRESH; k++)
        fresh_[k] = __CPROVER_allocate(sizeof(Str), 1);
    for (int k = 0; k < MAXTUPLE; k++)
        tuples[k] = __CPROVER_allocate(sizeof(Tuple), 1);
    for (int k = 0; k < MAXINST; k++)
        inst[k] = __CPROVER_allocate(sizeof(Inst), 1);
    PyObject *xs[] = {&x_AttributeError, &x_TypeError, &x_ValueError, &x_KeyError, &x_Exception,
                      &x_SystemError, &x_RuntimeError, &x_OverflowError, &x_IndexError,
                      &x_StopIteration, &x_MemoryError, &x_BaseException, &x_Refusal, &x_Failure,
                      &x_LookupError, &x_NotImplementedError};
    for (int k = 0; k < 16; k++) {
        xs[k]->ob_refcnt = WORLD;
        xs[k]->ob_type = &PyType_Type;
    }
    PyUnicode_Type.ob_base.ob_base.ob_refcnt = 1000;
    PyUnicode_Type.tp_flags = Py_TPFLAGS_UNICODE_SUBCLASS;
    PyTuple_Type.tp_flags = Py_TPFLAGS_TUPLE_SUBCLASS;
    PyDict_Type.tp_flags = Py_TPFLAGS_DICT_SUBCLASS;
    PyDict_Type.ob_base.ob_base.ob_refcnt = 1000;
    PyLong_Type.tp_flags = Py_TPFLAGS_LONG_SUBCLASS;
    plain_type.ob_base.ob_base.ob_refcnt = 1000;
    plain_type.ob_base.ob_base.ob_type = &PyType_Type;
    plain_type.tp_name = "plain";
    slow_checker_type.tp_base = fast_checker_type.tp_base = half_checker_type1.tp_base =
        half_checker_type2.tp_base = &PyBaseObject_Type;
    fast_checker_type.tp_as_mapping = &fast_map;
    half_checker_type1.tp_as_mapping = &half_map1;
    half_checker_type2.tp_as_mapping = &half_map2;
    PyBaseObject_Type.tp_alloc = PyType_GenericAlloc;
    PyBaseObject_Type.tp_free = PyObject_GC_Del;
    PyBaseObject_Type.ob_base.ob_base.ob_refcnt = 1000;
    is_immortal(&_Py_NoneStruct, &plain_type);
    is_immortal(&_Py_NotImplementedStruct, &plain_type);
    is_immortal((PyObject *)&_Py_TrueStruct, &PyBool_Type);
    is_immortal((PyObject *)&_Py_FalseStruct, &PyBool_Type);
    is_world(&T, &plain_type);
    is_world(&O, &plain_type);
    is_world(&M, &plain_type);
    is_world(&VALUE, &plain_type);
    is_world(&WRAPPED, &plain_type);
}

/* What there is before the call under test. */
static Py_ssize_t before[MAXWORLD], before_inst[MAXINST], before_fresh[MAXFRESH];
static int fresh_before, tuples_before, inst_before;

static void begin(void)
{
    if (nested_now) {
        nev = nops = pending = 0;
        return;
    }
    for (int k = 0; k < nworld; k++)
        before[k] = Py_REFCNT(world[k]);
    for (int k = 0; k < ninst; k++)
        before_inst[k] = Py_REFCNT(&inst[k]->ob);
    for (int k = 0; k < nfresh; k++)
        before_fresh[k] = Py_REFCNT((PyObject *)fresh_[k]);
    fresh_before = nfresh;
    inst_before = ninst;
    tuples_before = ntuples;
    nev = 0;
    nops = 0;
    pending = 0;
}

/* Every reference is accounted for. */
static void settle(PyObject *result)
{
    if (nested_now) {
        Py_XDECREF(result);
        return;
    }
    for (int k = 0; k < nworld; k++)
        CHECK(Py_REFCNT(world[k]) == before[k] + (result == world[k]),
              "C30: reference counts change only by the reference handed out");
    for (int k = 0; k < inst_before; k++)
        CHECK(Py_REFCNT(&inst[k]->ob) == before_inst[k] + (result == &inst[k]->ob),
              "C30: reference counts change only by the reference handed out");
    for (int k = inst_before; k < MAXINST; k++)
        CHECK(Py_REFCNT(&inst[k]->ob) == (result == &inst[k]->ob),
              "C30: objects made on the way are released");
    for (int k = 0; k < fresh_before; k++)
        CHECK(Py_REFCNT((PyObject *)fresh_[k]) == before_fresh[k] + (result == (PyObject *)fresh_[k]),
              "C30: reference counts change only by the reference handed out");
    for (int k = fresh_before; k < MAXFRESH; k++)
        CHECK(Py_REFCNT((PyObject *)fresh_[k]) == (result == (PyObject *)fresh_[k]),
              "C30: objects made on the way are released");
    for (int k = tuples_before; k < 8; k++)
        CHECK(Py_REFCNT((PyObject *)tuples[k]) == (result == (PyObject *)tuples[k]),
              "C30: objects made on the way are released");
}

static void settle_rest(void)
{
    if (nested_now)
        return;
    for (int k = fresh_before; k < MAXFRESH; k++)
        CHECK(Py_REFCNT((PyObject *)fresh_[k]) == 0, "C30: objects made on the way are released");
    for (int k = inst_before; k < MAXINST; k++)
        CHECK(Py_REFCNT(&inst[k]->ob) == 0, "C30: objects made on the way are released");
}

/* An error is reported exactly when there is an exception. */
static void consistent(int failed)
{
    CHECK(failed ? pending : !pending, "C30: failure is reported exactly with an exception set");
}

#define CHOOSE(v, lo, hi) do { if (!nested_now) { \
    int nd_##v; v = nd_##v; __CPROVER_assume(v >= (lo) && v <= (hi)); } } while (0)
/* With TWICE, an entry does its operation once before, with answers of their
   own, and judges the second time. */
#define AGAIN_(v, lo, hi) int was_##v = ch_##v; CHOOSE(ch_first_##v, lo, hi); ch_##v = ch_first_##v
#ifdef NESTAT
static int ch_first_result, ch_first_result1, ch_first_truth;
#define SWAP_(v, lo, hi) int was_##v = ch_##v; \
    { int nd_##v; ch_first_##v = nd_##v; __CPROVER_assume(nd_##v >= (lo) && nd_##v <= (hi)); } \
    ch_##v = ch_first_##v
/* everything about the operation under way is put aside */
static void nest_aside(void);
static void nest_back(void);
static void nest_(void)
{
    Event ev[MAXEV];
    for (int k = 0; k < MAXEV; k++)
        ev[k] = EV[k];
    int was_nev = nev, was_nops = nops;
    PyObject *was_value = op_value, *was_protected = protected_value;
    nested_now = 1;
    nest_aside();
    current();
    nest_back();
    nested_now = 0;
    for (int k = 0; k < MAXEV; k++)
        EV[k] = ev[k];
    nev = was_nev; nops = was_nops; op_value = was_value; protected_value = was_protected;
    pending = 0; exc_type = NULL; exc_nargs = 0;
}
#endif
#define DROP(e) do { PyObject *dropped_ = (e); Py_XDECREF(dropped_); } while (0)
#define COVER(text) __CPROVER_assert(0, "cover: " text)

/* any attribute name: one the module knows, or any text up to 12 characters */
#ifndef NAMEMAX
#ifdef NESTAT
#define NAMEMAX 2
#else
#define NAMEMAX 12
#endif
#endif
static int ch_name, ch_namelen;
static unsigned char ch_chars[NAMEMAX];
static PyObject *text_name(void)
{
    the_name_code = 0x5eed;
    Str *s = fresh_[room()];
    s->a.ob_base.ob_type = &PyUnicode_Type;
    s->a.ob_base.ob_refcnt = WORLD;
    s->a.state.compact = 1; s->a.state.ascii = 1; s->a.state.kind = 1;
    s->text = NULL;
    CHOOSE(ch_namelen, 0, NAMEMAX);
    s->a.length = ch_namelen;
    unsigned char *d = (unsigned char *)(&s->a + 1);
    for (int k = 0; k < NAMEMAX; k++) {
        unsigned char nd; ch_chars[k] = nd;
        __CPROVER_assume(nd < 128 && nd > 0);
        d[k] = k < ch_namelen ? ch_chars[k] : 0;
    }
    return the_name = (PyObject *)s;
}
static PyObject *any_name(void)
{
    if (nested_now)
        return the_name;
    PyObject *n = text_name();
#ifdef NESTAT
    ch_name = -1;
    return n;
#endif
    CHOOSE(ch_name, -1, MAXINTERN - 1);
    __CPROVER_assume(ch_name < ninterned);
    return ch_name >= 0 ? (the_name = (PyObject *)interned[ch_name]) : n;
}


static int nvisited;
static PyObject *visited[6];
static int ch_visit;
static int visit(PyObject *o, void *arg)
{
    CHECK(o != NULL && arg == (void *)&nvisited, "C30: traversal visits objects, with its argument");
    if (nvisited < 6)
        visited[nvisited] = o;
    nvisited++;
    return nvisited - 1 == ch_visit ? (ch_truth ? 1 : -1) : 0;
}


/* calling a C function the way its flags say */
static PyObject *invoke(PyMethodDef *m, PyObject *self, int n, PyObject *a, PyObject *b)
{
    CHECK(m != NULL, "model: the function is there");
    __CPROVER_assume(m != NULL);
    PyObject *it[2] = {a, b};
    int how = m->ml_flags & (METH_VARARGS | METH_KEYWORDS | METH_NOARGS | METH_O | METH_FASTCALL);
    if (how == METH_O)
        return ((PyCFunction)m->ml_meth)(self, a);
    if (how == METH_NOARGS)
#ifdef NOARGS1
        return ((PyObject *(*)(PyObject *))m->ml_meth)(self);
#else
        return ((PyCFunction)m->ml_meth)(self, NULL);
#endif
    if (how == METH_FASTCALL)
        return ((_PyCFunctionFast)m->ml_meth)(self, it, n);
    if (how == (METH_FASTCALL | METH_KEYWORDS))
        return ((_PyCFunctionFastWithKeywords)m->ml_meth)(self, it, n, NULL);
    PyObject *t = make_tuple(n, it), *r;
    if (how == METH_VARARGS)
        r = ((PyCFunction)m->ml_meth)(self, t);
    else
        r = ((PyCFunctionWithKeywords)m->ml_meth)(self, t, NULL);
    Py_DECREF(t);
    return r;
}

static PyObject *module_call(unsigned name, PyObject *arg)
{
    return invoke(method_of(module_def->m_methods, name), &module_object, 1, arg, NULL);
}

static int event_is(int k, int what, PyObject *a, PyObject *b, PyObject *c)
{
    return k < nev && EV[k].what == what && EV[k].a == a && EV[k].b == b && EV[k].c == c;
}

static int ch_value;
