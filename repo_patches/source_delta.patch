From 2167b5977a48bf265c8222275f8a7537bbace152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:10 +0000
Subject: [PATCH 01/23] fix: C checker crashed on, leaked for and misread
 unusual attribute names

Checker.check encoded the name as UTF-8 without checking for failure or
releasing the result: a name with a lone surrogate was a segmentation fault,
every check of a name without permission leaked a bytes object, and a name
starting with "__iter__\\0" was taken for "__iter__".
---
 src/zope/security/_zope_security_checker.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 23d7fb9..ee452c7 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -22,9 +22,6 @@ static PyObject *ForbiddenAttribute, *Unauthorized;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -161,8 +158,9 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 
 
   operator = (IS_STRING(name)
-              && MAKE_STRING(name)[0] == '_'
-              && MAKE_STRING(name)[1] == '_');
+              && PyUnicode_GET_LENGTH(name) >= 2
+              && PyUnicode_READ_CHAR(name, 0) == '_'
+              && PyUnicode_READ_CHAR(name, 1) == '_');
 
   if (operator)
     {
@@ -178,7 +176,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 /*             __traceback_supplement__ = (TracebackSupplement, object) */
 /*             raise ForbiddenAttribute, (name, object) */
 
-      if (strcmp("__iter__", MAKE_STRING(name)) == 0
+      if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0
           && ! PyObject_HasAttr(object, name))
         /* We want an attr error if we're asked for __iter__ and we don't
            have it. We'll get one by allowing the access. */
-- 
2.43.0


From 68134fcecd8dce3f38c05f342edff2ac5cce11b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:10 +0000
Subject: [PATCH 02/23] fix: C checker asked the interaction for permission
 None

A None in a permission table means that access is forbidden, as documented
and as the Python implementation has it.
---
 src/zope/security/_zope_security_checker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index ee452c7..739d942 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -144,7 +144,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
     permission = PyDict_GetItem(self->getperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
@@ -228,7 +228,7 @@ Checker_check_setattr(Checker *self, PyObject *args)
     permission = PyDict_GetItem(self->setperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-- 
2.43.0


From 6f132d0a2909bafc54973c869ca9bc3dd5319f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:10 +0000
Subject: [PATCH 03/23] fix: C selectChecker left an object bare when
 isinstance() failed

An error while testing whether the object is an exception (its __class__
raises) was taken as "yes", so the bare object was returned with an
exception pending.
---
 src/zope/security/_zope_security_checker.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 739d942..c112202 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -518,11 +518,16 @@ selectChecker(PyObject *ignored, PyObject *object)
 /*     if checker is _defaultChecker and isinstance(object, Exception): */
 /*         return None */
 
-  if (checker == _defaultChecker
-      && PyObject_IsInstance(object, PyExc_Exception))
+  if (checker == _defaultChecker)
     {
-      Py_INCREF(Py_None);
-      return Py_None;
+      int isexc = PyObject_IsInstance(object, PyExc_Exception);
+      if (isexc < 0)
+        return NULL;
+      if (isexc)
+        {
+          Py_INCREF(Py_None);
+          return Py_None;
+        }
     }
 
 /*     while not isinstance(checker, Checker): */
-- 
2.43.0


From 386792412c8ab0c392aeb59e8668fd0a45758a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:10 +0000
Subject: [PATCH 04/23] fix: C Checker leaked its tables when initialized again

---
 src/zope/security/_zope_security_checker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index c112202..df2704c 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -371,9 +371,9 @@ Checker_init(Checker *self, PyObject *args, PyObject *kwds)
     return -1;
 
   Py_INCREF(getperms);
-  self->getperms = getperms;
+  Py_XSETREF(self->getperms, getperms);
   Py_XINCREF(setperms);
-  self->setperms = setperms;
+  Py_XSETREF(self->setperms, setperms);
 
   return 0;
 }
-- 
2.43.0


From 883a67ab6523ef88f64090b2ac8a49512e1cdf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:10 +0000
Subject: [PATCH 05/23] fix: C proxy text crashed on unusual class or module
 names

str() and repr() of a proxy encoded the names as UTF-8 without checking for
failure or releasing the result: a __module__ that is None or has a lone
surrogate was a segmentation fault, and every call leaked two bytes objects.
---
 src/zope/security/_proxy.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index d38eaeb..5ce1822 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -23,9 +23,6 @@ static PyObject *__class__str = 0, *__name__str = 0, *__module__str = 0;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -384,7 +381,6 @@ static PyObject *
 default_repr(PyObject *object)
 {
   PyObject *klass, *name = 0, *module = 0, *result = 0;
-  char *sname, *smodule;
 
   klass = PyObject_GetAttr(object, __class__str);
   if (klass == NULL)
@@ -393,22 +389,16 @@ default_repr(PyObject *object)
   name  = PyObject_GetAttr(klass, __name__str);
   if (name == NULL)
     goto err;
-  sname = MAKE_STRING(name);
-  if (sname == NULL)
-    goto err;
 
   module = PyObject_GetAttr(klass, __module__str);
   if (module != NULL) {
-    smodule = MAKE_STRING(module);
-    if (smodule == NULL)
-      goto err;
-    result = FROM_STRING_FORMAT("<security proxied %s.%s instance at %p>",
-                                 smodule, sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S.%S instance at %p>",
+                                 module, name, object);
   }
   else {
     PyErr_Clear();
-    result = FROM_STRING_FORMAT("<security proxied %s instance at %p>",
-                                 sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S instance at %p>",
+                                 name, object);
   }
 
  err:
-- 
2.43.0


From cdd6efede1a69125bbb8d70511351a8047339411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:10 +0000
Subject: [PATCH 06/23] fix: C proxy let __index__ through without a check

The slot was inherited from zope.proxy, so operator.index(), hex(), slicing
etc. reached the object whatever its checker said.
---
 src/zope/security/_proxy.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 5ce1822..4e33e58 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -68,6 +68,7 @@ DECLARE_STRING(op_ifloordiv);
 DECLARE_STRING(op_ilshift);
 DECLARE_STRING(op_imod);
 DECLARE_STRING(op_imul);
+DECLARE_STRING(op_index);
 DECLARE_STRING(op_int);
 DECLARE_STRING(op_invert);
 DECLARE_STRING(op_ior);
@@ -552,6 +553,7 @@ proxy_bool(PyObject *self)
 UNOP(invert, PyNumber_Invert)
 UNOP(int, call_int)
 UNOP(float, call_float)
+UNOP(index, PyNumber_Index)
 
 INPLACE(add, PyNumber_InPlaceAdd)
 INPLACE(sub, PyNumber_InPlaceSubtract)
@@ -712,6 +714,7 @@ proxy_as_number = {
     proxy_truediv,                  /* nb_true_divide */
     proxy_ifloordiv,                /* nb_inplace_floor_divide */
     proxy_itruediv,                 /* nb_inplace_true_divide */
+    proxy_index,                    /* nb_index */
 };
 
 static PySequenceMethods
@@ -881,6 +884,7 @@ if((str_op_##S = INTERN("__" #S "__")) == NULL) return MOD_ERROR_VAL
   INIT_STRING_OP(ilshift);
   INIT_STRING_OP(imod);
   INIT_STRING_OP(imul);
+  INIT_STRING_OP(index);
   INIT_STRING_OP(int);
   INIT_STRING_OP(invert);
   INIT_STRING_OP(ior);
-- 
2.43.0


From 773121cd8c388309f06e0fb39a79c51e2290d661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:10 +0000
Subject: [PATCH 07/23] fix: C proxy crashed in next() of an object that is no
 iterator

PyIter_Next may only be called with an iterator.  It also drops the value of
a StopIteration, which is now passed on like any other exception.
---
 src/zope/security/_proxy.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 4e33e58..3c96111 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -351,7 +351,12 @@ proxy_iternext(SecurityProxy *self)
 
   if (check(self, str_check_getattr, str___next__) >= 0)
     {
-      result = PyIter_Next(self->proxy.proxy_object);
+      PyObject *object = self->proxy.proxy_object;
+      if (!PyIter_Check(object))
+        return PyErr_Format(PyExc_TypeError,
+                            "'%.200s' object is not an iterator",
+                            Py_TYPE(object)->tp_name);
+      result = Py_TYPE(object)->tp_iternext(object);
       PROXY_RESULT(self, result);
     }
   return result;
-- 
2.43.0


From 4b7a09dbcd65ff2fb0096bcd9185944df691be4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:45 +0000
Subject: [PATCH 08/23] fix: Python proxy handed out comparison results
 unprotected

Rich comparisons may return any object; the C proxy has the checker protect
all but booleans.
---
 src/zope/security/proxy.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 66a4cb7..cb2e766 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -55,6 +55,13 @@ def _check_name_inplace(meth):
     return functools.update_wrapper(_wrapper, meth)
 
 
+def _protect_comparison(checker, result):
+    # Like the C implementation: plain booleans need no protection.
+    if result is True or result is False:
+        return result
+    return checker.proxy(result)
+
+
 def _fmt_address(obj):
     # Try to replicate PyString_FromString("%p", obj), which actually uses
     # the platform sprintf(buf, "%p", obj), which we cannot access from Python
@@ -177,32 +184,38 @@ class ProxyPy(PyProxyBase):
     def __lt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped < other
+        checker = super().__getattribute__('_checker')
+        return _protect_comparison(checker, wrapped < other)
 
     def __le__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped <= other
+        checker = super().__getattribute__('_checker')
+        return _protect_comparison(checker, wrapped <= other)
 
     def __eq__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped == other
+        checker = super().__getattribute__('_checker')
+        return _protect_comparison(checker, wrapped == other)
 
     def __ne__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped != other
+        checker = super().__getattribute__('_checker')
+        return _protect_comparison(checker, wrapped != other)
 
     def __ge__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped >= other
+        checker = super().__getattribute__('_checker')
+        return _protect_comparison(checker, wrapped >= other)
 
     def __gt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped > other
+        checker = super().__getattribute__('_checker')
+        return _protect_comparison(checker, wrapped > other)
 
     def __hash__(self):
         # no check
-- 
2.43.0


From 32923d4a5183db2e1f18353c841e0dab04271d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:45 +0000
Subject: [PATCH 09/23] fix: Python proxy changed what it wraps in in-place
 operations

A new object returned by an in-place method (even NotImplemented) replaced
the wrapped object under the old checker, and without an in-place method
the result got the old checker. Have the checker protect new objects, as the
C proxy does.
---
 src/zope/security/proxy.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index cb2e766..684219e 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -17,6 +17,7 @@ Helper functions for proxies.
 .. seealso:: :ref:`proxy-known-issues`
 """
 import functools
+import operator
 import sys
 
 from zope.proxy import PyProxyBase
@@ -45,13 +46,11 @@ def _check_name_inplace(meth):
         wrapped = super(PyProxyBase, self).__getattribute__('_wrapped')
         checker = super(PyProxyBase, self).__getattribute__('_checker')
         checker.check(wrapped, name)
-        w_meth = getattr(wrapped, name, None)
-        if w_meth is not None:
-            # The proxy object cannot change; we are modifying in place.
-            self._wrapped = w_meth(*args, **kw)
+        res = getattr(operator, name)(wrapped, *args, **kw)
+        if res is wrapped:
+            # The operation was really carried out in place.
             return self
-        x_name = '__%s__' % name[3:-2]
-        return ProxyPy(getattr(wrapped, x_name)(*args, **kw), checker)
+        return checker.proxy(res)
     return functools.update_wrapper(_wrapper, meth)
 
 
-- 
2.43.0


From 39eec7b5dca0ea70aad16e24c0db66b53403d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:45 +0000
Subject: [PATCH 10/23] fix: Python proxy let anyone replace its checker and
 object

Assigning proxy._checker or proxy._wrapped was possible for code outside of
the proxy, although reading and deleting them is not; and __new__ accepted
None as the checker.
---
 src/zope/security/proxy.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 684219e..157a6d2 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -86,9 +86,11 @@ class ProxyPy(PyProxyBase):
     __slots__ = ('_wrapped', '_checker')
 
     def __new__(cls, value, checker):
-        inst = super().__new__(cls)
-        inst._wrapped = value
-        inst._checker = checker
+        if checker is None:
+            raise ValueError('checker may now be None')
+        inst = object.__new__(cls)
+        object.__setattr__(inst, '_wrapped', value)
+        object.__setattr__(inst, '_checker', checker)
         return inst
 
     def __init__(self, value, checker):
@@ -166,6 +168,9 @@ class ProxyPy(PyProxyBase):
 
     def __setattr__(self, name, value):
         if name in ('_wrapped', '_checker'):
+            # Only allow _wrapped and _checker to be set from inside.
+            if sys._getframe(1).f_locals.get('self') is not self:
+                raise AttributeError(name)
             return super().__setattr__(name, value)
         wrapped = super().__getattribute__('_wrapped')
         checker = super().__getattribute__('_checker')
-- 
2.43.0


From 3c4b6ca622968be32e60c50bc13803889bef3afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:22 +0000
Subject: [PATCH 11/23] fix: Python proxy gave some attributes away without
 asking the checker

Reading __cmp__, __hash__, __bool__ or a comparison method by name is an
attribute access like any other, as in the C proxy; the operators themselves
stay unchecked.
---
 src/zope/security/proxy.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 157a6d2..01fad0a 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -111,10 +111,7 @@ class ProxyPy(PyProxyBase):
         checker = super().__getattribute__('_checker')
         if name == '_checker':
             return checker
-        if name not in ('__cmp__', '__hash__', '__bool__',
-                        '__lt__', '__le__', '__eq__', '__ne__', '__ge__',
-                        '__gt__'):
-            checker.check_getattr(wrapped, name)
+        checker.check_getattr(wrapped, name)
         if name in ('__reduce__', '__reduce_ex__'):
             # The superclass specifically denies access to __reduce__
             # and __reduce__ex__, not letting proxies be pickled. But
-- 
2.43.0


From fec98c9590fba71f29899ac4ce039de1fdf8627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:13 +0000
Subject: [PATCH 12/23] fix: removing a participation could take out an equal
 one

list.remove() compares by equality, so a participation equal to but distinct
from the one to be removed could leave the interaction in its stead.
---
 src/zope/security/simplepolicies.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/simplepolicies.py b/src/zope/security/simplepolicies.py
index 7035e07..cbf81dc 100644
--- a/src/zope/security/simplepolicies.py
+++ b/src/zope/security/simplepolicies.py
@@ -54,7 +54,15 @@ class ParanoidSecurityPolicy:
         if participation.interaction is not self:
             raise ValueError("%r does not belong to this interaction"
                              % participation)
-        self.participations.remove(participation)
+        # Compare by identity: list.remove() would take out another
+        # participation that happens to be equal.
+        for i, p in enumerate(self.participations):
+            if p is participation:
+                del self.participations[i]
+                break
+        else:
+            raise ValueError("%r is not in the participations"
+                             % participation)
         participation.interaction = None
 
     def checkPermission(self, permission, object):
-- 
2.43.0


From 281d093c6c967810d538ca6e15d3e0aad167a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:21 +0000
Subject: [PATCH 13/23] fix: canAccess and canWrite asked about the proxy, not
 the object

---
 src/zope/security/checker.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 3fa15d3..73764cb 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -86,6 +86,7 @@ from zope.security.interfaces import ISecurityProxyFactory
 from zope.security.interfaces import Unauthorized
 from zope.security.proxy import Proxy
 from zope.security.proxy import getChecker
+from zope.security.proxy import getObject
 
 
 try:
@@ -149,6 +150,8 @@ def canWrite(obj, name):
     """
     obj = ProxyFactory(obj)
     checker = getChecker(obj)
+    # The checks are about the object itself, as when the proxy makes them.
+    obj = getObject(obj)
     try:
         checker.check_setattr(obj, name)
     except Unauthorized:
@@ -186,6 +189,8 @@ def canAccess(obj, name):
     # implementation, special names like __getitem__
     obj = ProxyFactory(obj)
     checker = getChecker(obj)
+    # The checks are about the object itself, as when the proxy makes them.
+    obj = getObject(obj)
     try:
         checker.check_getattr(obj, name)
     except Unauthorized:
-- 
2.43.0


From ce80bac6dcd1c6c8a10cca2228c38e863f1c5fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:01 +0000
Subject: [PATCH 14/23] fix: values of a protected dictionary's views came out
 unprotected

---
 src/zope/security/checker.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 73764cb..4af832a 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -753,6 +753,16 @@ _setChecker = NamesChecker([
 ])
 
 
+# The views of a dictionary are no immutable values: what they give out is
+# still to be protected.
+_dictViewChecker = NamesChecker([
+    '__iter__', '__len__', '__str__', '__contains__',
+    'isdisjoint',
+    '__and__', '__or__', '__sub__', '__xor__',
+    '__rand__', '__ror__', '__rsub__', '__rxor__',
+])
+
+
 class _BasicTypes(dict):
     """Basic Types Dictionary
 
@@ -791,9 +801,6 @@ _basic_types = {
     datetime.date: NoProxy,
     datetime.time: NoProxy,
     datetime.tzinfo: NoProxy,
-    type({}.values()): NoProxy,
-    type({}.keys()): NoProxy,
-    type({}.items()): NoProxy,
 }
 
 try:
@@ -852,6 +859,9 @@ _default_checkers = {
     list: NamesChecker(['__getitem__', '__len__', '__iter__',
                         '__contains__', 'index', 'count', '__str__',
                         '__add__', '__radd__', ]),
+    type({}.keys()): _dictViewChecker,
+    type({}.values()): _dictViewChecker,
+    type({}.items()): _dictViewChecker,
     set: _setChecker,
     frozenset: _setChecker,
     # XXX: actually decimal.Decimal has more methods, which are unlisted here
@@ -937,6 +947,9 @@ def _fixup_dictlike(dict_type):
                 _default_checkers[iter_type] = _iteratorChecker
 
 
+_fixup_dictlike(dict)
+
+
 def _fixup_odict():
     from collections import OrderedDict
 
-- 
2.43.0


From 121f3e2de9619b3e82ea807e87b82fe2ea3bdc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:29 +0000
Subject: [PATCH 15/23] fix: interfaces could be changed through their proxies

---
 src/zope/security/checker.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 4af832a..233ca28 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -838,6 +838,12 @@ class _Sequence:
         raise NotImplementedError()
 
 
+def _readNames(interface):
+    # Tagged values may be read but not set from outside.
+    return [name for name in interface.names(all=True)
+            if name != 'setTaggedValue']
+
+
 _Declaration_checker = InterfaceChecker(
     IDeclaration,
     _implied=CheckerPublic,
@@ -913,8 +919,8 @@ _default_checkers = {
     type(iter(set())): _iteratorChecker,
     type(iter(_Sequence())): _iteratorChecker,
     type(f()): _iteratorChecker,
-    type(Interface): InterfaceChecker(
-        IInterface,
+    type(Interface): NamesChecker(
+        _readNames(IInterface),
         __str__=CheckerPublic,
         _implied=CheckerPublic,
         subscribe=CheckerPublic,
@@ -922,8 +928,8 @@ _default_checkers = {
         # AttributeErrors are passed.
         __len__=CheckerPublic,
     ),
-    zope.interface.interface.Method: InterfaceChecker(
-        zope.interface.interfaces.IMethod),
+    zope.interface.interface.Method: NamesChecker(
+        _readNames(zope.interface.interfaces.IMethod)),
     zope.interface.declarations.ProvidesClass: _Declaration_checker,
     zope.interface.declarations.ClassProvides: _Declaration_checker,
     zope.interface.declarations.Implements: _Declaration_checker,
-- 
2.43.0


From 5628e439d02a93a818ce8c6d9de160075a472360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:13 +0000
Subject: [PATCH 16/23] fix: a watched check failed when the object could not
 be printed

---
 src/zope/security/checker.py | 40 +++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 233ca28..755ca4a 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -593,6 +593,14 @@ class CombinedChecker(Checker):
                 raise unauthorized_exception
 
 
+def _safe_repr(object):
+    # Watching a check must not change its outcome.
+    try:
+        return repr(object)
+    except Exception:
+        return f'<unprintable {type(object).__name__} instance>'
+
+
 class CheckerLoggingMixin:
     """
     Debugging mixin for checkers.
@@ -618,18 +626,18 @@ class CheckerLoggingMixin:
             super().check(object, name)
             if self.verbosity > 1:
                 if name in _available_by_default:
-                    self._log('[CHK] + Always available: %s on %r'
-                              % (name, object), 2)
+                    self._log('[CHK] + Always available: %s on %s'
+                              % (name, _safe_repr(object)), 2)
                 else:
                     self._log(
-                        f'[CHK] + Granted: {name} on {object!r}', 2)
+                        f'[CHK] + Granted: {name} on {_safe_repr(object)}', 2)
         except Unauthorized:
             self._log(
-                f'[CHK] - Unauthorized: {name} on {object!r}')
+                f'[CHK] - Unauthorized: {name} on {_safe_repr(object)}')
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden: {name} on {object!r}')
+                f'[CHK] - Forbidden: {name} on {_safe_repr(object)}')
             raise
 
     def check_getattr(self, object, name):
@@ -638,20 +646,20 @@ class CheckerLoggingMixin:
             if self.verbosity > 1:
                 if name in _available_by_default:
                     self._log(
-                        '[CHK] + Always available getattr: %s on %r'
-                        % (name, object), 2)
+                        '[CHK] + Always available getattr: %s on %s'
+                        % (name, _safe_repr(object)), 2)
                 else:
                     self._log(
-                        '[CHK] + Granted getattr: %s on %r'
-                        % (name, object), 2)
+                        '[CHK] + Granted getattr: %s on %s'
+                        % (name, _safe_repr(object)), 2)
         except Unauthorized:
             self._log(
-                f'[CHK] - Unauthorized getattr: {name} on {object!r}'
+                f'[CHK] - Unauthorized getattr: {name} on {_safe_repr(object)}'
             )
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden getattr: {name} on {object!r}')
+                f'[CHK] - Forbidden getattr: {name} on {_safe_repr(object)}')
             raise
 
     __setitem__ = check_getattr
@@ -661,16 +669,16 @@ class CheckerLoggingMixin:
             super().check_setattr(object, name)
             if self.verbosity > 1:
                 self._log(
-                    '[CHK] + Granted setattr: {} on {!r}'.format(
-                        name, object), 2)
+                    '[CHK] + Granted setattr: {} on {}'.format(
+                        name, _safe_repr(object)), 2)
         except Unauthorized:
             self._log(
-                '[CHK] - Unauthorized setattr: {} on {!r}'.format(
-                    name, object))
+                '[CHK] - Unauthorized setattr: {} on {}'.format(
+                    name, _safe_repr(object)))
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden setattr: {name} on {object!r}')
+                f'[CHK] - Forbidden setattr: {name} on {_safe_repr(object)}')
             raise
 
 
-- 
2.43.0


From 7cf7e13add31e7da411bd159cdfa695770c904d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:52 +0000
Subject: [PATCH 17/23] fix: Python proxy gave its own __doc__ and __slots__
 for the object's

---
 src/zope/security/proxy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 01fad0a..7e25e43 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -118,7 +118,7 @@ class ProxyPy(PyProxyBase):
             # for backwards compatibility, we need to be able to
             # pickle proxies. See checker:Global for an example.
             val = getattr(wrapped, name)
-        elif name == '__module__':
+        elif name in ('__module__', '__doc__', '__slots__'):
             # The superclass deals with descriptors found in the type
             # of this object just like the Python language spec states, letting
             # them have precedence over things found in the instance. This
@@ -132,7 +132,9 @@ class ProxyPy(PyProxyBase):
             # pickling, and checker:Global can't return anything more
             # sophisticated than a str (a tuple) because it gets proxied and
             # breaks pickling again. Our solution is to match the C version for
-            # this one attribute.
+            # this one attribute, and for the others that are plain values
+            # in the proxy's own class, which have nothing to do with the
+            # wrapped object.
             val = getattr(wrapped, name)
         else:
             val = super().__getattribute__(name)
-- 
2.43.0


From a5e336bc63dfa56c809df1f0ed14109b0862c602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 18/23] fix: C checker used a permission after the interaction
 had dropped it

---
 src/zope/security/_zope_security_checker.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index df2704c..280187f 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -100,30 +100,40 @@ checkPermission(PyObject *permission, PyObject *object, PyObject *name)
       PyObject *interaction, *r;
       int i;
 
+      /* We only borrowed the permission from the table, which anything
+         called below may change. */
+      Py_INCREF(permission);
+
 /*          if thread_local.interaction.checkPermission(permission, object): */
 /*                 return */
       interaction = PyObject_GetAttr(thread_local, str_interaction);
       if (interaction == NULL)
-        return -1;
+        goto err;
       r = PyObject_CallMethodObjArgs(interaction, str_checkPermission,
                                      permission, object, NULL);
       Py_DECREF(interaction);
       if (r == NULL)
-        return -1;
+        goto err;
       i = PyObject_IsTrue(r);
       Py_DECREF(r);
       if (i < 0)
-        return -1;
+        goto err;
       if (i)
-        return 0;
+        {
+          Py_DECREF(permission);
+          return 0;
+        }
 /*             else: */
 /*                 __traceback_supplement__ = (TracebackSupplement, object) */
 /*                 raise Unauthorized(object, name, permission) */
       r = Py_BuildValue("OOO", object, name, permission);
       if (r == NULL)
-        return -1;
+        goto err;
       PyErr_SetObject(Unauthorized, r);
       Py_DECREF(r);
+
+ err:
+      Py_DECREF(permission);
       return -1;
 }
 
-- 
2.43.0


From f022f9ea562527d667918077d4caa4898b9184a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 19/23] fix: C checker crashed when an item of it was deleted

---
 src/zope/security/_zope_security_checker.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 280187f..b88e5e0 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -149,6 +149,13 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
   PyObject *permission=NULL;
   int operator;
 
+  if (name == NULL)
+    {
+      /* We are a slot as well, and got called for "del checker[object]". */
+      PyErr_SetString(PyExc_TypeError, "Checkers do not support item deletion");
+      return -1;
+    }
+
 /*         permission = self._permission_func(name) */
   if (self->getperms)
     permission = PyDict_GetItem(self->getperms, name);
-- 
2.43.0


From 66cb46d749fc30c65dd6fe0654b0fb8cf8e3e149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:08 +0000
Subject: [PATCH 20/23] fix: C proxy failed int() and float() of objects that
 have only __index__

---
 src/zope/security/_proxy.c | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 3c96111..69368aa 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -470,22 +470,6 @@ proxy_call(SecurityProxy *self, PyObject *args, PyObject *kwds)
  * Number methods.
  */
 
-#define NUMBER_METHOD(M) \
-static PyObject * \
-call_##M(PyObject *self) \
-{ \
-  PyNumberMethods *nb = self->ob_type->tp_as_number; \
-  if (nb == NULL || nb->nb_##M == NULL) { \
-    PyErr_SetString(PyExc_TypeError, \
-                    "object can't be converted to " #M); \
-    return NULL; \
-  } \
-  return nb->nb_##M(self); \
-}
-
-NUMBER_METHOD(int)
-NUMBER_METHOD(float)
-
 static PyObject *
 call_ipow(PyObject *self, PyObject *other)
 {
@@ -556,8 +540,8 @@ proxy_bool(PyObject *self)
 }
 
 UNOP(invert, PyNumber_Invert)
-UNOP(int, call_int)
-UNOP(float, call_float)
+UNOP(int, PyNumber_Long)
+UNOP(float, PyNumber_Float)
 UNOP(index, PyNumber_Index)
 
 INPLACE(add, PyNumber_InPlaceAdd)
-- 
2.43.0


From f9f6d49771b1811de72b9b563d4a6af14f9f5069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:50 +0000
Subject: [PATCH 21/23] fix: the compiled checker's traversal ignored positive
 answers of its visitor

gc.get_referrers() of a permission table did not find the checker holding it.
---
 src/zope/security/_zope_security_checker.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index b88e5e0..3ddd945 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -368,11 +368,8 @@ Checker_dealloc(Checker *self)
 static int
 Checker_traverse(Checker *self, visitproc visit, void *arg)
 {
-  if (self->getperms != NULL && visit(self->getperms, arg) < 0)
-    return -1;
-  if (self->setperms != NULL && visit(self->setperms, arg) < 0)
-    return -1;
-
+  Py_VISIT(self->getperms);
+  Py_VISIT(self->setperms);
   return 0;
 }
 
-- 
2.43.0


From 2e7ebcb7116eef3347ea867f5ae0c2146c9976eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:35 +0000
Subject: [PATCH 22/23] fix: the module require directive did not accept the
 interface it documents

---
 src/zope/security/metadirectives.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/zope/security/metadirectives.py b/src/zope/security/metadirectives.py
index 34cee99..c16aa76 100644
--- a/src/zope/security/metadirectives.py
+++ b/src/zope/security/metadirectives.py
@@ -198,6 +198,15 @@ class IRequire(Interface):
         value_type=PythonIdentifier(),
         required=False)
 
+    interface = Tokens(
+        title="Interface",
+        description=("Interfaces whose names to require permission for. "
+                     "Access to all of the names defined by the "
+                     "interface(s) will require the permission. Multiple "
+                     "interfaces can be supplied."),
+        value_type=GlobalInterface(),
+        required=False)
+
     permission = Permission(
         title="Permission ID",
         description="The ID of the permission to require.")
-- 
2.43.0


From 94ca3210b8ac9df3fa6feeb03f9ae986f55571c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:42 +0000
Subject: [PATCH 23/23] fix: the Python proxy answered the names of its own
 methods for objects that lack them

---
 src/zope/security/proxy.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 7e25e43..207d32f 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -118,7 +118,7 @@ class ProxyPy(PyProxyBase):
             # for backwards compatibility, we need to be able to
             # pickle proxies. See checker:Global for an example.
             val = getattr(wrapped, name)
-        elif name in ('__module__', '__doc__', '__slots__'):
+        elif name in _own_names:
             # The superclass deals with descriptors found in the type
             # of this object just like the Python language spec states, letting
             # them have precedence over things found in the instance. This
@@ -132,9 +132,9 @@ class ProxyPy(PyProxyBase):
             # pickling, and checker:Global can't return anything more
             # sophisticated than a str (a tuple) because it gets proxied and
             # breaks pickling again. Our solution is to match the C version for
-            # this one attribute, and for the others that are plain values
-            # in the proxy's own class, which have nothing to do with the
-            # wrapped object.
+            # this one attribute, and for everything else in the proxy's own
+            # class (such as its operators), which the wrapped object need
+            # not have at all.
             val = getattr(wrapped, name)
         else:
             val = super().__getattribute__(name)
@@ -351,6 +351,9 @@ for name in ['__iadd__',
     meth = getattr(PyProxyBase, name)
     setattr(ProxyPy, name, _check_name_inplace(meth))
 
+# The names the proxy class itself has, unlike the methods of subclasses.
+_own_names = frozenset(dir(ProxyPy))
+
 
 def getCheckerPy(proxy):
     return super(ProxyPy, proxy).__getattribute__('_checker')
-- 
2.43.0

