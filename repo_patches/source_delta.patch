From 19239fdc92047a493defdd1aad91ade711ff6da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 01/39] fix: set_num_servers starts service only on servers
 that are free

---
 queueing_tool/queues/queue_servers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 6a196cc..7d4238e 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -690,7 +690,11 @@ class QueueServer(object):
             the_str = "n must be a positive integer or infinity.\n{0}"
             raise ValueError(the_str.format(str(self)))
         else:
-            agents_to_queue = max(min(n - self.num_servers, len(self.queue)), 0)
+            # Only servers that are actually free can take on agents. The
+            # number of busy servers can exceed num_servers, since lowering
+            # the number of servers does not interrupt agents in service.
+            num_servicing = self.num_system - len(self.queue)
+            agents_to_queue = max(min(n - num_servicing, len(self.queue)), 0)
 
             for _ in range(agents_to_queue):
                 self._service_from_queue()
-- 
2.43.0


From 46d56c324cacf50f732871f5835abb9d5b066bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 02/39] fix: InfoQueue deactivates itself when deactive_t
 passes

---
 queueing_tool/queues/queue_extentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 2a5150f..e49406f 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -313,7 +313,7 @@ class InfoQueue(LossQueue):
                 self._next_ct = self.arrival_f(self._current_t)
 
                 if self._next_ct >= self.deactive_t:
-                    self.active = False
+                    self._active = False
                     return
 
                 self._num_total += 1
-- 
2.43.0


From bd1e4bd8d71f8bee14516a800f3cdaeea70672c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 03/39] fix: active_cap is never exceeded when a queue is set
 active again

---
 queueing_tool/queues/queue_extentions.py | 4 ++++
 queueing_tool/queues/queue_servers.py    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index e49406f..c3d5710 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -309,6 +309,10 @@ class InfoQueue(LossQueue):
             self._num_total += 1
             heappush(self._arrivals, agent)
         else:
+            if self._oArrivals >= self.active_cap:
+                self._active = False
+                return
+
             if self._current_t >= self._next_ct:
                 self._next_ct = self.arrival_f(self._current_t)
 
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 7d4238e..049d366 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -360,6 +360,10 @@ class QueueServer(object):
             self._num_total += 1
             heappush(self._arrivals, agent)
         else:
+            if self._oArrivals >= self.active_cap:
+                self._active = False
+                return
+
             if self._current_t >= self._next_ct:
                 self._next_ct = self.arrival_f(self._current_t)
 
-- 
2.43.0


From a16308bdbf424a6194f31bc3519a1833ac260d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 04/39] fix: event heap grows from empty and reports emptiness

Pushing onto a heap built with no keys doubled a capacity of zero and
wrote outside of the array, and popping from an empty heap read outside
of it.
---
 queueing_tool/network/priority_queue.c   | 582 +++++++++++++----------
 queueing_tool/network/priority_queue.pyx |   9 +-
 2 files changed, 341 insertions(+), 250 deletions(-)

diff --git a/queueing_tool/network/priority_queue.c b/queueing_tool/network/priority_queue.c
index 0e6dcdf..d5a9d1f 100644
--- a/queueing_tool/network/priority_queue.c
+++ b/queueing_tool/network/priority_queue.c
@@ -1,4 +1,4 @@
-/* Generated by Cython 0.29.32 */
+/* Generated by Cython 0.29.37 */
 
 #ifndef PY_SSIZE_T_CLEAN
 #define PY_SSIZE_T_CLEAN
@@ -9,8 +9,8 @@
 #elif PY_VERSION_HEX < 0x02060000 || (0x03000000 <= PY_VERSION_HEX && PY_VERSION_HEX < 0x03030000)
     #error Cython requires Python 2.6+ or Python 3.3+.
 #else
-#define CYTHON_ABI "0_29_32"
-#define CYTHON_HEX_VERSION 0x001D20F0
+#define CYTHON_ABI "0_29_37"
+#define CYTHON_HEX_VERSION 0x001D25F0
 #define CYTHON_FUTURE_DIVISION 0
 #include <stddef.h>
 #ifndef offsetof
@@ -78,16 +78,20 @@
   #define CYTHON_FAST_THREAD_STATE 0
   #undef CYTHON_FAST_PYCALL
   #define CYTHON_FAST_PYCALL 0
-  #undef CYTHON_PEP489_MULTI_PHASE_INIT
-  #define CYTHON_PEP489_MULTI_PHASE_INIT 0
+  #if PY_VERSION_HEX < 0x03090000
+    #undef CYTHON_PEP489_MULTI_PHASE_INIT
+    #define CYTHON_PEP489_MULTI_PHASE_INIT 0
+  #elif !defined(CYTHON_PEP489_MULTI_PHASE_INIT)
+    #define CYTHON_PEP489_MULTI_PHASE_INIT 1
+  #endif
   #undef CYTHON_USE_TP_FINALIZE
-  #define CYTHON_USE_TP_FINALIZE 0
+  #define CYTHON_USE_TP_FINALIZE (PY_VERSION_HEX >= 0x030400a1 && PYPY_VERSION_NUM >= 0x07030C00)
   #undef CYTHON_USE_DICT_VERSIONS
   #define CYTHON_USE_DICT_VERSIONS 0
   #undef CYTHON_USE_EXC_INFO_STACK
   #define CYTHON_USE_EXC_INFO_STACK 0
   #ifndef CYTHON_UPDATE_DESCRIPTOR_DOC
-    #define CYTHON_UPDATE_DESCRIPTOR_DOC (PYPY_VERSION_HEX >= 0x07030900)
+    #define CYTHON_UPDATE_DESCRIPTOR_DOC 0
   #endif
 #elif defined(PYSTON_VERSION)
   #define CYTHON_COMPILING_IN_PYPY 0
@@ -203,7 +207,7 @@
     #undef CYTHON_USE_PYLONG_INTERNALS
     #define CYTHON_USE_PYLONG_INTERNALS 0
   #elif !defined(CYTHON_USE_PYLONG_INTERNALS)
-    #define CYTHON_USE_PYLONG_INTERNALS 1
+    #define CYTHON_USE_PYLONG_INTERNALS (PY_VERSION_HEX < 0x030C00A5)
   #endif
   #ifndef CYTHON_USE_PYLIST_INTERNALS
     #define CYTHON_USE_PYLIST_INTERNALS 1
@@ -242,7 +246,7 @@
     #define CYTHON_USE_TP_FINALIZE (PY_VERSION_HEX >= 0x030400a1)
   #endif
   #ifndef CYTHON_USE_DICT_VERSIONS
-    #define CYTHON_USE_DICT_VERSIONS (PY_VERSION_HEX >= 0x030600B1)
+    #define CYTHON_USE_DICT_VERSIONS ((PY_VERSION_HEX >= 0x030600B1) && (PY_VERSION_HEX < 0x030C00A5))
   #endif
   #if PY_VERSION_HEX >= 0x030B00A4
     #undef CYTHON_USE_EXC_INFO_STACK
@@ -365,9 +369,6 @@
   #endif
 #endif
 
-#if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX < 0x02070600 && !defined(Py_OptimizeFlag)
-  #define Py_OptimizeFlag 0
-#endif
 #define __PYX_BUILD_PY_SSIZE_T "n"
 #define CYTHON_FORMAT_SSIZE_T "z"
 #if PY_MAJOR_VERSION < 3
@@ -445,6 +446,11 @@
 #endif
   #define __Pyx_DefaultClassType PyType_Type
 #endif
+#if PY_VERSION_HEX >= 0x030900F0 && !CYTHON_COMPILING_IN_PYPY
+  #define __Pyx_PyObject_GC_IsFinalized(o) PyObject_GC_IsFinalized(o)
+#else
+  #define __Pyx_PyObject_GC_IsFinalized(o) _PyGC_FINALIZED(o)
+#endif
 #ifndef Py_TPFLAGS_CHECKTYPES
   #define Py_TPFLAGS_CHECKTYPES 0
 #endif
@@ -552,11 +558,11 @@ static CYTHON_INLINE void * PyThread_tss_get(Py_tss_t *key) {
 #endif
 #if PY_VERSION_HEX > 0x03030000 && defined(PyUnicode_KIND)
   #define CYTHON_PEP393_ENABLED 1
-  #if defined(PyUnicode_IS_READY)
-  #define __Pyx_PyUnicode_READY(op)       (likely(PyUnicode_IS_READY(op)) ?\
-                                              0 : _PyUnicode_Ready((PyObject *)(op)))
+  #if PY_VERSION_HEX >= 0x030C0000
+    #define __Pyx_PyUnicode_READY(op)       (0)
   #else
-  #define __Pyx_PyUnicode_READY(op)       (0)
+    #define __Pyx_PyUnicode_READY(op)       (likely(PyUnicode_IS_READY(op)) ?\
+                                                0 : _PyUnicode_Ready((PyObject *)(op)))
   #endif
   #define __Pyx_PyUnicode_GET_LENGTH(u)   PyUnicode_GET_LENGTH(u)
   #define __Pyx_PyUnicode_READ_CHAR(u, i) PyUnicode_READ_CHAR(u, i)
@@ -565,14 +571,14 @@ static CYTHON_INLINE void * PyThread_tss_get(Py_tss_t *key) {
   #define __Pyx_PyUnicode_DATA(u)         PyUnicode_DATA(u)
   #define __Pyx_PyUnicode_READ(k, d, i)   PyUnicode_READ(k, d, i)
   #define __Pyx_PyUnicode_WRITE(k, d, i, ch)  PyUnicode_WRITE(k, d, i, ch)
-  #if defined(PyUnicode_IS_READY) && defined(PyUnicode_GET_SIZE)
-  #if CYTHON_COMPILING_IN_CPYTHON && PY_VERSION_HEX >= 0x03090000
-  #define __Pyx_PyUnicode_IS_TRUE(u)      (0 != (likely(PyUnicode_IS_READY(u)) ? PyUnicode_GET_LENGTH(u) : ((PyCompactUnicodeObject *)(u))->wstr_length))
-  #else
-  #define __Pyx_PyUnicode_IS_TRUE(u)      (0 != (likely(PyUnicode_IS_READY(u)) ? PyUnicode_GET_LENGTH(u) : PyUnicode_GET_SIZE(u)))
-  #endif
+  #if PY_VERSION_HEX >= 0x030C0000
+    #define __Pyx_PyUnicode_IS_TRUE(u)      (0 != PyUnicode_GET_LENGTH(u))
   #else
-  #define __Pyx_PyUnicode_IS_TRUE(u)      (0 != PyUnicode_GET_LENGTH(u))
+    #if CYTHON_COMPILING_IN_CPYTHON && PY_VERSION_HEX >= 0x03090000
+    #define __Pyx_PyUnicode_IS_TRUE(u)      (0 != (likely(PyUnicode_IS_READY(u)) ? PyUnicode_GET_LENGTH(u) : ((PyCompactUnicodeObject *)(u))->wstr_length))
+    #else
+    #define __Pyx_PyUnicode_IS_TRUE(u)      (0 != (likely(PyUnicode_IS_READY(u)) ? PyUnicode_GET_LENGTH(u) : PyUnicode_GET_SIZE(u)))
+    #endif
   #endif
 #else
   #define CYTHON_PEP393_ENABLED 0
@@ -955,7 +961,7 @@ static const char *__pyx_filename;
 
 
 static const char *__pyx_f[] = {
-  "priority_queue.pyx",
+  "queueing_tool/network/priority_queue.pyx",
   "stringsource",
   "array.pxd",
   "type.pxd",
@@ -1605,18 +1611,18 @@ static CYTHON_INLINE int __Pyx_object_dict_version_matches(PyObject* obj, PY_UIN
 
 /* GetModuleGlobalName.proto */
 #if CYTHON_USE_DICT_VERSIONS
-#define __Pyx_GetModuleGlobalName(var, name)  {\
+#define __Pyx_GetModuleGlobalName(var, name)  do {\
     static PY_UINT64_T __pyx_dict_version = 0;\
     static PyObject *__pyx_dict_cached_value = NULL;\
     (var) = (likely(__pyx_dict_version == __PYX_GET_DICT_VERSION(__pyx_d))) ?\
         (likely(__pyx_dict_cached_value) ? __Pyx_NewRef(__pyx_dict_cached_value) : __Pyx_GetBuiltinName(name)) :\
         __Pyx__GetModuleGlobalName(name, &__pyx_dict_version, &__pyx_dict_cached_value);\
-}
-#define __Pyx_GetModuleGlobalNameUncached(var, name)  {\
+} while(0)
+#define __Pyx_GetModuleGlobalNameUncached(var, name)  do {\
     PY_UINT64_T __pyx_dict_version;\
     PyObject *__pyx_dict_cached_value;\
     (var) = __Pyx__GetModuleGlobalName(name, &__pyx_dict_version, &__pyx_dict_cached_value);\
-}
+} while(0)
 static PyObject *__Pyx__GetModuleGlobalName(PyObject *name, PY_UINT64_T *dict_version, PyObject **dict_cached_value);
 #else
 #define __Pyx_GetModuleGlobalName(var, name)  (var) = __Pyx__GetModuleGlobalName(name)
@@ -1720,6 +1726,23 @@ static CYTHON_INLINE int __Pyx_PyList_Append(PyObject* list, PyObject* x) {
 #define __Pyx_PyList_Append(L,x) PyList_Append(L,x)
 #endif
 
+/* AssertionsEnabled.proto */
+#define __Pyx_init_assertions_enabled()
+#if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX < 0x02070600 && !defined(Py_OptimizeFlag)
+  #define __pyx_assertions_enabled() (1)
+#elif PY_VERSION_HEX < 0x03080000  ||  CYTHON_COMPILING_IN_PYPY  ||  defined(Py_LIMITED_API)
+  #define __pyx_assertions_enabled() (!Py_OptimizeFlag)
+#elif CYTHON_COMPILING_IN_CPYTHON && PY_VERSION_HEX >= 0x030900A6
+  static int __pyx_assertions_enabled_flag;
+  #define __pyx_assertions_enabled() (__pyx_assertions_enabled_flag)
+  #undef __Pyx_init_assertions_enabled
+  static void __Pyx_init_assertions_enabled(void) {
+    __pyx_assertions_enabled_flag = ! _PyInterpreterState_GetConfig(__Pyx_PyThreadState_Current->interp)->optimization_level;
+  }
+#else
+  #define __pyx_assertions_enabled() (!Py_OptimizeFlag)
+#endif
+
 /* None.proto */
 static CYTHON_INLINE void __Pyx_RaiseUnboundLocalError(const char *varname);
 
@@ -1759,14 +1782,22 @@ static CYTHON_INLINE PyObject* __Pyx_PyObject_GetAttrStrNoError(PyObject* obj, P
 static int __Pyx_setup_reduce(PyObject* type_obj);
 
 /* TypeImport.proto */
-#ifndef __PYX_HAVE_RT_ImportType_proto
-#define __PYX_HAVE_RT_ImportType_proto
-enum __Pyx_ImportType_CheckSize {
-   __Pyx_ImportType_CheckSize_Error = 0,
-   __Pyx_ImportType_CheckSize_Warn = 1,
-   __Pyx_ImportType_CheckSize_Ignore = 2
+#ifndef __PYX_HAVE_RT_ImportType_proto_0_29_37
+#define __PYX_HAVE_RT_ImportType_proto_0_29_37
+#if __STDC_VERSION__ >= 201112L
+#include <stdalign.h>
+#endif
+#if __STDC_VERSION__ >= 201112L || __cplusplus >= 201103L
+#define __PYX_GET_STRUCT_ALIGNMENT_0_29_37(s) alignof(s)
+#else
+#define __PYX_GET_STRUCT_ALIGNMENT_0_29_37(s) sizeof(void*)
+#endif
+enum __Pyx_ImportType_CheckSize_0_29_37 {
+   __Pyx_ImportType_CheckSize_Error_0_29_37 = 0,
+   __Pyx_ImportType_CheckSize_Warn_0_29_37 = 1,
+   __Pyx_ImportType_CheckSize_Ignore_0_29_37 = 2
 };
-static PyTypeObject *__Pyx_ImportType(PyObject* module, const char *module_name, const char *class_name, size_t size, enum __Pyx_ImportType_CheckSize check_size);
+static PyTypeObject *__Pyx_ImportType_0_29_37(PyObject* module, const char *module_name, const char *class_name, size_t size, size_t alignment, enum __Pyx_ImportType_CheckSize_0_29_37 check_size);
 #endif
 
 /* CLineInTraceback.proto */
@@ -2760,7 +2791,7 @@ static int __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_2_
       }
       __Pyx_GOTREF(__pyx_t_7);
     }
-    if (!(likely(PyTuple_CheckExact(__pyx_t_7))||((__pyx_t_7) == Py_None)||(PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "tuple", Py_TYPE(__pyx_t_7)->tp_name), 0))) __PYX_ERR(0, 26, __pyx_L1_error)
+    if (!(likely(PyTuple_CheckExact(__pyx_t_7))||((__pyx_t_7) == Py_None)||((void)PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "tuple", Py_TYPE(__pyx_t_7)->tp_name), 0))) __PYX_ERR(0, 26, __pyx_L1_error)
     __Pyx_XDECREF_SET(__pyx_v_key, ((PyObject*)__pyx_t_7));
     __pyx_t_7 = 0;
     if (unlikely(__pyx_v_key == Py_None)) {
@@ -2838,7 +2869,7 @@ static int __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_2_
       }
       __Pyx_GOTREF(__pyx_t_7);
     }
-    if (!(likely(PyTuple_CheckExact(__pyx_t_7))||((__pyx_t_7) == Py_None)||(PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "tuple", Py_TYPE(__pyx_t_7)->tp_name), 0))) __PYX_ERR(0, 27, __pyx_L1_error)
+    if (!(likely(PyTuple_CheckExact(__pyx_t_7))||((__pyx_t_7) == Py_None)||((void)PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "tuple", Py_TYPE(__pyx_t_7)->tp_name), 0))) __PYX_ERR(0, 27, __pyx_L1_error)
     __Pyx_XDECREF_SET(__pyx_v_key, ((PyObject*)__pyx_t_7));
     __pyx_t_7 = 0;
     if (unlikely(__pyx_v_key == Py_None)) {
@@ -3007,7 +3038,7 @@ static int __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_2_
       }
       __Pyx_GOTREF(__pyx_t_4);
     }
-    if (!(likely(PyTuple_CheckExact(__pyx_t_4))||((__pyx_t_4) == Py_None)||(PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "tuple", Py_TYPE(__pyx_t_4)->tp_name), 0))) __PYX_ERR(0, 39, __pyx_L1_error)
+    if (!(likely(PyTuple_CheckExact(__pyx_t_4))||((__pyx_t_4) == Py_None)||((void)PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "tuple", Py_TYPE(__pyx_t_4)->tp_name), 0))) __PYX_ERR(0, 39, __pyx_L1_error)
     __Pyx_XDECREF_SET(__pyx_v_key, ((PyObject*)__pyx_t_4));
     __pyx_t_4 = 0;
 
@@ -3373,8 +3404,8 @@ static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQu
 static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_6pop(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self) {
   PyObject *__pyx_r = NULL;
   __Pyx_RefNannyDeclarations
-  Py_ssize_t __pyx_t_1;
-  int __pyx_t_2;
+  int __pyx_t_1;
+  Py_ssize_t __pyx_t_2;
   PyObject *__pyx_t_3 = NULL;
   PyObject *__pyx_t_4 = NULL;
   PyObject *__pyx_t_5 = NULL;
@@ -3386,13 +3417,43 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   /* "queueing_tool/network/priority_queue.pyx":64
  *         cdef int k
  * 
+ *         if self.size == 0:             # <<<<<<<<<<<<<<
+ *             return None
+ * 
+ */
+  __pyx_t_1 = ((__pyx_v_self->size == 0) != 0);
+  if (__pyx_t_1) {
+
+    /* "queueing_tool/network/priority_queue.pyx":65
+ * 
+ *         if self.size == 0:
+ *             return None             # <<<<<<<<<<<<<<
+ * 
+ *         self.heappop()
+ */
+    __Pyx_XDECREF(__pyx_r);
+    __pyx_r = Py_None; __Pyx_INCREF(Py_None);
+    goto __pyx_L0;
+
+    /* "queueing_tool/network/priority_queue.pyx":64
+ *         cdef int k
+ * 
+ *         if self.size == 0:             # <<<<<<<<<<<<<<
+ *             return None
+ * 
+ */
+  }
+
+  /* "queueing_tool/network/priority_queue.pyx":67
+ *             return None
+ * 
  *         self.heappop()             # <<<<<<<<<<<<<<
  *         with nogil:
  *             while self.next_time != self.q_times[self.next_node]:
  */
   ((struct __pyx_vtabstruct_13queueing_tool_7network_14priority_queue_PriorityQueue *)__pyx_v_self->__pyx_vtab)->heappop(__pyx_v_self);
 
-  /* "queueing_tool/network/priority_queue.pyx":65
+  /* "queueing_tool/network/priority_queue.pyx":68
  * 
  *         self.heappop()
  *         with nogil:             # <<<<<<<<<<<<<<
@@ -3407,7 +3468,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
       #endif
       /*try:*/ {
 
-        /* "queueing_tool/network/priority_queue.pyx":66
+        /* "queueing_tool/network/priority_queue.pyx":69
  *         self.heappop()
  *         with nogil:
  *             while self.next_time != self.q_times[self.next_node]:             # <<<<<<<<<<<<<<
@@ -3415,22 +3476,22 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  *                     self.size -= 1
  */
         while (1) {
-          if (unlikely(!__pyx_v_self->q_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 66, __pyx_L4_error)}
-          __pyx_t_1 = __pyx_v_self->next_node;
-          __pyx_t_2 = ((__pyx_v_self->next_time != (*((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->q_times.data) + __pyx_t_1)) )))) != 0);
-          if (!__pyx_t_2) break;
+          if (unlikely(!__pyx_v_self->q_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 69, __pyx_L5_error)}
+          __pyx_t_2 = __pyx_v_self->next_node;
+          __pyx_t_1 = ((__pyx_v_self->next_time != (*((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->q_times.data) + __pyx_t_2)) )))) != 0);
+          if (!__pyx_t_1) break;
 
-          /* "queueing_tool/network/priority_queue.pyx":67
+          /* "queueing_tool/network/priority_queue.pyx":70
  *         with nogil:
  *             while self.next_time != self.q_times[self.next_node]:
  *                 if self.size == 0:             # <<<<<<<<<<<<<<
  *                     self.size -= 1
  *                     break
  */
-          __pyx_t_2 = ((__pyx_v_self->size == 0) != 0);
-          if (__pyx_t_2) {
+          __pyx_t_1 = ((__pyx_v_self->size == 0) != 0);
+          if (__pyx_t_1) {
 
-            /* "queueing_tool/network/priority_queue.pyx":68
+            /* "queueing_tool/network/priority_queue.pyx":71
  *             while self.next_time != self.q_times[self.next_node]:
  *                 if self.size == 0:
  *                     self.size -= 1             # <<<<<<<<<<<<<<
@@ -3439,16 +3500,16 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
             __pyx_v_self->size = (__pyx_v_self->size - 1);
 
-            /* "queueing_tool/network/priority_queue.pyx":69
+            /* "queueing_tool/network/priority_queue.pyx":72
  *                 if self.size == 0:
  *                     self.size -= 1
  *                     break             # <<<<<<<<<<<<<<
  *                 self.heappop()
  * 
  */
-            goto __pyx_L7_break;
+            goto __pyx_L8_break;
 
-            /* "queueing_tool/network/priority_queue.pyx":67
+            /* "queueing_tool/network/priority_queue.pyx":70
  *         with nogil:
  *             while self.next_time != self.q_times[self.next_node]:
  *                 if self.size == 0:             # <<<<<<<<<<<<<<
@@ -3457,7 +3518,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
           }
 
-          /* "queueing_tool/network/priority_queue.pyx":70
+          /* "queueing_tool/network/priority_queue.pyx":73
  *                     self.size -= 1
  *                     break
  *                 self.heappop()             # <<<<<<<<<<<<<<
@@ -3466,10 +3527,10 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
           ((struct __pyx_vtabstruct_13queueing_tool_7network_14priority_queue_PriorityQueue *)__pyx_v_self->__pyx_vtab)->heappop(__pyx_v_self);
         }
-        __pyx_L7_break:;
+        __pyx_L8_break:;
       }
 
-      /* "queueing_tool/network/priority_queue.pyx":65
+      /* "queueing_tool/network/priority_queue.pyx":68
  * 
  *         self.heappop()
  *         with nogil:             # <<<<<<<<<<<<<<
@@ -3482,30 +3543,30 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
           __Pyx_FastGIL_Forget();
           Py_BLOCK_THREADS
           #endif
-          goto __pyx_L5;
+          goto __pyx_L6;
         }
-        __pyx_L4_error: {
+        __pyx_L5_error: {
           #ifdef WITH_THREAD
           __Pyx_FastGIL_Forget();
           Py_BLOCK_THREADS
           #endif
           goto __pyx_L1_error;
         }
-        __pyx_L5:;
+        __pyx_L6:;
       }
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":72
+  /* "queueing_tool/network/priority_queue.pyx":75
  *                 self.heappop()
  * 
  *         if self.size < 0:             # <<<<<<<<<<<<<<
  *             self.size += 1
  *             return None
  */
-  __pyx_t_2 = ((__pyx_v_self->size < 0) != 0);
-  if (__pyx_t_2) {
+  __pyx_t_1 = ((__pyx_v_self->size < 0) != 0);
+  if (__pyx_t_1) {
 
-    /* "queueing_tool/network/priority_queue.pyx":73
+    /* "queueing_tool/network/priority_queue.pyx":76
  * 
  *         if self.size < 0:
  *             self.size += 1             # <<<<<<<<<<<<<<
@@ -3514,7 +3575,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
     __pyx_v_self->size = (__pyx_v_self->size + 1);
 
-    /* "queueing_tool/network/priority_queue.pyx":74
+    /* "queueing_tool/network/priority_queue.pyx":77
  *         if self.size < 0:
  *             self.size += 1
  *             return None             # <<<<<<<<<<<<<<
@@ -3525,7 +3586,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
     __pyx_r = Py_None; __Pyx_INCREF(Py_None);
     goto __pyx_L0;
 
-    /* "queueing_tool/network/priority_queue.pyx":72
+    /* "queueing_tool/network/priority_queue.pyx":75
  *                 self.heappop()
  * 
  *         if self.size < 0:             # <<<<<<<<<<<<<<
@@ -3534,7 +3595,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":75
+  /* "queueing_tool/network/priority_queue.pyx":78
  *             self.size += 1
  *             return None
  *         return self.next_time, self.next_node             # <<<<<<<<<<<<<<
@@ -3542,11 +3603,11 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  *     @cython.boundscheck(False)
  */
   __Pyx_XDECREF(__pyx_r);
-  __pyx_t_3 = PyFloat_FromDouble(__pyx_v_self->next_time); if (unlikely(!__pyx_t_3)) __PYX_ERR(0, 75, __pyx_L1_error)
+  __pyx_t_3 = PyFloat_FromDouble(__pyx_v_self->next_time); if (unlikely(!__pyx_t_3)) __PYX_ERR(0, 78, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_3);
-  __pyx_t_4 = __Pyx_PyInt_From_int(__pyx_v_self->next_node); if (unlikely(!__pyx_t_4)) __PYX_ERR(0, 75, __pyx_L1_error)
+  __pyx_t_4 = __Pyx_PyInt_From_int(__pyx_v_self->next_node); if (unlikely(!__pyx_t_4)) __PYX_ERR(0, 78, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_4);
-  __pyx_t_5 = PyTuple_New(2); if (unlikely(!__pyx_t_5)) __PYX_ERR(0, 75, __pyx_L1_error)
+  __pyx_t_5 = PyTuple_New(2); if (unlikely(!__pyx_t_5)) __PYX_ERR(0, 78, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_5);
   __Pyx_GIVEREF(__pyx_t_3);
   PyTuple_SET_ITEM(__pyx_t_5, 0, __pyx_t_3);
@@ -3579,7 +3640,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   return __pyx_r;
 }
 
-/* "queueing_tool/network/priority_queue.pyx":80
+/* "queueing_tool/network/priority_queue.pyx":83
  *     @cython.wraparound(False)
  *     @cython.nonecheck(False)
  *     def push(self, double t, int k):             # <<<<<<<<<<<<<<
@@ -3621,11 +3682,11 @@ static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQu
         case  1:
         if (likely((values[1] = __Pyx_PyDict_GetItemStr(__pyx_kwds, __pyx_n_s_k)) != 0)) kw_args--;
         else {
-          __Pyx_RaiseArgtupleInvalid("push", 1, 2, 2, 1); __PYX_ERR(0, 80, __pyx_L3_error)
+          __Pyx_RaiseArgtupleInvalid("push", 1, 2, 2, 1); __PYX_ERR(0, 83, __pyx_L3_error)
         }
       }
       if (unlikely(kw_args > 0)) {
-        if (unlikely(__Pyx_ParseOptionalKeywords(__pyx_kwds, __pyx_pyargnames, 0, values, pos_args, "push") < 0)) __PYX_ERR(0, 80, __pyx_L3_error)
+        if (unlikely(__Pyx_ParseOptionalKeywords(__pyx_kwds, __pyx_pyargnames, 0, values, pos_args, "push") < 0)) __PYX_ERR(0, 83, __pyx_L3_error)
       }
     } else if (PyTuple_GET_SIZE(__pyx_args) != 2) {
       goto __pyx_L5_argtuple_error;
@@ -3633,12 +3694,12 @@ static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQu
       values[0] = PyTuple_GET_ITEM(__pyx_args, 0);
       values[1] = PyTuple_GET_ITEM(__pyx_args, 1);
     }
-    __pyx_v_t = __pyx_PyFloat_AsDouble(values[0]); if (unlikely((__pyx_v_t == (double)-1) && PyErr_Occurred())) __PYX_ERR(0, 80, __pyx_L3_error)
-    __pyx_v_k = __Pyx_PyInt_As_int(values[1]); if (unlikely((__pyx_v_k == (int)-1) && PyErr_Occurred())) __PYX_ERR(0, 80, __pyx_L3_error)
+    __pyx_v_t = __pyx_PyFloat_AsDouble(values[0]); if (unlikely((__pyx_v_t == (double)-1) && PyErr_Occurred())) __PYX_ERR(0, 83, __pyx_L3_error)
+    __pyx_v_k = __Pyx_PyInt_As_int(values[1]); if (unlikely((__pyx_v_k == (int)-1) && PyErr_Occurred())) __PYX_ERR(0, 83, __pyx_L3_error)
   }
   goto __pyx_L4_argument_unpacking_done;
   __pyx_L5_argtuple_error:;
-  __Pyx_RaiseArgtupleInvalid("push", 1, 2, 2, PyTuple_GET_SIZE(__pyx_args)); __PYX_ERR(0, 80, __pyx_L3_error)
+  __Pyx_RaiseArgtupleInvalid("push", 1, 2, 2, PyTuple_GET_SIZE(__pyx_args)); __PYX_ERR(0, 83, __pyx_L3_error)
   __pyx_L3_error:;
   __Pyx_AddTraceback("queueing_tool.network.priority_queue.PriorityQueue.push", __pyx_clineno, __pyx_lineno, __pyx_filename);
   __Pyx_RefNannyFinishContext();
@@ -3656,27 +3717,30 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   __Pyx_RefNannyDeclarations
   Py_ssize_t __pyx_t_1;
   int __pyx_t_2;
-  PyObject *__pyx_t_3 = NULL;
-  int __pyx_t_4;
-  __Pyx_memviewslice __pyx_t_5 = { 0, 0, { 0 }, { 0 }, { 0 } };
-  __Pyx_memviewslice __pyx_t_6 = { 0, 0, { 0 }, { 0 }, { 0 } };
+  long __pyx_t_3;
+  long __pyx_t_4;
+  long __pyx_t_5;
+  PyObject *__pyx_t_6 = NULL;
+  int __pyx_t_7;
+  __Pyx_memviewslice __pyx_t_8 = { 0, 0, { 0 }, { 0 }, { 0 } };
+  __Pyx_memviewslice __pyx_t_9 = { 0, 0, { 0 }, { 0 }, { 0 } };
   int __pyx_lineno = 0;
   const char *__pyx_filename = NULL;
   int __pyx_clineno = 0;
   __Pyx_RefNannySetupContext("push", 0);
 
-  /* "queueing_tool/network/priority_queue.pyx":82
+  /* "queueing_tool/network/priority_queue.pyx":85
  *     def push(self, double t, int k):
  * 
  *         self.q_times[k] = t             # <<<<<<<<<<<<<<
  *         if self.size < self.actual_size:
  *             self.sorted_times[self.size] = t
  */
-  if (unlikely(!__pyx_v_self->q_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 82, __pyx_L1_error)}
+  if (unlikely(!__pyx_v_self->q_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 85, __pyx_L1_error)}
   __pyx_t_1 = __pyx_v_k;
   *((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->q_times.data) + __pyx_t_1)) )) = __pyx_v_t;
 
-  /* "queueing_tool/network/priority_queue.pyx":83
+  /* "queueing_tool/network/priority_queue.pyx":86
  * 
  *         self.q_times[k] = t
  *         if self.size < self.actual_size:             # <<<<<<<<<<<<<<
@@ -3686,29 +3750,29 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   __pyx_t_2 = ((__pyx_v_self->size < __pyx_v_self->actual_size) != 0);
   if (__pyx_t_2) {
 
-    /* "queueing_tool/network/priority_queue.pyx":84
+    /* "queueing_tool/network/priority_queue.pyx":87
  *         self.q_times[k] = t
  *         if self.size < self.actual_size:
  *             self.sorted_times[self.size] = t             # <<<<<<<<<<<<<<
  *             self.sorted_edges[self.size] = k
  * 
  */
-    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 84, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 87, __pyx_L1_error)}
     __pyx_t_1 = __pyx_v_self->size;
     *((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->sorted_times.data) + __pyx_t_1)) )) = __pyx_v_t;
 
-    /* "queueing_tool/network/priority_queue.pyx":85
+    /* "queueing_tool/network/priority_queue.pyx":88
  *         if self.size < self.actual_size:
  *             self.sorted_times[self.size] = t
  *             self.sorted_edges[self.size] = k             # <<<<<<<<<<<<<<
  * 
  *         else:
  */
-    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 85, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 88, __pyx_L1_error)}
     __pyx_t_1 = __pyx_v_self->size;
     *((int *) ( /* dim=0 */ ((char *) (((int *) __pyx_v_self->sorted_edges.data) + __pyx_t_1)) )) = __pyx_v_k;
 
-    /* "queueing_tool/network/priority_queue.pyx":83
+    /* "queueing_tool/network/priority_queue.pyx":86
  * 
  *         self.q_times[k] = t
  *         if self.size < self.actual_size:             # <<<<<<<<<<<<<<
@@ -3718,91 +3782,98 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
     goto __pyx_L3;
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":88
+  /* "queueing_tool/network/priority_queue.pyx":91
  * 
  *         else:
- *             array.resize_smart(self.array_times, 2 * self.size)             # <<<<<<<<<<<<<<
- *             array.resize_smart(self.array_edges, 2 * self.size)
- * 
+ *             self.actual_size = max(2 * self.actual_size, 1)             # <<<<<<<<<<<<<<
+ *             array.resize_smart(self.array_times, self.actual_size)
+ *             array.resize_smart(self.array_edges, self.actual_size)
  */
   /*else*/ {
-    __pyx_t_3 = ((PyObject *)__pyx_v_self->array_times);
-    __Pyx_INCREF(__pyx_t_3);
-    __pyx_t_4 = resize_smart(((arrayobject *)__pyx_t_3), (2 * __pyx_v_self->size)); if (unlikely(__pyx_t_4 == ((int)-1))) __PYX_ERR(0, 88, __pyx_L1_error)
-    __Pyx_DECREF(__pyx_t_3); __pyx_t_3 = 0;
+    __pyx_t_3 = 1;
+    __pyx_t_4 = (2 * __pyx_v_self->actual_size);
+    if (((__pyx_t_3 > __pyx_t_4) != 0)) {
+      __pyx_t_5 = __pyx_t_3;
+    } else {
+      __pyx_t_5 = __pyx_t_4;
+    }
+    __pyx_v_self->actual_size = __pyx_t_5;
 
-    /* "queueing_tool/network/priority_queue.pyx":89
+    /* "queueing_tool/network/priority_queue.pyx":92
  *         else:
- *             array.resize_smart(self.array_times, 2 * self.size)
- *             array.resize_smart(self.array_edges, 2 * self.size)             # <<<<<<<<<<<<<<
+ *             self.actual_size = max(2 * self.actual_size, 1)
+ *             array.resize_smart(self.array_times, self.actual_size)             # <<<<<<<<<<<<<<
+ *             array.resize_smart(self.array_edges, self.actual_size)
  * 
- *             self.actual_size *= 2
  */
-    __pyx_t_3 = ((PyObject *)__pyx_v_self->array_edges);
-    __Pyx_INCREF(__pyx_t_3);
-    __pyx_t_4 = resize_smart(((arrayobject *)__pyx_t_3), (2 * __pyx_v_self->size)); if (unlikely(__pyx_t_4 == ((int)-1))) __PYX_ERR(0, 89, __pyx_L1_error)
-    __Pyx_DECREF(__pyx_t_3); __pyx_t_3 = 0;
+    __pyx_t_6 = ((PyObject *)__pyx_v_self->array_times);
+    __Pyx_INCREF(__pyx_t_6);
+    __pyx_t_7 = resize_smart(((arrayobject *)__pyx_t_6), __pyx_v_self->actual_size); if (unlikely(__pyx_t_7 == ((int)-1))) __PYX_ERR(0, 92, __pyx_L1_error)
+    __Pyx_DECREF(__pyx_t_6); __pyx_t_6 = 0;
 
-    /* "queueing_tool/network/priority_queue.pyx":91
- *             array.resize_smart(self.array_edges, 2 * self.size)
+    /* "queueing_tool/network/priority_queue.pyx":93
+ *             self.actual_size = max(2 * self.actual_size, 1)
+ *             array.resize_smart(self.array_times, self.actual_size)
+ *             array.resize_smart(self.array_edges, self.actual_size)             # <<<<<<<<<<<<<<
  * 
- *             self.actual_size *= 2             # <<<<<<<<<<<<<<
  *             self.sorted_times = self.array_times
- *             self.sorted_edges = self.array_edges
  */
-    __pyx_v_self->actual_size = (__pyx_v_self->actual_size * 2);
+    __pyx_t_6 = ((PyObject *)__pyx_v_self->array_edges);
+    __Pyx_INCREF(__pyx_t_6);
+    __pyx_t_7 = resize_smart(((arrayobject *)__pyx_t_6), __pyx_v_self->actual_size); if (unlikely(__pyx_t_7 == ((int)-1))) __PYX_ERR(0, 93, __pyx_L1_error)
+    __Pyx_DECREF(__pyx_t_6); __pyx_t_6 = 0;
 
-    /* "queueing_tool/network/priority_queue.pyx":92
+    /* "queueing_tool/network/priority_queue.pyx":95
+ *             array.resize_smart(self.array_edges, self.actual_size)
  * 
- *             self.actual_size *= 2
  *             self.sorted_times = self.array_times             # <<<<<<<<<<<<<<
  *             self.sorted_edges = self.array_edges
  * 
  */
-    __pyx_t_5 = __Pyx_PyObject_to_MemoryviewSlice_dc_double(((PyObject *)__pyx_v_self->array_times), PyBUF_WRITABLE); if (unlikely(!__pyx_t_5.memview)) __PYX_ERR(0, 92, __pyx_L1_error)
+    __pyx_t_8 = __Pyx_PyObject_to_MemoryviewSlice_dc_double(((PyObject *)__pyx_v_self->array_times), PyBUF_WRITABLE); if (unlikely(!__pyx_t_8.memview)) __PYX_ERR(0, 95, __pyx_L1_error)
     __PYX_XDEC_MEMVIEW(&__pyx_v_self->sorted_times, 0);
-    __pyx_v_self->sorted_times = __pyx_t_5;
-    __pyx_t_5.memview = NULL;
-    __pyx_t_5.data = NULL;
+    __pyx_v_self->sorted_times = __pyx_t_8;
+    __pyx_t_8.memview = NULL;
+    __pyx_t_8.data = NULL;
 
-    /* "queueing_tool/network/priority_queue.pyx":93
- *             self.actual_size *= 2
+    /* "queueing_tool/network/priority_queue.pyx":96
+ * 
  *             self.sorted_times = self.array_times
  *             self.sorted_edges = self.array_edges             # <<<<<<<<<<<<<<
  * 
  *             self.sorted_times[self.size] = t
  */
-    __pyx_t_6 = __Pyx_PyObject_to_MemoryviewSlice_dc_int(((PyObject *)__pyx_v_self->array_edges), PyBUF_WRITABLE); if (unlikely(!__pyx_t_6.memview)) __PYX_ERR(0, 93, __pyx_L1_error)
+    __pyx_t_9 = __Pyx_PyObject_to_MemoryviewSlice_dc_int(((PyObject *)__pyx_v_self->array_edges), PyBUF_WRITABLE); if (unlikely(!__pyx_t_9.memview)) __PYX_ERR(0, 96, __pyx_L1_error)
     __PYX_XDEC_MEMVIEW(&__pyx_v_self->sorted_edges, 0);
-    __pyx_v_self->sorted_edges = __pyx_t_6;
-    __pyx_t_6.memview = NULL;
-    __pyx_t_6.data = NULL;
+    __pyx_v_self->sorted_edges = __pyx_t_9;
+    __pyx_t_9.memview = NULL;
+    __pyx_t_9.data = NULL;
 
-    /* "queueing_tool/network/priority_queue.pyx":95
+    /* "queueing_tool/network/priority_queue.pyx":98
  *             self.sorted_edges = self.array_edges
  * 
  *             self.sorted_times[self.size] = t             # <<<<<<<<<<<<<<
  *             self.sorted_edges[self.size] = k
  * 
  */
-    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 95, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 98, __pyx_L1_error)}
     __pyx_t_1 = __pyx_v_self->size;
     *((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->sorted_times.data) + __pyx_t_1)) )) = __pyx_v_t;
 
-    /* "queueing_tool/network/priority_queue.pyx":96
+    /* "queueing_tool/network/priority_queue.pyx":99
  * 
  *             self.sorted_times[self.size] = t
  *             self.sorted_edges[self.size] = k             # <<<<<<<<<<<<<<
  * 
  *         self.size += 1
  */
-    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 96, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 99, __pyx_L1_error)}
     __pyx_t_1 = __pyx_v_self->size;
     *((int *) ( /* dim=0 */ ((char *) (((int *) __pyx_v_self->sorted_edges.data) + __pyx_t_1)) )) = __pyx_v_k;
   }
   __pyx_L3:;
 
-  /* "queueing_tool/network/priority_queue.pyx":98
+  /* "queueing_tool/network/priority_queue.pyx":101
  *             self.sorted_edges[self.size] = k
  * 
  *         self.size += 1             # <<<<<<<<<<<<<<
@@ -3811,18 +3882,18 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
   __pyx_v_self->size = (__pyx_v_self->size + 1);
 
-  /* "queueing_tool/network/priority_queue.pyx":99
+  /* "queueing_tool/network/priority_queue.pyx":102
  * 
  *         self.size += 1
  *         _siftdown(self.sorted_times, self.sorted_edges, 0, self.size-1)             # <<<<<<<<<<<<<<
  * 
  *     @cython.boundscheck(False)
  */
-  if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 99, __pyx_L1_error)}
-  if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 99, __pyx_L1_error)}
+  if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 102, __pyx_L1_error)}
+  if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 102, __pyx_L1_error)}
   __pyx_f_13queueing_tool_7network_14priority_queue__siftdown(__pyx_v_self->sorted_times, __pyx_v_self->sorted_edges, 0, (__pyx_v_self->size - 1));
 
-  /* "queueing_tool/network/priority_queue.pyx":80
+  /* "queueing_tool/network/priority_queue.pyx":83
  *     @cython.wraparound(False)
  *     @cython.nonecheck(False)
  *     def push(self, double t, int k):             # <<<<<<<<<<<<<<
@@ -3834,9 +3905,9 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   __pyx_r = Py_None; __Pyx_INCREF(Py_None);
   goto __pyx_L0;
   __pyx_L1_error:;
-  __Pyx_XDECREF(__pyx_t_3);
-  __PYX_XDEC_MEMVIEW(&__pyx_t_5, 1);
-  __PYX_XDEC_MEMVIEW(&__pyx_t_6, 1);
+  __Pyx_XDECREF(__pyx_t_6);
+  __PYX_XDEC_MEMVIEW(&__pyx_t_8, 1);
+  __PYX_XDEC_MEMVIEW(&__pyx_t_9, 1);
   __Pyx_AddTraceback("queueing_tool.network.priority_queue.PriorityQueue.push", __pyx_clineno, __pyx_lineno, __pyx_filename);
   __pyx_r = NULL;
   __pyx_L0:;
@@ -3845,7 +3916,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   return __pyx_r;
 }
 
-/* "queueing_tool/network/priority_queue.pyx":104
+/* "queueing_tool/network/priority_queue.pyx":107
  *     @cython.wraparound(False)
  *     @cython.nonecheck(False)
  *     cdef void heappop(self) nogil:             # <<<<<<<<<<<<<<
@@ -3864,7 +3935,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
   const char *__pyx_filename = NULL;
   int __pyx_clineno = 0;
 
-  /* "queueing_tool/network/priority_queue.pyx":108
+  /* "queueing_tool/network/priority_queue.pyx":111
  *         cdef int last_node, return_node
  * 
  *         self.size -= 1             # <<<<<<<<<<<<<<
@@ -3873,29 +3944,29 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
  */
   __pyx_v_self->size = (__pyx_v_self->size - 1);
 
-  /* "queueing_tool/network/priority_queue.pyx":109
+  /* "queueing_tool/network/priority_queue.pyx":112
  * 
  *         self.size -= 1
  *         last_time = self.sorted_times[self.size]             # <<<<<<<<<<<<<<
  *         last_node = self.sorted_edges[self.size]
  * 
  */
-  if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 109, __pyx_L1_error)}
+  if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 112, __pyx_L1_error)}
   __pyx_t_1 = __pyx_v_self->size;
   __pyx_v_last_time = (*((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->sorted_times.data) + __pyx_t_1)) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":110
+  /* "queueing_tool/network/priority_queue.pyx":113
  *         self.size -= 1
  *         last_time = self.sorted_times[self.size]
  *         last_node = self.sorted_edges[self.size]             # <<<<<<<<<<<<<<
  * 
  *         if self.size > 0:
  */
-  if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 110, __pyx_L1_error)}
+  if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 113, __pyx_L1_error)}
   __pyx_t_1 = __pyx_v_self->size;
   __pyx_v_last_node = (*((int *) ( /* dim=0 */ ((char *) (((int *) __pyx_v_self->sorted_edges.data) + __pyx_t_1)) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":112
+  /* "queueing_tool/network/priority_queue.pyx":115
  *         last_node = self.sorted_edges[self.size]
  * 
  *         if self.size > 0:             # <<<<<<<<<<<<<<
@@ -3905,62 +3976,62 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
   __pyx_t_2 = ((__pyx_v_self->size > 0) != 0);
   if (__pyx_t_2) {
 
-    /* "queueing_tool/network/priority_queue.pyx":113
+    /* "queueing_tool/network/priority_queue.pyx":116
  * 
  *         if self.size > 0:
  *             return_time = self.sorted_times[0]             # <<<<<<<<<<<<<<
  *             return_node = self.sorted_edges[0]
  * 
  */
-    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 113, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 116, __pyx_L1_error)}
     __pyx_t_1 = 0;
     __pyx_v_return_time = (*((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->sorted_times.data) + __pyx_t_1)) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":114
+    /* "queueing_tool/network/priority_queue.pyx":117
  *         if self.size > 0:
  *             return_time = self.sorted_times[0]
  *             return_node = self.sorted_edges[0]             # <<<<<<<<<<<<<<
  * 
  *             self.sorted_times[0] = last_time
  */
-    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 114, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 117, __pyx_L1_error)}
     __pyx_t_1 = 0;
     __pyx_v_return_node = (*((int *) ( /* dim=0 */ ((char *) (((int *) __pyx_v_self->sorted_edges.data) + __pyx_t_1)) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":116
+    /* "queueing_tool/network/priority_queue.pyx":119
  *             return_node = self.sorted_edges[0]
  * 
  *             self.sorted_times[0] = last_time             # <<<<<<<<<<<<<<
  *             self.sorted_edges[0] = last_node
  * 
  */
-    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 116, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 119, __pyx_L1_error)}
     __pyx_t_1 = 0;
     *((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->sorted_times.data) + __pyx_t_1)) )) = __pyx_v_last_time;
 
-    /* "queueing_tool/network/priority_queue.pyx":117
+    /* "queueing_tool/network/priority_queue.pyx":120
  * 
  *             self.sorted_times[0] = last_time
  *             self.sorted_edges[0] = last_node             # <<<<<<<<<<<<<<
  * 
  *             _siftup(self.sorted_times, self.sorted_edges, 0, self.size)
  */
-    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 117, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 120, __pyx_L1_error)}
     __pyx_t_1 = 0;
     *((int *) ( /* dim=0 */ ((char *) (((int *) __pyx_v_self->sorted_edges.data) + __pyx_t_1)) )) = __pyx_v_last_node;
 
-    /* "queueing_tool/network/priority_queue.pyx":119
+    /* "queueing_tool/network/priority_queue.pyx":122
  *             self.sorted_edges[0] = last_node
  * 
  *             _siftup(self.sorted_times, self.sorted_edges, 0, self.size)             # <<<<<<<<<<<<<<
  * 
  *             self.next_time = return_time
  */
-    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 119, __pyx_L1_error)}
-    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 119, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 122, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 122, __pyx_L1_error)}
     __pyx_f_13queueing_tool_7network_14priority_queue__siftup(__pyx_v_self->sorted_times, __pyx_v_self->sorted_edges, 0, __pyx_v_self->size);
 
-    /* "queueing_tool/network/priority_queue.pyx":121
+    /* "queueing_tool/network/priority_queue.pyx":124
  *             _siftup(self.sorted_times, self.sorted_edges, 0, self.size)
  * 
  *             self.next_time = return_time             # <<<<<<<<<<<<<<
@@ -3969,7 +4040,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
  */
     __pyx_v_self->next_time = __pyx_v_return_time;
 
-    /* "queueing_tool/network/priority_queue.pyx":122
+    /* "queueing_tool/network/priority_queue.pyx":125
  * 
  *             self.next_time = return_time
  *             self.next_node = return_node             # <<<<<<<<<<<<<<
@@ -3978,7 +4049,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
  */
     __pyx_v_self->next_node = __pyx_v_return_node;
 
-    /* "queueing_tool/network/priority_queue.pyx":112
+    /* "queueing_tool/network/priority_queue.pyx":115
  *         last_node = self.sorted_edges[self.size]
  * 
  *         if self.size > 0:             # <<<<<<<<<<<<<<
@@ -3988,7 +4059,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
     goto __pyx_L3;
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":124
+  /* "queueing_tool/network/priority_queue.pyx":127
  *             self.next_node = return_node
  *         else:
  *             self.next_time = last_time             # <<<<<<<<<<<<<<
@@ -3998,7 +4069,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
   /*else*/ {
     __pyx_v_self->next_time = __pyx_v_last_time;
 
-    /* "queueing_tool/network/priority_queue.pyx":125
+    /* "queueing_tool/network/priority_queue.pyx":128
  *         else:
  *             self.next_time = last_time
  *             self.next_node = last_node             # <<<<<<<<<<<<<<
@@ -4009,7 +4080,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
   }
   __pyx_L3:;
 
-  /* "queueing_tool/network/priority_queue.pyx":104
+  /* "queueing_tool/network/priority_queue.pyx":107
  *     @cython.wraparound(False)
  *     @cython.nonecheck(False)
  *     cdef void heappop(self) nogil:             # <<<<<<<<<<<<<<
@@ -4583,7 +4654,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   return __pyx_r;
 }
 
-/* "queueing_tool/network/priority_queue.pyx":131
+/* "queueing_tool/network/priority_queue.pyx":134
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void _siftdown(double[:] heap, int[:] hmap, int startpos, int pos) nogil:             # <<<<<<<<<<<<<<
@@ -4600,7 +4671,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   Py_ssize_t __pyx_t_1;
   int __pyx_t_2;
 
-  /* "queueing_tool/network/priority_queue.pyx":135
+  /* "queueing_tool/network/priority_queue.pyx":138
  *     cdef int parentpos, mapitem, father
  * 
  *     newitem = heap[pos]             # <<<<<<<<<<<<<<
@@ -4610,7 +4681,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   __pyx_v_newitem = (*((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":136
+  /* "queueing_tool/network/priority_queue.pyx":139
  * 
  *     newitem = heap[pos]
  *     mapitem = hmap[pos]             # <<<<<<<<<<<<<<
@@ -4620,7 +4691,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   __pyx_v_mapitem = (*((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":137
+  /* "queueing_tool/network/priority_queue.pyx":140
  *     newitem = heap[pos]
  *     mapitem = hmap[pos]
  *     while pos > startpos:             # <<<<<<<<<<<<<<
@@ -4631,7 +4702,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_2 = ((__pyx_v_pos > __pyx_v_startpos) != 0);
     if (!__pyx_t_2) break;
 
-    /* "queueing_tool/network/priority_queue.pyx":138
+    /* "queueing_tool/network/priority_queue.pyx":141
  *     mapitem = hmap[pos]
  *     while pos > startpos:
  *         parentpos = (pos - 1) >> 1             # <<<<<<<<<<<<<<
@@ -4640,7 +4711,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
     __pyx_v_parentpos = ((__pyx_v_pos - 1) >> 1);
 
-    /* "queueing_tool/network/priority_queue.pyx":139
+    /* "queueing_tool/network/priority_queue.pyx":142
  *     while pos > startpos:
  *         parentpos = (pos - 1) >> 1
  *         parent = heap[parentpos]             # <<<<<<<<<<<<<<
@@ -4650,7 +4721,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_1 = __pyx_v_parentpos;
     __pyx_v_parent = (*((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":140
+    /* "queueing_tool/network/priority_queue.pyx":143
  *         parentpos = (pos - 1) >> 1
  *         parent = heap[parentpos]
  *         father = hmap[parentpos]             # <<<<<<<<<<<<<<
@@ -4660,7 +4731,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_1 = __pyx_v_parentpos;
     __pyx_v_father = (*((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":142
+    /* "queueing_tool/network/priority_queue.pyx":145
  *         father = hmap[parentpos]
  * 
  *         if newitem < parent:             # <<<<<<<<<<<<<<
@@ -4670,7 +4741,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_2 = ((__pyx_v_newitem < __pyx_v_parent) != 0);
     if (__pyx_t_2) {
 
-      /* "queueing_tool/network/priority_queue.pyx":143
+      /* "queueing_tool/network/priority_queue.pyx":146
  * 
  *         if newitem < parent:
  *             heap[pos] = parent             # <<<<<<<<<<<<<<
@@ -4680,7 +4751,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
       __pyx_t_1 = __pyx_v_pos;
       *((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )) = __pyx_v_parent;
 
-      /* "queueing_tool/network/priority_queue.pyx":144
+      /* "queueing_tool/network/priority_queue.pyx":147
  *         if newitem < parent:
  *             heap[pos] = parent
  *             hmap[pos] = father             # <<<<<<<<<<<<<<
@@ -4690,7 +4761,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
       __pyx_t_1 = __pyx_v_pos;
       *((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )) = __pyx_v_father;
 
-      /* "queueing_tool/network/priority_queue.pyx":145
+      /* "queueing_tool/network/priority_queue.pyx":148
  *             heap[pos] = parent
  *             hmap[pos] = father
  *             pos = parentpos             # <<<<<<<<<<<<<<
@@ -4699,7 +4770,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
       __pyx_v_pos = __pyx_v_parentpos;
 
-      /* "queueing_tool/network/priority_queue.pyx":146
+      /* "queueing_tool/network/priority_queue.pyx":149
  *             hmap[pos] = father
  *             pos = parentpos
  *             continue             # <<<<<<<<<<<<<<
@@ -4708,7 +4779,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
       goto __pyx_L3_continue;
 
-      /* "queueing_tool/network/priority_queue.pyx":142
+      /* "queueing_tool/network/priority_queue.pyx":145
  *         father = hmap[parentpos]
  * 
  *         if newitem < parent:             # <<<<<<<<<<<<<<
@@ -4717,7 +4788,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
     }
 
-    /* "queueing_tool/network/priority_queue.pyx":147
+    /* "queueing_tool/network/priority_queue.pyx":150
  *             pos = parentpos
  *             continue
  *         break             # <<<<<<<<<<<<<<
@@ -4729,7 +4800,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   }
   __pyx_L4_break:;
 
-  /* "queueing_tool/network/priority_queue.pyx":149
+  /* "queueing_tool/network/priority_queue.pyx":152
  *         break
  * 
  *     heap[pos] = newitem             # <<<<<<<<<<<<<<
@@ -4739,7 +4810,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   *((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )) = __pyx_v_newitem;
 
-  /* "queueing_tool/network/priority_queue.pyx":150
+  /* "queueing_tool/network/priority_queue.pyx":153
  * 
  *     heap[pos] = newitem
  *     hmap[pos] = mapitem             # <<<<<<<<<<<<<<
@@ -4749,7 +4820,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   *((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )) = __pyx_v_mapitem;
 
-  /* "queueing_tool/network/priority_queue.pyx":131
+  /* "queueing_tool/network/priority_queue.pyx":134
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void _siftdown(double[:] heap, int[:] hmap, int startpos, int pos) nogil:             # <<<<<<<<<<<<<<
@@ -4760,7 +4831,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   /* function exit code */
 }
 
-/* "queueing_tool/network/priority_queue.pyx":156
+/* "queueing_tool/network/priority_queue.pyx":159
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void _siftup(double[:] heap, int[:] hmap, int pos, int endpos) nogil:             # <<<<<<<<<<<<<<
@@ -4779,7 +4850,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   int __pyx_t_3;
   Py_ssize_t __pyx_t_4;
 
-  /* "queueing_tool/network/priority_queue.pyx":159
+  /* "queueing_tool/network/priority_queue.pyx":162
  *     cdef double newitem
  *     cdef int childpos, rightpos, mapitem
  *     cdef int startpos = pos             # <<<<<<<<<<<<<<
@@ -4788,7 +4859,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
   __pyx_v_startpos = __pyx_v_pos;
 
-  /* "queueing_tool/network/priority_queue.pyx":161
+  /* "queueing_tool/network/priority_queue.pyx":164
  *     cdef int startpos = pos
  * 
  *     newitem = heap[pos]             # <<<<<<<<<<<<<<
@@ -4798,7 +4869,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   __pyx_v_newitem = (*((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":162
+  /* "queueing_tool/network/priority_queue.pyx":165
  * 
  *     newitem = heap[pos]
  *     mapitem = hmap[pos]             # <<<<<<<<<<<<<<
@@ -4808,7 +4879,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   __pyx_v_mapitem = (*((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":164
+  /* "queueing_tool/network/priority_queue.pyx":167
  *     mapitem = hmap[pos]
  *     # Bubble up the smaller child until hitting a leaf.
  *     childpos = 2*pos + 1    # leftmost child position             # <<<<<<<<<<<<<<
@@ -4817,7 +4888,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
   __pyx_v_childpos = ((2 * __pyx_v_pos) + 1);
 
-  /* "queueing_tool/network/priority_queue.pyx":166
+  /* "queueing_tool/network/priority_queue.pyx":169
  *     childpos = 2*pos + 1    # leftmost child position
  * 
  *     while childpos < endpos:             # <<<<<<<<<<<<<<
@@ -4828,7 +4899,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_2 = ((__pyx_v_childpos < __pyx_v_endpos) != 0);
     if (!__pyx_t_2) break;
 
-    /* "queueing_tool/network/priority_queue.pyx":168
+    /* "queueing_tool/network/priority_queue.pyx":171
  *     while childpos < endpos:
  *         # Set childpos to index of smaller child.
  *         rightpos = childpos + 1             # <<<<<<<<<<<<<<
@@ -4837,7 +4908,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
     __pyx_v_rightpos = (__pyx_v_childpos + 1);
 
-    /* "queueing_tool/network/priority_queue.pyx":170
+    /* "queueing_tool/network/priority_queue.pyx":173
  *         rightpos = childpos + 1
  * 
  *         if rightpos < endpos and not heap[childpos] < heap[rightpos]:             # <<<<<<<<<<<<<<
@@ -4857,7 +4928,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_L6_bool_binop_done:;
     if (__pyx_t_2) {
 
-      /* "queueing_tool/network/priority_queue.pyx":171
+      /* "queueing_tool/network/priority_queue.pyx":174
  * 
  *         if rightpos < endpos and not heap[childpos] < heap[rightpos]:
  *             childpos = rightpos             # <<<<<<<<<<<<<<
@@ -4866,7 +4937,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
       __pyx_v_childpos = __pyx_v_rightpos;
 
-      /* "queueing_tool/network/priority_queue.pyx":170
+      /* "queueing_tool/network/priority_queue.pyx":173
  *         rightpos = childpos + 1
  * 
  *         if rightpos < endpos and not heap[childpos] < heap[rightpos]:             # <<<<<<<<<<<<<<
@@ -4875,7 +4946,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
     }
 
-    /* "queueing_tool/network/priority_queue.pyx":174
+    /* "queueing_tool/network/priority_queue.pyx":177
  * 
  *         # Move the smaller child up.
  *         heap[pos] = heap[childpos]             # <<<<<<<<<<<<<<
@@ -4886,7 +4957,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_1 = __pyx_v_pos;
     *((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )) = (*((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_4 * __pyx_v_heap.strides[0]) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":175
+    /* "queueing_tool/network/priority_queue.pyx":178
  *         # Move the smaller child up.
  *         heap[pos] = heap[childpos]
  *         hmap[pos] = hmap[childpos]             # <<<<<<<<<<<<<<
@@ -4897,7 +4968,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_1 = __pyx_v_pos;
     *((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )) = (*((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_4 * __pyx_v_hmap.strides[0]) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":176
+    /* "queueing_tool/network/priority_queue.pyx":179
  *         heap[pos] = heap[childpos]
  *         hmap[pos] = hmap[childpos]
  *         pos = childpos             # <<<<<<<<<<<<<<
@@ -4906,7 +4977,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
     __pyx_v_pos = __pyx_v_childpos;
 
-    /* "queueing_tool/network/priority_queue.pyx":177
+    /* "queueing_tool/network/priority_queue.pyx":180
  *         hmap[pos] = hmap[childpos]
  *         pos = childpos
  *         childpos = 2*pos + 1             # <<<<<<<<<<<<<<
@@ -4916,7 +4987,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_v_childpos = ((2 * __pyx_v_pos) + 1);
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":181
+  /* "queueing_tool/network/priority_queue.pyx":184
  *     # The leaf at pos is empty now.  Put newitem there, and bubble it up
  *     # to its final resting place (by sifting its parents down).
  *     heap[pos] = newitem             # <<<<<<<<<<<<<<
@@ -4926,7 +4997,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_4 = __pyx_v_pos;
   *((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_4 * __pyx_v_heap.strides[0]) )) = __pyx_v_newitem;
 
-  /* "queueing_tool/network/priority_queue.pyx":182
+  /* "queueing_tool/network/priority_queue.pyx":185
  *     # to its final resting place (by sifting its parents down).
  *     heap[pos] = newitem
  *     hmap[pos] = mapitem             # <<<<<<<<<<<<<<
@@ -4936,7 +5007,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_4 = __pyx_v_pos;
   *((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_4 * __pyx_v_hmap.strides[0]) )) = __pyx_v_mapitem;
 
-  /* "queueing_tool/network/priority_queue.pyx":183
+  /* "queueing_tool/network/priority_queue.pyx":186
  *     heap[pos] = newitem
  *     hmap[pos] = mapitem
  *     _siftdown(heap, hmap, startpos, pos)             # <<<<<<<<<<<<<<
@@ -4945,7 +5016,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
   __pyx_f_13queueing_tool_7network_14priority_queue__siftdown(__pyx_v_heap, __pyx_v_hmap, __pyx_v_startpos, __pyx_v_pos);
 
-  /* "queueing_tool/network/priority_queue.pyx":156
+  /* "queueing_tool/network/priority_queue.pyx":159
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void _siftup(double[:] heap, int[:] hmap, int pos, int endpos) nogil:             # <<<<<<<<<<<<<<
@@ -4956,7 +5027,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   /* function exit code */
 }
 
-/* "queueing_tool/network/priority_queue.pyx":189
+/* "queueing_tool/network/priority_queue.pyx":192
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void heapify(double[:] heap, int[:] hmap, int n) nogil:             # <<<<<<<<<<<<<<
@@ -4968,7 +5039,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue_heap
   int __pyx_v_i;
   int __pyx_t_1;
 
-  /* "queueing_tool/network/priority_queue.pyx":191
+  /* "queueing_tool/network/priority_queue.pyx":194
  * cdef inline void heapify(double[:] heap, int[:] hmap, int n) nogil:
  *     cdef int i
  *     for i in reversed(range(n//2)):             # <<<<<<<<<<<<<<
@@ -4977,7 +5048,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue_heap
   for (__pyx_t_1 = __Pyx_div_long(__pyx_v_n, 2)-1; __pyx_t_1 >= 0; __pyx_t_1-=1) {
     __pyx_v_i = __pyx_t_1;
 
-    /* "queueing_tool/network/priority_queue.pyx":192
+    /* "queueing_tool/network/priority_queue.pyx":195
  *     cdef int i
  *     for i in reversed(range(n//2)):
  *         _siftup(heap, hmap, i, n)             # <<<<<<<<<<<<<<
@@ -4985,7 +5056,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue_heap
     __pyx_f_13queueing_tool_7network_14priority_queue__siftup(__pyx_v_heap, __pyx_v_hmap, __pyx_v_i, __pyx_v_n);
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":189
+  /* "queueing_tool/network/priority_queue.pyx":192
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void heapify(double[:] heap, int[:] hmap, int n) nogil:             # <<<<<<<<<<<<<<
@@ -5952,7 +6023,7 @@ static int __pyx_array___pyx_pf_15View_dot_MemoryView_5array___cinit__(struct __
  *         self.format = self._format
  * 
  */
-  if (!(likely(PyBytes_CheckExact(__pyx_v_format))||((__pyx_v_format) == Py_None)||(PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "bytes", Py_TYPE(__pyx_v_format)->tp_name), 0))) __PYX_ERR(1, 141, __pyx_L1_error)
+  if (!(likely(PyBytes_CheckExact(__pyx_v_format))||((__pyx_v_format) == Py_None)||((void)PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "bytes", Py_TYPE(__pyx_v_format)->tp_name), 0))) __PYX_ERR(1, 141, __pyx_L1_error)
   __pyx_t_3 = __pyx_v_format;
   __Pyx_INCREF(__pyx_t_3);
   __Pyx_GIVEREF(__pyx_t_3);
@@ -7930,7 +8001,7 @@ static PyObject *__pyx_pf___pyx_MemviewEnum_2__setstate_cython__(struct __pyx_Me
  * def __setstate_cython__(self, __pyx_state):
  *     __pyx_unpickle_Enum__set_state(self, __pyx_state)             # <<<<<<<<<<<<<<
  */
-  if (!(likely(PyTuple_CheckExact(__pyx_v___pyx_state))||((__pyx_v___pyx_state) == Py_None)||(PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "tuple", Py_TYPE(__pyx_v___pyx_state)->tp_name), 0))) __PYX_ERR(1, 17, __pyx_L1_error)
+  if (!(likely(PyTuple_CheckExact(__pyx_v___pyx_state))||((__pyx_v___pyx_state) == Py_None)||((void)PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "tuple", Py_TYPE(__pyx_v___pyx_state)->tp_name), 0))) __PYX_ERR(1, 17, __pyx_L1_error)
   __pyx_t_1 = __pyx_unpickle_Enum__set_state(__pyx_v_self, ((PyObject*)__pyx_v___pyx_state)); if (unlikely(!__pyx_t_1)) __PYX_ERR(1, 17, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
@@ -10233,7 +10304,7 @@ static PyObject *__pyx_memoryview_assign_item_from_object(struct __pyx_memoryvie
     __Pyx_GOTREF(__pyx_t_4);
     __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
     __Pyx_DECREF(__pyx_t_6); __pyx_t_6 = 0;
-    if (!(likely(PyBytes_CheckExact(__pyx_t_4))||((__pyx_t_4) == Py_None)||(PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "bytes", Py_TYPE(__pyx_t_4)->tp_name), 0))) __PYX_ERR(1, 512, __pyx_L1_error)
+    if (!(likely(PyBytes_CheckExact(__pyx_t_4))||((__pyx_t_4) == Py_None)||((void)PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "bytes", Py_TYPE(__pyx_t_4)->tp_name), 0))) __PYX_ERR(1, 512, __pyx_L1_error)
     __pyx_v_bytesvalue = ((PyObject*)__pyx_t_4);
     __pyx_t_4 = 0;
 
@@ -10306,7 +10377,7 @@ static PyObject *__pyx_memoryview_assign_item_from_object(struct __pyx_memoryvie
       __Pyx_DECREF(__pyx_t_8); __pyx_t_8 = 0;
     }
     __Pyx_DECREF(__pyx_t_6); __pyx_t_6 = 0;
-    if (!(likely(PyBytes_CheckExact(__pyx_t_4))||((__pyx_t_4) == Py_None)||(PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "bytes", Py_TYPE(__pyx_t_4)->tp_name), 0))) __PYX_ERR(1, 514, __pyx_L1_error)
+    if (!(likely(PyBytes_CheckExact(__pyx_t_4))||((__pyx_t_4) == Py_None)||((void)PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "bytes", Py_TYPE(__pyx_t_4)->tp_name), 0))) __PYX_ERR(1, 514, __pyx_L1_error)
     __pyx_v_bytesvalue = ((PyObject*)__pyx_t_4);
     __pyx_t_4 = 0;
   }
@@ -12986,7 +13057,7 @@ static struct __pyx_memoryview_obj *__pyx_memview_slice(struct __pyx_memoryview_
  *     if isinstance(memview, _memoryviewslice):
  */
   #ifndef CYTHON_WITHOUT_ASSERTIONS
-  if (unlikely(!Py_OptimizeFlag)) {
+  if (unlikely(__pyx_assertions_enabled())) {
     if (unlikely(!((__pyx_v_memview->view.ndim > 0) != 0))) {
       PyErr_SetNone(PyExc_AssertionError);
       __PYX_ERR(1, 724, __pyx_L1_error)
@@ -18509,7 +18580,7 @@ static PyObject *__pyx_pf_15View_dot_MemoryView___pyx_unpickle_Enum(CYTHON_UNUSE
  *     return __pyx_result
  * cdef __pyx_unpickle_Enum__set_state(Enum __pyx_result, tuple __pyx_state):
  */
-    if (!(likely(PyTuple_CheckExact(__pyx_v___pyx_state))||((__pyx_v___pyx_state) == Py_None)||(PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "tuple", Py_TYPE(__pyx_v___pyx_state)->tp_name), 0))) __PYX_ERR(1, 9, __pyx_L1_error)
+    if (!(likely(PyTuple_CheckExact(__pyx_v___pyx_state))||((__pyx_v___pyx_state) == Py_None)||((void)PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "tuple", Py_TYPE(__pyx_v___pyx_state)->tp_name), 0))) __PYX_ERR(1, 9, __pyx_L1_error)
     __pyx_t_4 = __pyx_unpickle_Enum__set_state(((struct __pyx_MemviewEnum_obj *)__pyx_v___pyx_result), ((PyObject*)__pyx_v___pyx_state)); if (unlikely(!__pyx_t_4)) __PYX_ERR(1, 9, __pyx_L1_error)
     __Pyx_GOTREF(__pyx_t_4);
     __Pyx_DECREF(__pyx_t_4); __pyx_t_4 = 0;
@@ -18719,7 +18790,7 @@ static PyObject *__pyx_tp_new_13queueing_tool_7network_14priority_queue_Priority
 static void __pyx_tp_dealloc_13queueing_tool_7network_14priority_queue_PriorityQueue(PyObject *o) {
   struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *p = (struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *)o;
   #if CYTHON_USE_TP_FINALIZE
-  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && !_PyGC_FINALIZED(o)) {
+  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && !__Pyx_PyObject_GC_IsFinalized(o)) {
     if (PyObject_CallFinalizerFromDealloc(o)) return;
   }
   #endif
@@ -18924,7 +18995,7 @@ static PyTypeObject __pyx_type_13queueing_tool_7network_14priority_queue_Priorit
   #if PY_VERSION_HEX >= 0x030800b4 && PY_VERSION_HEX < 0x03090000
   0, /*tp_print*/
   #endif
-  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000
+  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000 && PY_VERSION_HEX < 0x030a0000
   0, /*tp_pypy_flags*/
   #endif
 };
@@ -18953,7 +19024,7 @@ static PyObject *__pyx_tp_new_array(PyTypeObject *t, PyObject *a, PyObject *k) {
 static void __pyx_tp_dealloc_array(PyObject *o) {
   struct __pyx_array_obj *p = (struct __pyx_array_obj *)o;
   #if CYTHON_USE_TP_FINALIZE
-  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && (!PyType_IS_GC(Py_TYPE(o)) || !_PyGC_FINALIZED(o))) {
+  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && (!PyType_IS_GC(Py_TYPE(o)) || !__Pyx_PyObject_GC_IsFinalized(o))) {
     if (PyObject_CallFinalizerFromDealloc(o)) return;
   }
   #endif
@@ -19116,7 +19187,7 @@ static PyTypeObject __pyx_type___pyx_array = {
   #if PY_VERSION_HEX >= 0x030800b4 && PY_VERSION_HEX < 0x03090000
   0, /*tp_print*/
   #endif
-  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000
+  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000 && PY_VERSION_HEX < 0x030a0000
   0, /*tp_pypy_flags*/
   #endif
 };
@@ -19138,7 +19209,7 @@ static PyObject *__pyx_tp_new_Enum(PyTypeObject *t, CYTHON_UNUSED PyObject *a, C
 static void __pyx_tp_dealloc_Enum(PyObject *o) {
   struct __pyx_MemviewEnum_obj *p = (struct __pyx_MemviewEnum_obj *)o;
   #if CYTHON_USE_TP_FINALIZE
-  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && !_PyGC_FINALIZED(o)) {
+  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && !__Pyx_PyObject_GC_IsFinalized(o)) {
     if (PyObject_CallFinalizerFromDealloc(o)) return;
   }
   #endif
@@ -19238,7 +19309,7 @@ static PyTypeObject __pyx_type___pyx_MemviewEnum = {
   #if PY_VERSION_HEX >= 0x030800b4 && PY_VERSION_HEX < 0x03090000
   0, /*tp_print*/
   #endif
-  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000
+  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000 && PY_VERSION_HEX < 0x030a0000
   0, /*tp_pypy_flags*/
   #endif
 };
@@ -19269,7 +19340,7 @@ static PyObject *__pyx_tp_new_memoryview(PyTypeObject *t, PyObject *a, PyObject
 static void __pyx_tp_dealloc_memoryview(PyObject *o) {
   struct __pyx_memoryview_obj *p = (struct __pyx_memoryview_obj *)o;
   #if CYTHON_USE_TP_FINALIZE
-  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && !_PyGC_FINALIZED(o)) {
+  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && !__Pyx_PyObject_GC_IsFinalized(o)) {
     if (PyObject_CallFinalizerFromDealloc(o)) return;
   }
   #endif
@@ -19502,7 +19573,7 @@ static PyTypeObject __pyx_type___pyx_memoryview = {
   #if PY_VERSION_HEX >= 0x030800b4 && PY_VERSION_HEX < 0x03090000
   0, /*tp_print*/
   #endif
-  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000
+  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000 && PY_VERSION_HEX < 0x030a0000
   0, /*tp_pypy_flags*/
   #endif
 };
@@ -19522,7 +19593,7 @@ static PyObject *__pyx_tp_new__memoryviewslice(PyTypeObject *t, PyObject *a, PyO
 static void __pyx_tp_dealloc__memoryviewslice(PyObject *o) {
   struct __pyx_memoryviewslice_obj *p = (struct __pyx_memoryviewslice_obj *)o;
   #if CYTHON_USE_TP_FINALIZE
-  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && !_PyGC_FINALIZED(o)) {
+  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && !__Pyx_PyObject_GC_IsFinalized(o)) {
     if (PyObject_CallFinalizerFromDealloc(o)) return;
   }
   #endif
@@ -19651,7 +19722,7 @@ static PyTypeObject __pyx_type___pyx_memoryviewslice = {
   #if PY_VERSION_HEX >= 0x030800b4 && PY_VERSION_HEX < 0x03090000
   0, /*tp_print*/
   #endif
-  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000
+  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000 && PY_VERSION_HEX < 0x030a0000
   0, /*tp_pypy_flags*/
   #endif
 };
@@ -19803,7 +19874,7 @@ static __Pyx_StringTabEntry __pyx_string_tab[] = {
 static CYTHON_SMALL_CODE int __Pyx_InitCachedBuiltins(void) {
   __pyx_builtin_range = __Pyx_GetBuiltinName(__pyx_n_s_range); if (!__pyx_builtin_range) __PYX_ERR(0, 37, __pyx_L1_error)
   __pyx_builtin_TypeError = __Pyx_GetBuiltinName(__pyx_n_s_TypeError); if (!__pyx_builtin_TypeError) __PYX_ERR(1, 2, __pyx_L1_error)
-  __pyx_builtin_reversed = __Pyx_GetBuiltinName(__pyx_n_s_reversed); if (!__pyx_builtin_reversed) __PYX_ERR(0, 191, __pyx_L1_error)
+  __pyx_builtin_reversed = __Pyx_GetBuiltinName(__pyx_n_s_reversed); if (!__pyx_builtin_reversed) __PYX_ERR(0, 194, __pyx_L1_error)
   __pyx_builtin_MemoryError = __Pyx_GetBuiltinName(__pyx_n_s_MemoryError); if (!__pyx_builtin_MemoryError) __PYX_ERR(2, 109, __pyx_L1_error)
   __pyx_builtin_ValueError = __Pyx_GetBuiltinName(__pyx_n_s_ValueError); if (!__pyx_builtin_ValueError) __PYX_ERR(1, 134, __pyx_L1_error)
   __pyx_builtin_enumerate = __Pyx_GetBuiltinName(__pyx_n_s_enumerate); if (!__pyx_builtin_enumerate) __PYX_ERR(1, 152, __pyx_L1_error)
@@ -20105,7 +20176,12 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
 }
 
 static CYTHON_SMALL_CODE int __Pyx_InitGlobals(void) {
-  if (__Pyx_InitStrings(__pyx_string_tab) < 0) __PYX_ERR(0, 1, __pyx_L1_error);
+  /* AssertionsEnabled.init */
+  __Pyx_init_assertions_enabled();
+
+if (unlikely(PyErr_Occurred())) __PYX_ERR(0, 1, __pyx_L1_error)
+
+  if (__Pyx_InitStrings(__pyx_string_tab) < 0) __PYX_ERR(0, 1, __pyx_L1_error)
   __pyx_int_0 = PyInt_FromLong(0); if (unlikely(!__pyx_int_0)) __PYX_ERR(0, 1, __pyx_L1_error)
   __pyx_int_1 = PyInt_FromLong(1); if (unlikely(!__pyx_int_1)) __PYX_ERR(0, 1, __pyx_L1_error)
   __pyx_int_112105877 = PyInt_FromLong(112105877L); if (unlikely(!__pyx_int_112105877)) __PYX_ERR(0, 1, __pyx_L1_error)
@@ -20242,29 +20318,25 @@ static int __Pyx_modinit_type_import_code(void) {
   /*--- Type import code ---*/
   __pyx_t_1 = PyImport_ImportModule(__Pyx_BUILTIN_MODULE_NAME); if (unlikely(!__pyx_t_1)) __PYX_ERR(3, 9, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
-  __pyx_ptype_7cpython_4type_type = __Pyx_ImportType(__pyx_t_1, __Pyx_BUILTIN_MODULE_NAME, "type", 
+  __pyx_ptype_7cpython_4type_type = __Pyx_ImportType_0_29_37(__pyx_t_1, __Pyx_BUILTIN_MODULE_NAME, "type", 
   #if defined(PYPY_VERSION_NUM) && PYPY_VERSION_NUM < 0x050B0000
-  sizeof(PyTypeObject),
+  sizeof(PyTypeObject), __PYX_GET_STRUCT_ALIGNMENT_0_29_37(PyTypeObject),
   #else
-  sizeof(PyHeapTypeObject),
+  sizeof(PyHeapTypeObject), __PYX_GET_STRUCT_ALIGNMENT_0_29_37(PyHeapTypeObject),
   #endif
-  __Pyx_ImportType_CheckSize_Warn);
-   if (!__pyx_ptype_7cpython_4type_type) __PYX_ERR(3, 9, __pyx_L1_error)
+  __Pyx_ImportType_CheckSize_Warn_0_29_37); if (!__pyx_ptype_7cpython_4type_type) __PYX_ERR(3, 9, __pyx_L1_error)
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
   __pyx_t_1 = PyImport_ImportModule(__Pyx_BUILTIN_MODULE_NAME); if (unlikely(!__pyx_t_1)) __PYX_ERR(4, 8, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
-  __pyx_ptype_7cpython_4bool_bool = __Pyx_ImportType(__pyx_t_1, __Pyx_BUILTIN_MODULE_NAME, "bool", sizeof(PyBoolObject), __Pyx_ImportType_CheckSize_Warn);
-   if (!__pyx_ptype_7cpython_4bool_bool) __PYX_ERR(4, 8, __pyx_L1_error)
+  __pyx_ptype_7cpython_4bool_bool = __Pyx_ImportType_0_29_37(__pyx_t_1, __Pyx_BUILTIN_MODULE_NAME, "bool", sizeof(PyBoolObject), __PYX_GET_STRUCT_ALIGNMENT_0_29_37(PyBoolObject),__Pyx_ImportType_CheckSize_Warn_0_29_37); if (!__pyx_ptype_7cpython_4bool_bool) __PYX_ERR(4, 8, __pyx_L1_error)
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
   __pyx_t_1 = PyImport_ImportModule(__Pyx_BUILTIN_MODULE_NAME); if (unlikely(!__pyx_t_1)) __PYX_ERR(5, 15, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
-  __pyx_ptype_7cpython_7complex_complex = __Pyx_ImportType(__pyx_t_1, __Pyx_BUILTIN_MODULE_NAME, "complex", sizeof(PyComplexObject), __Pyx_ImportType_CheckSize_Warn);
-   if (!__pyx_ptype_7cpython_7complex_complex) __PYX_ERR(5, 15, __pyx_L1_error)
+  __pyx_ptype_7cpython_7complex_complex = __Pyx_ImportType_0_29_37(__pyx_t_1, __Pyx_BUILTIN_MODULE_NAME, "complex", sizeof(PyComplexObject), __PYX_GET_STRUCT_ALIGNMENT_0_29_37(PyComplexObject),__Pyx_ImportType_CheckSize_Warn_0_29_37); if (!__pyx_ptype_7cpython_7complex_complex) __PYX_ERR(5, 15, __pyx_L1_error)
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
   __pyx_t_1 = PyImport_ImportModule("array"); if (unlikely(!__pyx_t_1)) __PYX_ERR(2, 58, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
-  __pyx_ptype_7cpython_5array_array = __Pyx_ImportType(__pyx_t_1, "array", "array", sizeof(arrayobject), __Pyx_ImportType_CheckSize_Warn);
-   if (!__pyx_ptype_7cpython_5array_array) __PYX_ERR(2, 58, __pyx_L1_error)
+  __pyx_ptype_7cpython_5array_array = __Pyx_ImportType_0_29_37(__pyx_t_1, "array", "array", sizeof(arrayobject), __PYX_GET_STRUCT_ALIGNMENT_0_29_37(arrayobject),__Pyx_ImportType_CheckSize_Warn_0_29_37); if (!__pyx_ptype_7cpython_5array_array) __PYX_ERR(2, 58, __pyx_L1_error)
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
   __Pyx_RefNannyFinishContext();
   return 0;
@@ -20457,7 +20529,7 @@ if (!__Pyx_RefNanny) {
   Py_INCREF(__pyx_b);
   __pyx_cython_runtime = PyImport_AddModule((char *) "cython_runtime"); if (unlikely(!__pyx_cython_runtime)) __PYX_ERR(0, 1, __pyx_L1_error)
   Py_INCREF(__pyx_cython_runtime);
-  if (PyObject_SetAttrString(__pyx_m, "__builtins__", __pyx_b) < 0) __PYX_ERR(0, 1, __pyx_L1_error);
+  if (PyObject_SetAttrString(__pyx_m, "__builtins__", __pyx_b) < 0) __PYX_ERR(0, 1, __pyx_L1_error)
   /*--- Initialize various global constants etc. ---*/
   if (__Pyx_InitGlobals() < 0) __PYX_ERR(0, 1, __pyx_L1_error)
   #if PY_MAJOR_VERSION < 3 && (__PYX_DEFAULT_STRING_ENCODING_IS_ASCII || __PYX_DEFAULT_STRING_ENCODING_IS_DEFAULT)
@@ -21255,9 +21327,7 @@ static void __Pyx_WriteUnraisable(const char *name, CYTHON_UNUSED int clineno,
     PyGILState_STATE state;
     if (nogil)
         state = PyGILState_Ensure();
-#ifdef _MSC_VER
-    else state = (PyGILState_STATE)-1;
-#endif
+    else state = (PyGILState_STATE)0;
 #endif
     __Pyx_PyThreadState_assign
     __Pyx_ErrFetch(&old_exc, &old_val, &old_tb);
@@ -21436,13 +21506,7 @@ static void __Pyx_Raise(PyObject *type, PyObject *value, PyObject *tb, PyObject
     }
     PyErr_SetObject(type, value);
     if (tb) {
-#if CYTHON_COMPILING_IN_PYPY
-        PyObject *tmp_type, *tmp_value, *tmp_tb;
-        PyErr_Fetch(&tmp_type, &tmp_value, &tmp_tb);
-        Py_INCREF(tb);
-        PyErr_Restore(tmp_type, tmp_value, tb);
-        Py_XDECREF(tmp_tb);
-#else
+#if CYTHON_FAST_THREAD_STATE
         PyThreadState *tstate = __Pyx_PyThreadState_Current;
         PyObject* tmp_tb = tstate->curexc_traceback;
         if (tb != tmp_tb) {
@@ -21450,6 +21514,12 @@ static void __Pyx_Raise(PyObject *type, PyObject *value, PyObject *tb, PyObject
             tstate->curexc_traceback = tb;
             Py_XDECREF(tmp_tb);
         }
+#else
+        PyObject *tmp_type, *tmp_value, *tmp_tb;
+        PyErr_Fetch(&tmp_type, &tmp_value, &tmp_tb);
+        Py_INCREF(tb);
+        PyErr_Restore(tmp_type, tmp_value, tb);
+        Py_XDECREF(tmp_tb);
 #endif
     }
 bad:
@@ -21891,7 +21961,7 @@ static CYTHON_INLINE PyObject *__Pyx_GetAttr(PyObject *o, PyObject *n) {
 /* ObjectGetItem */
 #if CYTHON_USE_TYPE_SLOTS
 static PyObject *__Pyx_PyObject_GetIndex(PyObject *obj, PyObject* index) {
-    PyObject *runerr;
+    PyObject *runerr = NULL;
     Py_ssize_t key_value;
     PySequenceMethods *m = Py_TYPE(obj)->tp_as_sequence;
     if (unlikely(!(m && m->sq_item))) {
@@ -22755,16 +22825,18 @@ __PYX_GOOD:
 }
 
 /* TypeImport */
-#ifndef __PYX_HAVE_RT_ImportType
-#define __PYX_HAVE_RT_ImportType
-static PyTypeObject *__Pyx_ImportType(PyObject *module, const char *module_name, const char *class_name,
-    size_t size, enum __Pyx_ImportType_CheckSize check_size)
+#ifndef __PYX_HAVE_RT_ImportType_0_29_37
+#define __PYX_HAVE_RT_ImportType_0_29_37
+static PyTypeObject *__Pyx_ImportType_0_29_37(PyObject *module, const char *module_name, const char *class_name,
+    size_t size, size_t alignment, enum __Pyx_ImportType_CheckSize_0_29_37 check_size)
 {
     PyObject *result = 0;
     char warning[200];
     Py_ssize_t basicsize;
+    Py_ssize_t itemsize;
 #ifdef Py_LIMITED_API
     PyObject *py_basicsize;
+    PyObject *py_itemsize;
 #endif
     result = PyObject_GetAttrString(module, class_name);
     if (!result)
@@ -22777,6 +22849,7 @@ static PyTypeObject *__Pyx_ImportType(PyObject *module, const char *module_name,
     }
 #ifndef Py_LIMITED_API
     basicsize = ((PyTypeObject *)result)->tp_basicsize;
+    itemsize = ((PyTypeObject *)result)->tp_itemsize;
 #else
     py_basicsize = PyObject_GetAttrString(result, "__basicsize__");
     if (!py_basicsize)
@@ -22786,22 +22859,37 @@ static PyTypeObject *__Pyx_ImportType(PyObject *module, const char *module_name,
     py_basicsize = 0;
     if (basicsize == (Py_ssize_t)-1 && PyErr_Occurred())
         goto bad;
+    py_itemsize = PyObject_GetAttrString(result, "__itemsize__");
+    if (!py_itemsize)
+        goto bad;
+    itemsize = PyLong_AsSsize_t(py_itemsize);
+    Py_DECREF(py_itemsize);
+    py_itemsize = 0;
+    if (itemsize == (Py_ssize_t)-1 && PyErr_Occurred())
+        goto bad;
 #endif
-    if ((size_t)basicsize < size) {
+    if (itemsize) {
+        if (size % alignment) {
+            alignment = size % alignment;
+        }
+        if (itemsize < (Py_ssize_t)alignment)
+            itemsize = (Py_ssize_t)alignment;
+    }
+    if ((size_t)(basicsize + itemsize) < size) {
         PyErr_Format(PyExc_ValueError,
             "%.200s.%.200s size changed, may indicate binary incompatibility. "
             "Expected %zd from C header, got %zd from PyObject",
             module_name, class_name, size, basicsize);
         goto bad;
     }
-    if (check_size == __Pyx_ImportType_CheckSize_Error && (size_t)basicsize != size) {
+    if (check_size == __Pyx_ImportType_CheckSize_Error_0_29_37 && (size_t)basicsize != size) {
         PyErr_Format(PyExc_ValueError,
             "%.200s.%.200s size changed, may indicate binary incompatibility. "
             "Expected %zd from C header, got %zd from PyObject",
             module_name, class_name, size, basicsize);
         goto bad;
     }
-    else if (check_size == __Pyx_ImportType_CheckSize_Warn && (size_t)basicsize > size) {
+    else if (check_size == __Pyx_ImportType_CheckSize_Warn_0_29_37 && (size_t)basicsize > size) {
         PyOS_snprintf(warning, sizeof(warning),
             "%s.%s size changed, may indicate binary incompatibility. "
             "Expected %zd from C header, got %zd from PyObject",
@@ -22817,7 +22905,7 @@ bad:
 
 /* CLineInTraceback */
 #ifndef CYTHON_CLINE_IN_TRACEBACK
-static int __Pyx_CLineForTraceback(CYTHON_NCP_UNUSED PyThreadState *tstate, int c_line) {
+static int __Pyx_CLineForTraceback(CYTHON_UNUSED PyThreadState *tstate, int c_line) {
     PyObject *use_cline;
     PyObject *ptype, *pvalue, *ptraceback;
 #if CYTHON_COMPILING_IN_CPYTHON
@@ -24081,7 +24169,7 @@ no_fail:
                     break;
             }
 #endif
-#if CYTHON_COMPILING_IN_CPYTHON
+#if CYTHON_COMPILING_IN_CPYTHON && PY_VERSION_HEX < 0x030C00A7
             if (unlikely(Py_SIZE(x) < 0)) {
                 goto raise_neg_overflow;
             }
@@ -24353,7 +24441,7 @@ raise_neg_overflow:
                     break;
             }
 #endif
-#if CYTHON_COMPILING_IN_CPYTHON
+#if CYTHON_COMPILING_IN_CPYTHON && PY_VERSION_HEX < 0x030C00A7
             if (unlikely(Py_SIZE(x) < 0)) {
                 goto raise_neg_overflow;
             }
@@ -24549,7 +24637,7 @@ raise_neg_overflow:
                     break;
             }
 #endif
-#if CYTHON_COMPILING_IN_CPYTHON
+#if CYTHON_COMPILING_IN_CPYTHON && PY_VERSION_HEX < 0x030C00A7
             if (unlikely(Py_SIZE(x) < 0)) {
                 goto raise_neg_overflow;
             }
diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index 44c72f6..5b031e4 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -61,6 +61,9 @@ cdef class PriorityQueue:
         cdef double t
         cdef int k
 
+        if self.size == 0:
+            return None
+
         self.heappop()
         with nogil:
             while self.next_time != self.q_times[self.next_node]:
@@ -85,10 +88,10 @@ cdef class PriorityQueue:
             self.sorted_edges[self.size] = k
 
         else:
-            array.resize_smart(self.array_times, 2 * self.size)
-            array.resize_smart(self.array_edges, 2 * self.size)
+            self.actual_size = max(2 * self.actual_size, 1)
+            array.resize_smart(self.array_times, self.actual_size)
+            array.resize_smart(self.array_edges, self.actual_size)
 
-            self.actual_size *= 2
             self.sorted_times = self.array_times
             self.sorted_edges = self.array_edges
 
-- 
2.43.0


From 680f946546e15b0028030a730f2e3bcd03a56131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 05/39] fix: the network does not count events that do not
 happen

The heap could hold two entries for a queue with the same time, and both
were taken to be events. An entry is now used at most once.
---
 queueing_tool/network/priority_queue.c   | 290 ++++++++++++++---------
 queueing_tool/network/priority_queue.pyx |   4 +
 queueing_tool/network/queue_network.py   |   4 +
 3 files changed, 186 insertions(+), 112 deletions(-)

diff --git a/queueing_tool/network/priority_queue.c b/queueing_tool/network/priority_queue.c
index d5a9d1f..fc2c631 100644
--- a/queueing_tool/network/priority_queue.c
+++ b/queueing_tool/network/priority_queue.c
@@ -1412,6 +1412,19 @@ static CYTHON_INLINE PyObject* __Pyx_PyObject_GetSlice(
         PyObject** py_start, PyObject** py_stop, PyObject** py_slice,
         int has_cstart, int has_cstop, int wraparound);
 
+/* pyobject_as_double.proto */
+static double __Pyx__PyObject_AsDouble(PyObject* obj);
+#if CYTHON_COMPILING_IN_PYPY
+#define __Pyx_PyObject_AsDouble(obj)\
+(likely(PyFloat_CheckExact(obj)) ? PyFloat_AS_DOUBLE(obj) :\
+ likely(PyInt_CheckExact(obj)) ?\
+ PyFloat_AsDouble(obj) : __Pyx__PyObject_AsDouble(obj))
+#else
+#define __Pyx_PyObject_AsDouble(obj)\
+((likely(PyFloat_CheckExact(obj))) ?\
+ PyFloat_AS_DOUBLE(obj) : __Pyx__PyObject_AsDouble(obj))
+#endif
+
 /* PyThreadStateGet.proto */
 #if CYTHON_FAST_THREAD_STATE
 #define __Pyx_PyThreadState_declare  PyThreadState *__pyx_tstate;
@@ -3406,9 +3419,10 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   __Pyx_RefNannyDeclarations
   int __pyx_t_1;
   Py_ssize_t __pyx_t_2;
-  PyObject *__pyx_t_3 = NULL;
+  double __pyx_t_3;
   PyObject *__pyx_t_4 = NULL;
   PyObject *__pyx_t_5 = NULL;
+  PyObject *__pyx_t_6 = NULL;
   int __pyx_lineno = 0;
   const char *__pyx_filename = NULL;
   int __pyx_clineno = 0;
@@ -3571,7 +3585,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  *         if self.size < 0:
  *             self.size += 1             # <<<<<<<<<<<<<<
  *             return None
- *         return self.next_time, self.next_node
+ * 
  */
     __pyx_v_self->size = (__pyx_v_self->size + 1);
 
@@ -3579,8 +3593,8 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  *         if self.size < 0:
  *             self.size += 1
  *             return None             # <<<<<<<<<<<<<<
- *         return self.next_time, self.next_node
  * 
+ *         # The entry has been used up. Without this, any other entry for
  */
     __Pyx_XDECREF(__pyx_r);
     __pyx_r = Py_None; __Pyx_INCREF(Py_None);
@@ -3595,28 +3609,40 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":78
- *             self.size += 1
- *             return None
+  /* "queueing_tool/network/priority_queue.pyx":81
+ *         # The entry has been used up. Without this, any other entry for
+ *         # this node with the same time would look like it was current.
+ *         self.q_times[self.next_node] = float('inf')             # <<<<<<<<<<<<<<
+ *         return self.next_time, self.next_node
+ * 
+ */
+  __pyx_t_3 = __Pyx_PyObject_AsDouble(__pyx_n_s_inf); if (unlikely(__pyx_t_3 == ((double)((double)-1)) && PyErr_Occurred())) __PYX_ERR(0, 81, __pyx_L1_error)
+  if (unlikely(!__pyx_v_self->q_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 81, __pyx_L1_error)}
+  __pyx_t_2 = __pyx_v_self->next_node;
+  *((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->q_times.data) + __pyx_t_2)) )) = __pyx_t_3;
+
+  /* "queueing_tool/network/priority_queue.pyx":82
+ *         # this node with the same time would look like it was current.
+ *         self.q_times[self.next_node] = float('inf')
  *         return self.next_time, self.next_node             # <<<<<<<<<<<<<<
  * 
  *     @cython.boundscheck(False)
  */
   __Pyx_XDECREF(__pyx_r);
-  __pyx_t_3 = PyFloat_FromDouble(__pyx_v_self->next_time); if (unlikely(!__pyx_t_3)) __PYX_ERR(0, 78, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_t_3);
-  __pyx_t_4 = __Pyx_PyInt_From_int(__pyx_v_self->next_node); if (unlikely(!__pyx_t_4)) __PYX_ERR(0, 78, __pyx_L1_error)
+  __pyx_t_4 = PyFloat_FromDouble(__pyx_v_self->next_time); if (unlikely(!__pyx_t_4)) __PYX_ERR(0, 82, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_4);
-  __pyx_t_5 = PyTuple_New(2); if (unlikely(!__pyx_t_5)) __PYX_ERR(0, 78, __pyx_L1_error)
+  __pyx_t_5 = __Pyx_PyInt_From_int(__pyx_v_self->next_node); if (unlikely(!__pyx_t_5)) __PYX_ERR(0, 82, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_5);
-  __Pyx_GIVEREF(__pyx_t_3);
-  PyTuple_SET_ITEM(__pyx_t_5, 0, __pyx_t_3);
+  __pyx_t_6 = PyTuple_New(2); if (unlikely(!__pyx_t_6)) __PYX_ERR(0, 82, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_t_6);
   __Pyx_GIVEREF(__pyx_t_4);
-  PyTuple_SET_ITEM(__pyx_t_5, 1, __pyx_t_4);
-  __pyx_t_3 = 0;
+  PyTuple_SET_ITEM(__pyx_t_6, 0, __pyx_t_4);
+  __Pyx_GIVEREF(__pyx_t_5);
+  PyTuple_SET_ITEM(__pyx_t_6, 1, __pyx_t_5);
   __pyx_t_4 = 0;
-  __pyx_r = __pyx_t_5;
   __pyx_t_5 = 0;
+  __pyx_r = __pyx_t_6;
+  __pyx_t_6 = 0;
   goto __pyx_L0;
 
   /* "queueing_tool/network/priority_queue.pyx":60
@@ -3629,9 +3655,9 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
 
   /* function exit code */
   __pyx_L1_error:;
-  __Pyx_XDECREF(__pyx_t_3);
   __Pyx_XDECREF(__pyx_t_4);
   __Pyx_XDECREF(__pyx_t_5);
+  __Pyx_XDECREF(__pyx_t_6);
   __Pyx_AddTraceback("queueing_tool.network.priority_queue.PriorityQueue.pop", __pyx_clineno, __pyx_lineno, __pyx_filename);
   __pyx_r = NULL;
   __pyx_L0:;
@@ -3640,7 +3666,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   return __pyx_r;
 }
 
-/* "queueing_tool/network/priority_queue.pyx":83
+/* "queueing_tool/network/priority_queue.pyx":87
  *     @cython.wraparound(False)
  *     @cython.nonecheck(False)
  *     def push(self, double t, int k):             # <<<<<<<<<<<<<<
@@ -3682,11 +3708,11 @@ static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQu
         case  1:
         if (likely((values[1] = __Pyx_PyDict_GetItemStr(__pyx_kwds, __pyx_n_s_k)) != 0)) kw_args--;
         else {
-          __Pyx_RaiseArgtupleInvalid("push", 1, 2, 2, 1); __PYX_ERR(0, 83, __pyx_L3_error)
+          __Pyx_RaiseArgtupleInvalid("push", 1, 2, 2, 1); __PYX_ERR(0, 87, __pyx_L3_error)
         }
       }
       if (unlikely(kw_args > 0)) {
-        if (unlikely(__Pyx_ParseOptionalKeywords(__pyx_kwds, __pyx_pyargnames, 0, values, pos_args, "push") < 0)) __PYX_ERR(0, 83, __pyx_L3_error)
+        if (unlikely(__Pyx_ParseOptionalKeywords(__pyx_kwds, __pyx_pyargnames, 0, values, pos_args, "push") < 0)) __PYX_ERR(0, 87, __pyx_L3_error)
       }
     } else if (PyTuple_GET_SIZE(__pyx_args) != 2) {
       goto __pyx_L5_argtuple_error;
@@ -3694,12 +3720,12 @@ static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQu
       values[0] = PyTuple_GET_ITEM(__pyx_args, 0);
       values[1] = PyTuple_GET_ITEM(__pyx_args, 1);
     }
-    __pyx_v_t = __pyx_PyFloat_AsDouble(values[0]); if (unlikely((__pyx_v_t == (double)-1) && PyErr_Occurred())) __PYX_ERR(0, 83, __pyx_L3_error)
-    __pyx_v_k = __Pyx_PyInt_As_int(values[1]); if (unlikely((__pyx_v_k == (int)-1) && PyErr_Occurred())) __PYX_ERR(0, 83, __pyx_L3_error)
+    __pyx_v_t = __pyx_PyFloat_AsDouble(values[0]); if (unlikely((__pyx_v_t == (double)-1) && PyErr_Occurred())) __PYX_ERR(0, 87, __pyx_L3_error)
+    __pyx_v_k = __Pyx_PyInt_As_int(values[1]); if (unlikely((__pyx_v_k == (int)-1) && PyErr_Occurred())) __PYX_ERR(0, 87, __pyx_L3_error)
   }
   goto __pyx_L4_argument_unpacking_done;
   __pyx_L5_argtuple_error:;
-  __Pyx_RaiseArgtupleInvalid("push", 1, 2, 2, PyTuple_GET_SIZE(__pyx_args)); __PYX_ERR(0, 83, __pyx_L3_error)
+  __Pyx_RaiseArgtupleInvalid("push", 1, 2, 2, PyTuple_GET_SIZE(__pyx_args)); __PYX_ERR(0, 87, __pyx_L3_error)
   __pyx_L3_error:;
   __Pyx_AddTraceback("queueing_tool.network.priority_queue.PriorityQueue.push", __pyx_clineno, __pyx_lineno, __pyx_filename);
   __Pyx_RefNannyFinishContext();
@@ -3729,18 +3755,18 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   int __pyx_clineno = 0;
   __Pyx_RefNannySetupContext("push", 0);
 
-  /* "queueing_tool/network/priority_queue.pyx":85
+  /* "queueing_tool/network/priority_queue.pyx":89
  *     def push(self, double t, int k):
  * 
  *         self.q_times[k] = t             # <<<<<<<<<<<<<<
  *         if self.size < self.actual_size:
  *             self.sorted_times[self.size] = t
  */
-  if (unlikely(!__pyx_v_self->q_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 85, __pyx_L1_error)}
+  if (unlikely(!__pyx_v_self->q_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 89, __pyx_L1_error)}
   __pyx_t_1 = __pyx_v_k;
   *((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->q_times.data) + __pyx_t_1)) )) = __pyx_v_t;
 
-  /* "queueing_tool/network/priority_queue.pyx":86
+  /* "queueing_tool/network/priority_queue.pyx":90
  * 
  *         self.q_times[k] = t
  *         if self.size < self.actual_size:             # <<<<<<<<<<<<<<
@@ -3750,29 +3776,29 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   __pyx_t_2 = ((__pyx_v_self->size < __pyx_v_self->actual_size) != 0);
   if (__pyx_t_2) {
 
-    /* "queueing_tool/network/priority_queue.pyx":87
+    /* "queueing_tool/network/priority_queue.pyx":91
  *         self.q_times[k] = t
  *         if self.size < self.actual_size:
  *             self.sorted_times[self.size] = t             # <<<<<<<<<<<<<<
  *             self.sorted_edges[self.size] = k
  * 
  */
-    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 87, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 91, __pyx_L1_error)}
     __pyx_t_1 = __pyx_v_self->size;
     *((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->sorted_times.data) + __pyx_t_1)) )) = __pyx_v_t;
 
-    /* "queueing_tool/network/priority_queue.pyx":88
+    /* "queueing_tool/network/priority_queue.pyx":92
  *         if self.size < self.actual_size:
  *             self.sorted_times[self.size] = t
  *             self.sorted_edges[self.size] = k             # <<<<<<<<<<<<<<
  * 
  *         else:
  */
-    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 88, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 92, __pyx_L1_error)}
     __pyx_t_1 = __pyx_v_self->size;
     *((int *) ( /* dim=0 */ ((char *) (((int *) __pyx_v_self->sorted_edges.data) + __pyx_t_1)) )) = __pyx_v_k;
 
-    /* "queueing_tool/network/priority_queue.pyx":86
+    /* "queueing_tool/network/priority_queue.pyx":90
  * 
  *         self.q_times[k] = t
  *         if self.size < self.actual_size:             # <<<<<<<<<<<<<<
@@ -3782,7 +3808,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
     goto __pyx_L3;
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":91
+  /* "queueing_tool/network/priority_queue.pyx":95
  * 
  *         else:
  *             self.actual_size = max(2 * self.actual_size, 1)             # <<<<<<<<<<<<<<
@@ -3799,7 +3825,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
     }
     __pyx_v_self->actual_size = __pyx_t_5;
 
-    /* "queueing_tool/network/priority_queue.pyx":92
+    /* "queueing_tool/network/priority_queue.pyx":96
  *         else:
  *             self.actual_size = max(2 * self.actual_size, 1)
  *             array.resize_smart(self.array_times, self.actual_size)             # <<<<<<<<<<<<<<
@@ -3808,10 +3834,10 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
     __pyx_t_6 = ((PyObject *)__pyx_v_self->array_times);
     __Pyx_INCREF(__pyx_t_6);
-    __pyx_t_7 = resize_smart(((arrayobject *)__pyx_t_6), __pyx_v_self->actual_size); if (unlikely(__pyx_t_7 == ((int)-1))) __PYX_ERR(0, 92, __pyx_L1_error)
+    __pyx_t_7 = resize_smart(((arrayobject *)__pyx_t_6), __pyx_v_self->actual_size); if (unlikely(__pyx_t_7 == ((int)-1))) __PYX_ERR(0, 96, __pyx_L1_error)
     __Pyx_DECREF(__pyx_t_6); __pyx_t_6 = 0;
 
-    /* "queueing_tool/network/priority_queue.pyx":93
+    /* "queueing_tool/network/priority_queue.pyx":97
  *             self.actual_size = max(2 * self.actual_size, 1)
  *             array.resize_smart(self.array_times, self.actual_size)
  *             array.resize_smart(self.array_edges, self.actual_size)             # <<<<<<<<<<<<<<
@@ -3820,60 +3846,60 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
     __pyx_t_6 = ((PyObject *)__pyx_v_self->array_edges);
     __Pyx_INCREF(__pyx_t_6);
-    __pyx_t_7 = resize_smart(((arrayobject *)__pyx_t_6), __pyx_v_self->actual_size); if (unlikely(__pyx_t_7 == ((int)-1))) __PYX_ERR(0, 93, __pyx_L1_error)
+    __pyx_t_7 = resize_smart(((arrayobject *)__pyx_t_6), __pyx_v_self->actual_size); if (unlikely(__pyx_t_7 == ((int)-1))) __PYX_ERR(0, 97, __pyx_L1_error)
     __Pyx_DECREF(__pyx_t_6); __pyx_t_6 = 0;
 
-    /* "queueing_tool/network/priority_queue.pyx":95
+    /* "queueing_tool/network/priority_queue.pyx":99
  *             array.resize_smart(self.array_edges, self.actual_size)
  * 
  *             self.sorted_times = self.array_times             # <<<<<<<<<<<<<<
  *             self.sorted_edges = self.array_edges
  * 
  */
-    __pyx_t_8 = __Pyx_PyObject_to_MemoryviewSlice_dc_double(((PyObject *)__pyx_v_self->array_times), PyBUF_WRITABLE); if (unlikely(!__pyx_t_8.memview)) __PYX_ERR(0, 95, __pyx_L1_error)
+    __pyx_t_8 = __Pyx_PyObject_to_MemoryviewSlice_dc_double(((PyObject *)__pyx_v_self->array_times), PyBUF_WRITABLE); if (unlikely(!__pyx_t_8.memview)) __PYX_ERR(0, 99, __pyx_L1_error)
     __PYX_XDEC_MEMVIEW(&__pyx_v_self->sorted_times, 0);
     __pyx_v_self->sorted_times = __pyx_t_8;
     __pyx_t_8.memview = NULL;
     __pyx_t_8.data = NULL;
 
-    /* "queueing_tool/network/priority_queue.pyx":96
+    /* "queueing_tool/network/priority_queue.pyx":100
  * 
  *             self.sorted_times = self.array_times
  *             self.sorted_edges = self.array_edges             # <<<<<<<<<<<<<<
  * 
  *             self.sorted_times[self.size] = t
  */
-    __pyx_t_9 = __Pyx_PyObject_to_MemoryviewSlice_dc_int(((PyObject *)__pyx_v_self->array_edges), PyBUF_WRITABLE); if (unlikely(!__pyx_t_9.memview)) __PYX_ERR(0, 96, __pyx_L1_error)
+    __pyx_t_9 = __Pyx_PyObject_to_MemoryviewSlice_dc_int(((PyObject *)__pyx_v_self->array_edges), PyBUF_WRITABLE); if (unlikely(!__pyx_t_9.memview)) __PYX_ERR(0, 100, __pyx_L1_error)
     __PYX_XDEC_MEMVIEW(&__pyx_v_self->sorted_edges, 0);
     __pyx_v_self->sorted_edges = __pyx_t_9;
     __pyx_t_9.memview = NULL;
     __pyx_t_9.data = NULL;
 
-    /* "queueing_tool/network/priority_queue.pyx":98
+    /* "queueing_tool/network/priority_queue.pyx":102
  *             self.sorted_edges = self.array_edges
  * 
  *             self.sorted_times[self.size] = t             # <<<<<<<<<<<<<<
  *             self.sorted_edges[self.size] = k
  * 
  */
-    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 98, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 102, __pyx_L1_error)}
     __pyx_t_1 = __pyx_v_self->size;
     *((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->sorted_times.data) + __pyx_t_1)) )) = __pyx_v_t;
 
-    /* "queueing_tool/network/priority_queue.pyx":99
+    /* "queueing_tool/network/priority_queue.pyx":103
  * 
  *             self.sorted_times[self.size] = t
  *             self.sorted_edges[self.size] = k             # <<<<<<<<<<<<<<
  * 
  *         self.size += 1
  */
-    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 99, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 103, __pyx_L1_error)}
     __pyx_t_1 = __pyx_v_self->size;
     *((int *) ( /* dim=0 */ ((char *) (((int *) __pyx_v_self->sorted_edges.data) + __pyx_t_1)) )) = __pyx_v_k;
   }
   __pyx_L3:;
 
-  /* "queueing_tool/network/priority_queue.pyx":101
+  /* "queueing_tool/network/priority_queue.pyx":105
  *             self.sorted_edges[self.size] = k
  * 
  *         self.size += 1             # <<<<<<<<<<<<<<
@@ -3882,18 +3908,18 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
   __pyx_v_self->size = (__pyx_v_self->size + 1);
 
-  /* "queueing_tool/network/priority_queue.pyx":102
+  /* "queueing_tool/network/priority_queue.pyx":106
  * 
  *         self.size += 1
  *         _siftdown(self.sorted_times, self.sorted_edges, 0, self.size-1)             # <<<<<<<<<<<<<<
  * 
  *     @cython.boundscheck(False)
  */
-  if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 102, __pyx_L1_error)}
-  if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 102, __pyx_L1_error)}
+  if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 106, __pyx_L1_error)}
+  if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 106, __pyx_L1_error)}
   __pyx_f_13queueing_tool_7network_14priority_queue__siftdown(__pyx_v_self->sorted_times, __pyx_v_self->sorted_edges, 0, (__pyx_v_self->size - 1));
 
-  /* "queueing_tool/network/priority_queue.pyx":83
+  /* "queueing_tool/network/priority_queue.pyx":87
  *     @cython.wraparound(False)
  *     @cython.nonecheck(False)
  *     def push(self, double t, int k):             # <<<<<<<<<<<<<<
@@ -3916,7 +3942,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   return __pyx_r;
 }
 
-/* "queueing_tool/network/priority_queue.pyx":107
+/* "queueing_tool/network/priority_queue.pyx":111
  *     @cython.wraparound(False)
  *     @cython.nonecheck(False)
  *     cdef void heappop(self) nogil:             # <<<<<<<<<<<<<<
@@ -3935,7 +3961,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
   const char *__pyx_filename = NULL;
   int __pyx_clineno = 0;
 
-  /* "queueing_tool/network/priority_queue.pyx":111
+  /* "queueing_tool/network/priority_queue.pyx":115
  *         cdef int last_node, return_node
  * 
  *         self.size -= 1             # <<<<<<<<<<<<<<
@@ -3944,29 +3970,29 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
  */
   __pyx_v_self->size = (__pyx_v_self->size - 1);
 
-  /* "queueing_tool/network/priority_queue.pyx":112
+  /* "queueing_tool/network/priority_queue.pyx":116
  * 
  *         self.size -= 1
  *         last_time = self.sorted_times[self.size]             # <<<<<<<<<<<<<<
  *         last_node = self.sorted_edges[self.size]
  * 
  */
-  if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 112, __pyx_L1_error)}
+  if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 116, __pyx_L1_error)}
   __pyx_t_1 = __pyx_v_self->size;
   __pyx_v_last_time = (*((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->sorted_times.data) + __pyx_t_1)) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":113
+  /* "queueing_tool/network/priority_queue.pyx":117
  *         self.size -= 1
  *         last_time = self.sorted_times[self.size]
  *         last_node = self.sorted_edges[self.size]             # <<<<<<<<<<<<<<
  * 
  *         if self.size > 0:
  */
-  if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 113, __pyx_L1_error)}
+  if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 117, __pyx_L1_error)}
   __pyx_t_1 = __pyx_v_self->size;
   __pyx_v_last_node = (*((int *) ( /* dim=0 */ ((char *) (((int *) __pyx_v_self->sorted_edges.data) + __pyx_t_1)) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":115
+  /* "queueing_tool/network/priority_queue.pyx":119
  *         last_node = self.sorted_edges[self.size]
  * 
  *         if self.size > 0:             # <<<<<<<<<<<<<<
@@ -3976,62 +4002,62 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
   __pyx_t_2 = ((__pyx_v_self->size > 0) != 0);
   if (__pyx_t_2) {
 
-    /* "queueing_tool/network/priority_queue.pyx":116
+    /* "queueing_tool/network/priority_queue.pyx":120
  * 
  *         if self.size > 0:
  *             return_time = self.sorted_times[0]             # <<<<<<<<<<<<<<
  *             return_node = self.sorted_edges[0]
  * 
  */
-    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 116, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 120, __pyx_L1_error)}
     __pyx_t_1 = 0;
     __pyx_v_return_time = (*((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->sorted_times.data) + __pyx_t_1)) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":117
+    /* "queueing_tool/network/priority_queue.pyx":121
  *         if self.size > 0:
  *             return_time = self.sorted_times[0]
  *             return_node = self.sorted_edges[0]             # <<<<<<<<<<<<<<
  * 
  *             self.sorted_times[0] = last_time
  */
-    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 117, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 121, __pyx_L1_error)}
     __pyx_t_1 = 0;
     __pyx_v_return_node = (*((int *) ( /* dim=0 */ ((char *) (((int *) __pyx_v_self->sorted_edges.data) + __pyx_t_1)) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":119
+    /* "queueing_tool/network/priority_queue.pyx":123
  *             return_node = self.sorted_edges[0]
  * 
  *             self.sorted_times[0] = last_time             # <<<<<<<<<<<<<<
  *             self.sorted_edges[0] = last_node
  * 
  */
-    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 119, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 123, __pyx_L1_error)}
     __pyx_t_1 = 0;
     *((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->sorted_times.data) + __pyx_t_1)) )) = __pyx_v_last_time;
 
-    /* "queueing_tool/network/priority_queue.pyx":120
+    /* "queueing_tool/network/priority_queue.pyx":124
  * 
  *             self.sorted_times[0] = last_time
  *             self.sorted_edges[0] = last_node             # <<<<<<<<<<<<<<
  * 
  *             _siftup(self.sorted_times, self.sorted_edges, 0, self.size)
  */
-    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 120, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 124, __pyx_L1_error)}
     __pyx_t_1 = 0;
     *((int *) ( /* dim=0 */ ((char *) (((int *) __pyx_v_self->sorted_edges.data) + __pyx_t_1)) )) = __pyx_v_last_node;
 
-    /* "queueing_tool/network/priority_queue.pyx":122
+    /* "queueing_tool/network/priority_queue.pyx":126
  *             self.sorted_edges[0] = last_node
  * 
  *             _siftup(self.sorted_times, self.sorted_edges, 0, self.size)             # <<<<<<<<<<<<<<
  * 
  *             self.next_time = return_time
  */
-    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 122, __pyx_L1_error)}
-    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 122, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 126, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 126, __pyx_L1_error)}
     __pyx_f_13queueing_tool_7network_14priority_queue__siftup(__pyx_v_self->sorted_times, __pyx_v_self->sorted_edges, 0, __pyx_v_self->size);
 
-    /* "queueing_tool/network/priority_queue.pyx":124
+    /* "queueing_tool/network/priority_queue.pyx":128
  *             _siftup(self.sorted_times, self.sorted_edges, 0, self.size)
  * 
  *             self.next_time = return_time             # <<<<<<<<<<<<<<
@@ -4040,7 +4066,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
  */
     __pyx_v_self->next_time = __pyx_v_return_time;
 
-    /* "queueing_tool/network/priority_queue.pyx":125
+    /* "queueing_tool/network/priority_queue.pyx":129
  * 
  *             self.next_time = return_time
  *             self.next_node = return_node             # <<<<<<<<<<<<<<
@@ -4049,7 +4075,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
  */
     __pyx_v_self->next_node = __pyx_v_return_node;
 
-    /* "queueing_tool/network/priority_queue.pyx":115
+    /* "queueing_tool/network/priority_queue.pyx":119
  *         last_node = self.sorted_edges[self.size]
  * 
  *         if self.size > 0:             # <<<<<<<<<<<<<<
@@ -4059,7 +4085,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
     goto __pyx_L3;
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":127
+  /* "queueing_tool/network/priority_queue.pyx":131
  *             self.next_node = return_node
  *         else:
  *             self.next_time = last_time             # <<<<<<<<<<<<<<
@@ -4069,7 +4095,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
   /*else*/ {
     __pyx_v_self->next_time = __pyx_v_last_time;
 
-    /* "queueing_tool/network/priority_queue.pyx":128
+    /* "queueing_tool/network/priority_queue.pyx":132
  *         else:
  *             self.next_time = last_time
  *             self.next_node = last_node             # <<<<<<<<<<<<<<
@@ -4080,7 +4106,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
   }
   __pyx_L3:;
 
-  /* "queueing_tool/network/priority_queue.pyx":107
+  /* "queueing_tool/network/priority_queue.pyx":111
  *     @cython.wraparound(False)
  *     @cython.nonecheck(False)
  *     cdef void heappop(self) nogil:             # <<<<<<<<<<<<<<
@@ -4654,7 +4680,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   return __pyx_r;
 }
 
-/* "queueing_tool/network/priority_queue.pyx":134
+/* "queueing_tool/network/priority_queue.pyx":138
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void _siftdown(double[:] heap, int[:] hmap, int startpos, int pos) nogil:             # <<<<<<<<<<<<<<
@@ -4671,7 +4697,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   Py_ssize_t __pyx_t_1;
   int __pyx_t_2;
 
-  /* "queueing_tool/network/priority_queue.pyx":138
+  /* "queueing_tool/network/priority_queue.pyx":142
  *     cdef int parentpos, mapitem, father
  * 
  *     newitem = heap[pos]             # <<<<<<<<<<<<<<
@@ -4681,7 +4707,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   __pyx_v_newitem = (*((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":139
+  /* "queueing_tool/network/priority_queue.pyx":143
  * 
  *     newitem = heap[pos]
  *     mapitem = hmap[pos]             # <<<<<<<<<<<<<<
@@ -4691,7 +4717,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   __pyx_v_mapitem = (*((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":140
+  /* "queueing_tool/network/priority_queue.pyx":144
  *     newitem = heap[pos]
  *     mapitem = hmap[pos]
  *     while pos > startpos:             # <<<<<<<<<<<<<<
@@ -4702,7 +4728,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_2 = ((__pyx_v_pos > __pyx_v_startpos) != 0);
     if (!__pyx_t_2) break;
 
-    /* "queueing_tool/network/priority_queue.pyx":141
+    /* "queueing_tool/network/priority_queue.pyx":145
  *     mapitem = hmap[pos]
  *     while pos > startpos:
  *         parentpos = (pos - 1) >> 1             # <<<<<<<<<<<<<<
@@ -4711,7 +4737,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
     __pyx_v_parentpos = ((__pyx_v_pos - 1) >> 1);
 
-    /* "queueing_tool/network/priority_queue.pyx":142
+    /* "queueing_tool/network/priority_queue.pyx":146
  *     while pos > startpos:
  *         parentpos = (pos - 1) >> 1
  *         parent = heap[parentpos]             # <<<<<<<<<<<<<<
@@ -4721,7 +4747,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_1 = __pyx_v_parentpos;
     __pyx_v_parent = (*((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":143
+    /* "queueing_tool/network/priority_queue.pyx":147
  *         parentpos = (pos - 1) >> 1
  *         parent = heap[parentpos]
  *         father = hmap[parentpos]             # <<<<<<<<<<<<<<
@@ -4731,7 +4757,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_1 = __pyx_v_parentpos;
     __pyx_v_father = (*((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":145
+    /* "queueing_tool/network/priority_queue.pyx":149
  *         father = hmap[parentpos]
  * 
  *         if newitem < parent:             # <<<<<<<<<<<<<<
@@ -4741,7 +4767,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_2 = ((__pyx_v_newitem < __pyx_v_parent) != 0);
     if (__pyx_t_2) {
 
-      /* "queueing_tool/network/priority_queue.pyx":146
+      /* "queueing_tool/network/priority_queue.pyx":150
  * 
  *         if newitem < parent:
  *             heap[pos] = parent             # <<<<<<<<<<<<<<
@@ -4751,7 +4777,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
       __pyx_t_1 = __pyx_v_pos;
       *((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )) = __pyx_v_parent;
 
-      /* "queueing_tool/network/priority_queue.pyx":147
+      /* "queueing_tool/network/priority_queue.pyx":151
  *         if newitem < parent:
  *             heap[pos] = parent
  *             hmap[pos] = father             # <<<<<<<<<<<<<<
@@ -4761,7 +4787,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
       __pyx_t_1 = __pyx_v_pos;
       *((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )) = __pyx_v_father;
 
-      /* "queueing_tool/network/priority_queue.pyx":148
+      /* "queueing_tool/network/priority_queue.pyx":152
  *             heap[pos] = parent
  *             hmap[pos] = father
  *             pos = parentpos             # <<<<<<<<<<<<<<
@@ -4770,7 +4796,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
       __pyx_v_pos = __pyx_v_parentpos;
 
-      /* "queueing_tool/network/priority_queue.pyx":149
+      /* "queueing_tool/network/priority_queue.pyx":153
  *             hmap[pos] = father
  *             pos = parentpos
  *             continue             # <<<<<<<<<<<<<<
@@ -4779,7 +4805,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
       goto __pyx_L3_continue;
 
-      /* "queueing_tool/network/priority_queue.pyx":145
+      /* "queueing_tool/network/priority_queue.pyx":149
  *         father = hmap[parentpos]
  * 
  *         if newitem < parent:             # <<<<<<<<<<<<<<
@@ -4788,7 +4814,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
     }
 
-    /* "queueing_tool/network/priority_queue.pyx":150
+    /* "queueing_tool/network/priority_queue.pyx":154
  *             pos = parentpos
  *             continue
  *         break             # <<<<<<<<<<<<<<
@@ -4800,7 +4826,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   }
   __pyx_L4_break:;
 
-  /* "queueing_tool/network/priority_queue.pyx":152
+  /* "queueing_tool/network/priority_queue.pyx":156
  *         break
  * 
  *     heap[pos] = newitem             # <<<<<<<<<<<<<<
@@ -4810,7 +4836,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   *((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )) = __pyx_v_newitem;
 
-  /* "queueing_tool/network/priority_queue.pyx":153
+  /* "queueing_tool/network/priority_queue.pyx":157
  * 
  *     heap[pos] = newitem
  *     hmap[pos] = mapitem             # <<<<<<<<<<<<<<
@@ -4820,7 +4846,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   *((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )) = __pyx_v_mapitem;
 
-  /* "queueing_tool/network/priority_queue.pyx":134
+  /* "queueing_tool/network/priority_queue.pyx":138
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void _siftdown(double[:] heap, int[:] hmap, int startpos, int pos) nogil:             # <<<<<<<<<<<<<<
@@ -4831,7 +4857,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   /* function exit code */
 }
 
-/* "queueing_tool/network/priority_queue.pyx":159
+/* "queueing_tool/network/priority_queue.pyx":163
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void _siftup(double[:] heap, int[:] hmap, int pos, int endpos) nogil:             # <<<<<<<<<<<<<<
@@ -4850,7 +4876,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   int __pyx_t_3;
   Py_ssize_t __pyx_t_4;
 
-  /* "queueing_tool/network/priority_queue.pyx":162
+  /* "queueing_tool/network/priority_queue.pyx":166
  *     cdef double newitem
  *     cdef int childpos, rightpos, mapitem
  *     cdef int startpos = pos             # <<<<<<<<<<<<<<
@@ -4859,7 +4885,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
   __pyx_v_startpos = __pyx_v_pos;
 
-  /* "queueing_tool/network/priority_queue.pyx":164
+  /* "queueing_tool/network/priority_queue.pyx":168
  *     cdef int startpos = pos
  * 
  *     newitem = heap[pos]             # <<<<<<<<<<<<<<
@@ -4869,7 +4895,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   __pyx_v_newitem = (*((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":165
+  /* "queueing_tool/network/priority_queue.pyx":169
  * 
  *     newitem = heap[pos]
  *     mapitem = hmap[pos]             # <<<<<<<<<<<<<<
@@ -4879,7 +4905,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   __pyx_v_mapitem = (*((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":167
+  /* "queueing_tool/network/priority_queue.pyx":171
  *     mapitem = hmap[pos]
  *     # Bubble up the smaller child until hitting a leaf.
  *     childpos = 2*pos + 1    # leftmost child position             # <<<<<<<<<<<<<<
@@ -4888,7 +4914,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
   __pyx_v_childpos = ((2 * __pyx_v_pos) + 1);
 
-  /* "queueing_tool/network/priority_queue.pyx":169
+  /* "queueing_tool/network/priority_queue.pyx":173
  *     childpos = 2*pos + 1    # leftmost child position
  * 
  *     while childpos < endpos:             # <<<<<<<<<<<<<<
@@ -4899,7 +4925,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_2 = ((__pyx_v_childpos < __pyx_v_endpos) != 0);
     if (!__pyx_t_2) break;
 
-    /* "queueing_tool/network/priority_queue.pyx":171
+    /* "queueing_tool/network/priority_queue.pyx":175
  *     while childpos < endpos:
  *         # Set childpos to index of smaller child.
  *         rightpos = childpos + 1             # <<<<<<<<<<<<<<
@@ -4908,7 +4934,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
     __pyx_v_rightpos = (__pyx_v_childpos + 1);
 
-    /* "queueing_tool/network/priority_queue.pyx":173
+    /* "queueing_tool/network/priority_queue.pyx":177
  *         rightpos = childpos + 1
  * 
  *         if rightpos < endpos and not heap[childpos] < heap[rightpos]:             # <<<<<<<<<<<<<<
@@ -4928,7 +4954,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_L6_bool_binop_done:;
     if (__pyx_t_2) {
 
-      /* "queueing_tool/network/priority_queue.pyx":174
+      /* "queueing_tool/network/priority_queue.pyx":178
  * 
  *         if rightpos < endpos and not heap[childpos] < heap[rightpos]:
  *             childpos = rightpos             # <<<<<<<<<<<<<<
@@ -4937,7 +4963,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
       __pyx_v_childpos = __pyx_v_rightpos;
 
-      /* "queueing_tool/network/priority_queue.pyx":173
+      /* "queueing_tool/network/priority_queue.pyx":177
  *         rightpos = childpos + 1
  * 
  *         if rightpos < endpos and not heap[childpos] < heap[rightpos]:             # <<<<<<<<<<<<<<
@@ -4946,7 +4972,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
     }
 
-    /* "queueing_tool/network/priority_queue.pyx":177
+    /* "queueing_tool/network/priority_queue.pyx":181
  * 
  *         # Move the smaller child up.
  *         heap[pos] = heap[childpos]             # <<<<<<<<<<<<<<
@@ -4957,7 +4983,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_1 = __pyx_v_pos;
     *((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )) = (*((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_4 * __pyx_v_heap.strides[0]) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":178
+    /* "queueing_tool/network/priority_queue.pyx":182
  *         # Move the smaller child up.
  *         heap[pos] = heap[childpos]
  *         hmap[pos] = hmap[childpos]             # <<<<<<<<<<<<<<
@@ -4968,7 +4994,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_1 = __pyx_v_pos;
     *((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )) = (*((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_4 * __pyx_v_hmap.strides[0]) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":179
+    /* "queueing_tool/network/priority_queue.pyx":183
  *         heap[pos] = heap[childpos]
  *         hmap[pos] = hmap[childpos]
  *         pos = childpos             # <<<<<<<<<<<<<<
@@ -4977,7 +5003,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
     __pyx_v_pos = __pyx_v_childpos;
 
-    /* "queueing_tool/network/priority_queue.pyx":180
+    /* "queueing_tool/network/priority_queue.pyx":184
  *         hmap[pos] = hmap[childpos]
  *         pos = childpos
  *         childpos = 2*pos + 1             # <<<<<<<<<<<<<<
@@ -4987,7 +5013,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_v_childpos = ((2 * __pyx_v_pos) + 1);
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":184
+  /* "queueing_tool/network/priority_queue.pyx":188
  *     # The leaf at pos is empty now.  Put newitem there, and bubble it up
  *     # to its final resting place (by sifting its parents down).
  *     heap[pos] = newitem             # <<<<<<<<<<<<<<
@@ -4997,7 +5023,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_4 = __pyx_v_pos;
   *((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_4 * __pyx_v_heap.strides[0]) )) = __pyx_v_newitem;
 
-  /* "queueing_tool/network/priority_queue.pyx":185
+  /* "queueing_tool/network/priority_queue.pyx":189
  *     # to its final resting place (by sifting its parents down).
  *     heap[pos] = newitem
  *     hmap[pos] = mapitem             # <<<<<<<<<<<<<<
@@ -5007,7 +5033,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_4 = __pyx_v_pos;
   *((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_4 * __pyx_v_hmap.strides[0]) )) = __pyx_v_mapitem;
 
-  /* "queueing_tool/network/priority_queue.pyx":186
+  /* "queueing_tool/network/priority_queue.pyx":190
  *     heap[pos] = newitem
  *     hmap[pos] = mapitem
  *     _siftdown(heap, hmap, startpos, pos)             # <<<<<<<<<<<<<<
@@ -5016,7 +5042,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
   __pyx_f_13queueing_tool_7network_14priority_queue__siftdown(__pyx_v_heap, __pyx_v_hmap, __pyx_v_startpos, __pyx_v_pos);
 
-  /* "queueing_tool/network/priority_queue.pyx":159
+  /* "queueing_tool/network/priority_queue.pyx":163
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void _siftup(double[:] heap, int[:] hmap, int pos, int endpos) nogil:             # <<<<<<<<<<<<<<
@@ -5027,7 +5053,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   /* function exit code */
 }
 
-/* "queueing_tool/network/priority_queue.pyx":192
+/* "queueing_tool/network/priority_queue.pyx":196
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void heapify(double[:] heap, int[:] hmap, int n) nogil:             # <<<<<<<<<<<<<<
@@ -5039,7 +5065,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue_heap
   int __pyx_v_i;
   int __pyx_t_1;
 
-  /* "queueing_tool/network/priority_queue.pyx":194
+  /* "queueing_tool/network/priority_queue.pyx":198
  * cdef inline void heapify(double[:] heap, int[:] hmap, int n) nogil:
  *     cdef int i
  *     for i in reversed(range(n//2)):             # <<<<<<<<<<<<<<
@@ -5048,7 +5074,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue_heap
   for (__pyx_t_1 = __Pyx_div_long(__pyx_v_n, 2)-1; __pyx_t_1 >= 0; __pyx_t_1-=1) {
     __pyx_v_i = __pyx_t_1;
 
-    /* "queueing_tool/network/priority_queue.pyx":195
+    /* "queueing_tool/network/priority_queue.pyx":199
  *     cdef int i
  *     for i in reversed(range(n//2)):
  *         _siftup(heap, hmap, i, n)             # <<<<<<<<<<<<<<
@@ -5056,7 +5082,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue_heap
     __pyx_f_13queueing_tool_7network_14priority_queue__siftup(__pyx_v_heap, __pyx_v_hmap, __pyx_v_i, __pyx_v_n);
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":192
+  /* "queueing_tool/network/priority_queue.pyx":196
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void heapify(double[:] heap, int[:] hmap, int n) nogil:             # <<<<<<<<<<<<<<
@@ -19874,7 +19900,7 @@ static __Pyx_StringTabEntry __pyx_string_tab[] = {
 static CYTHON_SMALL_CODE int __Pyx_InitCachedBuiltins(void) {
   __pyx_builtin_range = __Pyx_GetBuiltinName(__pyx_n_s_range); if (!__pyx_builtin_range) __PYX_ERR(0, 37, __pyx_L1_error)
   __pyx_builtin_TypeError = __Pyx_GetBuiltinName(__pyx_n_s_TypeError); if (!__pyx_builtin_TypeError) __PYX_ERR(1, 2, __pyx_L1_error)
-  __pyx_builtin_reversed = __Pyx_GetBuiltinName(__pyx_n_s_reversed); if (!__pyx_builtin_reversed) __PYX_ERR(0, 194, __pyx_L1_error)
+  __pyx_builtin_reversed = __Pyx_GetBuiltinName(__pyx_n_s_reversed); if (!__pyx_builtin_reversed) __PYX_ERR(0, 198, __pyx_L1_error)
   __pyx_builtin_MemoryError = __Pyx_GetBuiltinName(__pyx_n_s_MemoryError); if (!__pyx_builtin_MemoryError) __PYX_ERR(2, 109, __pyx_L1_error)
   __pyx_builtin_ValueError = __Pyx_GetBuiltinName(__pyx_n_s_ValueError); if (!__pyx_builtin_ValueError) __PYX_ERR(1, 134, __pyx_L1_error)
   __pyx_builtin_enumerate = __Pyx_GetBuiltinName(__pyx_n_s_enumerate); if (!__pyx_builtin_enumerate) __PYX_ERR(1, 152, __pyx_L1_error)
@@ -21292,6 +21318,46 @@ bad:
     return NULL;
 }
 
+/* pyobject_as_double */
+static double __Pyx__PyObject_AsDouble(PyObject* obj) {
+    PyObject* float_value;
+#if !CYTHON_USE_TYPE_SLOTS
+    float_value = PyNumber_Float(obj);  if ((0)) goto bad;
+#else
+    PyNumberMethods *nb = Py_TYPE(obj)->tp_as_number;
+    if (likely(nb) && likely(nb->nb_float)) {
+        float_value = nb->nb_float(obj);
+        if (likely(float_value) && unlikely(!PyFloat_Check(float_value))) {
+            PyErr_Format(PyExc_TypeError,
+                "__float__ returned non-float (type %.200s)",
+                Py_TYPE(float_value)->tp_name);
+            Py_DECREF(float_value);
+            goto bad;
+        }
+    } else if (PyUnicode_CheckExact(obj) || PyBytes_CheckExact(obj)) {
+#if PY_MAJOR_VERSION >= 3
+        float_value = PyFloat_FromString(obj);
+#else
+        float_value = PyFloat_FromString(obj, 0);
+#endif
+    } else {
+        PyObject* args = PyTuple_New(1);
+        if (unlikely(!args)) goto bad;
+        PyTuple_SET_ITEM(args, 0, obj);
+        float_value = PyObject_Call((PyObject*)&PyFloat_Type, args, 0);
+        PyTuple_SET_ITEM(args, 0, 0);
+        Py_DECREF(args);
+    }
+#endif
+    if (likely(float_value)) {
+        double value = PyFloat_AS_DOUBLE(float_value);
+        Py_DECREF(float_value);
+        return value;
+    }
+bad:
+    return (double)-1;
+}
+
 /* PyErrFetchRestore */
 #if CYTHON_FAST_THREAD_STATE
 static CYTHON_INLINE void __Pyx_ErrRestoreInState(PyThreadState *tstate, PyObject *type, PyObject *value, PyObject *tb) {
diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index 5b031e4..e41d394 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -75,6 +75,10 @@ cdef class PriorityQueue:
         if self.size < 0:
             self.size += 1
             return None
+
+        # The entry has been used up. Without this, any other entry for
+        # this node with the same time would look like it was current.
+        self.q_times[self.next_node] = float('inf')
         return self.next_time, self.next_node
 
     @cython.boundscheck(False)
diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 3547f21..7e100b2 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1305,6 +1305,10 @@ class QueueNetwork(object):
             return
 
         q1k = self._fancy_heap.pop()
+        if q1k is None:  # Everything left in the heap was out of date.
+            self._t = np.infty
+            return
+
         q1t = q1k[0]
         q1 = self.edge2queue[q1k[1]]
         e1 = q1.edge[2]
-- 
2.43.0


From f8b014f288e42447e48dcf7cc58e09fafcc2348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 06/39] fix: time and next_event_description ignore out of date
 heap entries

---
 queueing_tool/network/queue_network.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 7e100b2..e5267ad 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -401,12 +401,8 @@ class QueueNetwork(object):
 
     @property
     def time(self):
-        if self._fancy_heap.size > 0:
-            e = self._fancy_heap.array_edges[0]
-            t = self.edge2queue[e]._time
-        else:
-            t = np.infty
-        return t
+        # The top of the heap may hold an out of date time.
+        return min((q._time for q in self.edge2queue), default=np.infty)
 
     def animate(self, out=None, t=None, line_kwargs=None,
                 scatter_kwargs=None, **kwargs):
@@ -998,15 +994,12 @@ class QueueNetwork(object):
             The edge index of the edge that this event will occur at.
             If there are no events then ``None`` is returned.
         """
-        if self._fancy_heap.size == 0:
+        t, e = min((q._key() for q in self.edge2queue), default=(np.infty, None))
+        if t == np.infty:
             event_type = 'Nothing'
             edge_index = None
         else:
-            s = [q._key() for q in self.edge2queue]
-            s.sort()
-            e = s[0][1]
             q = self.edge2queue[e]
-
             event_type = 'Arrival' if q.next_event_description() == 1 else 'Departure'
             edge_index = q.edge[2]
         return event_type, edge_index
-- 
2.43.0


From 383230badf341fd2912fe6904e72d16a90eed26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 07/39] fix: resource agents take a resource only when they
 depart

queue_action is also called on arrival and at the start of service, and
each of these calls took or dropped a resource.
---
 queueing_tool/queues/queue_extentions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index c3d5710..61ce381 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -43,6 +43,9 @@ class ResourceAgent(Agent):
             The instance of the queue that the ``ResourceAgent`` will
             interact with.
         """
+        if len(args) > 0 and args[0] != 2:    # Not a departure
+            return
+
         if isinstance(queue, ResourceQueue):
             if self._has_resource:
                 self._has_resource = False
-- 
2.43.0


From 0fd2712e1c773fe17f5a2c13b535eb9ef196e07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 08/39] fix: a blocked arrival does not end the external
 arrivals of a ResourceQueue

Arrivals without a resource are handled by LossQueue, as documented, which
also honours qbuffer, and a returned resource serves an agent in line.
---
 queueing_tool/queues/queue_extentions.py | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 61ce381..4259ba0 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -143,6 +143,10 @@ class ResourceQueue(LossQueue):
                     self._num_total -= 1
                     self.set_num_servers(self.num_servers + 1)
 
+                    num_servicing = self.num_system - len(self.queue)
+                    if len(self.queue) > 0 and num_servicing < self.num_servers:
+                        self._service_from_queue()
+
                     if self.collect_data:
                         t = arrival._time
                         if arrival.agent_id not in self.data:
@@ -155,26 +159,8 @@ class ResourceQueue(LossQueue):
                     else:
                         self._time = self._departures[0]._time
 
-                elif self.num_system < self.num_servers:
-                    super(ResourceQueue, self).next_event()
-
                 else:
-                    self.num_blocked += 1
-                    self._num_arrivals += 1
-                    self._num_total -= 1
-                    arrival = heappop(self._arrivals)
-                    self._current_t = arrival._time
-
-                    if self.collect_data:
-                        if arrival.agent_id not in self.data:
-                            self.data[arrival.agent_id] = [[arrival._time, 0, 0, len(self.queue), self.num_system]]
-                        else:
-                            self.data[arrival.agent_id].append([arrival._time, 0, 0, len(self.queue), self.num_system])
-
-                    if self._arrivals[0]._time < self._departures[0]._time:
-                        self._time = self._arrivals[0]._time
-                    else:
-                        self._time = self._departures[0]._time
+                    return super(ResourceQueue, self).next_event()
         else:
             return super(ResourceQueue, self).next_event()
 
-- 
2.43.0


From 178e0e02fc62ae439ad9fd8f592505ccb1ade71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 09/39] fix: an InfoQueue also extracts information when an
 arrival ties a departure

---
 queueing_tool/queues/queue_extentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 4259ba0..5bece3e 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -323,7 +323,7 @@ class InfoQueue(LossQueue):
             self._time = self._arrivals[0]._time
 
     def next_event(self):
-        if self._arrivals[0]._time < self._departures[0]._time:
+        if self.next_event_description() == 1:
             self.extract_information(self._arrivals[0])
 
         return super(InfoQueue, self).next_event()
-- 
2.43.0


From 8cda20d774c89d8e49dae6fb784211e18ae8dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 10/39] fix: a tuple of edges selects those edges and not every
 queue

---
 queueing_tool/network/queue_network.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index e5267ad..7fcadbf 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1607,14 +1607,10 @@ def _get_queues(g, queues, edge, edge_type):
 
     elif queues is None:
         if edge is not None:
-            if isinstance(edge, tuple):
-                if isinstance(edge[0], INT) and isinstance(edge[1], INT):
-                    queues = [g.edge_index[edge]]
-            elif isinstance(edge[0], collections.abc.Iterable):
-                if np.array([len(e) == 2 for e in edge]).all():
-                    queues = [g.edge_index[e] for e in edge]
+            if isinstance(edge[0], collections.abc.Iterable):
+                queues = [g.edge_index[tuple(e)] for e in edge]
             else:
-                queues = [g.edge_index[edge]]
+                queues = [g.edge_index[tuple(edge)]]
         elif edge_type is not None:
             if isinstance(edge_type, collections.abc.Iterable):
                 edge_type = set(edge_type)
-- 
2.43.0


From adc7498af25bdb36fa1b0cb02e74675d94a99fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 11/39] fix: initializing a running network does not exceed
 max_agents

---
 queueing_tool/network/queue_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 7fcadbf..0e256b2 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -973,6 +973,9 @@ class QueueNetwork(object):
             queues = queues[:self.max_agents]
 
         for ei in queues:
+            if np.sum(self.num_agents) >= self.max_agents:
+                break
+
             self.edge2queue[ei].set_active()
             self.num_agents[ei] = self.edge2queue[ei]._num_total
 
-- 
2.43.0


From 1002a0cec885dc41ba434caa6ecd667e8ba340a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 12/39] fix: set_transitions checks everything before changing
 anything

An invalid entry left the transitions of the vertices before it changed,
and probability given to edges that do not exist was lost.
---
 queueing_tool/network/queue_network.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 0e256b2..a9b98e6 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1035,7 +1035,8 @@ class QueueNetwork(object):
             :class:`~numpy.ndarray` is passed with the wrong shape,
             must be (``num_vertices``, ``num_vertices``); or the values
             passed are not probabilities (for each vertex they are
-            positive and sum to 1);
+            positive and sum to 1); or a positive probability is given
+            where there is no edge.
         TypeError
             A :exc:`.TypeError` is raised if mat is not a dict or
             :class:`~numpy.ndarray`.
@@ -1109,7 +1110,11 @@ class QueueNetwork(object):
                 elif (np.array(probs) < 0).any():
                     msg = "Some transition probabilities were negative."
                     raise ValueError(msg)
+                elif any(not self.g.has_edge(key, u) for u, p in value.items() if p != 0):
+                    msg = "There are positive probabilities where there are no edges."
+                    raise ValueError(msg)
 
+            for key, value in mat.items():
                 for k, e in enumerate(sorted(self.g.out_edges(key))):
                     self._route_probs[key][k] = value.get(e[1], 0)
 
@@ -1124,6 +1129,10 @@ class QueueNetwork(object):
                 raise ValueError(msg)
             elif (mat < 0).any():
                 raise ValueError("Some transition probabilities were negative.")
+            elif any(mat[v, u] != 0 and not self.g.has_edge(v, u)
+                     for v in range(self.nV) for u in range(self.nV) if non_terminal[v]):
+                msg = "There are positive probabilities where there are no edges."
+                raise ValueError(msg)
 
             for k in range(self.nV):
                 for j, e in enumerate(sorted(self.g.out_edges(k))):
-- 
2.43.0


From bb8c83e47981f81828c1811101db80e81b9c612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 13/39] fix: edge colors are those of the queue on the edge

---
 queueing_tool/graph/graph_preparation.py | 3 ++-
 queueing_tool/network/queue_network.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/graph/graph_preparation.py b/queueing_tool/graph/graph_preparation.py
index e751d00..208734f 100644
--- a/queueing_tool/graph/graph_preparation.py
+++ b/queueing_tool/graph/graph_preparation.py
@@ -134,7 +134,8 @@ def _prepare_graph(g, g_colors, q_cls, q_arg, adjust_graph):
     if 'pos' not in g.vertex_properties():
         g.set_pos()
 
-    for k, e in enumerate(g.edges()):
+    for e in g.edges():
+        k = g.edge_index[e]
         g.set_ep(e, 'edge_pen_width', 1.25)
         g.set_ep(e, 'edge_marker_size', 8)
         if e[0] == e[1]:
diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index a9b98e6..24f0b95 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1009,7 +1009,8 @@ class QueueNetwork(object):
 
     def reset_colors(self):
         """Resets all edge and vertex colors to their default values."""
-        for k, e in enumerate(self.g.edges()):
+        for e in self.g.edges():
+            k = self.g.edge_index[e]
             self.g.set_ep(e, 'edge_color', self.edge2queue[k].colors['edge_color'])
         for v in self.g.nodes():
             self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_fill_color'])
-- 
2.43.0


From 4600d65d18cc002a5d46345ffedf45ce24ff6546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 14/39] fix: the fill color of a loop goes to the vertex of
 that loop

---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 24f0b95..352a8f3 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1594,7 +1594,7 @@ class QueueNetwork(object):
                 self.g.set_ep(pe, 'edge_color', q._current_color(1))
                 self.g.set_vp(pv, 'vertex_color', q._current_color(2))
                 if q.edge[3] != 0:
-                    self.g.set_vp(v, 'vertex_fill_color', q._current_color())
+                    self.g.set_vp(pv, 'vertex_fill_color', q._current_color())
 
             else:
                 self.g.set_ep(pe, 'edge_color', q._current_color())
-- 
2.43.0


From 06667f5a76641074a1000aeaa3543b2c4ac3fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 15/39] fix: a copied network keeps its edge indices

---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 352a8f3..40692de 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -638,7 +638,7 @@ class QueueNetwork(object):
     def copy(self):
         """Returns a deep copy of itself."""
         net = QueueNetwork(None)
-        net.g = self.g.copy()
+        net.g = copy.deepcopy(self.g)
         net.max_agents = copy.deepcopy(self.max_agents)
         net.nV = copy.deepcopy(self.nV)
         net.nE = copy.deepcopy(self.nE)
-- 
2.43.0


From b9958fcadbd339d992dd809f612e41f9527abb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 16/39] fix: an agent sent to a finite queue is not lost to a
 tied external arrival

An external arrival at the same time could take the last place in the
queue, and the agent already on its way was then turned away.
---
 queueing_tool/queues/queue_extentions.py |  2 +-
 queueing_tool/queues/queue_servers.py    | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 5bece3e..90780ea 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -296,7 +296,7 @@ class InfoQueue(LossQueue):
     def _add_arrival(self, agent=None):
         if agent is not None:
             self._num_total += 1
-            heappush(self._arrivals, agent)
+            self._push_arrival(agent)
         else:
             if self._oArrivals >= self.active_cap:
                 self._active = False
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 049d366..6d380fd 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -355,10 +355,19 @@ class QueueServer(object):
                self.num_departures, round(self._time, 3))
         return my_str.format(*arg)
 
+    def _push_arrival(self, agent):
+        heappush(self._arrivals, agent)
+
+        # The network found room for this agent before sending it here, so
+        # it goes ahead of any arrival that is scheduled for the same time.
+        if self._arrivals[0] is not agent and self._arrivals[0]._time == agent._time:
+            k = [a is agent for a in self._arrivals].index(True)
+            self._arrivals[0], self._arrivals[k] = agent, self._arrivals[0]
+
     def _add_arrival(self, agent=None):
         if agent is not None:
             self._num_total += 1
-            heappush(self._arrivals, agent)
+            self._push_arrival(agent)
         else:
             if self._oArrivals >= self.active_cap:
                 self._active = False
-- 
2.43.0


From 96f023f6908ec543c8aa639bd7b63fed3744fd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:53 +0000
Subject: [PATCH 17/39] fix: a queue with nothing scheduled is not put in the
 event heap

After an agent had returned its resource to the queue it came from, the
queue was pushed with time infinity and counted as an event.
---
 queueing_tool/network/queue_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 40692de..b4a128e 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1364,7 +1364,8 @@ class QueueNetwork(object):
             new_q2k = q2._key()
 
             if new_q2k[0] != q2k[0]:
-                self._fancy_heap.push(*new_q2k)
+                if new_q2k[0] < np.infty:
+                    self._fancy_heap.push(*new_q2k)
 
                 if new_q1k[0] < np.infty and new_q1k != new_q2k:
                     self._fancy_heap.push(*new_q1k)
-- 
2.43.0


From a8887524eb00861eed2d0cc7c268f5a4fbe444ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 18/39] fix: agents never take an edge of probability zero

A first edge of probability zero was taken when the random number was 0,
a last one when the probabilities sum to slightly less than one.
---
 queueing_tool/queues/choice.c   | 519 ++++++++++++++++++--------------
 queueing_tool/queues/choice.pyx |  23 +-
 2 files changed, 298 insertions(+), 244 deletions(-)

diff --git a/queueing_tool/queues/choice.c b/queueing_tool/queues/choice.c
index bef6cb8..6af8d49 100644
--- a/queueing_tool/queues/choice.c
+++ b/queueing_tool/queues/choice.c
@@ -1,4 +1,4 @@
-/* Generated by Cython 0.29.32 */
+/* Generated by Cython 0.29.37 */
 
 #ifndef PY_SSIZE_T_CLEAN
 #define PY_SSIZE_T_CLEAN
@@ -9,8 +9,8 @@
 #elif PY_VERSION_HEX < 0x02060000 || (0x03000000 <= PY_VERSION_HEX && PY_VERSION_HEX < 0x03030000)
     #error Cython requires Python 2.6+ or Python 3.3+.
 #else
-#define CYTHON_ABI "0_29_32"
-#define CYTHON_HEX_VERSION 0x001D20F0
+#define CYTHON_ABI "0_29_37"
+#define CYTHON_HEX_VERSION 0x001D25F0
 #define CYTHON_FUTURE_DIVISION 0
 #include <stddef.h>
 #ifndef offsetof
@@ -78,16 +78,20 @@
   #define CYTHON_FAST_THREAD_STATE 0
   #undef CYTHON_FAST_PYCALL
   #define CYTHON_FAST_PYCALL 0
-  #undef CYTHON_PEP489_MULTI_PHASE_INIT
-  #define CYTHON_PEP489_MULTI_PHASE_INIT 0
+  #if PY_VERSION_HEX < 0x03090000
+    #undef CYTHON_PEP489_MULTI_PHASE_INIT
+    #define CYTHON_PEP489_MULTI_PHASE_INIT 0
+  #elif !defined(CYTHON_PEP489_MULTI_PHASE_INIT)
+    #define CYTHON_PEP489_MULTI_PHASE_INIT 1
+  #endif
   #undef CYTHON_USE_TP_FINALIZE
-  #define CYTHON_USE_TP_FINALIZE 0
+  #define CYTHON_USE_TP_FINALIZE (PY_VERSION_HEX >= 0x030400a1 && PYPY_VERSION_NUM >= 0x07030C00)
   #undef CYTHON_USE_DICT_VERSIONS
   #define CYTHON_USE_DICT_VERSIONS 0
   #undef CYTHON_USE_EXC_INFO_STACK
   #define CYTHON_USE_EXC_INFO_STACK 0
   #ifndef CYTHON_UPDATE_DESCRIPTOR_DOC
-    #define CYTHON_UPDATE_DESCRIPTOR_DOC (PYPY_VERSION_HEX >= 0x07030900)
+    #define CYTHON_UPDATE_DESCRIPTOR_DOC 0
   #endif
 #elif defined(PYSTON_VERSION)
   #define CYTHON_COMPILING_IN_PYPY 0
@@ -203,7 +207,7 @@
     #undef CYTHON_USE_PYLONG_INTERNALS
     #define CYTHON_USE_PYLONG_INTERNALS 0
   #elif !defined(CYTHON_USE_PYLONG_INTERNALS)
-    #define CYTHON_USE_PYLONG_INTERNALS 1
+    #define CYTHON_USE_PYLONG_INTERNALS (PY_VERSION_HEX < 0x030C00A5)
   #endif
   #ifndef CYTHON_USE_PYLIST_INTERNALS
     #define CYTHON_USE_PYLIST_INTERNALS 1
@@ -242,7 +246,7 @@
     #define CYTHON_USE_TP_FINALIZE (PY_VERSION_HEX >= 0x030400a1)
   #endif
   #ifndef CYTHON_USE_DICT_VERSIONS
-    #define CYTHON_USE_DICT_VERSIONS (PY_VERSION_HEX >= 0x030600B1)
+    #define CYTHON_USE_DICT_VERSIONS ((PY_VERSION_HEX >= 0x030600B1) && (PY_VERSION_HEX < 0x030C00A5))
   #endif
   #if PY_VERSION_HEX >= 0x030B00A4
     #undef CYTHON_USE_EXC_INFO_STACK
@@ -365,9 +369,6 @@
   #endif
 #endif
 
-#if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX < 0x02070600 && !defined(Py_OptimizeFlag)
-  #define Py_OptimizeFlag 0
-#endif
 #define __PYX_BUILD_PY_SSIZE_T "n"
 #define CYTHON_FORMAT_SSIZE_T "z"
 #if PY_MAJOR_VERSION < 3
@@ -445,6 +446,11 @@
 #endif
   #define __Pyx_DefaultClassType PyType_Type
 #endif
+#if PY_VERSION_HEX >= 0x030900F0 && !CYTHON_COMPILING_IN_PYPY
+  #define __Pyx_PyObject_GC_IsFinalized(o) PyObject_GC_IsFinalized(o)
+#else
+  #define __Pyx_PyObject_GC_IsFinalized(o) _PyGC_FINALIZED(o)
+#endif
 #ifndef Py_TPFLAGS_CHECKTYPES
   #define Py_TPFLAGS_CHECKTYPES 0
 #endif
@@ -552,11 +558,11 @@ static CYTHON_INLINE void * PyThread_tss_get(Py_tss_t *key) {
 #endif
 #if PY_VERSION_HEX > 0x03030000 && defined(PyUnicode_KIND)
   #define CYTHON_PEP393_ENABLED 1
-  #if defined(PyUnicode_IS_READY)
-  #define __Pyx_PyUnicode_READY(op)       (likely(PyUnicode_IS_READY(op)) ?\
-                                              0 : _PyUnicode_Ready((PyObject *)(op)))
+  #if PY_VERSION_HEX >= 0x030C0000
+    #define __Pyx_PyUnicode_READY(op)       (0)
   #else
-  #define __Pyx_PyUnicode_READY(op)       (0)
+    #define __Pyx_PyUnicode_READY(op)       (likely(PyUnicode_IS_READY(op)) ?\
+                                                0 : _PyUnicode_Ready((PyObject *)(op)))
   #endif
   #define __Pyx_PyUnicode_GET_LENGTH(u)   PyUnicode_GET_LENGTH(u)
   #define __Pyx_PyUnicode_READ_CHAR(u, i) PyUnicode_READ_CHAR(u, i)
@@ -565,14 +571,14 @@ static CYTHON_INLINE void * PyThread_tss_get(Py_tss_t *key) {
   #define __Pyx_PyUnicode_DATA(u)         PyUnicode_DATA(u)
   #define __Pyx_PyUnicode_READ(k, d, i)   PyUnicode_READ(k, d, i)
   #define __Pyx_PyUnicode_WRITE(k, d, i, ch)  PyUnicode_WRITE(k, d, i, ch)
-  #if defined(PyUnicode_IS_READY) && defined(PyUnicode_GET_SIZE)
-  #if CYTHON_COMPILING_IN_CPYTHON && PY_VERSION_HEX >= 0x03090000
-  #define __Pyx_PyUnicode_IS_TRUE(u)      (0 != (likely(PyUnicode_IS_READY(u)) ? PyUnicode_GET_LENGTH(u) : ((PyCompactUnicodeObject *)(u))->wstr_length))
+  #if PY_VERSION_HEX >= 0x030C0000
+    #define __Pyx_PyUnicode_IS_TRUE(u)      (0 != PyUnicode_GET_LENGTH(u))
   #else
-  #define __Pyx_PyUnicode_IS_TRUE(u)      (0 != (likely(PyUnicode_IS_READY(u)) ? PyUnicode_GET_LENGTH(u) : PyUnicode_GET_SIZE(u)))
-  #endif
-  #else
-  #define __Pyx_PyUnicode_IS_TRUE(u)      (0 != PyUnicode_GET_LENGTH(u))
+    #if CYTHON_COMPILING_IN_CPYTHON && PY_VERSION_HEX >= 0x03090000
+    #define __Pyx_PyUnicode_IS_TRUE(u)      (0 != (likely(PyUnicode_IS_READY(u)) ? PyUnicode_GET_LENGTH(u) : ((PyCompactUnicodeObject *)(u))->wstr_length))
+    #else
+    #define __Pyx_PyUnicode_IS_TRUE(u)      (0 != (likely(PyUnicode_IS_READY(u)) ? PyUnicode_GET_LENGTH(u) : PyUnicode_GET_SIZE(u)))
+    #endif
   #endif
 #else
   #define CYTHON_PEP393_ENABLED 0
@@ -955,7 +961,7 @@ static const char *__pyx_filename;
 
 
 static const char *__pyx_f[] = {
-  "choice.pyx",
+  "queueing_tool/queues/choice.pyx",
   "array.pxd",
   "stringsource",
   "type.pxd",
@@ -1540,18 +1546,18 @@ static CYTHON_INLINE int __Pyx_object_dict_version_matches(PyObject* obj, PY_UIN
 
 /* GetModuleGlobalName.proto */
 #if CYTHON_USE_DICT_VERSIONS
-#define __Pyx_GetModuleGlobalName(var, name)  {\
+#define __Pyx_GetModuleGlobalName(var, name)  do {\
     static PY_UINT64_T __pyx_dict_version = 0;\
     static PyObject *__pyx_dict_cached_value = NULL;\
     (var) = (likely(__pyx_dict_version == __PYX_GET_DICT_VERSION(__pyx_d))) ?\
         (likely(__pyx_dict_cached_value) ? __Pyx_NewRef(__pyx_dict_cached_value) : __Pyx_GetBuiltinName(name)) :\
         __Pyx__GetModuleGlobalName(name, &__pyx_dict_version, &__pyx_dict_cached_value);\
-}
-#define __Pyx_GetModuleGlobalNameUncached(var, name)  {\
+} while(0)
+#define __Pyx_GetModuleGlobalNameUncached(var, name)  do {\
     PY_UINT64_T __pyx_dict_version;\
     PyObject *__pyx_dict_cached_value;\
     (var) = __Pyx__GetModuleGlobalName(name, &__pyx_dict_version, &__pyx_dict_cached_value);\
-}
+} while(0)
 static PyObject *__Pyx__GetModuleGlobalName(PyObject *name, PY_UINT64_T *dict_version, PyObject **dict_cached_value);
 #else
 #define __Pyx_GetModuleGlobalName(var, name)  (var) = __Pyx__GetModuleGlobalName(name)
@@ -1675,6 +1681,23 @@ static CYTHON_INLINE int __Pyx_PyList_Append(PyObject* list, PyObject* x) {
 #define __Pyx_PyList_Append(L,x) PyList_Append(L,x)
 #endif
 
+/* AssertionsEnabled.proto */
+#define __Pyx_init_assertions_enabled()
+#if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX < 0x02070600 && !defined(Py_OptimizeFlag)
+  #define __pyx_assertions_enabled() (1)
+#elif PY_VERSION_HEX < 0x03080000  ||  CYTHON_COMPILING_IN_PYPY  ||  defined(Py_LIMITED_API)
+  #define __pyx_assertions_enabled() (!Py_OptimizeFlag)
+#elif CYTHON_COMPILING_IN_CPYTHON && PY_VERSION_HEX >= 0x030900A6
+  static int __pyx_assertions_enabled_flag;
+  #define __pyx_assertions_enabled() (__pyx_assertions_enabled_flag)
+  #undef __Pyx_init_assertions_enabled
+  static void __Pyx_init_assertions_enabled(void) {
+    __pyx_assertions_enabled_flag = ! _PyInterpreterState_GetConfig(__Pyx_PyThreadState_Current->interp)->optimization_level;
+  }
+#else
+  #define __pyx_assertions_enabled() (!Py_OptimizeFlag)
+#endif
+
 /* None.proto */
 static CYTHON_INLINE void __Pyx_RaiseUnboundLocalError(const char *varname);
 
@@ -1717,14 +1740,22 @@ static CYTHON_INLINE PyObject* __Pyx_PyObject_GetAttrStrNoError(PyObject* obj, P
 static int __Pyx_setup_reduce(PyObject* type_obj);
 
 /* TypeImport.proto */
-#ifndef __PYX_HAVE_RT_ImportType_proto
-#define __PYX_HAVE_RT_ImportType_proto
-enum __Pyx_ImportType_CheckSize {
-   __Pyx_ImportType_CheckSize_Error = 0,
-   __Pyx_ImportType_CheckSize_Warn = 1,
-   __Pyx_ImportType_CheckSize_Ignore = 2
+#ifndef __PYX_HAVE_RT_ImportType_proto_0_29_37
+#define __PYX_HAVE_RT_ImportType_proto_0_29_37
+#if __STDC_VERSION__ >= 201112L
+#include <stdalign.h>
+#endif
+#if __STDC_VERSION__ >= 201112L || __cplusplus >= 201103L
+#define __PYX_GET_STRUCT_ALIGNMENT_0_29_37(s) alignof(s)
+#else
+#define __PYX_GET_STRUCT_ALIGNMENT_0_29_37(s) sizeof(void*)
+#endif
+enum __Pyx_ImportType_CheckSize_0_29_37 {
+   __Pyx_ImportType_CheckSize_Error_0_29_37 = 0,
+   __Pyx_ImportType_CheckSize_Warn_0_29_37 = 1,
+   __Pyx_ImportType_CheckSize_Ignore_0_29_37 = 2
 };
-static PyTypeObject *__Pyx_ImportType(PyObject* module, const char *module_name, const char *class_name, size_t size, enum __Pyx_ImportType_CheckSize check_size);
+static PyTypeObject *__Pyx_ImportType_0_29_37(PyObject* module, const char *module_name, const char *class_name, size_t size, size_t alignment, enum __Pyx_ImportType_CheckSize_0_29_37 check_size);
 #endif
 
 /* CLineInTraceback.proto */
@@ -2139,6 +2170,7 @@ static const char __pyx_k_obj[] = "obj";
 static const char __pyx_k_amin[] = "amin";
 static const char __pyx_k_base[] = "base";
 static const char __pyx_k_dict[] = "__dict__";
+static const char __pyx_k_last[] = "last";
 static const char __pyx_k_main[] = "__main__";
 static const char __pyx_k_minv[] = "minv";
 static const char __pyx_k_mode[] = "mode";
@@ -2181,7 +2213,6 @@ static const char __pyx_k_pyx_state[] = "__pyx_state";
 static const char __pyx_k_reduce_ex[] = "__reduce_ex__";
 static const char __pyx_k_IndexError[] = "IndexError";
 static const char __pyx_k_ValueError[] = "ValueError";
-static const char __pyx_k_choice_pyx[] = "choice.pyx";
 static const char __pyx_k_pyx_result[] = "__pyx_result";
 static const char __pyx_k_pyx_vtable[] = "__pyx_vtable__";
 static const char __pyx_k_MemoryError[] = "MemoryError";
@@ -2209,6 +2240,7 @@ static const char __pyx_k_itemsize_0_for_cython_array[] = "itemsize <= 0 for cyt
 static const char __pyx_k_queueing_tool_queues_choice[] = "queueing_tool.queues.choice";
 static const char __pyx_k_unable_to_allocate_array_data[] = "unable to allocate array data.";
 static const char __pyx_k_strided_and_direct_or_indirect[] = "<strided and direct or indirect>";
+static const char __pyx_k_queueing_tool_queues_choice_pyx[] = "queueing_tool/queues/choice.pyx";
 static const char __pyx_k_Buffer_view_does_not_expose_stri[] = "Buffer view does not expose strides";
 static const char __pyx_k_Can_only_create_a_buffer_that_is[] = "Can only create a buffer that is contiguous in memory.";
 static const char __pyx_k_Cannot_assign_to_read_only_memor[] = "Cannot assign to read-only memoryview";
@@ -2254,7 +2286,6 @@ static PyObject *__pyx_n_s_base;
 static PyObject *__pyx_n_s_c;
 static PyObject *__pyx_n_u_c;
 static PyObject *__pyx_n_s_choice;
-static PyObject *__pyx_kp_s_choice_pyx;
 static PyObject *__pyx_n_s_class;
 static PyObject *__pyx_n_s_cline_in_traceback;
 static PyObject *__pyx_kp_s_contiguous_and_direct;
@@ -2275,6 +2306,7 @@ static PyObject *__pyx_n_s_import;
 static PyObject *__pyx_n_s_itemsize;
 static PyObject *__pyx_kp_s_itemsize_0_for_cython_array;
 static PyObject *__pyx_n_s_k;
+static PyObject *__pyx_n_s_last;
 static PyObject *__pyx_n_s_main;
 static PyObject *__pyx_n_s_memview;
 static PyObject *__pyx_n_s_minv;
@@ -2298,6 +2330,7 @@ static PyObject *__pyx_n_s_pyx_type;
 static PyObject *__pyx_n_s_pyx_unpickle_Enum;
 static PyObject *__pyx_n_s_pyx_vtable;
 static PyObject *__pyx_n_s_queueing_tool_queues_choice;
+static PyObject *__pyx_kp_s_queueing_tool_queues_choice_pyx;
 static PyObject *__pyx_n_s_range;
 static PyObject *__pyx_n_s_reduce;
 static PyObject *__pyx_n_s_reduce_cython;
@@ -2414,8 +2447,8 @@ static PyObject *__pyx_codeobj__30;
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * def _choice(double [::1] pr, double u, Py_ssize_t n):             # <<<<<<<<<<<<<<
- *     cdef double z
- *     cdef int k
+ *     cdef double z = 0
+ *     cdef int k, last = 0
  */
 
 /* Python wrapper */
@@ -2497,11 +2530,12 @@ static PyObject *__pyx_pw_13queueing_tool_6queues_6choice_1_choice(PyObject *__p
 static PyObject *__pyx_pf_13queueing_tool_6queues_6choice__choice(CYTHON_UNUSED PyObject *__pyx_self, __Pyx_memviewslice __pyx_v_pr, double __pyx_v_u, Py_ssize_t __pyx_v_n) {
   double __pyx_v_z;
   int __pyx_v_k;
+  int __pyx_v_last;
   PyObject *__pyx_r = NULL;
   __Pyx_RefNannyDeclarations
   Py_ssize_t __pyx_t_1;
-  int __pyx_t_2;
-  Py_ssize_t __pyx_t_3;
+  Py_ssize_t __pyx_t_2;
+  int __pyx_t_3;
   Py_ssize_t __pyx_t_4;
   int __pyx_t_5;
   PyObject *__pyx_t_6 = NULL;
@@ -2510,148 +2544,149 @@ static PyObject *__pyx_pf_13queueing_tool_6queues_6choice__choice(CYTHON_UNUSED
   int __pyx_clineno = 0;
   __Pyx_RefNannySetupContext("_choice", 0);
 
-  /* "queueing_tool/queues/choice.pyx":13
- *     cdef int k
- * 
- *     if u <= pr[0]:             # <<<<<<<<<<<<<<
- *         k = 0
- *     else:
- */
-  __pyx_t_1 = 0;
-  __pyx_t_2 = ((__pyx_v_u <= (*((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_pr.data) + __pyx_t_1)) )))) != 0);
-  if (__pyx_t_2) {
-
-    /* "queueing_tool/queues/choice.pyx":14
+  /* "queueing_tool/queues/choice.pyx":10
+ * @cython.nonecheck(False)
+ * def _choice(double [::1] pr, double u, Py_ssize_t n):
+ *     cdef double z = 0             # <<<<<<<<<<<<<<
+ *     cdef int k, last = 0
  * 
- *     if u <= pr[0]:
- *         k = 0             # <<<<<<<<<<<<<<
- *     else:
- *         z = pr[0]
  */
-    __pyx_v_k = 0;
+  __pyx_v_z = 0.0;
 
-    /* "queueing_tool/queues/choice.pyx":13
- *     cdef int k
+  /* "queueing_tool/queues/choice.pyx":11
+ * def _choice(double [::1] pr, double u, Py_ssize_t n):
+ *     cdef double z = 0
+ *     cdef int k, last = 0             # <<<<<<<<<<<<<<
  * 
- *     if u <= pr[0]:             # <<<<<<<<<<<<<<
- *         k = 0
- *     else:
+ *     # Choices with probability zero are never selected, not even when
  */
-    goto __pyx_L3;
-  }
+  __pyx_v_last = 0;
 
-  /* "queueing_tool/queues/choice.pyx":16
- *         k = 0
- *     else:
- *         z = pr[0]             # <<<<<<<<<<<<<<
- *         with nogil:
- *             for k in range(1, n):
+  /* "queueing_tool/queues/choice.pyx":15
+ *     # Choices with probability zero are never selected, not even when
+ *     # u is 0 or when the probabilities sum to slightly less than one.
+ *     with nogil:             # <<<<<<<<<<<<<<
+ *         for k in range(n):
+ *             if pr[k] > 0:
  */
-  /*else*/ {
-    __pyx_t_1 = 0;
-    __pyx_v_z = (*((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_pr.data) + __pyx_t_1)) )));
+  {
+      #ifdef WITH_THREAD
+      PyThreadState *_save;
+      Py_UNBLOCK_THREADS
+      __Pyx_FastGIL_Remember();
+      #endif
+      /*try:*/ {
 
-    /* "queueing_tool/queues/choice.pyx":17
- *     else:
- *         z = pr[0]
- *         with nogil:             # <<<<<<<<<<<<<<
- *             for k in range(1, n):
- *                 if u <= z + pr[k]:
- */
-    {
-        #ifdef WITH_THREAD
-        PyThreadState *_save;
-        Py_UNBLOCK_THREADS
-        __Pyx_FastGIL_Remember();
-        #endif
-        /*try:*/ {
+        /* "queueing_tool/queues/choice.pyx":16
+ *     # u is 0 or when the probabilities sum to slightly less than one.
+ *     with nogil:
+ *         for k in range(n):             # <<<<<<<<<<<<<<
+ *             if pr[k] > 0:
+ *                 last = k
+ */
+        __pyx_t_1 = __pyx_v_n;
+        __pyx_t_2 = __pyx_t_1;
+        for (__pyx_t_3 = 0; __pyx_t_3 < __pyx_t_2; __pyx_t_3+=1) {
+          __pyx_v_k = __pyx_t_3;
+
+          /* "queueing_tool/queues/choice.pyx":17
+ *     with nogil:
+ *         for k in range(n):
+ *             if pr[k] > 0:             # <<<<<<<<<<<<<<
+ *                 last = k
+ *                 z += pr[k]
+ */
+          __pyx_t_4 = __pyx_v_k;
+          __pyx_t_5 = (((*((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_pr.data) + __pyx_t_4)) ))) > 0.0) != 0);
+          if (__pyx_t_5) {
+
+            /* "queueing_tool/queues/choice.pyx":18
+ *         for k in range(n):
+ *             if pr[k] > 0:
+ *                 last = k             # <<<<<<<<<<<<<<
+ *                 z += pr[k]
+ *                 if u < z:
+ */
+            __pyx_v_last = __pyx_v_k;
 
-          /* "queueing_tool/queues/choice.pyx":18
- *         z = pr[0]
- *         with nogil:
- *             for k in range(1, n):             # <<<<<<<<<<<<<<
- *                 if u <= z + pr[k]:
+            /* "queueing_tool/queues/choice.pyx":19
+ *             if pr[k] > 0:
+ *                 last = k
+ *                 z += pr[k]             # <<<<<<<<<<<<<<
+ *                 if u < z:
  *                     break
  */
-          __pyx_t_3 = __pyx_v_n;
-          __pyx_t_4 = __pyx_t_3;
-          for (__pyx_t_5 = 1; __pyx_t_5 < __pyx_t_4; __pyx_t_5+=1) {
-            __pyx_v_k = __pyx_t_5;
+            __pyx_t_4 = __pyx_v_k;
+            __pyx_v_z = (__pyx_v_z + (*((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_pr.data) + __pyx_t_4)) ))));
 
-            /* "queueing_tool/queues/choice.pyx":19
- *         with nogil:
- *             for k in range(1, n):
- *                 if u <= z + pr[k]:             # <<<<<<<<<<<<<<
+            /* "queueing_tool/queues/choice.pyx":20
+ *                 last = k
+ *                 z += pr[k]
+ *                 if u < z:             # <<<<<<<<<<<<<<
  *                     break
- *                 else:
+ * 
  */
-            __pyx_t_1 = __pyx_v_k;
-            __pyx_t_2 = ((__pyx_v_u <= (__pyx_v_z + (*((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_pr.data) + __pyx_t_1)) ))))) != 0);
-            if (__pyx_t_2) {
+            __pyx_t_5 = ((__pyx_v_u < __pyx_v_z) != 0);
+            if (__pyx_t_5) {
 
-              /* "queueing_tool/queues/choice.pyx":20
- *             for k in range(1, n):
- *                 if u <= z + pr[k]:
+              /* "queueing_tool/queues/choice.pyx":21
+ *                 z += pr[k]
+ *                 if u < z:
  *                     break             # <<<<<<<<<<<<<<
- *                 else:
- *                     z += pr[k]
+ * 
+ *     return last
  */
-              goto __pyx_L8_break;
+              goto __pyx_L7_break;
 
-              /* "queueing_tool/queues/choice.pyx":19
- *         with nogil:
- *             for k in range(1, n):
- *                 if u <= z + pr[k]:             # <<<<<<<<<<<<<<
+              /* "queueing_tool/queues/choice.pyx":20
+ *                 last = k
+ *                 z += pr[k]
+ *                 if u < z:             # <<<<<<<<<<<<<<
  *                     break
- *                 else:
+ * 
  */
             }
 
-            /* "queueing_tool/queues/choice.pyx":22
- *                     break
- *                 else:
- *                     z += pr[k]             # <<<<<<<<<<<<<<
- * 
- *     return k
+            /* "queueing_tool/queues/choice.pyx":17
+ *     with nogil:
+ *         for k in range(n):
+ *             if pr[k] > 0:             # <<<<<<<<<<<<<<
+ *                 last = k
+ *                 z += pr[k]
  */
-            /*else*/ {
-              __pyx_t_1 = __pyx_v_k;
-              __pyx_v_z = (__pyx_v_z + (*((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_pr.data) + __pyx_t_1)) ))));
-            }
           }
-          __pyx_L8_break:;
         }
+        __pyx_L7_break:;
+      }
 
-        /* "queueing_tool/queues/choice.pyx":17
- *     else:
- *         z = pr[0]
- *         with nogil:             # <<<<<<<<<<<<<<
- *             for k in range(1, n):
- *                 if u <= z + pr[k]:
- */
-        /*finally:*/ {
-          /*normal exit:*/{
-            #ifdef WITH_THREAD
-            __Pyx_FastGIL_Forget();
-            Py_BLOCK_THREADS
-            #endif
-            goto __pyx_L6;
-          }
-          __pyx_L6:;
+      /* "queueing_tool/queues/choice.pyx":15
+ *     # Choices with probability zero are never selected, not even when
+ *     # u is 0 or when the probabilities sum to slightly less than one.
+ *     with nogil:             # <<<<<<<<<<<<<<
+ *         for k in range(n):
+ *             if pr[k] > 0:
+ */
+      /*finally:*/ {
+        /*normal exit:*/{
+          #ifdef WITH_THREAD
+          __Pyx_FastGIL_Forget();
+          Py_BLOCK_THREADS
+          #endif
+          goto __pyx_L5;
         }
-    }
+        __pyx_L5:;
+      }
   }
-  __pyx_L3:;
 
-  /* "queueing_tool/queues/choice.pyx":24
- *                     z += pr[k]
+  /* "queueing_tool/queues/choice.pyx":23
+ *                     break
  * 
- *     return k             # <<<<<<<<<<<<<<
+ *     return last             # <<<<<<<<<<<<<<
  * 
  * 
  */
   __Pyx_XDECREF(__pyx_r);
-  __pyx_t_6 = __Pyx_PyInt_From_int(__pyx_v_k); if (unlikely(!__pyx_t_6)) __PYX_ERR(0, 24, __pyx_L1_error)
+  __pyx_t_6 = __Pyx_PyInt_From_int(__pyx_v_last); if (unlikely(!__pyx_t_6)) __PYX_ERR(0, 23, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_6);
   __pyx_r = __pyx_t_6;
   __pyx_t_6 = 0;
@@ -2661,8 +2696,8 @@ static PyObject *__pyx_pf_13queueing_tool_6queues_6choice__choice(CYTHON_UNUSED
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * def _choice(double [::1] pr, double u, Py_ssize_t n):             # <<<<<<<<<<<<<<
- *     cdef double z
- *     cdef int k
+ *     cdef double z = 0
+ *     cdef int k, last = 0
  */
 
   /* function exit code */
@@ -2677,7 +2712,7 @@ static PyObject *__pyx_pf_13queueing_tool_6queues_6choice__choice(CYTHON_UNUSED
   return __pyx_r;
 }
 
-/* "queueing_tool/queues/choice.pyx":30
+/* "queueing_tool/queues/choice.pyx":29
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * def _argmin(list a):             # <<<<<<<<<<<<<<
@@ -2695,7 +2730,7 @@ static PyObject *__pyx_pw_13queueing_tool_6queues_6choice_3_argmin(PyObject *__p
   PyObject *__pyx_r = 0;
   __Pyx_RefNannyDeclarations
   __Pyx_RefNannySetupContext("_argmin (wrapper)", 0);
-  if (unlikely(!__Pyx_ArgTypeTest(((PyObject *)__pyx_v_a), (&PyList_Type), 1, "a", 1))) __PYX_ERR(0, 30, __pyx_L1_error)
+  if (unlikely(!__Pyx_ArgTypeTest(((PyObject *)__pyx_v_a), (&PyList_Type), 1, "a", 1))) __PYX_ERR(0, 29, __pyx_L1_error)
   __pyx_r = __pyx_pf_13queueing_tool_6queues_6choice_2_argmin(__pyx_self, ((PyObject*)__pyx_v_a));
 
   /* function exit code */
@@ -2725,7 +2760,7 @@ static PyObject *__pyx_pf_13queueing_tool_6queues_6choice_2_argmin(CYTHON_UNUSED
   int __pyx_clineno = 0;
   __Pyx_RefNannySetupContext("_argmin", 0);
 
-  /* "queueing_tool/queues/choice.pyx":32
+  /* "queueing_tool/queues/choice.pyx":31
  * def _argmin(list a):
  *     cdef int minv, amin, k, v
  *     minv = a[0]             # <<<<<<<<<<<<<<
@@ -2734,12 +2769,12 @@ static PyObject *__pyx_pf_13queueing_tool_6queues_6choice_2_argmin(CYTHON_UNUSED
  */
   if (unlikely(__pyx_v_a == Py_None)) {
     PyErr_SetString(PyExc_TypeError, "'NoneType' object is not subscriptable");
-    __PYX_ERR(0, 32, __pyx_L1_error)
+    __PYX_ERR(0, 31, __pyx_L1_error)
   }
-  __pyx_t_1 = __Pyx_PyInt_As_int(PyList_GET_ITEM(__pyx_v_a, 0)); if (unlikely((__pyx_t_1 == (int)-1) && PyErr_Occurred())) __PYX_ERR(0, 32, __pyx_L1_error)
+  __pyx_t_1 = __Pyx_PyInt_As_int(PyList_GET_ITEM(__pyx_v_a, 0)); if (unlikely((__pyx_t_1 == (int)-1) && PyErr_Occurred())) __PYX_ERR(0, 31, __pyx_L1_error)
   __pyx_v_minv = __pyx_t_1;
 
-  /* "queueing_tool/queues/choice.pyx":33
+  /* "queueing_tool/queues/choice.pyx":32
  *     cdef int minv, amin, k, v
  *     minv = a[0]
  *     amin = -1             # <<<<<<<<<<<<<<
@@ -2748,7 +2783,7 @@ static PyObject *__pyx_pf_13queueing_tool_6queues_6choice_2_argmin(CYTHON_UNUSED
  */
   __pyx_v_amin = -1;
 
-  /* "queueing_tool/queues/choice.pyx":34
+  /* "queueing_tool/queues/choice.pyx":33
  *     minv = a[0]
  *     amin = -1
  *     for k, v in enumerate(a[1:]):             # <<<<<<<<<<<<<<
@@ -2758,27 +2793,27 @@ static PyObject *__pyx_pf_13queueing_tool_6queues_6choice_2_argmin(CYTHON_UNUSED
   __pyx_t_1 = 0;
   if (unlikely(__pyx_v_a == Py_None)) {
     PyErr_SetString(PyExc_TypeError, "'NoneType' object is not subscriptable");
-    __PYX_ERR(0, 34, __pyx_L1_error)
+    __PYX_ERR(0, 33, __pyx_L1_error)
   }
-  __pyx_t_2 = __Pyx_PyList_GetSlice(__pyx_v_a, 1, PY_SSIZE_T_MAX); if (unlikely(!__pyx_t_2)) __PYX_ERR(0, 34, __pyx_L1_error)
+  __pyx_t_2 = __Pyx_PyList_GetSlice(__pyx_v_a, 1, PY_SSIZE_T_MAX); if (unlikely(!__pyx_t_2)) __PYX_ERR(0, 33, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_2);
   __pyx_t_3 = __pyx_t_2; __Pyx_INCREF(__pyx_t_3); __pyx_t_4 = 0;
   __Pyx_DECREF(__pyx_t_2); __pyx_t_2 = 0;
   for (;;) {
     if (__pyx_t_4 >= PyList_GET_SIZE(__pyx_t_3)) break;
     #if CYTHON_ASSUME_SAFE_MACROS && !CYTHON_AVOID_BORROWED_REFS
-    __pyx_t_2 = PyList_GET_ITEM(__pyx_t_3, __pyx_t_4); __Pyx_INCREF(__pyx_t_2); __pyx_t_4++; if (unlikely(0 < 0)) __PYX_ERR(0, 34, __pyx_L1_error)
+    __pyx_t_2 = PyList_GET_ITEM(__pyx_t_3, __pyx_t_4); __Pyx_INCREF(__pyx_t_2); __pyx_t_4++; if (unlikely(0 < 0)) __PYX_ERR(0, 33, __pyx_L1_error)
     #else
-    __pyx_t_2 = PySequence_ITEM(__pyx_t_3, __pyx_t_4); __pyx_t_4++; if (unlikely(!__pyx_t_2)) __PYX_ERR(0, 34, __pyx_L1_error)
+    __pyx_t_2 = PySequence_ITEM(__pyx_t_3, __pyx_t_4); __pyx_t_4++; if (unlikely(!__pyx_t_2)) __PYX_ERR(0, 33, __pyx_L1_error)
     __Pyx_GOTREF(__pyx_t_2);
     #endif
-    __pyx_t_5 = __Pyx_PyInt_As_int(__pyx_t_2); if (unlikely((__pyx_t_5 == (int)-1) && PyErr_Occurred())) __PYX_ERR(0, 34, __pyx_L1_error)
+    __pyx_t_5 = __Pyx_PyInt_As_int(__pyx_t_2); if (unlikely((__pyx_t_5 == (int)-1) && PyErr_Occurred())) __PYX_ERR(0, 33, __pyx_L1_error)
     __Pyx_DECREF(__pyx_t_2); __pyx_t_2 = 0;
     __pyx_v_v = __pyx_t_5;
     __pyx_v_k = __pyx_t_1;
     __pyx_t_1 = (__pyx_t_1 + 1);
 
-    /* "queueing_tool/queues/choice.pyx":35
+    /* "queueing_tool/queues/choice.pyx":34
  *     amin = -1
  *     for k, v in enumerate(a[1:]):
  *         if v < minv:             # <<<<<<<<<<<<<<
@@ -2788,7 +2823,7 @@ static PyObject *__pyx_pf_13queueing_tool_6queues_6choice_2_argmin(CYTHON_UNUSED
     __pyx_t_6 = ((__pyx_v_v < __pyx_v_minv) != 0);
     if (__pyx_t_6) {
 
-      /* "queueing_tool/queues/choice.pyx":36
+      /* "queueing_tool/queues/choice.pyx":35
  *     for k, v in enumerate(a[1:]):
  *         if v < minv:
  *             minv = v             # <<<<<<<<<<<<<<
@@ -2797,7 +2832,7 @@ static PyObject *__pyx_pf_13queueing_tool_6queues_6choice_2_argmin(CYTHON_UNUSED
  */
       __pyx_v_minv = __pyx_v_v;
 
-      /* "queueing_tool/queues/choice.pyx":37
+      /* "queueing_tool/queues/choice.pyx":36
  *         if v < minv:
  *             minv = v
  *             amin = k             # <<<<<<<<<<<<<<
@@ -2805,7 +2840,7 @@ static PyObject *__pyx_pf_13queueing_tool_6queues_6choice_2_argmin(CYTHON_UNUSED
  */
       __pyx_v_amin = __pyx_v_k;
 
-      /* "queueing_tool/queues/choice.pyx":35
+      /* "queueing_tool/queues/choice.pyx":34
  *     amin = -1
  *     for k, v in enumerate(a[1:]):
  *         if v < minv:             # <<<<<<<<<<<<<<
@@ -2814,7 +2849,7 @@ static PyObject *__pyx_pf_13queueing_tool_6queues_6choice_2_argmin(CYTHON_UNUSED
  */
     }
 
-    /* "queueing_tool/queues/choice.pyx":34
+    /* "queueing_tool/queues/choice.pyx":33
  *     minv = a[0]
  *     amin = -1
  *     for k, v in enumerate(a[1:]):             # <<<<<<<<<<<<<<
@@ -2824,19 +2859,19 @@ static PyObject *__pyx_pf_13queueing_tool_6queues_6choice_2_argmin(CYTHON_UNUSED
   }
   __Pyx_DECREF(__pyx_t_3); __pyx_t_3 = 0;
 
-  /* "queueing_tool/queues/choice.pyx":38
+  /* "queueing_tool/queues/choice.pyx":37
  *             minv = v
  *             amin = k
  *     return amin + 1             # <<<<<<<<<<<<<<
  */
   __Pyx_XDECREF(__pyx_r);
-  __pyx_t_3 = __Pyx_PyInt_From_long((__pyx_v_amin + 1)); if (unlikely(!__pyx_t_3)) __PYX_ERR(0, 38, __pyx_L1_error)
+  __pyx_t_3 = __Pyx_PyInt_From_long((__pyx_v_amin + 1)); if (unlikely(!__pyx_t_3)) __PYX_ERR(0, 37, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_3);
   __pyx_r = __pyx_t_3;
   __pyx_t_3 = 0;
   goto __pyx_L0;
 
-  /* "queueing_tool/queues/choice.pyx":30
+  /* "queueing_tool/queues/choice.pyx":29
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * def _argmin(list a):             # <<<<<<<<<<<<<<
@@ -3812,7 +3847,7 @@ static int __pyx_array___pyx_pf_15View_dot_MemoryView_5array___cinit__(struct __
  *         self.format = self._format
  * 
  */
-  if (!(likely(PyBytes_CheckExact(__pyx_v_format))||((__pyx_v_format) == Py_None)||(PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "bytes", Py_TYPE(__pyx_v_format)->tp_name), 0))) __PYX_ERR(2, 141, __pyx_L1_error)
+  if (!(likely(PyBytes_CheckExact(__pyx_v_format))||((__pyx_v_format) == Py_None)||((void)PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "bytes", Py_TYPE(__pyx_v_format)->tp_name), 0))) __PYX_ERR(2, 141, __pyx_L1_error)
   __pyx_t_3 = __pyx_v_format;
   __Pyx_INCREF(__pyx_t_3);
   __Pyx_GIVEREF(__pyx_t_3);
@@ -5790,7 +5825,7 @@ static PyObject *__pyx_pf___pyx_MemviewEnum_2__setstate_cython__(struct __pyx_Me
  * def __setstate_cython__(self, __pyx_state):
  *     __pyx_unpickle_Enum__set_state(self, __pyx_state)             # <<<<<<<<<<<<<<
  */
-  if (!(likely(PyTuple_CheckExact(__pyx_v___pyx_state))||((__pyx_v___pyx_state) == Py_None)||(PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "tuple", Py_TYPE(__pyx_v___pyx_state)->tp_name), 0))) __PYX_ERR(2, 17, __pyx_L1_error)
+  if (!(likely(PyTuple_CheckExact(__pyx_v___pyx_state))||((__pyx_v___pyx_state) == Py_None)||((void)PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "tuple", Py_TYPE(__pyx_v___pyx_state)->tp_name), 0))) __PYX_ERR(2, 17, __pyx_L1_error)
   __pyx_t_1 = __pyx_unpickle_Enum__set_state(__pyx_v_self, ((PyObject*)__pyx_v___pyx_state)); if (unlikely(!__pyx_t_1)) __PYX_ERR(2, 17, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
@@ -8093,7 +8128,7 @@ static PyObject *__pyx_memoryview_assign_item_from_object(struct __pyx_memoryvie
     __Pyx_GOTREF(__pyx_t_4);
     __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
     __Pyx_DECREF(__pyx_t_6); __pyx_t_6 = 0;
-    if (!(likely(PyBytes_CheckExact(__pyx_t_4))||((__pyx_t_4) == Py_None)||(PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "bytes", Py_TYPE(__pyx_t_4)->tp_name), 0))) __PYX_ERR(2, 512, __pyx_L1_error)
+    if (!(likely(PyBytes_CheckExact(__pyx_t_4))||((__pyx_t_4) == Py_None)||((void)PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "bytes", Py_TYPE(__pyx_t_4)->tp_name), 0))) __PYX_ERR(2, 512, __pyx_L1_error)
     __pyx_v_bytesvalue = ((PyObject*)__pyx_t_4);
     __pyx_t_4 = 0;
 
@@ -8166,7 +8201,7 @@ static PyObject *__pyx_memoryview_assign_item_from_object(struct __pyx_memoryvie
       __Pyx_DECREF(__pyx_t_8); __pyx_t_8 = 0;
     }
     __Pyx_DECREF(__pyx_t_6); __pyx_t_6 = 0;
-    if (!(likely(PyBytes_CheckExact(__pyx_t_4))||((__pyx_t_4) == Py_None)||(PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "bytes", Py_TYPE(__pyx_t_4)->tp_name), 0))) __PYX_ERR(2, 514, __pyx_L1_error)
+    if (!(likely(PyBytes_CheckExact(__pyx_t_4))||((__pyx_t_4) == Py_None)||((void)PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "bytes", Py_TYPE(__pyx_t_4)->tp_name), 0))) __PYX_ERR(2, 514, __pyx_L1_error)
     __pyx_v_bytesvalue = ((PyObject*)__pyx_t_4);
     __pyx_t_4 = 0;
   }
@@ -10846,7 +10881,7 @@ static struct __pyx_memoryview_obj *__pyx_memview_slice(struct __pyx_memoryview_
  *     if isinstance(memview, _memoryviewslice):
  */
   #ifndef CYTHON_WITHOUT_ASSERTIONS
-  if (unlikely(!Py_OptimizeFlag)) {
+  if (unlikely(__pyx_assertions_enabled())) {
     if (unlikely(!((__pyx_v_memview->view.ndim > 0) != 0))) {
       PyErr_SetNone(PyExc_AssertionError);
       __PYX_ERR(2, 724, __pyx_L1_error)
@@ -16369,7 +16404,7 @@ static PyObject *__pyx_pf_15View_dot_MemoryView___pyx_unpickle_Enum(CYTHON_UNUSE
  *     return __pyx_result
  * cdef __pyx_unpickle_Enum__set_state(Enum __pyx_result, tuple __pyx_state):
  */
-    if (!(likely(PyTuple_CheckExact(__pyx_v___pyx_state))||((__pyx_v___pyx_state) == Py_None)||(PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "tuple", Py_TYPE(__pyx_v___pyx_state)->tp_name), 0))) __PYX_ERR(2, 9, __pyx_L1_error)
+    if (!(likely(PyTuple_CheckExact(__pyx_v___pyx_state))||((__pyx_v___pyx_state) == Py_None)||((void)PyErr_Format(PyExc_TypeError, "Expected %.16s, got %.200s", "tuple", Py_TYPE(__pyx_v___pyx_state)->tp_name), 0))) __PYX_ERR(2, 9, __pyx_L1_error)
     __pyx_t_4 = __pyx_unpickle_Enum__set_state(((struct __pyx_MemviewEnum_obj *)__pyx_v___pyx_result), ((PyObject*)__pyx_v___pyx_state)); if (unlikely(!__pyx_t_4)) __PYX_ERR(2, 9, __pyx_L1_error)
     __Pyx_GOTREF(__pyx_t_4);
     __Pyx_DECREF(__pyx_t_4); __pyx_t_4 = 0;
@@ -16573,7 +16608,7 @@ static PyObject *__pyx_tp_new_array(PyTypeObject *t, PyObject *a, PyObject *k) {
 static void __pyx_tp_dealloc_array(PyObject *o) {
   struct __pyx_array_obj *p = (struct __pyx_array_obj *)o;
   #if CYTHON_USE_TP_FINALIZE
-  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && (!PyType_IS_GC(Py_TYPE(o)) || !_PyGC_FINALIZED(o))) {
+  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && (!PyType_IS_GC(Py_TYPE(o)) || !__Pyx_PyObject_GC_IsFinalized(o))) {
     if (PyObject_CallFinalizerFromDealloc(o)) return;
   }
   #endif
@@ -16736,7 +16771,7 @@ static PyTypeObject __pyx_type___pyx_array = {
   #if PY_VERSION_HEX >= 0x030800b4 && PY_VERSION_HEX < 0x03090000
   0, /*tp_print*/
   #endif
-  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000
+  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000 && PY_VERSION_HEX < 0x030a0000
   0, /*tp_pypy_flags*/
   #endif
 };
@@ -16758,7 +16793,7 @@ static PyObject *__pyx_tp_new_Enum(PyTypeObject *t, CYTHON_UNUSED PyObject *a, C
 static void __pyx_tp_dealloc_Enum(PyObject *o) {
   struct __pyx_MemviewEnum_obj *p = (struct __pyx_MemviewEnum_obj *)o;
   #if CYTHON_USE_TP_FINALIZE
-  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && !_PyGC_FINALIZED(o)) {
+  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && !__Pyx_PyObject_GC_IsFinalized(o)) {
     if (PyObject_CallFinalizerFromDealloc(o)) return;
   }
   #endif
@@ -16858,7 +16893,7 @@ static PyTypeObject __pyx_type___pyx_MemviewEnum = {
   #if PY_VERSION_HEX >= 0x030800b4 && PY_VERSION_HEX < 0x03090000
   0, /*tp_print*/
   #endif
-  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000
+  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000 && PY_VERSION_HEX < 0x030a0000
   0, /*tp_pypy_flags*/
   #endif
 };
@@ -16889,7 +16924,7 @@ static PyObject *__pyx_tp_new_memoryview(PyTypeObject *t, PyObject *a, PyObject
 static void __pyx_tp_dealloc_memoryview(PyObject *o) {
   struct __pyx_memoryview_obj *p = (struct __pyx_memoryview_obj *)o;
   #if CYTHON_USE_TP_FINALIZE
-  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && !_PyGC_FINALIZED(o)) {
+  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && !__Pyx_PyObject_GC_IsFinalized(o)) {
     if (PyObject_CallFinalizerFromDealloc(o)) return;
   }
   #endif
@@ -17122,7 +17157,7 @@ static PyTypeObject __pyx_type___pyx_memoryview = {
   #if PY_VERSION_HEX >= 0x030800b4 && PY_VERSION_HEX < 0x03090000
   0, /*tp_print*/
   #endif
-  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000
+  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000 && PY_VERSION_HEX < 0x030a0000
   0, /*tp_pypy_flags*/
   #endif
 };
@@ -17142,7 +17177,7 @@ static PyObject *__pyx_tp_new__memoryviewslice(PyTypeObject *t, PyObject *a, PyO
 static void __pyx_tp_dealloc__memoryviewslice(PyObject *o) {
   struct __pyx_memoryviewslice_obj *p = (struct __pyx_memoryviewslice_obj *)o;
   #if CYTHON_USE_TP_FINALIZE
-  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && !_PyGC_FINALIZED(o)) {
+  if (unlikely(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_HAVE_FINALIZE) && Py_TYPE(o)->tp_finalize) && !__Pyx_PyObject_GC_IsFinalized(o)) {
     if (PyObject_CallFinalizerFromDealloc(o)) return;
   }
   #endif
@@ -17271,7 +17306,7 @@ static PyTypeObject __pyx_type___pyx_memoryviewslice = {
   #if PY_VERSION_HEX >= 0x030800b4 && PY_VERSION_HEX < 0x03090000
   0, /*tp_print*/
   #endif
-  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000
+  #if CYTHON_COMPILING_IN_PYPY && PY_VERSION_HEX >= 0x03090000 && PY_VERSION_HEX < 0x030a0000
   0, /*tp_pypy_flags*/
   #endif
 };
@@ -17354,7 +17389,6 @@ static __Pyx_StringTabEntry __pyx_string_tab[] = {
   {&__pyx_n_s_c, __pyx_k_c, sizeof(__pyx_k_c), 0, 0, 1, 1},
   {&__pyx_n_u_c, __pyx_k_c, sizeof(__pyx_k_c), 0, 1, 0, 1},
   {&__pyx_n_s_choice, __pyx_k_choice, sizeof(__pyx_k_choice), 0, 0, 1, 1},
-  {&__pyx_kp_s_choice_pyx, __pyx_k_choice_pyx, sizeof(__pyx_k_choice_pyx), 0, 0, 1, 0},
   {&__pyx_n_s_class, __pyx_k_class, sizeof(__pyx_k_class), 0, 0, 1, 1},
   {&__pyx_n_s_cline_in_traceback, __pyx_k_cline_in_traceback, sizeof(__pyx_k_cline_in_traceback), 0, 0, 1, 1},
   {&__pyx_kp_s_contiguous_and_direct, __pyx_k_contiguous_and_direct, sizeof(__pyx_k_contiguous_and_direct), 0, 0, 1, 0},
@@ -17375,6 +17409,7 @@ static __Pyx_StringTabEntry __pyx_string_tab[] = {
   {&__pyx_n_s_itemsize, __pyx_k_itemsize, sizeof(__pyx_k_itemsize), 0, 0, 1, 1},
   {&__pyx_kp_s_itemsize_0_for_cython_array, __pyx_k_itemsize_0_for_cython_array, sizeof(__pyx_k_itemsize_0_for_cython_array), 0, 0, 1, 0},
   {&__pyx_n_s_k, __pyx_k_k, sizeof(__pyx_k_k), 0, 0, 1, 1},
+  {&__pyx_n_s_last, __pyx_k_last, sizeof(__pyx_k_last), 0, 0, 1, 1},
   {&__pyx_n_s_main, __pyx_k_main, sizeof(__pyx_k_main), 0, 0, 1, 1},
   {&__pyx_n_s_memview, __pyx_k_memview, sizeof(__pyx_k_memview), 0, 0, 1, 1},
   {&__pyx_n_s_minv, __pyx_k_minv, sizeof(__pyx_k_minv), 0, 0, 1, 1},
@@ -17398,6 +17433,7 @@ static __Pyx_StringTabEntry __pyx_string_tab[] = {
   {&__pyx_n_s_pyx_unpickle_Enum, __pyx_k_pyx_unpickle_Enum, sizeof(__pyx_k_pyx_unpickle_Enum), 0, 0, 1, 1},
   {&__pyx_n_s_pyx_vtable, __pyx_k_pyx_vtable, sizeof(__pyx_k_pyx_vtable), 0, 0, 1, 1},
   {&__pyx_n_s_queueing_tool_queues_choice, __pyx_k_queueing_tool_queues_choice, sizeof(__pyx_k_queueing_tool_queues_choice), 0, 0, 1, 1},
+  {&__pyx_kp_s_queueing_tool_queues_choice_pyx, __pyx_k_queueing_tool_queues_choice_pyx, sizeof(__pyx_k_queueing_tool_queues_choice_pyx), 0, 0, 1, 0},
   {&__pyx_n_s_range, __pyx_k_range, sizeof(__pyx_k_range), 0, 0, 1, 1},
   {&__pyx_n_s_reduce, __pyx_k_reduce, sizeof(__pyx_k_reduce), 0, 0, 1, 1},
   {&__pyx_n_s_reduce_cython, __pyx_k_reduce_cython, sizeof(__pyx_k_reduce_cython), 0, 0, 1, 1},
@@ -17425,8 +17461,8 @@ static __Pyx_StringTabEntry __pyx_string_tab[] = {
   {0, 0, 0, 0, 0, 0, 0}
 };
 static CYTHON_SMALL_CODE int __Pyx_InitCachedBuiltins(void) {
-  __pyx_builtin_range = __Pyx_GetBuiltinName(__pyx_n_s_range); if (!__pyx_builtin_range) __PYX_ERR(0, 18, __pyx_L1_error)
-  __pyx_builtin_enumerate = __Pyx_GetBuiltinName(__pyx_n_s_enumerate); if (!__pyx_builtin_enumerate) __PYX_ERR(0, 34, __pyx_L1_error)
+  __pyx_builtin_range = __Pyx_GetBuiltinName(__pyx_n_s_range); if (!__pyx_builtin_range) __PYX_ERR(0, 16, __pyx_L1_error)
+  __pyx_builtin_enumerate = __Pyx_GetBuiltinName(__pyx_n_s_enumerate); if (!__pyx_builtin_enumerate) __PYX_ERR(0, 33, __pyx_L1_error)
   __pyx_builtin_MemoryError = __Pyx_GetBuiltinName(__pyx_n_s_MemoryError); if (!__pyx_builtin_MemoryError) __PYX_ERR(1, 109, __pyx_L1_error)
   __pyx_builtin_ValueError = __Pyx_GetBuiltinName(__pyx_n_s_ValueError); if (!__pyx_builtin_ValueError) __PYX_ERR(2, 134, __pyx_L1_error)
   __pyx_builtin_TypeError = __Pyx_GetBuiltinName(__pyx_n_s_TypeError); if (!__pyx_builtin_TypeError) __PYX_ERR(2, 2, __pyx_L1_error)
@@ -17641,25 +17677,25 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * def _choice(double [::1] pr, double u, Py_ssize_t n):             # <<<<<<<<<<<<<<
- *     cdef double z
- *     cdef int k
+ *     cdef double z = 0
+ *     cdef int k, last = 0
  */
-  __pyx_tuple__20 = PyTuple_Pack(5, __pyx_n_s_pr, __pyx_n_s_u, __pyx_n_s_n, __pyx_n_s_z, __pyx_n_s_k); if (unlikely(!__pyx_tuple__20)) __PYX_ERR(0, 9, __pyx_L1_error)
+  __pyx_tuple__20 = PyTuple_Pack(6, __pyx_n_s_pr, __pyx_n_s_u, __pyx_n_s_n, __pyx_n_s_z, __pyx_n_s_k, __pyx_n_s_last); if (unlikely(!__pyx_tuple__20)) __PYX_ERR(0, 9, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_tuple__20);
   __Pyx_GIVEREF(__pyx_tuple__20);
-  __pyx_codeobj__21 = (PyObject*)__Pyx_PyCode_New(3, 0, 5, 0, CO_OPTIMIZED|CO_NEWLOCALS, __pyx_empty_bytes, __pyx_empty_tuple, __pyx_empty_tuple, __pyx_tuple__20, __pyx_empty_tuple, __pyx_empty_tuple, __pyx_kp_s_choice_pyx, __pyx_n_s_choice, 9, __pyx_empty_bytes); if (unlikely(!__pyx_codeobj__21)) __PYX_ERR(0, 9, __pyx_L1_error)
+  __pyx_codeobj__21 = (PyObject*)__Pyx_PyCode_New(3, 0, 6, 0, CO_OPTIMIZED|CO_NEWLOCALS, __pyx_empty_bytes, __pyx_empty_tuple, __pyx_empty_tuple, __pyx_tuple__20, __pyx_empty_tuple, __pyx_empty_tuple, __pyx_kp_s_queueing_tool_queues_choice_pyx, __pyx_n_s_choice, 9, __pyx_empty_bytes); if (unlikely(!__pyx_codeobj__21)) __PYX_ERR(0, 9, __pyx_L1_error)
 
-  /* "queueing_tool/queues/choice.pyx":30
+  /* "queueing_tool/queues/choice.pyx":29
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * def _argmin(list a):             # <<<<<<<<<<<<<<
  *     cdef int minv, amin, k, v
  *     minv = a[0]
  */
-  __pyx_tuple__22 = PyTuple_Pack(5, __pyx_n_s_a, __pyx_n_s_minv, __pyx_n_s_amin, __pyx_n_s_k, __pyx_n_s_v); if (unlikely(!__pyx_tuple__22)) __PYX_ERR(0, 30, __pyx_L1_error)
+  __pyx_tuple__22 = PyTuple_Pack(5, __pyx_n_s_a, __pyx_n_s_minv, __pyx_n_s_amin, __pyx_n_s_k, __pyx_n_s_v); if (unlikely(!__pyx_tuple__22)) __PYX_ERR(0, 29, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_tuple__22);
   __Pyx_GIVEREF(__pyx_tuple__22);
-  __pyx_codeobj__23 = (PyObject*)__Pyx_PyCode_New(1, 0, 5, 0, CO_OPTIMIZED|CO_NEWLOCALS, __pyx_empty_bytes, __pyx_empty_tuple, __pyx_empty_tuple, __pyx_tuple__22, __pyx_empty_tuple, __pyx_empty_tuple, __pyx_kp_s_choice_pyx, __pyx_n_s_argmin, 30, __pyx_empty_bytes); if (unlikely(!__pyx_codeobj__23)) __PYX_ERR(0, 30, __pyx_L1_error)
+  __pyx_codeobj__23 = (PyObject*)__Pyx_PyCode_New(1, 0, 5, 0, CO_OPTIMIZED|CO_NEWLOCALS, __pyx_empty_bytes, __pyx_empty_tuple, __pyx_empty_tuple, __pyx_tuple__22, __pyx_empty_tuple, __pyx_empty_tuple, __pyx_kp_s_queueing_tool_queues_choice_pyx, __pyx_n_s_argmin, 29, __pyx_empty_bytes); if (unlikely(!__pyx_codeobj__23)) __PYX_ERR(0, 29, __pyx_L1_error)
 
   /* "View.MemoryView":287
  *         return self.name
@@ -17733,7 +17769,12 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
 }
 
 static CYTHON_SMALL_CODE int __Pyx_InitGlobals(void) {
-  if (__Pyx_InitStrings(__pyx_string_tab) < 0) __PYX_ERR(0, 1, __pyx_L1_error);
+  /* AssertionsEnabled.init */
+  __Pyx_init_assertions_enabled();
+
+if (unlikely(PyErr_Occurred())) __PYX_ERR(0, 1, __pyx_L1_error)
+
+  if (__Pyx_InitStrings(__pyx_string_tab) < 0) __PYX_ERR(0, 1, __pyx_L1_error)
   __pyx_int_0 = PyInt_FromLong(0); if (unlikely(!__pyx_int_0)) __PYX_ERR(0, 1, __pyx_L1_error)
   __pyx_int_1 = PyInt_FromLong(1); if (unlikely(!__pyx_int_1)) __PYX_ERR(0, 1, __pyx_L1_error)
   __pyx_int_112105877 = PyInt_FromLong(112105877L); if (unlikely(!__pyx_int_112105877)) __PYX_ERR(0, 1, __pyx_L1_error)
@@ -17857,29 +17898,25 @@ static int __Pyx_modinit_type_import_code(void) {
   /*--- Type import code ---*/
   __pyx_t_1 = PyImport_ImportModule(__Pyx_BUILTIN_MODULE_NAME); if (unlikely(!__pyx_t_1)) __PYX_ERR(3, 9, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
-  __pyx_ptype_7cpython_4type_type = __Pyx_ImportType(__pyx_t_1, __Pyx_BUILTIN_MODULE_NAME, "type", 
+  __pyx_ptype_7cpython_4type_type = __Pyx_ImportType_0_29_37(__pyx_t_1, __Pyx_BUILTIN_MODULE_NAME, "type", 
   #if defined(PYPY_VERSION_NUM) && PYPY_VERSION_NUM < 0x050B0000
-  sizeof(PyTypeObject),
+  sizeof(PyTypeObject), __PYX_GET_STRUCT_ALIGNMENT_0_29_37(PyTypeObject),
   #else
-  sizeof(PyHeapTypeObject),
+  sizeof(PyHeapTypeObject), __PYX_GET_STRUCT_ALIGNMENT_0_29_37(PyHeapTypeObject),
   #endif
-  __Pyx_ImportType_CheckSize_Warn);
-   if (!__pyx_ptype_7cpython_4type_type) __PYX_ERR(3, 9, __pyx_L1_error)
+  __Pyx_ImportType_CheckSize_Warn_0_29_37); if (!__pyx_ptype_7cpython_4type_type) __PYX_ERR(3, 9, __pyx_L1_error)
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
   __pyx_t_1 = PyImport_ImportModule(__Pyx_BUILTIN_MODULE_NAME); if (unlikely(!__pyx_t_1)) __PYX_ERR(4, 8, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
-  __pyx_ptype_7cpython_4bool_bool = __Pyx_ImportType(__pyx_t_1, __Pyx_BUILTIN_MODULE_NAME, "bool", sizeof(PyBoolObject), __Pyx_ImportType_CheckSize_Warn);
-   if (!__pyx_ptype_7cpython_4bool_bool) __PYX_ERR(4, 8, __pyx_L1_error)
+  __pyx_ptype_7cpython_4bool_bool = __Pyx_ImportType_0_29_37(__pyx_t_1, __Pyx_BUILTIN_MODULE_NAME, "bool", sizeof(PyBoolObject), __PYX_GET_STRUCT_ALIGNMENT_0_29_37(PyBoolObject),__Pyx_ImportType_CheckSize_Warn_0_29_37); if (!__pyx_ptype_7cpython_4bool_bool) __PYX_ERR(4, 8, __pyx_L1_error)
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
   __pyx_t_1 = PyImport_ImportModule(__Pyx_BUILTIN_MODULE_NAME); if (unlikely(!__pyx_t_1)) __PYX_ERR(5, 15, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
-  __pyx_ptype_7cpython_7complex_complex = __Pyx_ImportType(__pyx_t_1, __Pyx_BUILTIN_MODULE_NAME, "complex", sizeof(PyComplexObject), __Pyx_ImportType_CheckSize_Warn);
-   if (!__pyx_ptype_7cpython_7complex_complex) __PYX_ERR(5, 15, __pyx_L1_error)
+  __pyx_ptype_7cpython_7complex_complex = __Pyx_ImportType_0_29_37(__pyx_t_1, __Pyx_BUILTIN_MODULE_NAME, "complex", sizeof(PyComplexObject), __PYX_GET_STRUCT_ALIGNMENT_0_29_37(PyComplexObject),__Pyx_ImportType_CheckSize_Warn_0_29_37); if (!__pyx_ptype_7cpython_7complex_complex) __PYX_ERR(5, 15, __pyx_L1_error)
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
   __pyx_t_1 = PyImport_ImportModule("array"); if (unlikely(!__pyx_t_1)) __PYX_ERR(1, 58, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
-  __pyx_ptype_7cpython_5array_array = __Pyx_ImportType(__pyx_t_1, "array", "array", sizeof(arrayobject), __Pyx_ImportType_CheckSize_Warn);
-   if (!__pyx_ptype_7cpython_5array_array) __PYX_ERR(1, 58, __pyx_L1_error)
+  __pyx_ptype_7cpython_5array_array = __Pyx_ImportType_0_29_37(__pyx_t_1, "array", "array", sizeof(arrayobject), __PYX_GET_STRUCT_ALIGNMENT_0_29_37(arrayobject),__Pyx_ImportType_CheckSize_Warn_0_29_37); if (!__pyx_ptype_7cpython_5array_array) __PYX_ERR(1, 58, __pyx_L1_error)
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
   __Pyx_RefNannyFinishContext();
   return 0;
@@ -18072,7 +18109,7 @@ if (!__Pyx_RefNanny) {
   Py_INCREF(__pyx_b);
   __pyx_cython_runtime = PyImport_AddModule((char *) "cython_runtime"); if (unlikely(!__pyx_cython_runtime)) __PYX_ERR(0, 1, __pyx_L1_error)
   Py_INCREF(__pyx_cython_runtime);
-  if (PyObject_SetAttrString(__pyx_m, "__builtins__", __pyx_b) < 0) __PYX_ERR(0, 1, __pyx_L1_error);
+  if (PyObject_SetAttrString(__pyx_m, "__builtins__", __pyx_b) < 0) __PYX_ERR(0, 1, __pyx_L1_error)
   /*--- Initialize various global constants etc. ---*/
   if (__Pyx_InitGlobals() < 0) __PYX_ERR(0, 1, __pyx_L1_error)
   #if PY_MAJOR_VERSION < 3 && (__PYX_DEFAULT_STRING_ENCODING_IS_ASCII || __PYX_DEFAULT_STRING_ENCODING_IS_DEFAULT)
@@ -18122,24 +18159,24 @@ if (!__Pyx_RefNanny) {
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * def _choice(double [::1] pr, double u, Py_ssize_t n):             # <<<<<<<<<<<<<<
- *     cdef double z
- *     cdef int k
+ *     cdef double z = 0
+ *     cdef int k, last = 0
  */
   __pyx_t_1 = PyCFunction_NewEx(&__pyx_mdef_13queueing_tool_6queues_6choice_1_choice, NULL, __pyx_n_s_queueing_tool_queues_choice); if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 9, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
   if (PyDict_SetItem(__pyx_d, __pyx_n_s_choice, __pyx_t_1) < 0) __PYX_ERR(0, 9, __pyx_L1_error)
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
 
-  /* "queueing_tool/queues/choice.pyx":30
+  /* "queueing_tool/queues/choice.pyx":29
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * def _argmin(list a):             # <<<<<<<<<<<<<<
  *     cdef int minv, amin, k, v
  *     minv = a[0]
  */
-  __pyx_t_1 = PyCFunction_NewEx(&__pyx_mdef_13queueing_tool_6queues_6choice_3_argmin, NULL, __pyx_n_s_queueing_tool_queues_choice); if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 30, __pyx_L1_error)
+  __pyx_t_1 = PyCFunction_NewEx(&__pyx_mdef_13queueing_tool_6queues_6choice_3_argmin, NULL, __pyx_n_s_queueing_tool_queues_choice); if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 29, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
-  if (PyDict_SetItem(__pyx_d, __pyx_n_s_argmin, __pyx_t_1) < 0) __PYX_ERR(0, 30, __pyx_L1_error)
+  if (PyDict_SetItem(__pyx_d, __pyx_n_s_argmin, __pyx_t_1) < 0) __PYX_ERR(0, 29, __pyx_L1_error)
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
 
   /* "queueing_tool/queues/choice.pyx":1
@@ -18910,13 +18947,7 @@ static void __Pyx_Raise(PyObject *type, PyObject *value, PyObject *tb, PyObject
     }
     PyErr_SetObject(type, value);
     if (tb) {
-#if CYTHON_COMPILING_IN_PYPY
-        PyObject *tmp_type, *tmp_value, *tmp_tb;
-        PyErr_Fetch(&tmp_type, &tmp_value, &tmp_tb);
-        Py_INCREF(tb);
-        PyErr_Restore(tmp_type, tmp_value, tb);
-        Py_XDECREF(tmp_tb);
-#else
+#if CYTHON_FAST_THREAD_STATE
         PyThreadState *tstate = __Pyx_PyThreadState_Current;
         PyObject* tmp_tb = tstate->curexc_traceback;
         if (tb != tmp_tb) {
@@ -18924,6 +18955,12 @@ static void __Pyx_Raise(PyObject *type, PyObject *value, PyObject *tb, PyObject
             tstate->curexc_traceback = tb;
             Py_XDECREF(tmp_tb);
         }
+#else
+        PyObject *tmp_type, *tmp_value, *tmp_tb;
+        PyErr_Fetch(&tmp_type, &tmp_value, &tmp_tb);
+        Py_INCREF(tb);
+        PyErr_Restore(tmp_type, tmp_value, tb);
+        Py_XDECREF(tmp_tb);
 #endif
     }
 bad:
@@ -19423,7 +19460,7 @@ static CYTHON_INLINE PyObject *__Pyx_GetItemInt_Fast(PyObject *o, Py_ssize_t i,
 /* ObjectGetItem */
 #if CYTHON_USE_TYPE_SLOTS
 static PyObject *__Pyx_PyObject_GetIndex(PyObject *obj, PyObject* index) {
-    PyObject *runerr;
+    PyObject *runerr = NULL;
     Py_ssize_t key_value;
     PySequenceMethods *m = Py_TYPE(obj)->tp_as_sequence;
     if (unlikely(!(m && m->sq_item))) {
@@ -20308,16 +20345,18 @@ __PYX_GOOD:
 }
 
 /* TypeImport */
-#ifndef __PYX_HAVE_RT_ImportType
-#define __PYX_HAVE_RT_ImportType
-static PyTypeObject *__Pyx_ImportType(PyObject *module, const char *module_name, const char *class_name,
-    size_t size, enum __Pyx_ImportType_CheckSize check_size)
+#ifndef __PYX_HAVE_RT_ImportType_0_29_37
+#define __PYX_HAVE_RT_ImportType_0_29_37
+static PyTypeObject *__Pyx_ImportType_0_29_37(PyObject *module, const char *module_name, const char *class_name,
+    size_t size, size_t alignment, enum __Pyx_ImportType_CheckSize_0_29_37 check_size)
 {
     PyObject *result = 0;
     char warning[200];
     Py_ssize_t basicsize;
+    Py_ssize_t itemsize;
 #ifdef Py_LIMITED_API
     PyObject *py_basicsize;
+    PyObject *py_itemsize;
 #endif
     result = PyObject_GetAttrString(module, class_name);
     if (!result)
@@ -20330,6 +20369,7 @@ static PyTypeObject *__Pyx_ImportType(PyObject *module, const char *module_name,
     }
 #ifndef Py_LIMITED_API
     basicsize = ((PyTypeObject *)result)->tp_basicsize;
+    itemsize = ((PyTypeObject *)result)->tp_itemsize;
 #else
     py_basicsize = PyObject_GetAttrString(result, "__basicsize__");
     if (!py_basicsize)
@@ -20339,22 +20379,37 @@ static PyTypeObject *__Pyx_ImportType(PyObject *module, const char *module_name,
     py_basicsize = 0;
     if (basicsize == (Py_ssize_t)-1 && PyErr_Occurred())
         goto bad;
+    py_itemsize = PyObject_GetAttrString(result, "__itemsize__");
+    if (!py_itemsize)
+        goto bad;
+    itemsize = PyLong_AsSsize_t(py_itemsize);
+    Py_DECREF(py_itemsize);
+    py_itemsize = 0;
+    if (itemsize == (Py_ssize_t)-1 && PyErr_Occurred())
+        goto bad;
 #endif
-    if ((size_t)basicsize < size) {
+    if (itemsize) {
+        if (size % alignment) {
+            alignment = size % alignment;
+        }
+        if (itemsize < (Py_ssize_t)alignment)
+            itemsize = (Py_ssize_t)alignment;
+    }
+    if ((size_t)(basicsize + itemsize) < size) {
         PyErr_Format(PyExc_ValueError,
             "%.200s.%.200s size changed, may indicate binary incompatibility. "
             "Expected %zd from C header, got %zd from PyObject",
             module_name, class_name, size, basicsize);
         goto bad;
     }
-    if (check_size == __Pyx_ImportType_CheckSize_Error && (size_t)basicsize != size) {
+    if (check_size == __Pyx_ImportType_CheckSize_Error_0_29_37 && (size_t)basicsize != size) {
         PyErr_Format(PyExc_ValueError,
             "%.200s.%.200s size changed, may indicate binary incompatibility. "
             "Expected %zd from C header, got %zd from PyObject",
             module_name, class_name, size, basicsize);
         goto bad;
     }
-    else if (check_size == __Pyx_ImportType_CheckSize_Warn && (size_t)basicsize > size) {
+    else if (check_size == __Pyx_ImportType_CheckSize_Warn_0_29_37 && (size_t)basicsize > size) {
         PyOS_snprintf(warning, sizeof(warning),
             "%s.%s size changed, may indicate binary incompatibility. "
             "Expected %zd from C header, got %zd from PyObject",
@@ -20370,7 +20425,7 @@ bad:
 
 /* CLineInTraceback */
 #ifndef CYTHON_CLINE_IN_TRACEBACK
-static int __Pyx_CLineForTraceback(CYTHON_NCP_UNUSED PyThreadState *tstate, int c_line) {
+static int __Pyx_CLineForTraceback(CYTHON_UNUSED PyThreadState *tstate, int c_line) {
     PyObject *use_cline;
     PyObject *ptype, *pvalue, *ptraceback;
 #if CYTHON_COMPILING_IN_CPYTHON
@@ -21599,7 +21654,7 @@ no_fail:
                     break;
             }
 #endif
-#if CYTHON_COMPILING_IN_CPYTHON
+#if CYTHON_COMPILING_IN_CPYTHON && PY_VERSION_HEX < 0x030C00A7
             if (unlikely(Py_SIZE(x) < 0)) {
                 goto raise_neg_overflow;
             }
@@ -21871,7 +21926,7 @@ raise_neg_overflow:
                     break;
             }
 #endif
-#if CYTHON_COMPILING_IN_CPYTHON
+#if CYTHON_COMPILING_IN_CPYTHON && PY_VERSION_HEX < 0x030C00A7
             if (unlikely(Py_SIZE(x) < 0)) {
                 goto raise_neg_overflow;
             }
@@ -22067,7 +22122,7 @@ raise_neg_overflow:
                     break;
             }
 #endif
-#if CYTHON_COMPILING_IN_CPYTHON
+#if CYTHON_COMPILING_IN_CPYTHON && PY_VERSION_HEX < 0x030C00A7
             if (unlikely(Py_SIZE(x) < 0)) {
                 goto raise_neg_overflow;
             }
diff --git a/queueing_tool/queues/choice.pyx b/queueing_tool/queues/choice.pyx
index 8a9b98a..5707c59 100644
--- a/queueing_tool/queues/choice.pyx
+++ b/queueing_tool/queues/choice.pyx
@@ -7,21 +7,20 @@ import array
 @cython.wraparound(False)
 @cython.nonecheck(False)
 def _choice(double [::1] pr, double u, Py_ssize_t n):
-    cdef double z
-    cdef int k
+    cdef double z = 0
+    cdef int k, last = 0
 
-    if u <= pr[0]:
-        k = 0
-    else:
-        z = pr[0]
-        with nogil:
-            for k in range(1, n):
-                if u <= z + pr[k]:
+    # Choices with probability zero are never selected, not even when
+    # u is 0 or when the probabilities sum to slightly less than one.
+    with nogil:
+        for k in range(n):
+            if pr[k] > 0:
+                last = k
+                z += pr[k]
+                if u < z:
                     break
-                else:
-                    z += pr[k]
 
-    return k
+    return last
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From 3f34342c842d970f6bd3520e58f8d2a8dd012be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 19/39] fix: thinning accepts no candidate where the rate is
 zero

---
 queueing_tool/queues/queue_servers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 6d380fd..1b9727a 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -73,7 +73,7 @@ def poisson_random_measure(t, rate, rate_max):
     """
     scale = 1.0 / rate_max
     t = t + exponential(scale)
-    while rate_max * uniform() > rate(t):
+    while rate_max * uniform() >= rate(t):
         t = t + exponential(scale)
     return t
 
-- 
2.43.0


From f3c2cad52ea0135ace4a12e1dfee21c241e6f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 20/39] fix: rows of the positions of a graph are in order of
 the vertices

Edges were drawn between, and set_vp wrote to, the positions of other
vertices unless the vertices had been added in increasing order.
---
 queueing_tool/graph/graph_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 656e13d..7345b9c 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -240,7 +240,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
 
         pos = nx.get_node_attributes(self, name='pos')
         if len(pos) == self.number_of_nodes():
-            self.pos = np.array([pos[v] for v in self.nodes()])
+            self.pos = np.array([pos[v] for v in sorted(self.nodes())])
         else:
             self.pos = None
 
@@ -313,7 +313,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
         if pos is None:
             pos = nx.spring_layout(self)
         nx.set_node_attributes(self, name='pos', values=pos)
-        self.pos = np.array([pos[v] for v in self.nodes()])
+        self.pos = np.array([pos[v] for v in sorted(self.nodes())])
 
     def get_edge_type(self, edge_type):
         """Returns all edges with the specified edge type.
-- 
2.43.0


From 07b3570836664c4ebb96900d79c2bfe762cdeccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 21/39] fix: set_transitions ignores the rows of terminal
 vertices only

The rows to check were picked by the order in which the vertices had been
added to the graph, not by their index.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index b4a128e..6f30518 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1120,7 +1120,7 @@ class QueueNetwork(object):
                     self._route_probs[key][k] = value.get(e[1], 0)
 
         elif isinstance(mat, np.ndarray):
-            non_terminal = np.array([self.g.out_degree(v) > 0 for v in self.g.nodes()])
+            non_terminal = np.array([self.g.out_degree(v) > 0 for v in range(self.nV)])
             if mat.shape != (self.nV, self.nV):
                 msg = ("Matrix is the wrong shape, should "
                        "be {0} x {1}.").format(self.nV, self.nV)
-- 
2.43.0


From 077af05dfad7309805f357e5d7e6542fa004bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 22/39] fix: adjacency2graph does not change the adjacency it
 is given

---
 queueing_tool/graph/graph_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 7345b9c..7e376df 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -157,6 +157,7 @@ def adjacency2graph(adjacency, edge_type=None, adjust=1, **kwargs):
         adjacency = _matrix2dict(adjacency)
     elif isinstance(adjacency, dict):
         adjacency = _dict2dict(adjacency)
+        adjacency = {u: {v: dict(p) for v, p in adj.items()} for u, adj in adjacency.items()}
     else:
         msg = ("If the adjacency parameter is supplied it must be a "
                "dict, or a numpy.ndarray.")
-- 
2.43.0


From 0fd66f4644559be1ce5a34f092eadeaac7adb10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 23/39] fix: clear() also clears the data of a terminal queue

---
 queueing_tool/queues/queue_servers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 1b9727a..86b223c 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -970,4 +970,4 @@ class NullQueue(QueueServer):
         return color
 
     def clear(self):
-        pass
+        self.data = {}
-- 
2.43.0


From a00bf96e4ba65b79cad8d193671e3ba71ac46228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 24/39] fix: clear() gives a ResourceQueue its resources back

---
 queueing_tool/queues/queue_extentions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 90780ea..380ac1b 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -98,6 +98,7 @@ class ResourceQueue(LossQueue):
 
         self.max_servers = 2 * num_servers
         self.over_max = 0
+        self._init_servers = num_servers
 
     def __repr__(self):
         my_str = ("ResourceQueue:{0}. Servers: {1}, max servers: {2}, "
@@ -195,6 +196,8 @@ class ResourceQueue(LossQueue):
         super(ResourceQueue, self).clear()
         self.num_blocked = 0
         self.over_max = 0
+        # The agents that held resources are gone, so the resources are back.
+        self.num_servers = self._init_servers
 
 
 class InfoAgent(Agent):
-- 
2.43.0


From 87b5ec3d36da6f424cf95b60dea10acfa2b60a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 25/39] fix: reset_colors() uses the loop color for loops

---
 queueing_tool/network/queue_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 6f30518..b16688a 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1011,7 +1011,8 @@ class QueueNetwork(object):
         """Resets all edge and vertex colors to their default values."""
         for e in self.g.edges():
             k = self.g.edge_index[e]
-            self.g.set_ep(e, 'edge_color', self.edge2queue[k].colors['edge_color'])
+            color = 'edge_loop_color' if e[0] == e[1] else 'edge_color'
+            self.g.set_ep(e, 'edge_color', self.edge2queue[k].colors[color])
         for v in self.g.nodes():
             self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_fill_color'])
 
-- 
2.43.0


From 7ec5e44eee704d0a5c238df9d61d81acb3f30984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 26/39] fix: copy() keeps the order in which tied queues take
 turns

---
 queueing_tool/network/priority_queue.c   | 1292 +++++++++++++---------
 queueing_tool/network/priority_queue.pyx |   17 +
 queueing_tool/network/queue_network.py   |    6 +-
 3 files changed, 790 insertions(+), 525 deletions(-)

diff --git a/queueing_tool/network/priority_queue.c b/queueing_tool/network/priority_queue.c
index fc2c631..9483d60 100644
--- a/queueing_tool/network/priority_queue.c
+++ b/queueing_tool/network/priority_queue.c
@@ -961,7 +961,7 @@ static const char *__pyx_filename;
 
 
 static const char *__pyx_f[] = {
-  "queueing_tool/network/priority_queue.pyx",
+  "priority_queue.pyx",
   "stringsource",
   "array.pxd",
   "type.pxd",
@@ -1406,12 +1406,68 @@ static CYTHON_INLINE void __Pyx_XDEC_MEMVIEW(__Pyx_memviewslice *, int, int);
 /* BufferIndexError.proto */
 static void __Pyx_RaiseBufferIndexError(int axis);
 
+/* PyFunctionFastCall.proto */
+#if CYTHON_FAST_PYCALL
+#define __Pyx_PyFunction_FastCall(func, args, nargs)\
+    __Pyx_PyFunction_FastCallDict((func), (args), (nargs), NULL)
+#if 1 || PY_VERSION_HEX < 0x030600B1
+static PyObject *__Pyx_PyFunction_FastCallDict(PyObject *func, PyObject **args, Py_ssize_t nargs, PyObject *kwargs);
+#else
+#define __Pyx_PyFunction_FastCallDict(func, args, nargs, kwargs) _PyFunction_FastCallDict(func, args, nargs, kwargs)
+#endif
+#define __Pyx_BUILD_ASSERT_EXPR(cond)\
+    (sizeof(char [1 - 2*!(cond)]) - 1)
+#ifndef Py_MEMBER_SIZE
+#define Py_MEMBER_SIZE(type, member) sizeof(((type *)0)->member)
+#endif
+#if CYTHON_FAST_PYCALL
+  static size_t __pyx_pyframe_localsplus_offset = 0;
+  #include "frameobject.h"
+#if PY_VERSION_HEX >= 0x030b00a6
+  #ifndef Py_BUILD_CORE
+    #define Py_BUILD_CORE 1
+  #endif
+  #include "internal/pycore_frame.h"
+#endif
+  #define __Pxy_PyFrame_Initialize_Offsets()\
+    ((void)__Pyx_BUILD_ASSERT_EXPR(sizeof(PyFrameObject) == offsetof(PyFrameObject, f_localsplus) + Py_MEMBER_SIZE(PyFrameObject, f_localsplus)),\
+     (void)(__pyx_pyframe_localsplus_offset = ((size_t)PyFrame_Type.tp_basicsize) - Py_MEMBER_SIZE(PyFrameObject, f_localsplus)))
+  #define __Pyx_PyFrame_GetLocalsplus(frame)\
+    (assert(__pyx_pyframe_localsplus_offset), (PyObject **)(((char *)(frame)) + __pyx_pyframe_localsplus_offset))
+#endif // CYTHON_FAST_PYCALL
+#endif
+
+/* PyObjectCallMethO.proto */
+#if CYTHON_COMPILING_IN_CPYTHON
+static CYTHON_INLINE PyObject* __Pyx_PyObject_CallMethO(PyObject *func, PyObject *arg);
+#endif
+
+/* PyObjectCallNoArg.proto */
+#if CYTHON_COMPILING_IN_CPYTHON
+static CYTHON_INLINE PyObject* __Pyx_PyObject_CallNoArg(PyObject *func);
+#else
+#define __Pyx_PyObject_CallNoArg(func) __Pyx_PyObject_Call(func, __pyx_empty_tuple, NULL)
+#endif
+
 /* SliceObject.proto */
 static CYTHON_INLINE PyObject* __Pyx_PyObject_GetSlice(
         PyObject* obj, Py_ssize_t cstart, Py_ssize_t cstop,
         PyObject** py_start, PyObject** py_stop, PyObject** py_slice,
         int has_cstart, int has_cstop, int wraparound);
 
+/* ExtTypeTest.proto */
+static CYTHON_INLINE int __Pyx_TypeTest(PyObject *obj, PyTypeObject *type);
+
+/* PyCFunctionFastCall.proto */
+#if CYTHON_FAST_PYCCALL
+static CYTHON_INLINE PyObject *__Pyx_PyCFunction_FastCall(PyObject *func, PyObject **args, Py_ssize_t nargs);
+#else
+#define __Pyx_PyCFunction_FastCall(func, args, nargs)  (assert(0), NULL)
+#endif
+
+/* PyObjectCallOneArg.proto */
+static CYTHON_INLINE PyObject* __Pyx_PyObject_CallOneArg(PyObject *func, PyObject *arg);
+
 /* pyobject_as_double.proto */
 static double __Pyx__PyObject_AsDouble(PyObject* obj);
 #if CYTHON_COMPILING_IN_PYPY
@@ -1466,9 +1522,6 @@ static void __Pyx_WriteUnraisable(const char *name, int clineno,
                                   int lineno, const char *filename,
                                   int full_traceback, int nogil);
 
-/* ExtTypeTest.proto */
-static CYTHON_INLINE int __Pyx_TypeTest(PyObject *obj, PyTypeObject *type);
-
 /* RaiseException.proto */
 static void __Pyx_Raise(PyObject *type, PyObject *value, PyObject *tb, PyObject *cause);
 
@@ -1481,55 +1534,9 @@ static CYTHON_INLINE long __Pyx_div_long(long, long);
         __Pyx__ArgTypeTest(obj, type, name, exact))
 static int __Pyx__ArgTypeTest(PyObject *obj, PyTypeObject *type, const char *name, int exact);
 
-/* PyCFunctionFastCall.proto */
-#if CYTHON_FAST_PYCCALL
-static CYTHON_INLINE PyObject *__Pyx_PyCFunction_FastCall(PyObject *func, PyObject **args, Py_ssize_t nargs);
-#else
-#define __Pyx_PyCFunction_FastCall(func, args, nargs)  (assert(0), NULL)
-#endif
-
-/* PyFunctionFastCall.proto */
-#if CYTHON_FAST_PYCALL
-#define __Pyx_PyFunction_FastCall(func, args, nargs)\
-    __Pyx_PyFunction_FastCallDict((func), (args), (nargs), NULL)
-#if 1 || PY_VERSION_HEX < 0x030600B1
-static PyObject *__Pyx_PyFunction_FastCallDict(PyObject *func, PyObject **args, Py_ssize_t nargs, PyObject *kwargs);
-#else
-#define __Pyx_PyFunction_FastCallDict(func, args, nargs, kwargs) _PyFunction_FastCallDict(func, args, nargs, kwargs)
-#endif
-#define __Pyx_BUILD_ASSERT_EXPR(cond)\
-    (sizeof(char [1 - 2*!(cond)]) - 1)
-#ifndef Py_MEMBER_SIZE
-#define Py_MEMBER_SIZE(type, member) sizeof(((type *)0)->member)
-#endif
-#if CYTHON_FAST_PYCALL
-  static size_t __pyx_pyframe_localsplus_offset = 0;
-  #include "frameobject.h"
-#if PY_VERSION_HEX >= 0x030b00a6
-  #ifndef Py_BUILD_CORE
-    #define Py_BUILD_CORE 1
-  #endif
-  #include "internal/pycore_frame.h"
-#endif
-  #define __Pxy_PyFrame_Initialize_Offsets()\
-    ((void)__Pyx_BUILD_ASSERT_EXPR(sizeof(PyFrameObject) == offsetof(PyFrameObject, f_localsplus) + Py_MEMBER_SIZE(PyFrameObject, f_localsplus)),\
-     (void)(__pyx_pyframe_localsplus_offset = ((size_t)PyFrame_Type.tp_basicsize) - Py_MEMBER_SIZE(PyFrameObject, f_localsplus)))
-  #define __Pyx_PyFrame_GetLocalsplus(frame)\
-    (assert(__pyx_pyframe_localsplus_offset), (PyObject **)(((char *)(frame)) + __pyx_pyframe_localsplus_offset))
-#endif // CYTHON_FAST_PYCALL
-#endif
-
 /* PyObjectCall2Args.proto */
 static CYTHON_UNUSED PyObject* __Pyx_PyObject_Call2Args(PyObject* function, PyObject* arg1, PyObject* arg2);
 
-/* PyObjectCallMethO.proto */
-#if CYTHON_COMPILING_IN_CPYTHON
-static CYTHON_INLINE PyObject* __Pyx_PyObject_CallMethO(PyObject *func, PyObject *arg);
-#endif
-
-/* PyObjectCallOneArg.proto */
-static CYTHON_INLINE PyObject* __Pyx_PyObject_CallOneArg(PyObject *func, PyObject *arg);
-
 /* IncludeStringH.proto */
 #include <string.h>
 
@@ -2252,6 +2259,7 @@ static const char __pyx_k_array[] = "array";
 static const char __pyx_k_class[] = "__class__";
 static const char __pyx_k_error[] = "error";
 static const char __pyx_k_flags[] = "flags";
+static const char __pyx_k_q_map[] = "q_map";
 static const char __pyx_k_range[] = "range";
 static const char __pyx_k_shape[] = "shape";
 static const char __pyx_k_start[] = "start";
@@ -2391,6 +2399,7 @@ static PyObject *__pyx_n_s_pyx_state;
 static PyObject *__pyx_n_s_pyx_type;
 static PyObject *__pyx_n_s_pyx_unpickle_Enum;
 static PyObject *__pyx_n_s_pyx_vtable;
+static PyObject *__pyx_n_s_q_map;
 static PyObject *__pyx_n_s_range;
 static PyObject *__pyx_n_s_reduce;
 static PyObject *__pyx_n_s_reduce_cython;
@@ -2416,12 +2425,13 @@ static PyObject *__pyx_n_s_unpack;
 static PyObject *__pyx_n_s_update;
 static int __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue___cinit__(CYTHON_UNUSED struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self, CYTHON_UNUSED PyObject *__pyx_v_keys, CYTHON_UNUSED int __pyx_v_n); /* proto */
 static int __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_2__init__(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self, PyObject *__pyx_v_keys, int __pyx_v_n); /* proto */
+static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_4__deepcopy__(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self, CYTHON_UNUSED PyObject *__pyx_v_memo); /* proto */
 static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_5times___get__(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self); /* proto */
 static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_5edges___get__(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self); /* proto */
-static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_4q_map(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self); /* proto */
+static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_6q_map(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self); /* proto */
 static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_9arraysize___get__(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self); /* proto */
-static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_6pop(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self); /* proto */
-static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_8push(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self, double __pyx_v_t, int __pyx_v_k); /* proto */
+static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_8pop(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self); /* proto */
+static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_10push(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self, double __pyx_v_t, int __pyx_v_k); /* proto */
 static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_11array_times___get__(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self); /* proto */
 static int __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_11array_times_2__set__(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self, PyObject *__pyx_v_value); /* proto */
 static int __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_11array_times_4__del__(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self); /* proto */
@@ -2434,8 +2444,8 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
 static int __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_9next_node_2__set__(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self, PyObject *__pyx_v_value); /* proto */
 static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_9next_time___get__(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self); /* proto */
 static int __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_9next_time_2__set__(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self, PyObject *__pyx_v_value); /* proto */
-static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_10__reduce_cython__(CYTHON_UNUSED struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self); /* proto */
-static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_12__setstate_cython__(CYTHON_UNUSED struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self, CYTHON_UNUSED PyObject *__pyx_v___pyx_state); /* proto */
+static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_12__reduce_cython__(CYTHON_UNUSED struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self); /* proto */
+static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_14__setstate_cython__(CYTHON_UNUSED struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self, CYTHON_UNUSED PyObject *__pyx_v___pyx_state); /* proto */
 static int __pyx_pf_7cpython_5array_5array___getbuffer__(arrayobject *__pyx_v_self, Py_buffer *__pyx_v_info, CYTHON_UNUSED int __pyx_v_flags); /* proto */
 static void __pyx_pf_7cpython_5array_5array_2__releasebuffer__(CYTHON_UNUSED arrayobject *__pyx_v_self, Py_buffer *__pyx_v_info); /* proto */
 static int __pyx_array___pyx_pf_15View_dot_MemoryView_5array___cinit__(struct __pyx_array_obj *__pyx_v_self, PyObject *__pyx_v_shape, Py_ssize_t __pyx_v_itemsize, PyObject *__pyx_v_format, PyObject *__pyx_v_mode, int __pyx_v_allocate_buffer); /* proto */
@@ -2491,7 +2501,7 @@ static PyObject *__pyx_int_112105877;
 static PyObject *__pyx_int_136983863;
 static PyObject *__pyx_int_184977713;
 static PyObject *__pyx_int_neg_1;
-static PyObject *__pyx_tuple_;
+static PyObject *__pyx_slice_;
 static PyObject *__pyx_tuple__2;
 static PyObject *__pyx_tuple__3;
 static PyObject *__pyx_tuple__4;
@@ -2500,7 +2510,6 @@ static PyObject *__pyx_tuple__6;
 static PyObject *__pyx_tuple__7;
 static PyObject *__pyx_tuple__8;
 static PyObject *__pyx_tuple__9;
-static PyObject *__pyx_slice__17;
 static PyObject *__pyx_tuple__10;
 static PyObject *__pyx_tuple__11;
 static PyObject *__pyx_tuple__12;
@@ -2508,6 +2517,7 @@ static PyObject *__pyx_tuple__13;
 static PyObject *__pyx_tuple__14;
 static PyObject *__pyx_tuple__15;
 static PyObject *__pyx_tuple__16;
+static PyObject *__pyx_tuple__17;
 static PyObject *__pyx_tuple__18;
 static PyObject *__pyx_tuple__19;
 static PyObject *__pyx_tuple__20;
@@ -3060,7 +3070,7 @@ static int __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_2_
  *         for key in keys:
  *             self.q_times[key[1]] = key[0]             # <<<<<<<<<<<<<<
  * 
- *     @property
+ *     def __deepcopy__(self, memo):
  */
     if (unlikely(__pyx_v_key == Py_None)) {
       PyErr_SetString(PyExc_TypeError, "'NoneType' object is not subscriptable");
@@ -3127,7 +3137,221 @@ static int __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_2_
   return __pyx_r;
 }
 
-/* "queueing_tool/network/priority_queue.pyx":43
+/* "queueing_tool/network/priority_queue.pyx":42
+ *             self.q_times[key[1]] = key[0]
+ * 
+ *     def __deepcopy__(self, memo):             # <<<<<<<<<<<<<<
+ *         cdef PriorityQueue new = PriorityQueue()
+ * 
+ */
+
+/* Python wrapper */
+static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_5__deepcopy__(PyObject *__pyx_v_self, PyObject *__pyx_v_memo); /*proto*/
+static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_5__deepcopy__(PyObject *__pyx_v_self, PyObject *__pyx_v_memo) {
+  PyObject *__pyx_r = 0;
+  __Pyx_RefNannyDeclarations
+  __Pyx_RefNannySetupContext("__deepcopy__ (wrapper)", 0);
+  __pyx_r = __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_4__deepcopy__(((struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *)__pyx_v_self), ((PyObject *)__pyx_v_memo));
+
+  /* function exit code */
+  __Pyx_RefNannyFinishContext();
+  return __pyx_r;
+}
+
+static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_4__deepcopy__(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self, CYTHON_UNUSED PyObject *__pyx_v_memo) {
+  struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_new = 0;
+  PyObject *__pyx_r = NULL;
+  __Pyx_RefNannyDeclarations
+  PyObject *__pyx_t_1 = NULL;
+  __Pyx_memviewslice __pyx_t_2 = { 0, 0, { 0 }, { 0 }, { 0 } };
+  __Pyx_memviewslice __pyx_t_3 = { 0, 0, { 0 }, { 0 }, { 0 } };
+  PyObject *__pyx_t_4 = NULL;
+  PyObject *__pyx_t_5 = NULL;
+  int __pyx_t_6;
+  double __pyx_t_7;
+  int __pyx_lineno = 0;
+  const char *__pyx_filename = NULL;
+  int __pyx_clineno = 0;
+  __Pyx_RefNannySetupContext("__deepcopy__", 0);
+
+  /* "queueing_tool/network/priority_queue.pyx":43
+ * 
+ *     def __deepcopy__(self, memo):
+ *         cdef PriorityQueue new = PriorityQueue()             # <<<<<<<<<<<<<<
+ * 
+ *         new.array_times = self.array_times[:]
+ */
+  __pyx_t_1 = __Pyx_PyObject_CallNoArg(((PyObject *)__pyx_ptype_13queueing_tool_7network_14priority_queue_PriorityQueue)); if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 43, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_t_1);
+  __pyx_v_new = ((struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *)__pyx_t_1);
+  __pyx_t_1 = 0;
+
+  /* "queueing_tool/network/priority_queue.pyx":45
+ *         cdef PriorityQueue new = PriorityQueue()
+ * 
+ *         new.array_times = self.array_times[:]             # <<<<<<<<<<<<<<
+ *         new.array_edges = self.array_edges[:]
+ * 
+ */
+  __pyx_t_1 = __Pyx_PyObject_GetSlice(((PyObject *)__pyx_v_self->array_times), 0, 0, NULL, NULL, &__pyx_slice_, 0, 0, 1); if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 45, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_t_1);
+  if (!(likely(((__pyx_t_1) == Py_None) || likely(__Pyx_TypeTest(__pyx_t_1, __pyx_ptype_7cpython_5array_array))))) __PYX_ERR(0, 45, __pyx_L1_error)
+  __Pyx_GIVEREF(__pyx_t_1);
+  __Pyx_GOTREF(__pyx_v_new->array_times);
+  __Pyx_DECREF(((PyObject *)__pyx_v_new->array_times));
+  __pyx_v_new->array_times = ((arrayobject *)__pyx_t_1);
+  __pyx_t_1 = 0;
+
+  /* "queueing_tool/network/priority_queue.pyx":46
+ * 
+ *         new.array_times = self.array_times[:]
+ *         new.array_edges = self.array_edges[:]             # <<<<<<<<<<<<<<
+ * 
+ *         new.sorted_times = new.array_times
+ */
+  __pyx_t_1 = __Pyx_PyObject_GetSlice(((PyObject *)__pyx_v_self->array_edges), 0, 0, NULL, NULL, &__pyx_slice_, 0, 0, 1); if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 46, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_t_1);
+  if (!(likely(((__pyx_t_1) == Py_None) || likely(__Pyx_TypeTest(__pyx_t_1, __pyx_ptype_7cpython_5array_array))))) __PYX_ERR(0, 46, __pyx_L1_error)
+  __Pyx_GIVEREF(__pyx_t_1);
+  __Pyx_GOTREF(__pyx_v_new->array_edges);
+  __Pyx_DECREF(((PyObject *)__pyx_v_new->array_edges));
+  __pyx_v_new->array_edges = ((arrayobject *)__pyx_t_1);
+  __pyx_t_1 = 0;
+
+  /* "queueing_tool/network/priority_queue.pyx":48
+ *         new.array_edges = self.array_edges[:]
+ * 
+ *         new.sorted_times = new.array_times             # <<<<<<<<<<<<<<
+ *         new.sorted_edges = new.array_edges
+ *         new.q_times = self.q_map()
+ */
+  __pyx_t_2 = __Pyx_PyObject_to_MemoryviewSlice_dc_double(((PyObject *)__pyx_v_new->array_times), PyBUF_WRITABLE); if (unlikely(!__pyx_t_2.memview)) __PYX_ERR(0, 48, __pyx_L1_error)
+  __PYX_XDEC_MEMVIEW(&__pyx_v_new->sorted_times, 0);
+  __pyx_v_new->sorted_times = __pyx_t_2;
+  __pyx_t_2.memview = NULL;
+  __pyx_t_2.data = NULL;
+
+  /* "queueing_tool/network/priority_queue.pyx":49
+ * 
+ *         new.sorted_times = new.array_times
+ *         new.sorted_edges = new.array_edges             # <<<<<<<<<<<<<<
+ *         new.q_times = self.q_map()
+ * 
+ */
+  __pyx_t_3 = __Pyx_PyObject_to_MemoryviewSlice_dc_int(((PyObject *)__pyx_v_new->array_edges), PyBUF_WRITABLE); if (unlikely(!__pyx_t_3.memview)) __PYX_ERR(0, 49, __pyx_L1_error)
+  __PYX_XDEC_MEMVIEW(&__pyx_v_new->sorted_edges, 0);
+  __pyx_v_new->sorted_edges = __pyx_t_3;
+  __pyx_t_3.memview = NULL;
+  __pyx_t_3.data = NULL;
+
+  /* "queueing_tool/network/priority_queue.pyx":50
+ *         new.sorted_times = new.array_times
+ *         new.sorted_edges = new.array_edges
+ *         new.q_times = self.q_map()             # <<<<<<<<<<<<<<
+ * 
+ *         new.size = self.size
+ */
+  __pyx_t_4 = __Pyx_PyObject_GetAttrStr(((PyObject *)__pyx_v_self), __pyx_n_s_q_map); if (unlikely(!__pyx_t_4)) __PYX_ERR(0, 50, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_t_4);
+  __pyx_t_5 = NULL;
+  if (CYTHON_UNPACK_METHODS && likely(PyMethod_Check(__pyx_t_4))) {
+    __pyx_t_5 = PyMethod_GET_SELF(__pyx_t_4);
+    if (likely(__pyx_t_5)) {
+      PyObject* function = PyMethod_GET_FUNCTION(__pyx_t_4);
+      __Pyx_INCREF(__pyx_t_5);
+      __Pyx_INCREF(function);
+      __Pyx_DECREF_SET(__pyx_t_4, function);
+    }
+  }
+  __pyx_t_1 = (__pyx_t_5) ? __Pyx_PyObject_CallOneArg(__pyx_t_4, __pyx_t_5) : __Pyx_PyObject_CallNoArg(__pyx_t_4);
+  __Pyx_XDECREF(__pyx_t_5); __pyx_t_5 = 0;
+  if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 50, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_t_1);
+  __Pyx_DECREF(__pyx_t_4); __pyx_t_4 = 0;
+  __pyx_t_2 = __Pyx_PyObject_to_MemoryviewSlice_dc_double(__pyx_t_1, PyBUF_WRITABLE); if (unlikely(!__pyx_t_2.memview)) __PYX_ERR(0, 50, __pyx_L1_error)
+  __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
+  __PYX_XDEC_MEMVIEW(&__pyx_v_new->q_times, 0);
+  __pyx_v_new->q_times = __pyx_t_2;
+  __pyx_t_2.memview = NULL;
+  __pyx_t_2.data = NULL;
+
+  /* "queueing_tool/network/priority_queue.pyx":52
+ *         new.q_times = self.q_map()
+ * 
+ *         new.size = self.size             # <<<<<<<<<<<<<<
+ *         new.actual_size = self.actual_size
+ *         new.next_time = self.next_time
+ */
+  __pyx_t_6 = __pyx_v_self->size;
+  __pyx_v_new->size = __pyx_t_6;
+
+  /* "queueing_tool/network/priority_queue.pyx":53
+ * 
+ *         new.size = self.size
+ *         new.actual_size = self.actual_size             # <<<<<<<<<<<<<<
+ *         new.next_time = self.next_time
+ *         new.next_node = self.next_node
+ */
+  __pyx_t_6 = __pyx_v_self->actual_size;
+  __pyx_v_new->actual_size = __pyx_t_6;
+
+  /* "queueing_tool/network/priority_queue.pyx":54
+ *         new.size = self.size
+ *         new.actual_size = self.actual_size
+ *         new.next_time = self.next_time             # <<<<<<<<<<<<<<
+ *         new.next_node = self.next_node
+ * 
+ */
+  __pyx_t_7 = __pyx_v_self->next_time;
+  __pyx_v_new->next_time = __pyx_t_7;
+
+  /* "queueing_tool/network/priority_queue.pyx":55
+ *         new.actual_size = self.actual_size
+ *         new.next_time = self.next_time
+ *         new.next_node = self.next_node             # <<<<<<<<<<<<<<
+ * 
+ *         return new
+ */
+  __pyx_t_6 = __pyx_v_self->next_node;
+  __pyx_v_new->next_node = __pyx_t_6;
+
+  /* "queueing_tool/network/priority_queue.pyx":57
+ *         new.next_node = self.next_node
+ * 
+ *         return new             # <<<<<<<<<<<<<<
+ * 
+ *     @property
+ */
+  __Pyx_XDECREF(__pyx_r);
+  __Pyx_INCREF(((PyObject *)__pyx_v_new));
+  __pyx_r = ((PyObject *)__pyx_v_new);
+  goto __pyx_L0;
+
+  /* "queueing_tool/network/priority_queue.pyx":42
+ *             self.q_times[key[1]] = key[0]
+ * 
+ *     def __deepcopy__(self, memo):             # <<<<<<<<<<<<<<
+ *         cdef PriorityQueue new = PriorityQueue()
+ * 
+ */
+
+  /* function exit code */
+  __pyx_L1_error:;
+  __Pyx_XDECREF(__pyx_t_1);
+  __PYX_XDEC_MEMVIEW(&__pyx_t_2, 1);
+  __PYX_XDEC_MEMVIEW(&__pyx_t_3, 1);
+  __Pyx_XDECREF(__pyx_t_4);
+  __Pyx_XDECREF(__pyx_t_5);
+  __Pyx_AddTraceback("queueing_tool.network.priority_queue.PriorityQueue.__deepcopy__", __pyx_clineno, __pyx_lineno, __pyx_filename);
+  __pyx_r = NULL;
+  __pyx_L0:;
+  __Pyx_XDECREF((PyObject *)__pyx_v_new);
+  __Pyx_XGIVEREF(__pyx_r);
+  __Pyx_RefNannyFinishContext();
+  return __pyx_r;
+}
+
+/* "queueing_tool/network/priority_queue.pyx":60
  * 
  *     @property
  *     def times(self):             # <<<<<<<<<<<<<<
@@ -3157,7 +3381,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   int __pyx_clineno = 0;
   __Pyx_RefNannySetupContext("__get__", 0);
 
-  /* "queueing_tool/network/priority_queue.pyx":44
+  /* "queueing_tool/network/priority_queue.pyx":61
  *     @property
  *     def times(self):
  *         return self.array_times[:self.size]             # <<<<<<<<<<<<<<
@@ -3165,13 +3389,13 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  *     @property
  */
   __Pyx_XDECREF(__pyx_r);
-  __pyx_t_1 = __Pyx_PyObject_GetSlice(((PyObject *)__pyx_v_self->array_times), 0, __pyx_v_self->size, NULL, NULL, NULL, 0, 1, 1); if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 44, __pyx_L1_error)
+  __pyx_t_1 = __Pyx_PyObject_GetSlice(((PyObject *)__pyx_v_self->array_times), 0, __pyx_v_self->size, NULL, NULL, NULL, 0, 1, 1); if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 61, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
   __pyx_r = __pyx_t_1;
   __pyx_t_1 = 0;
   goto __pyx_L0;
 
-  /* "queueing_tool/network/priority_queue.pyx":43
+  /* "queueing_tool/network/priority_queue.pyx":60
  * 
  *     @property
  *     def times(self):             # <<<<<<<<<<<<<<
@@ -3190,7 +3414,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   return __pyx_r;
 }
 
-/* "queueing_tool/network/priority_queue.pyx":47
+/* "queueing_tool/network/priority_queue.pyx":64
  * 
  *     @property
  *     def edges(self):             # <<<<<<<<<<<<<<
@@ -3220,7 +3444,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   int __pyx_clineno = 0;
   __Pyx_RefNannySetupContext("__get__", 0);
 
-  /* "queueing_tool/network/priority_queue.pyx":48
+  /* "queueing_tool/network/priority_queue.pyx":65
  *     @property
  *     def edges(self):
  *         return self.array_edges[:self.size]             # <<<<<<<<<<<<<<
@@ -3228,13 +3452,13 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  *     def q_map(self):
  */
   __Pyx_XDECREF(__pyx_r);
-  __pyx_t_1 = __Pyx_PyObject_GetSlice(((PyObject *)__pyx_v_self->array_edges), 0, __pyx_v_self->size, NULL, NULL, NULL, 0, 1, 1); if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 48, __pyx_L1_error)
+  __pyx_t_1 = __Pyx_PyObject_GetSlice(((PyObject *)__pyx_v_self->array_edges), 0, __pyx_v_self->size, NULL, NULL, NULL, 0, 1, 1); if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 65, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
   __pyx_r = __pyx_t_1;
   __pyx_t_1 = 0;
   goto __pyx_L0;
 
-  /* "queueing_tool/network/priority_queue.pyx":47
+  /* "queueing_tool/network/priority_queue.pyx":64
  * 
  *     @property
  *     def edges(self):             # <<<<<<<<<<<<<<
@@ -3253,7 +3477,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   return __pyx_r;
 }
 
-/* "queueing_tool/network/priority_queue.pyx":50
+/* "queueing_tool/network/priority_queue.pyx":67
  *         return self.array_edges[:self.size]
  * 
  *     def q_map(self):             # <<<<<<<<<<<<<<
@@ -3262,19 +3486,19 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
 
 /* Python wrapper */
-static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_5q_map(PyObject *__pyx_v_self, CYTHON_UNUSED PyObject *unused); /*proto*/
-static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_5q_map(PyObject *__pyx_v_self, CYTHON_UNUSED PyObject *unused) {
+static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_7q_map(PyObject *__pyx_v_self, CYTHON_UNUSED PyObject *unused); /*proto*/
+static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_7q_map(PyObject *__pyx_v_self, CYTHON_UNUSED PyObject *unused) {
   PyObject *__pyx_r = 0;
   __Pyx_RefNannyDeclarations
   __Pyx_RefNannySetupContext("q_map (wrapper)", 0);
-  __pyx_r = __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_4q_map(((struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *)__pyx_v_self));
+  __pyx_r = __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_6q_map(((struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *)__pyx_v_self));
 
   /* function exit code */
   __Pyx_RefNannyFinishContext();
   return __pyx_r;
 }
 
-static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_4q_map(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self) {
+static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_6q_map(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self) {
   PyObject *__pyx_r = NULL;
   __Pyx_RefNannyDeclarations
   PyObject *__pyx_t_1 = NULL;
@@ -3284,7 +3508,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   int __pyx_clineno = 0;
   __Pyx_RefNannySetupContext("q_map", 0);
 
-  /* "queueing_tool/network/priority_queue.pyx":51
+  /* "queueing_tool/network/priority_queue.pyx":68
  * 
  *     def q_map(self):
  *         return array.array('d', self.q_times)             # <<<<<<<<<<<<<<
@@ -3292,10 +3516,10 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  *     @property
  */
   __Pyx_XDECREF(__pyx_r);
-  if (unlikely(!__pyx_v_self->q_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 51, __pyx_L1_error)}
-  __pyx_t_1 = __pyx_memoryview_fromslice(__pyx_v_self->q_times, 1, (PyObject *(*)(char *)) __pyx_memview_get_double, (int (*)(char *, PyObject *)) __pyx_memview_set_double, 0);; if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 51, __pyx_L1_error)
+  if (unlikely(!__pyx_v_self->q_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 68, __pyx_L1_error)}
+  __pyx_t_1 = __pyx_memoryview_fromslice(__pyx_v_self->q_times, 1, (PyObject *(*)(char *)) __pyx_memview_get_double, (int (*)(char *, PyObject *)) __pyx_memview_set_double, 0);; if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 68, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
-  __pyx_t_2 = PyTuple_New(2); if (unlikely(!__pyx_t_2)) __PYX_ERR(0, 51, __pyx_L1_error)
+  __pyx_t_2 = PyTuple_New(2); if (unlikely(!__pyx_t_2)) __PYX_ERR(0, 68, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_2);
   __Pyx_INCREF(__pyx_n_s_d);
   __Pyx_GIVEREF(__pyx_n_s_d);
@@ -3303,14 +3527,14 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   __Pyx_GIVEREF(__pyx_t_1);
   PyTuple_SET_ITEM(__pyx_t_2, 1, __pyx_t_1);
   __pyx_t_1 = 0;
-  __pyx_t_1 = __Pyx_PyObject_Call(((PyObject *)__pyx_ptype_7cpython_5array_array), __pyx_t_2, NULL); if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 51, __pyx_L1_error)
+  __pyx_t_1 = __Pyx_PyObject_Call(((PyObject *)__pyx_ptype_7cpython_5array_array), __pyx_t_2, NULL); if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 68, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
   __Pyx_DECREF(__pyx_t_2); __pyx_t_2 = 0;
   __pyx_r = __pyx_t_1;
   __pyx_t_1 = 0;
   goto __pyx_L0;
 
-  /* "queueing_tool/network/priority_queue.pyx":50
+  /* "queueing_tool/network/priority_queue.pyx":67
  *         return self.array_edges[:self.size]
  * 
  *     def q_map(self):             # <<<<<<<<<<<<<<
@@ -3330,7 +3554,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   return __pyx_r;
 }
 
-/* "queueing_tool/network/priority_queue.pyx":54
+/* "queueing_tool/network/priority_queue.pyx":71
  * 
  *     @property
  *     def arraysize(self):             # <<<<<<<<<<<<<<
@@ -3360,7 +3584,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   int __pyx_clineno = 0;
   __Pyx_RefNannySetupContext("__get__", 0);
 
-  /* "queueing_tool/network/priority_queue.pyx":55
+  /* "queueing_tool/network/priority_queue.pyx":72
  *     @property
  *     def arraysize(self):
  *         return self.actual_size             # <<<<<<<<<<<<<<
@@ -3368,13 +3592,13 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  *     @cython.boundscheck(False)
  */
   __Pyx_XDECREF(__pyx_r);
-  __pyx_t_1 = __Pyx_PyInt_From_int(__pyx_v_self->actual_size); if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 55, __pyx_L1_error)
+  __pyx_t_1 = __Pyx_PyInt_From_int(__pyx_v_self->actual_size); if (unlikely(!__pyx_t_1)) __PYX_ERR(0, 72, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
   __pyx_r = __pyx_t_1;
   __pyx_t_1 = 0;
   goto __pyx_L0;
 
-  /* "queueing_tool/network/priority_queue.pyx":54
+  /* "queueing_tool/network/priority_queue.pyx":71
  * 
  *     @property
  *     def arraysize(self):             # <<<<<<<<<<<<<<
@@ -3393,7 +3617,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   return __pyx_r;
 }
 
-/* "queueing_tool/network/priority_queue.pyx":60
+/* "queueing_tool/network/priority_queue.pyx":77
  *     @cython.wraparound(False)
  *     @cython.nonecheck(False)
  *     def pop(self):             # <<<<<<<<<<<<<<
@@ -3402,19 +3626,19 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
 
 /* Python wrapper */
-static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_7pop(PyObject *__pyx_v_self, CYTHON_UNUSED PyObject *unused); /*proto*/
-static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_7pop(PyObject *__pyx_v_self, CYTHON_UNUSED PyObject *unused) {
+static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_9pop(PyObject *__pyx_v_self, CYTHON_UNUSED PyObject *unused); /*proto*/
+static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_9pop(PyObject *__pyx_v_self, CYTHON_UNUSED PyObject *unused) {
   PyObject *__pyx_r = 0;
   __Pyx_RefNannyDeclarations
   __Pyx_RefNannySetupContext("pop (wrapper)", 0);
-  __pyx_r = __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_6pop(((struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *)__pyx_v_self));
+  __pyx_r = __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_8pop(((struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *)__pyx_v_self));
 
   /* function exit code */
   __Pyx_RefNannyFinishContext();
   return __pyx_r;
 }
 
-static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_6pop(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self) {
+static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_8pop(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self) {
   PyObject *__pyx_r = NULL;
   __Pyx_RefNannyDeclarations
   int __pyx_t_1;
@@ -3428,7 +3652,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   int __pyx_clineno = 0;
   __Pyx_RefNannySetupContext("pop", 0);
 
-  /* "queueing_tool/network/priority_queue.pyx":64
+  /* "queueing_tool/network/priority_queue.pyx":81
  *         cdef int k
  * 
  *         if self.size == 0:             # <<<<<<<<<<<<<<
@@ -3438,7 +3662,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   __pyx_t_1 = ((__pyx_v_self->size == 0) != 0);
   if (__pyx_t_1) {
 
-    /* "queueing_tool/network/priority_queue.pyx":65
+    /* "queueing_tool/network/priority_queue.pyx":82
  * 
  *         if self.size == 0:
  *             return None             # <<<<<<<<<<<<<<
@@ -3449,7 +3673,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
     __pyx_r = Py_None; __Pyx_INCREF(Py_None);
     goto __pyx_L0;
 
-    /* "queueing_tool/network/priority_queue.pyx":64
+    /* "queueing_tool/network/priority_queue.pyx":81
  *         cdef int k
  * 
  *         if self.size == 0:             # <<<<<<<<<<<<<<
@@ -3458,7 +3682,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":67
+  /* "queueing_tool/network/priority_queue.pyx":84
  *             return None
  * 
  *         self.heappop()             # <<<<<<<<<<<<<<
@@ -3467,7 +3691,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
   ((struct __pyx_vtabstruct_13queueing_tool_7network_14priority_queue_PriorityQueue *)__pyx_v_self->__pyx_vtab)->heappop(__pyx_v_self);
 
-  /* "queueing_tool/network/priority_queue.pyx":68
+  /* "queueing_tool/network/priority_queue.pyx":85
  * 
  *         self.heappop()
  *         with nogil:             # <<<<<<<<<<<<<<
@@ -3482,7 +3706,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
       #endif
       /*try:*/ {
 
-        /* "queueing_tool/network/priority_queue.pyx":69
+        /* "queueing_tool/network/priority_queue.pyx":86
  *         self.heappop()
  *         with nogil:
  *             while self.next_time != self.q_times[self.next_node]:             # <<<<<<<<<<<<<<
@@ -3490,12 +3714,12 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  *                     self.size -= 1
  */
         while (1) {
-          if (unlikely(!__pyx_v_self->q_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 69, __pyx_L5_error)}
+          if (unlikely(!__pyx_v_self->q_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 86, __pyx_L5_error)}
           __pyx_t_2 = __pyx_v_self->next_node;
           __pyx_t_1 = ((__pyx_v_self->next_time != (*((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->q_times.data) + __pyx_t_2)) )))) != 0);
           if (!__pyx_t_1) break;
 
-          /* "queueing_tool/network/priority_queue.pyx":70
+          /* "queueing_tool/network/priority_queue.pyx":87
  *         with nogil:
  *             while self.next_time != self.q_times[self.next_node]:
  *                 if self.size == 0:             # <<<<<<<<<<<<<<
@@ -3505,7 +3729,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
           __pyx_t_1 = ((__pyx_v_self->size == 0) != 0);
           if (__pyx_t_1) {
 
-            /* "queueing_tool/network/priority_queue.pyx":71
+            /* "queueing_tool/network/priority_queue.pyx":88
  *             while self.next_time != self.q_times[self.next_node]:
  *                 if self.size == 0:
  *                     self.size -= 1             # <<<<<<<<<<<<<<
@@ -3514,7 +3738,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
             __pyx_v_self->size = (__pyx_v_self->size - 1);
 
-            /* "queueing_tool/network/priority_queue.pyx":72
+            /* "queueing_tool/network/priority_queue.pyx":89
  *                 if self.size == 0:
  *                     self.size -= 1
  *                     break             # <<<<<<<<<<<<<<
@@ -3523,7 +3747,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
             goto __pyx_L8_break;
 
-            /* "queueing_tool/network/priority_queue.pyx":70
+            /* "queueing_tool/network/priority_queue.pyx":87
  *         with nogil:
  *             while self.next_time != self.q_times[self.next_node]:
  *                 if self.size == 0:             # <<<<<<<<<<<<<<
@@ -3532,7 +3756,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
           }
 
-          /* "queueing_tool/network/priority_queue.pyx":73
+          /* "queueing_tool/network/priority_queue.pyx":90
  *                     self.size -= 1
  *                     break
  *                 self.heappop()             # <<<<<<<<<<<<<<
@@ -3544,7 +3768,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
         __pyx_L8_break:;
       }
 
-      /* "queueing_tool/network/priority_queue.pyx":68
+      /* "queueing_tool/network/priority_queue.pyx":85
  * 
  *         self.heappop()
  *         with nogil:             # <<<<<<<<<<<<<<
@@ -3570,7 +3794,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
       }
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":75
+  /* "queueing_tool/network/priority_queue.pyx":92
  *                 self.heappop()
  * 
  *         if self.size < 0:             # <<<<<<<<<<<<<<
@@ -3580,7 +3804,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   __pyx_t_1 = ((__pyx_v_self->size < 0) != 0);
   if (__pyx_t_1) {
 
-    /* "queueing_tool/network/priority_queue.pyx":76
+    /* "queueing_tool/network/priority_queue.pyx":93
  * 
  *         if self.size < 0:
  *             self.size += 1             # <<<<<<<<<<<<<<
@@ -3589,7 +3813,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
     __pyx_v_self->size = (__pyx_v_self->size + 1);
 
-    /* "queueing_tool/network/priority_queue.pyx":77
+    /* "queueing_tool/network/priority_queue.pyx":94
  *         if self.size < 0:
  *             self.size += 1
  *             return None             # <<<<<<<<<<<<<<
@@ -3600,7 +3824,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
     __pyx_r = Py_None; __Pyx_INCREF(Py_None);
     goto __pyx_L0;
 
-    /* "queueing_tool/network/priority_queue.pyx":75
+    /* "queueing_tool/network/priority_queue.pyx":92
  *                 self.heappop()
  * 
  *         if self.size < 0:             # <<<<<<<<<<<<<<
@@ -3609,19 +3833,19 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":81
+  /* "queueing_tool/network/priority_queue.pyx":98
  *         # The entry has been used up. Without this, any other entry for
  *         # this node with the same time would look like it was current.
  *         self.q_times[self.next_node] = float('inf')             # <<<<<<<<<<<<<<
  *         return self.next_time, self.next_node
  * 
  */
-  __pyx_t_3 = __Pyx_PyObject_AsDouble(__pyx_n_s_inf); if (unlikely(__pyx_t_3 == ((double)((double)-1)) && PyErr_Occurred())) __PYX_ERR(0, 81, __pyx_L1_error)
-  if (unlikely(!__pyx_v_self->q_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 81, __pyx_L1_error)}
+  __pyx_t_3 = __Pyx_PyObject_AsDouble(__pyx_n_s_inf); if (unlikely(__pyx_t_3 == ((double)((double)-1)) && PyErr_Occurred())) __PYX_ERR(0, 98, __pyx_L1_error)
+  if (unlikely(!__pyx_v_self->q_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 98, __pyx_L1_error)}
   __pyx_t_2 = __pyx_v_self->next_node;
   *((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->q_times.data) + __pyx_t_2)) )) = __pyx_t_3;
 
-  /* "queueing_tool/network/priority_queue.pyx":82
+  /* "queueing_tool/network/priority_queue.pyx":99
  *         # this node with the same time would look like it was current.
  *         self.q_times[self.next_node] = float('inf')
  *         return self.next_time, self.next_node             # <<<<<<<<<<<<<<
@@ -3629,11 +3853,11 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  *     @cython.boundscheck(False)
  */
   __Pyx_XDECREF(__pyx_r);
-  __pyx_t_4 = PyFloat_FromDouble(__pyx_v_self->next_time); if (unlikely(!__pyx_t_4)) __PYX_ERR(0, 82, __pyx_L1_error)
+  __pyx_t_4 = PyFloat_FromDouble(__pyx_v_self->next_time); if (unlikely(!__pyx_t_4)) __PYX_ERR(0, 99, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_4);
-  __pyx_t_5 = __Pyx_PyInt_From_int(__pyx_v_self->next_node); if (unlikely(!__pyx_t_5)) __PYX_ERR(0, 82, __pyx_L1_error)
+  __pyx_t_5 = __Pyx_PyInt_From_int(__pyx_v_self->next_node); if (unlikely(!__pyx_t_5)) __PYX_ERR(0, 99, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_5);
-  __pyx_t_6 = PyTuple_New(2); if (unlikely(!__pyx_t_6)) __PYX_ERR(0, 82, __pyx_L1_error)
+  __pyx_t_6 = PyTuple_New(2); if (unlikely(!__pyx_t_6)) __PYX_ERR(0, 99, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_6);
   __Pyx_GIVEREF(__pyx_t_4);
   PyTuple_SET_ITEM(__pyx_t_6, 0, __pyx_t_4);
@@ -3645,7 +3869,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   __pyx_t_6 = 0;
   goto __pyx_L0;
 
-  /* "queueing_tool/network/priority_queue.pyx":60
+  /* "queueing_tool/network/priority_queue.pyx":77
  *     @cython.wraparound(False)
  *     @cython.nonecheck(False)
  *     def pop(self):             # <<<<<<<<<<<<<<
@@ -3666,7 +3890,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   return __pyx_r;
 }
 
-/* "queueing_tool/network/priority_queue.pyx":87
+/* "queueing_tool/network/priority_queue.pyx":104
  *     @cython.wraparound(False)
  *     @cython.nonecheck(False)
  *     def push(self, double t, int k):             # <<<<<<<<<<<<<<
@@ -3675,8 +3899,8 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
 
 /* Python wrapper */
-static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_9push(PyObject *__pyx_v_self, PyObject *__pyx_args, PyObject *__pyx_kwds); /*proto*/
-static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_9push(PyObject *__pyx_v_self, PyObject *__pyx_args, PyObject *__pyx_kwds) {
+static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_11push(PyObject *__pyx_v_self, PyObject *__pyx_args, PyObject *__pyx_kwds); /*proto*/
+static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_11push(PyObject *__pyx_v_self, PyObject *__pyx_args, PyObject *__pyx_kwds) {
   double __pyx_v_t;
   int __pyx_v_k;
   int __pyx_lineno = 0;
@@ -3708,11 +3932,11 @@ static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQu
         case  1:
         if (likely((values[1] = __Pyx_PyDict_GetItemStr(__pyx_kwds, __pyx_n_s_k)) != 0)) kw_args--;
         else {
-          __Pyx_RaiseArgtupleInvalid("push", 1, 2, 2, 1); __PYX_ERR(0, 87, __pyx_L3_error)
+          __Pyx_RaiseArgtupleInvalid("push", 1, 2, 2, 1); __PYX_ERR(0, 104, __pyx_L3_error)
         }
       }
       if (unlikely(kw_args > 0)) {
-        if (unlikely(__Pyx_ParseOptionalKeywords(__pyx_kwds, __pyx_pyargnames, 0, values, pos_args, "push") < 0)) __PYX_ERR(0, 87, __pyx_L3_error)
+        if (unlikely(__Pyx_ParseOptionalKeywords(__pyx_kwds, __pyx_pyargnames, 0, values, pos_args, "push") < 0)) __PYX_ERR(0, 104, __pyx_L3_error)
       }
     } else if (PyTuple_GET_SIZE(__pyx_args) != 2) {
       goto __pyx_L5_argtuple_error;
@@ -3720,25 +3944,25 @@ static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQu
       values[0] = PyTuple_GET_ITEM(__pyx_args, 0);
       values[1] = PyTuple_GET_ITEM(__pyx_args, 1);
     }
-    __pyx_v_t = __pyx_PyFloat_AsDouble(values[0]); if (unlikely((__pyx_v_t == (double)-1) && PyErr_Occurred())) __PYX_ERR(0, 87, __pyx_L3_error)
-    __pyx_v_k = __Pyx_PyInt_As_int(values[1]); if (unlikely((__pyx_v_k == (int)-1) && PyErr_Occurred())) __PYX_ERR(0, 87, __pyx_L3_error)
+    __pyx_v_t = __pyx_PyFloat_AsDouble(values[0]); if (unlikely((__pyx_v_t == (double)-1) && PyErr_Occurred())) __PYX_ERR(0, 104, __pyx_L3_error)
+    __pyx_v_k = __Pyx_PyInt_As_int(values[1]); if (unlikely((__pyx_v_k == (int)-1) && PyErr_Occurred())) __PYX_ERR(0, 104, __pyx_L3_error)
   }
   goto __pyx_L4_argument_unpacking_done;
   __pyx_L5_argtuple_error:;
-  __Pyx_RaiseArgtupleInvalid("push", 1, 2, 2, PyTuple_GET_SIZE(__pyx_args)); __PYX_ERR(0, 87, __pyx_L3_error)
+  __Pyx_RaiseArgtupleInvalid("push", 1, 2, 2, PyTuple_GET_SIZE(__pyx_args)); __PYX_ERR(0, 104, __pyx_L3_error)
   __pyx_L3_error:;
   __Pyx_AddTraceback("queueing_tool.network.priority_queue.PriorityQueue.push", __pyx_clineno, __pyx_lineno, __pyx_filename);
   __Pyx_RefNannyFinishContext();
   return NULL;
   __pyx_L4_argument_unpacking_done:;
-  __pyx_r = __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_8push(((struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *)__pyx_v_self), __pyx_v_t, __pyx_v_k);
+  __pyx_r = __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_10push(((struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *)__pyx_v_self), __pyx_v_t, __pyx_v_k);
 
   /* function exit code */
   __Pyx_RefNannyFinishContext();
   return __pyx_r;
 }
 
-static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_8push(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self, double __pyx_v_t, int __pyx_v_k) {
+static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_10push(struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self, double __pyx_v_t, int __pyx_v_k) {
   PyObject *__pyx_r = NULL;
   __Pyx_RefNannyDeclarations
   Py_ssize_t __pyx_t_1;
@@ -3755,18 +3979,18 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   int __pyx_clineno = 0;
   __Pyx_RefNannySetupContext("push", 0);
 
-  /* "queueing_tool/network/priority_queue.pyx":89
+  /* "queueing_tool/network/priority_queue.pyx":106
  *     def push(self, double t, int k):
  * 
  *         self.q_times[k] = t             # <<<<<<<<<<<<<<
  *         if self.size < self.actual_size:
  *             self.sorted_times[self.size] = t
  */
-  if (unlikely(!__pyx_v_self->q_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 89, __pyx_L1_error)}
+  if (unlikely(!__pyx_v_self->q_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 106, __pyx_L1_error)}
   __pyx_t_1 = __pyx_v_k;
   *((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->q_times.data) + __pyx_t_1)) )) = __pyx_v_t;
 
-  /* "queueing_tool/network/priority_queue.pyx":90
+  /* "queueing_tool/network/priority_queue.pyx":107
  * 
  *         self.q_times[k] = t
  *         if self.size < self.actual_size:             # <<<<<<<<<<<<<<
@@ -3776,29 +4000,29 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   __pyx_t_2 = ((__pyx_v_self->size < __pyx_v_self->actual_size) != 0);
   if (__pyx_t_2) {
 
-    /* "queueing_tool/network/priority_queue.pyx":91
+    /* "queueing_tool/network/priority_queue.pyx":108
  *         self.q_times[k] = t
  *         if self.size < self.actual_size:
  *             self.sorted_times[self.size] = t             # <<<<<<<<<<<<<<
  *             self.sorted_edges[self.size] = k
  * 
  */
-    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 91, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 108, __pyx_L1_error)}
     __pyx_t_1 = __pyx_v_self->size;
     *((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->sorted_times.data) + __pyx_t_1)) )) = __pyx_v_t;
 
-    /* "queueing_tool/network/priority_queue.pyx":92
+    /* "queueing_tool/network/priority_queue.pyx":109
  *         if self.size < self.actual_size:
  *             self.sorted_times[self.size] = t
  *             self.sorted_edges[self.size] = k             # <<<<<<<<<<<<<<
  * 
  *         else:
  */
-    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 92, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 109, __pyx_L1_error)}
     __pyx_t_1 = __pyx_v_self->size;
     *((int *) ( /* dim=0 */ ((char *) (((int *) __pyx_v_self->sorted_edges.data) + __pyx_t_1)) )) = __pyx_v_k;
 
-    /* "queueing_tool/network/priority_queue.pyx":90
+    /* "queueing_tool/network/priority_queue.pyx":107
  * 
  *         self.q_times[k] = t
  *         if self.size < self.actual_size:             # <<<<<<<<<<<<<<
@@ -3808,7 +4032,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
     goto __pyx_L3;
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":95
+  /* "queueing_tool/network/priority_queue.pyx":112
  * 
  *         else:
  *             self.actual_size = max(2 * self.actual_size, 1)             # <<<<<<<<<<<<<<
@@ -3825,7 +4049,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
     }
     __pyx_v_self->actual_size = __pyx_t_5;
 
-    /* "queueing_tool/network/priority_queue.pyx":96
+    /* "queueing_tool/network/priority_queue.pyx":113
  *         else:
  *             self.actual_size = max(2 * self.actual_size, 1)
  *             array.resize_smart(self.array_times, self.actual_size)             # <<<<<<<<<<<<<<
@@ -3834,10 +4058,10 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
     __pyx_t_6 = ((PyObject *)__pyx_v_self->array_times);
     __Pyx_INCREF(__pyx_t_6);
-    __pyx_t_7 = resize_smart(((arrayobject *)__pyx_t_6), __pyx_v_self->actual_size); if (unlikely(__pyx_t_7 == ((int)-1))) __PYX_ERR(0, 96, __pyx_L1_error)
+    __pyx_t_7 = resize_smart(((arrayobject *)__pyx_t_6), __pyx_v_self->actual_size); if (unlikely(__pyx_t_7 == ((int)-1))) __PYX_ERR(0, 113, __pyx_L1_error)
     __Pyx_DECREF(__pyx_t_6); __pyx_t_6 = 0;
 
-    /* "queueing_tool/network/priority_queue.pyx":97
+    /* "queueing_tool/network/priority_queue.pyx":114
  *             self.actual_size = max(2 * self.actual_size, 1)
  *             array.resize_smart(self.array_times, self.actual_size)
  *             array.resize_smart(self.array_edges, self.actual_size)             # <<<<<<<<<<<<<<
@@ -3846,60 +4070,60 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
     __pyx_t_6 = ((PyObject *)__pyx_v_self->array_edges);
     __Pyx_INCREF(__pyx_t_6);
-    __pyx_t_7 = resize_smart(((arrayobject *)__pyx_t_6), __pyx_v_self->actual_size); if (unlikely(__pyx_t_7 == ((int)-1))) __PYX_ERR(0, 97, __pyx_L1_error)
+    __pyx_t_7 = resize_smart(((arrayobject *)__pyx_t_6), __pyx_v_self->actual_size); if (unlikely(__pyx_t_7 == ((int)-1))) __PYX_ERR(0, 114, __pyx_L1_error)
     __Pyx_DECREF(__pyx_t_6); __pyx_t_6 = 0;
 
-    /* "queueing_tool/network/priority_queue.pyx":99
+    /* "queueing_tool/network/priority_queue.pyx":116
  *             array.resize_smart(self.array_edges, self.actual_size)
  * 
  *             self.sorted_times = self.array_times             # <<<<<<<<<<<<<<
  *             self.sorted_edges = self.array_edges
  * 
  */
-    __pyx_t_8 = __Pyx_PyObject_to_MemoryviewSlice_dc_double(((PyObject *)__pyx_v_self->array_times), PyBUF_WRITABLE); if (unlikely(!__pyx_t_8.memview)) __PYX_ERR(0, 99, __pyx_L1_error)
+    __pyx_t_8 = __Pyx_PyObject_to_MemoryviewSlice_dc_double(((PyObject *)__pyx_v_self->array_times), PyBUF_WRITABLE); if (unlikely(!__pyx_t_8.memview)) __PYX_ERR(0, 116, __pyx_L1_error)
     __PYX_XDEC_MEMVIEW(&__pyx_v_self->sorted_times, 0);
     __pyx_v_self->sorted_times = __pyx_t_8;
     __pyx_t_8.memview = NULL;
     __pyx_t_8.data = NULL;
 
-    /* "queueing_tool/network/priority_queue.pyx":100
+    /* "queueing_tool/network/priority_queue.pyx":117
  * 
  *             self.sorted_times = self.array_times
  *             self.sorted_edges = self.array_edges             # <<<<<<<<<<<<<<
  * 
  *             self.sorted_times[self.size] = t
  */
-    __pyx_t_9 = __Pyx_PyObject_to_MemoryviewSlice_dc_int(((PyObject *)__pyx_v_self->array_edges), PyBUF_WRITABLE); if (unlikely(!__pyx_t_9.memview)) __PYX_ERR(0, 100, __pyx_L1_error)
+    __pyx_t_9 = __Pyx_PyObject_to_MemoryviewSlice_dc_int(((PyObject *)__pyx_v_self->array_edges), PyBUF_WRITABLE); if (unlikely(!__pyx_t_9.memview)) __PYX_ERR(0, 117, __pyx_L1_error)
     __PYX_XDEC_MEMVIEW(&__pyx_v_self->sorted_edges, 0);
     __pyx_v_self->sorted_edges = __pyx_t_9;
     __pyx_t_9.memview = NULL;
     __pyx_t_9.data = NULL;
 
-    /* "queueing_tool/network/priority_queue.pyx":102
+    /* "queueing_tool/network/priority_queue.pyx":119
  *             self.sorted_edges = self.array_edges
  * 
  *             self.sorted_times[self.size] = t             # <<<<<<<<<<<<<<
  *             self.sorted_edges[self.size] = k
  * 
  */
-    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 102, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 119, __pyx_L1_error)}
     __pyx_t_1 = __pyx_v_self->size;
     *((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->sorted_times.data) + __pyx_t_1)) )) = __pyx_v_t;
 
-    /* "queueing_tool/network/priority_queue.pyx":103
+    /* "queueing_tool/network/priority_queue.pyx":120
  * 
  *             self.sorted_times[self.size] = t
  *             self.sorted_edges[self.size] = k             # <<<<<<<<<<<<<<
  * 
  *         self.size += 1
  */
-    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 103, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 120, __pyx_L1_error)}
     __pyx_t_1 = __pyx_v_self->size;
     *((int *) ( /* dim=0 */ ((char *) (((int *) __pyx_v_self->sorted_edges.data) + __pyx_t_1)) )) = __pyx_v_k;
   }
   __pyx_L3:;
 
-  /* "queueing_tool/network/priority_queue.pyx":105
+  /* "queueing_tool/network/priority_queue.pyx":122
  *             self.sorted_edges[self.size] = k
  * 
  *         self.size += 1             # <<<<<<<<<<<<<<
@@ -3908,18 +4132,18 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
   __pyx_v_self->size = (__pyx_v_self->size + 1);
 
-  /* "queueing_tool/network/priority_queue.pyx":106
+  /* "queueing_tool/network/priority_queue.pyx":123
  * 
  *         self.size += 1
  *         _siftdown(self.sorted_times, self.sorted_edges, 0, self.size-1)             # <<<<<<<<<<<<<<
  * 
  *     @cython.boundscheck(False)
  */
-  if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 106, __pyx_L1_error)}
-  if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 106, __pyx_L1_error)}
+  if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 123, __pyx_L1_error)}
+  if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 123, __pyx_L1_error)}
   __pyx_f_13queueing_tool_7network_14priority_queue__siftdown(__pyx_v_self->sorted_times, __pyx_v_self->sorted_edges, 0, (__pyx_v_self->size - 1));
 
-  /* "queueing_tool/network/priority_queue.pyx":87
+  /* "queueing_tool/network/priority_queue.pyx":104
  *     @cython.wraparound(False)
  *     @cython.nonecheck(False)
  *     def push(self, double t, int k):             # <<<<<<<<<<<<<<
@@ -3942,7 +4166,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   return __pyx_r;
 }
 
-/* "queueing_tool/network/priority_queue.pyx":111
+/* "queueing_tool/network/priority_queue.pyx":128
  *     @cython.wraparound(False)
  *     @cython.nonecheck(False)
  *     cdef void heappop(self) nogil:             # <<<<<<<<<<<<<<
@@ -3961,7 +4185,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
   const char *__pyx_filename = NULL;
   int __pyx_clineno = 0;
 
-  /* "queueing_tool/network/priority_queue.pyx":115
+  /* "queueing_tool/network/priority_queue.pyx":132
  *         cdef int last_node, return_node
  * 
  *         self.size -= 1             # <<<<<<<<<<<<<<
@@ -3970,29 +4194,29 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
  */
   __pyx_v_self->size = (__pyx_v_self->size - 1);
 
-  /* "queueing_tool/network/priority_queue.pyx":116
+  /* "queueing_tool/network/priority_queue.pyx":133
  * 
  *         self.size -= 1
  *         last_time = self.sorted_times[self.size]             # <<<<<<<<<<<<<<
  *         last_node = self.sorted_edges[self.size]
  * 
  */
-  if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 116, __pyx_L1_error)}
+  if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 133, __pyx_L1_error)}
   __pyx_t_1 = __pyx_v_self->size;
   __pyx_v_last_time = (*((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->sorted_times.data) + __pyx_t_1)) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":117
+  /* "queueing_tool/network/priority_queue.pyx":134
  *         self.size -= 1
  *         last_time = self.sorted_times[self.size]
  *         last_node = self.sorted_edges[self.size]             # <<<<<<<<<<<<<<
  * 
  *         if self.size > 0:
  */
-  if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 117, __pyx_L1_error)}
+  if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 134, __pyx_L1_error)}
   __pyx_t_1 = __pyx_v_self->size;
   __pyx_v_last_node = (*((int *) ( /* dim=0 */ ((char *) (((int *) __pyx_v_self->sorted_edges.data) + __pyx_t_1)) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":119
+  /* "queueing_tool/network/priority_queue.pyx":136
  *         last_node = self.sorted_edges[self.size]
  * 
  *         if self.size > 0:             # <<<<<<<<<<<<<<
@@ -4002,62 +4226,62 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
   __pyx_t_2 = ((__pyx_v_self->size > 0) != 0);
   if (__pyx_t_2) {
 
-    /* "queueing_tool/network/priority_queue.pyx":120
+    /* "queueing_tool/network/priority_queue.pyx":137
  * 
  *         if self.size > 0:
  *             return_time = self.sorted_times[0]             # <<<<<<<<<<<<<<
  *             return_node = self.sorted_edges[0]
  * 
  */
-    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 120, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 137, __pyx_L1_error)}
     __pyx_t_1 = 0;
     __pyx_v_return_time = (*((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->sorted_times.data) + __pyx_t_1)) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":121
+    /* "queueing_tool/network/priority_queue.pyx":138
  *         if self.size > 0:
  *             return_time = self.sorted_times[0]
  *             return_node = self.sorted_edges[0]             # <<<<<<<<<<<<<<
  * 
  *             self.sorted_times[0] = last_time
  */
-    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 121, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 138, __pyx_L1_error)}
     __pyx_t_1 = 0;
     __pyx_v_return_node = (*((int *) ( /* dim=0 */ ((char *) (((int *) __pyx_v_self->sorted_edges.data) + __pyx_t_1)) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":123
+    /* "queueing_tool/network/priority_queue.pyx":140
  *             return_node = self.sorted_edges[0]
  * 
  *             self.sorted_times[0] = last_time             # <<<<<<<<<<<<<<
  *             self.sorted_edges[0] = last_node
  * 
  */
-    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 123, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 140, __pyx_L1_error)}
     __pyx_t_1 = 0;
     *((double *) ( /* dim=0 */ ((char *) (((double *) __pyx_v_self->sorted_times.data) + __pyx_t_1)) )) = __pyx_v_last_time;
 
-    /* "queueing_tool/network/priority_queue.pyx":124
+    /* "queueing_tool/network/priority_queue.pyx":141
  * 
  *             self.sorted_times[0] = last_time
  *             self.sorted_edges[0] = last_node             # <<<<<<<<<<<<<<
  * 
  *             _siftup(self.sorted_times, self.sorted_edges, 0, self.size)
  */
-    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 124, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 141, __pyx_L1_error)}
     __pyx_t_1 = 0;
     *((int *) ( /* dim=0 */ ((char *) (((int *) __pyx_v_self->sorted_edges.data) + __pyx_t_1)) )) = __pyx_v_last_node;
 
-    /* "queueing_tool/network/priority_queue.pyx":126
+    /* "queueing_tool/network/priority_queue.pyx":143
  *             self.sorted_edges[0] = last_node
  * 
  *             _siftup(self.sorted_times, self.sorted_edges, 0, self.size)             # <<<<<<<<<<<<<<
  * 
  *             self.next_time = return_time
  */
-    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 126, __pyx_L1_error)}
-    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 126, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_times.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 143, __pyx_L1_error)}
+    if (unlikely(!__pyx_v_self->sorted_edges.memview)) {PyErr_SetString(PyExc_AttributeError,"Memoryview is not initialized");__PYX_ERR(0, 143, __pyx_L1_error)}
     __pyx_f_13queueing_tool_7network_14priority_queue__siftup(__pyx_v_self->sorted_times, __pyx_v_self->sorted_edges, 0, __pyx_v_self->size);
 
-    /* "queueing_tool/network/priority_queue.pyx":128
+    /* "queueing_tool/network/priority_queue.pyx":145
  *             _siftup(self.sorted_times, self.sorted_edges, 0, self.size)
  * 
  *             self.next_time = return_time             # <<<<<<<<<<<<<<
@@ -4066,7 +4290,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
  */
     __pyx_v_self->next_time = __pyx_v_return_time;
 
-    /* "queueing_tool/network/priority_queue.pyx":129
+    /* "queueing_tool/network/priority_queue.pyx":146
  * 
  *             self.next_time = return_time
  *             self.next_node = return_node             # <<<<<<<<<<<<<<
@@ -4075,7 +4299,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
  */
     __pyx_v_self->next_node = __pyx_v_return_node;
 
-    /* "queueing_tool/network/priority_queue.pyx":119
+    /* "queueing_tool/network/priority_queue.pyx":136
  *         last_node = self.sorted_edges[self.size]
  * 
  *         if self.size > 0:             # <<<<<<<<<<<<<<
@@ -4085,7 +4309,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
     goto __pyx_L3;
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":131
+  /* "queueing_tool/network/priority_queue.pyx":148
  *             self.next_node = return_node
  *         else:
  *             self.next_time = last_time             # <<<<<<<<<<<<<<
@@ -4095,7 +4319,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
   /*else*/ {
     __pyx_v_self->next_time = __pyx_v_last_time;
 
-    /* "queueing_tool/network/priority_queue.pyx":132
+    /* "queueing_tool/network/priority_queue.pyx":149
  *         else:
  *             self.next_time = last_time
  *             self.next_node = last_node             # <<<<<<<<<<<<<<
@@ -4106,7 +4330,7 @@ static void __pyx_f_13queueing_tool_7network_14priority_queue_13PriorityQueue_he
   }
   __pyx_L3:;
 
-  /* "queueing_tool/network/priority_queue.pyx":111
+  /* "queueing_tool/network/priority_queue.pyx":128
  *     @cython.wraparound(False)
  *     @cython.nonecheck(False)
  *     cdef void heappop(self) nogil:             # <<<<<<<<<<<<<<
@@ -4574,19 +4798,19 @@ static int __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_9n
  */
 
 /* Python wrapper */
-static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_11__reduce_cython__(PyObject *__pyx_v_self, CYTHON_UNUSED PyObject *unused); /*proto*/
-static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_11__reduce_cython__(PyObject *__pyx_v_self, CYTHON_UNUSED PyObject *unused) {
+static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_13__reduce_cython__(PyObject *__pyx_v_self, CYTHON_UNUSED PyObject *unused); /*proto*/
+static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_13__reduce_cython__(PyObject *__pyx_v_self, CYTHON_UNUSED PyObject *unused) {
   PyObject *__pyx_r = 0;
   __Pyx_RefNannyDeclarations
   __Pyx_RefNannySetupContext("__reduce_cython__ (wrapper)", 0);
-  __pyx_r = __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_10__reduce_cython__(((struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *)__pyx_v_self));
+  __pyx_r = __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_12__reduce_cython__(((struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *)__pyx_v_self));
 
   /* function exit code */
   __Pyx_RefNannyFinishContext();
   return __pyx_r;
 }
 
-static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_10__reduce_cython__(CYTHON_UNUSED struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self) {
+static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_12__reduce_cython__(CYTHON_UNUSED struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self) {
   PyObject *__pyx_r = NULL;
   __Pyx_RefNannyDeclarations
   PyObject *__pyx_t_1 = NULL;
@@ -4601,7 +4825,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  * def __setstate_cython__(self, __pyx_state):
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")
  */
-  __pyx_t_1 = __Pyx_PyObject_Call(__pyx_builtin_TypeError, __pyx_tuple_, NULL); if (unlikely(!__pyx_t_1)) __PYX_ERR(1, 2, __pyx_L1_error)
+  __pyx_t_1 = __Pyx_PyObject_Call(__pyx_builtin_TypeError, __pyx_tuple__2, NULL); if (unlikely(!__pyx_t_1)) __PYX_ERR(1, 2, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
   __Pyx_Raise(__pyx_t_1, 0, 0, 0);
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
@@ -4631,19 +4855,19 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  */
 
 /* Python wrapper */
-static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_13__setstate_cython__(PyObject *__pyx_v_self, PyObject *__pyx_v___pyx_state); /*proto*/
-static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_13__setstate_cython__(PyObject *__pyx_v_self, PyObject *__pyx_v___pyx_state) {
+static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_15__setstate_cython__(PyObject *__pyx_v_self, PyObject *__pyx_v___pyx_state); /*proto*/
+static PyObject *__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_15__setstate_cython__(PyObject *__pyx_v_self, PyObject *__pyx_v___pyx_state) {
   PyObject *__pyx_r = 0;
   __Pyx_RefNannyDeclarations
   __Pyx_RefNannySetupContext("__setstate_cython__ (wrapper)", 0);
-  __pyx_r = __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_12__setstate_cython__(((struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *)__pyx_v_self), ((PyObject *)__pyx_v___pyx_state));
+  __pyx_r = __pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_14__setstate_cython__(((struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *)__pyx_v_self), ((PyObject *)__pyx_v___pyx_state));
 
   /* function exit code */
   __Pyx_RefNannyFinishContext();
   return __pyx_r;
 }
 
-static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_12__setstate_cython__(CYTHON_UNUSED struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self, CYTHON_UNUSED PyObject *__pyx_v___pyx_state) {
+static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQueue_14__setstate_cython__(CYTHON_UNUSED struct __pyx_obj_13queueing_tool_7network_14priority_queue_PriorityQueue *__pyx_v_self, CYTHON_UNUSED PyObject *__pyx_v___pyx_state) {
   PyObject *__pyx_r = NULL;
   __Pyx_RefNannyDeclarations
   PyObject *__pyx_t_1 = NULL;
@@ -4657,7 +4881,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
  * def __setstate_cython__(self, __pyx_state):
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")             # <<<<<<<<<<<<<<
  */
-  __pyx_t_1 = __Pyx_PyObject_Call(__pyx_builtin_TypeError, __pyx_tuple__2, NULL); if (unlikely(!__pyx_t_1)) __PYX_ERR(1, 4, __pyx_L1_error)
+  __pyx_t_1 = __Pyx_PyObject_Call(__pyx_builtin_TypeError, __pyx_tuple__3, NULL); if (unlikely(!__pyx_t_1)) __PYX_ERR(1, 4, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
   __Pyx_Raise(__pyx_t_1, 0, 0, 0);
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
@@ -4680,7 +4904,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   return __pyx_r;
 }
 
-/* "queueing_tool/network/priority_queue.pyx":138
+/* "queueing_tool/network/priority_queue.pyx":155
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void _siftdown(double[:] heap, int[:] hmap, int startpos, int pos) nogil:             # <<<<<<<<<<<<<<
@@ -4697,7 +4921,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   Py_ssize_t __pyx_t_1;
   int __pyx_t_2;
 
-  /* "queueing_tool/network/priority_queue.pyx":142
+  /* "queueing_tool/network/priority_queue.pyx":159
  *     cdef int parentpos, mapitem, father
  * 
  *     newitem = heap[pos]             # <<<<<<<<<<<<<<
@@ -4707,7 +4931,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   __pyx_v_newitem = (*((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":143
+  /* "queueing_tool/network/priority_queue.pyx":160
  * 
  *     newitem = heap[pos]
  *     mapitem = hmap[pos]             # <<<<<<<<<<<<<<
@@ -4717,7 +4941,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   __pyx_v_mapitem = (*((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":144
+  /* "queueing_tool/network/priority_queue.pyx":161
  *     newitem = heap[pos]
  *     mapitem = hmap[pos]
  *     while pos > startpos:             # <<<<<<<<<<<<<<
@@ -4728,7 +4952,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_2 = ((__pyx_v_pos > __pyx_v_startpos) != 0);
     if (!__pyx_t_2) break;
 
-    /* "queueing_tool/network/priority_queue.pyx":145
+    /* "queueing_tool/network/priority_queue.pyx":162
  *     mapitem = hmap[pos]
  *     while pos > startpos:
  *         parentpos = (pos - 1) >> 1             # <<<<<<<<<<<<<<
@@ -4737,7 +4961,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
     __pyx_v_parentpos = ((__pyx_v_pos - 1) >> 1);
 
-    /* "queueing_tool/network/priority_queue.pyx":146
+    /* "queueing_tool/network/priority_queue.pyx":163
  *     while pos > startpos:
  *         parentpos = (pos - 1) >> 1
  *         parent = heap[parentpos]             # <<<<<<<<<<<<<<
@@ -4747,7 +4971,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_1 = __pyx_v_parentpos;
     __pyx_v_parent = (*((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":147
+    /* "queueing_tool/network/priority_queue.pyx":164
  *         parentpos = (pos - 1) >> 1
  *         parent = heap[parentpos]
  *         father = hmap[parentpos]             # <<<<<<<<<<<<<<
@@ -4757,7 +4981,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_1 = __pyx_v_parentpos;
     __pyx_v_father = (*((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":149
+    /* "queueing_tool/network/priority_queue.pyx":166
  *         father = hmap[parentpos]
  * 
  *         if newitem < parent:             # <<<<<<<<<<<<<<
@@ -4767,7 +4991,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_2 = ((__pyx_v_newitem < __pyx_v_parent) != 0);
     if (__pyx_t_2) {
 
-      /* "queueing_tool/network/priority_queue.pyx":150
+      /* "queueing_tool/network/priority_queue.pyx":167
  * 
  *         if newitem < parent:
  *             heap[pos] = parent             # <<<<<<<<<<<<<<
@@ -4777,7 +5001,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
       __pyx_t_1 = __pyx_v_pos;
       *((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )) = __pyx_v_parent;
 
-      /* "queueing_tool/network/priority_queue.pyx":151
+      /* "queueing_tool/network/priority_queue.pyx":168
  *         if newitem < parent:
  *             heap[pos] = parent
  *             hmap[pos] = father             # <<<<<<<<<<<<<<
@@ -4787,7 +5011,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
       __pyx_t_1 = __pyx_v_pos;
       *((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )) = __pyx_v_father;
 
-      /* "queueing_tool/network/priority_queue.pyx":152
+      /* "queueing_tool/network/priority_queue.pyx":169
  *             heap[pos] = parent
  *             hmap[pos] = father
  *             pos = parentpos             # <<<<<<<<<<<<<<
@@ -4796,7 +5020,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
       __pyx_v_pos = __pyx_v_parentpos;
 
-      /* "queueing_tool/network/priority_queue.pyx":153
+      /* "queueing_tool/network/priority_queue.pyx":170
  *             hmap[pos] = father
  *             pos = parentpos
  *             continue             # <<<<<<<<<<<<<<
@@ -4805,7 +5029,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
       goto __pyx_L3_continue;
 
-      /* "queueing_tool/network/priority_queue.pyx":149
+      /* "queueing_tool/network/priority_queue.pyx":166
  *         father = hmap[parentpos]
  * 
  *         if newitem < parent:             # <<<<<<<<<<<<<<
@@ -4814,7 +5038,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
     }
 
-    /* "queueing_tool/network/priority_queue.pyx":154
+    /* "queueing_tool/network/priority_queue.pyx":171
  *             pos = parentpos
  *             continue
  *         break             # <<<<<<<<<<<<<<
@@ -4826,7 +5050,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   }
   __pyx_L4_break:;
 
-  /* "queueing_tool/network/priority_queue.pyx":156
+  /* "queueing_tool/network/priority_queue.pyx":173
  *         break
  * 
  *     heap[pos] = newitem             # <<<<<<<<<<<<<<
@@ -4836,7 +5060,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   *((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )) = __pyx_v_newitem;
 
-  /* "queueing_tool/network/priority_queue.pyx":157
+  /* "queueing_tool/network/priority_queue.pyx":174
  * 
  *     heap[pos] = newitem
  *     hmap[pos] = mapitem             # <<<<<<<<<<<<<<
@@ -4846,7 +5070,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   *((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )) = __pyx_v_mapitem;
 
-  /* "queueing_tool/network/priority_queue.pyx":138
+  /* "queueing_tool/network/priority_queue.pyx":155
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void _siftdown(double[:] heap, int[:] hmap, int startpos, int pos) nogil:             # <<<<<<<<<<<<<<
@@ -4857,7 +5081,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   /* function exit code */
 }
 
-/* "queueing_tool/network/priority_queue.pyx":163
+/* "queueing_tool/network/priority_queue.pyx":180
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void _siftup(double[:] heap, int[:] hmap, int pos, int endpos) nogil:             # <<<<<<<<<<<<<<
@@ -4876,7 +5100,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   int __pyx_t_3;
   Py_ssize_t __pyx_t_4;
 
-  /* "queueing_tool/network/priority_queue.pyx":166
+  /* "queueing_tool/network/priority_queue.pyx":183
  *     cdef double newitem
  *     cdef int childpos, rightpos, mapitem
  *     cdef int startpos = pos             # <<<<<<<<<<<<<<
@@ -4885,7 +5109,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
   __pyx_v_startpos = __pyx_v_pos;
 
-  /* "queueing_tool/network/priority_queue.pyx":168
+  /* "queueing_tool/network/priority_queue.pyx":185
  *     cdef int startpos = pos
  * 
  *     newitem = heap[pos]             # <<<<<<<<<<<<<<
@@ -4895,7 +5119,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   __pyx_v_newitem = (*((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":169
+  /* "queueing_tool/network/priority_queue.pyx":186
  * 
  *     newitem = heap[pos]
  *     mapitem = hmap[pos]             # <<<<<<<<<<<<<<
@@ -4905,7 +5129,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_1 = __pyx_v_pos;
   __pyx_v_mapitem = (*((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )));
 
-  /* "queueing_tool/network/priority_queue.pyx":171
+  /* "queueing_tool/network/priority_queue.pyx":188
  *     mapitem = hmap[pos]
  *     # Bubble up the smaller child until hitting a leaf.
  *     childpos = 2*pos + 1    # leftmost child position             # <<<<<<<<<<<<<<
@@ -4914,7 +5138,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
   __pyx_v_childpos = ((2 * __pyx_v_pos) + 1);
 
-  /* "queueing_tool/network/priority_queue.pyx":173
+  /* "queueing_tool/network/priority_queue.pyx":190
  *     childpos = 2*pos + 1    # leftmost child position
  * 
  *     while childpos < endpos:             # <<<<<<<<<<<<<<
@@ -4925,7 +5149,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_2 = ((__pyx_v_childpos < __pyx_v_endpos) != 0);
     if (!__pyx_t_2) break;
 
-    /* "queueing_tool/network/priority_queue.pyx":175
+    /* "queueing_tool/network/priority_queue.pyx":192
  *     while childpos < endpos:
  *         # Set childpos to index of smaller child.
  *         rightpos = childpos + 1             # <<<<<<<<<<<<<<
@@ -4934,7 +5158,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
     __pyx_v_rightpos = (__pyx_v_childpos + 1);
 
-    /* "queueing_tool/network/priority_queue.pyx":177
+    /* "queueing_tool/network/priority_queue.pyx":194
  *         rightpos = childpos + 1
  * 
  *         if rightpos < endpos and not heap[childpos] < heap[rightpos]:             # <<<<<<<<<<<<<<
@@ -4954,7 +5178,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_L6_bool_binop_done:;
     if (__pyx_t_2) {
 
-      /* "queueing_tool/network/priority_queue.pyx":178
+      /* "queueing_tool/network/priority_queue.pyx":195
  * 
  *         if rightpos < endpos and not heap[childpos] < heap[rightpos]:
  *             childpos = rightpos             # <<<<<<<<<<<<<<
@@ -4963,7 +5187,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
       __pyx_v_childpos = __pyx_v_rightpos;
 
-      /* "queueing_tool/network/priority_queue.pyx":177
+      /* "queueing_tool/network/priority_queue.pyx":194
  *         rightpos = childpos + 1
  * 
  *         if rightpos < endpos and not heap[childpos] < heap[rightpos]:             # <<<<<<<<<<<<<<
@@ -4972,7 +5196,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
     }
 
-    /* "queueing_tool/network/priority_queue.pyx":181
+    /* "queueing_tool/network/priority_queue.pyx":198
  * 
  *         # Move the smaller child up.
  *         heap[pos] = heap[childpos]             # <<<<<<<<<<<<<<
@@ -4983,7 +5207,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_1 = __pyx_v_pos;
     *((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_1 * __pyx_v_heap.strides[0]) )) = (*((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_4 * __pyx_v_heap.strides[0]) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":182
+    /* "queueing_tool/network/priority_queue.pyx":199
  *         # Move the smaller child up.
  *         heap[pos] = heap[childpos]
  *         hmap[pos] = hmap[childpos]             # <<<<<<<<<<<<<<
@@ -4994,7 +5218,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_t_1 = __pyx_v_pos;
     *((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_1 * __pyx_v_hmap.strides[0]) )) = (*((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_4 * __pyx_v_hmap.strides[0]) )));
 
-    /* "queueing_tool/network/priority_queue.pyx":183
+    /* "queueing_tool/network/priority_queue.pyx":200
  *         heap[pos] = heap[childpos]
  *         hmap[pos] = hmap[childpos]
  *         pos = childpos             # <<<<<<<<<<<<<<
@@ -5003,7 +5227,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
     __pyx_v_pos = __pyx_v_childpos;
 
-    /* "queueing_tool/network/priority_queue.pyx":184
+    /* "queueing_tool/network/priority_queue.pyx":201
  *         hmap[pos] = hmap[childpos]
  *         pos = childpos
  *         childpos = 2*pos + 1             # <<<<<<<<<<<<<<
@@ -5013,7 +5237,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
     __pyx_v_childpos = ((2 * __pyx_v_pos) + 1);
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":188
+  /* "queueing_tool/network/priority_queue.pyx":205
  *     # The leaf at pos is empty now.  Put newitem there, and bubble it up
  *     # to its final resting place (by sifting its parents down).
  *     heap[pos] = newitem             # <<<<<<<<<<<<<<
@@ -5023,7 +5247,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_4 = __pyx_v_pos;
   *((double *) ( /* dim=0 */ (__pyx_v_heap.data + __pyx_t_4 * __pyx_v_heap.strides[0]) )) = __pyx_v_newitem;
 
-  /* "queueing_tool/network/priority_queue.pyx":189
+  /* "queueing_tool/network/priority_queue.pyx":206
  *     # to its final resting place (by sifting its parents down).
  *     heap[pos] = newitem
  *     hmap[pos] = mapitem             # <<<<<<<<<<<<<<
@@ -5033,7 +5257,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   __pyx_t_4 = __pyx_v_pos;
   *((int *) ( /* dim=0 */ (__pyx_v_hmap.data + __pyx_t_4 * __pyx_v_hmap.strides[0]) )) = __pyx_v_mapitem;
 
-  /* "queueing_tool/network/priority_queue.pyx":190
+  /* "queueing_tool/network/priority_queue.pyx":207
  *     heap[pos] = newitem
  *     hmap[pos] = mapitem
  *     _siftdown(heap, hmap, startpos, pos)             # <<<<<<<<<<<<<<
@@ -5042,7 +5266,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
  */
   __pyx_f_13queueing_tool_7network_14priority_queue__siftdown(__pyx_v_heap, __pyx_v_hmap, __pyx_v_startpos, __pyx_v_pos);
 
-  /* "queueing_tool/network/priority_queue.pyx":163
+  /* "queueing_tool/network/priority_queue.pyx":180
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void _siftup(double[:] heap, int[:] hmap, int pos, int endpos) nogil:             # <<<<<<<<<<<<<<
@@ -5053,7 +5277,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue__sif
   /* function exit code */
 }
 
-/* "queueing_tool/network/priority_queue.pyx":196
+/* "queueing_tool/network/priority_queue.pyx":213
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void heapify(double[:] heap, int[:] hmap, int n) nogil:             # <<<<<<<<<<<<<<
@@ -5065,7 +5289,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue_heap
   int __pyx_v_i;
   int __pyx_t_1;
 
-  /* "queueing_tool/network/priority_queue.pyx":198
+  /* "queueing_tool/network/priority_queue.pyx":215
  * cdef inline void heapify(double[:] heap, int[:] hmap, int n) nogil:
  *     cdef int i
  *     for i in reversed(range(n//2)):             # <<<<<<<<<<<<<<
@@ -5074,7 +5298,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue_heap
   for (__pyx_t_1 = __Pyx_div_long(__pyx_v_n, 2)-1; __pyx_t_1 >= 0; __pyx_t_1-=1) {
     __pyx_v_i = __pyx_t_1;
 
-    /* "queueing_tool/network/priority_queue.pyx":199
+    /* "queueing_tool/network/priority_queue.pyx":216
  *     cdef int i
  *     for i in reversed(range(n//2)):
  *         _siftup(heap, hmap, i, n)             # <<<<<<<<<<<<<<
@@ -5082,7 +5306,7 @@ static CYTHON_INLINE void __pyx_f_13queueing_tool_7network_14priority_queue_heap
     __pyx_f_13queueing_tool_7network_14priority_queue__siftup(__pyx_v_heap, __pyx_v_hmap, __pyx_v_i, __pyx_v_n);
   }
 
-  /* "queueing_tool/network/priority_queue.pyx":196
+  /* "queueing_tool/network/priority_queue.pyx":213
  * @cython.wraparound(False)
  * @cython.nonecheck(False)
  * cdef inline void heapify(double[:] heap, int[:] hmap, int n) nogil:             # <<<<<<<<<<<<<<
@@ -5948,7 +6172,7 @@ static int __pyx_array___pyx_pf_15View_dot_MemoryView_5array___cinit__(struct __
  * 
  *         if itemsize <= 0:
  */
-    __pyx_t_3 = __Pyx_PyObject_Call(__pyx_builtin_ValueError, __pyx_tuple__3, NULL); if (unlikely(!__pyx_t_3)) __PYX_ERR(1, 134, __pyx_L1_error)
+    __pyx_t_3 = __Pyx_PyObject_Call(__pyx_builtin_ValueError, __pyx_tuple__4, NULL); if (unlikely(!__pyx_t_3)) __PYX_ERR(1, 134, __pyx_L1_error)
     __Pyx_GOTREF(__pyx_t_3);
     __Pyx_Raise(__pyx_t_3, 0, 0, 0);
     __Pyx_DECREF(__pyx_t_3); __pyx_t_3 = 0;
@@ -5980,7 +6204,7 @@ static int __pyx_array___pyx_pf_15View_dot_MemoryView_5array___cinit__(struct __
  * 
  *         if not isinstance(format, bytes):
  */
-    __pyx_t_3 = __Pyx_PyObject_Call(__pyx_builtin_ValueError, __pyx_tuple__4, NULL); if (unlikely(!__pyx_t_3)) __PYX_ERR(1, 137, __pyx_L1_error)
+    __pyx_t_3 = __Pyx_PyObject_Call(__pyx_builtin_ValueError, __pyx_tuple__5, NULL); if (unlikely(!__pyx_t_3)) __PYX_ERR(1, 137, __pyx_L1_error)
     __Pyx_GOTREF(__pyx_t_3);
     __Pyx_Raise(__pyx_t_3, 0, 0, 0);
     __Pyx_DECREF(__pyx_t_3); __pyx_t_3 = 0;
@@ -6107,7 +6331,7 @@ static int __pyx_array___pyx_pf_15View_dot_MemoryView_5array___cinit__(struct __
  * 
  * 
  */
-    __pyx_t_3 = __Pyx_PyObject_Call(__pyx_builtin_MemoryError, __pyx_tuple__5, NULL); if (unlikely(!__pyx_t_3)) __PYX_ERR(1, 149, __pyx_L1_error)
+    __pyx_t_3 = __Pyx_PyObject_Call(__pyx_builtin_MemoryError, __pyx_tuple__6, NULL); if (unlikely(!__pyx_t_3)) __PYX_ERR(1, 149, __pyx_L1_error)
     __Pyx_GOTREF(__pyx_t_3);
     __Pyx_Raise(__pyx_t_3, 0, 0, 0);
     __Pyx_DECREF(__pyx_t_3); __pyx_t_3 = 0;
@@ -6381,7 +6605,7 @@ static int __pyx_array___pyx_pf_15View_dot_MemoryView_5array___cinit__(struct __
  * 
  *             if self.dtype_is_object:
  */
-      __pyx_t_10 = __Pyx_PyObject_Call(__pyx_builtin_MemoryError, __pyx_tuple__6, NULL); if (unlikely(!__pyx_t_10)) __PYX_ERR(1, 177, __pyx_L1_error)
+      __pyx_t_10 = __Pyx_PyObject_Call(__pyx_builtin_MemoryError, __pyx_tuple__7, NULL); if (unlikely(!__pyx_t_10)) __PYX_ERR(1, 177, __pyx_L1_error)
       __Pyx_GOTREF(__pyx_t_10);
       __Pyx_Raise(__pyx_t_10, 0, 0, 0);
       __Pyx_DECREF(__pyx_t_10); __pyx_t_10 = 0;
@@ -6625,7 +6849,7 @@ static int __pyx_array___pyx_pf_15View_dot_MemoryView_5array_2__getbuffer__(stru
  *         info.buf = self.data
  *         info.len = self.len
  */
-    __pyx_t_3 = __Pyx_PyObject_Call(__pyx_builtin_ValueError, __pyx_tuple__7, NULL); if (unlikely(!__pyx_t_3)) __PYX_ERR(1, 193, __pyx_L1_error)
+    __pyx_t_3 = __Pyx_PyObject_Call(__pyx_builtin_ValueError, __pyx_tuple__8, NULL); if (unlikely(!__pyx_t_3)) __PYX_ERR(1, 193, __pyx_L1_error)
     __Pyx_GOTREF(__pyx_t_3);
     __Pyx_Raise(__pyx_t_3, 0, 0, 0);
     __Pyx_DECREF(__pyx_t_3); __pyx_t_3 = 0;
@@ -7359,7 +7583,7 @@ static PyObject *__pyx_pf___pyx_array___reduce_cython__(CYTHON_UNUSED struct __p
  * def __setstate_cython__(self, __pyx_state):
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")
  */
-  __pyx_t_1 = __Pyx_PyObject_Call(__pyx_builtin_TypeError, __pyx_tuple__8, NULL); if (unlikely(!__pyx_t_1)) __PYX_ERR(1, 2, __pyx_L1_error)
+  __pyx_t_1 = __Pyx_PyObject_Call(__pyx_builtin_TypeError, __pyx_tuple__9, NULL); if (unlikely(!__pyx_t_1)) __PYX_ERR(1, 2, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
   __Pyx_Raise(__pyx_t_1, 0, 0, 0);
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
@@ -7415,7 +7639,7 @@ static PyObject *__pyx_pf___pyx_array_2__setstate_cython__(CYTHON_UNUSED struct
  * def __setstate_cython__(self, __pyx_state):
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")             # <<<<<<<<<<<<<<
  */
-  __pyx_t_1 = __Pyx_PyObject_Call(__pyx_builtin_TypeError, __pyx_tuple__9, NULL); if (unlikely(!__pyx_t_1)) __PYX_ERR(1, 4, __pyx_L1_error)
+  __pyx_t_1 = __Pyx_PyObject_Call(__pyx_builtin_TypeError, __pyx_tuple__10, NULL); if (unlikely(!__pyx_t_1)) __PYX_ERR(1, 4, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
   __Pyx_Raise(__pyx_t_1, 0, 0, 0);
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
@@ -9144,7 +9368,7 @@ static int __pyx_memoryview___pyx_pf_15View_dot_MemoryView_10memoryview_6__setit
  * 
  *         have_slices, index = _unellipsify(index, self.view.ndim)
  */
-    __pyx_t_2 = __Pyx_PyObject_Call(__pyx_builtin_TypeError, __pyx_tuple__10, NULL); if (unlikely(!__pyx_t_2)) __PYX_ERR(1, 420, __pyx_L1_error)
+    __pyx_t_2 = __Pyx_PyObject_Call(__pyx_builtin_TypeError, __pyx_tuple__11, NULL); if (unlikely(!__pyx_t_2)) __PYX_ERR(1, 420, __pyx_L1_error)
     __Pyx_GOTREF(__pyx_t_2);
     __Pyx_Raise(__pyx_t_2, 0, 0, 0);
     __Pyx_DECREF(__pyx_t_2); __pyx_t_2 = 0;
@@ -10192,7 +10416,7 @@ static PyObject *__pyx_memoryview_convert_item_to_object(struct __pyx_memoryview
  *         else:
  *             if len(self.view.format) == 1:
  */
-      __pyx_t_6 = __Pyx_PyObject_Call(__pyx_builtin_ValueError, __pyx_tuple__11, NULL); if (unlikely(!__pyx_t_6)) __PYX_ERR(1, 497, __pyx_L5_except_error)
+      __pyx_t_6 = __Pyx_PyObject_Call(__pyx_builtin_ValueError, __pyx_tuple__12, NULL); if (unlikely(!__pyx_t_6)) __PYX_ERR(1, 497, __pyx_L5_except_error)
       __Pyx_GOTREF(__pyx_t_6);
       __Pyx_Raise(__pyx_t_6, 0, 0, 0);
       __Pyx_DECREF(__pyx_t_6); __pyx_t_6 = 0;
@@ -10554,7 +10778,7 @@ static int __pyx_memoryview___pyx_pf_15View_dot_MemoryView_10memoryview_8__getbu
  * 
  *         if flags & PyBUF_ND:
  */
-    __pyx_t_3 = __Pyx_PyObject_Call(__pyx_builtin_ValueError, __pyx_tuple__12, NULL); if (unlikely(!__pyx_t_3)) __PYX_ERR(1, 522, __pyx_L1_error)
+    __pyx_t_3 = __Pyx_PyObject_Call(__pyx_builtin_ValueError, __pyx_tuple__13, NULL); if (unlikely(!__pyx_t_3)) __PYX_ERR(1, 522, __pyx_L1_error)
     __Pyx_GOTREF(__pyx_t_3);
     __Pyx_Raise(__pyx_t_3, 0, 0, 0);
     __Pyx_DECREF(__pyx_t_3); __pyx_t_3 = 0;
@@ -11103,7 +11327,7 @@ static PyObject *__pyx_pf_15View_dot_MemoryView_10memoryview_7strides___get__(st
  * 
  *         return tuple([stride for stride in self.view.strides[:self.view.ndim]])
  */
-    __pyx_t_2 = __Pyx_PyObject_Call(__pyx_builtin_ValueError, __pyx_tuple__13, NULL); if (unlikely(!__pyx_t_2)) __PYX_ERR(1, 572, __pyx_L1_error)
+    __pyx_t_2 = __Pyx_PyObject_Call(__pyx_builtin_ValueError, __pyx_tuple__14, NULL); if (unlikely(!__pyx_t_2)) __PYX_ERR(1, 572, __pyx_L1_error)
     __Pyx_GOTREF(__pyx_t_2);
     __Pyx_Raise(__pyx_t_2, 0, 0, 0);
     __Pyx_DECREF(__pyx_t_2); __pyx_t_2 = 0;
@@ -11220,7 +11444,7 @@ static PyObject *__pyx_pf_15View_dot_MemoryView_10memoryview_10suboffsets___get_
     __Pyx_XDECREF(__pyx_r);
     __pyx_t_2 = __Pyx_PyInt_From_int(__pyx_v_self->view.ndim); if (unlikely(!__pyx_t_2)) __PYX_ERR(1, 579, __pyx_L1_error)
     __Pyx_GOTREF(__pyx_t_2);
-    __pyx_t_3 = PyNumber_Multiply(__pyx_tuple__14, __pyx_t_2); if (unlikely(!__pyx_t_3)) __PYX_ERR(1, 579, __pyx_L1_error)
+    __pyx_t_3 = PyNumber_Multiply(__pyx_tuple__15, __pyx_t_2); if (unlikely(!__pyx_t_3)) __PYX_ERR(1, 579, __pyx_L1_error)
     __Pyx_GOTREF(__pyx_t_3);
     __Pyx_DECREF(__pyx_t_2); __pyx_t_2 = 0;
     __pyx_r = __pyx_t_3;
@@ -12258,7 +12482,7 @@ static PyObject *__pyx_pf___pyx_memoryview___reduce_cython__(CYTHON_UNUSED struc
  * def __setstate_cython__(self, __pyx_state):
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")
  */
-  __pyx_t_1 = __Pyx_PyObject_Call(__pyx_builtin_TypeError, __pyx_tuple__15, NULL); if (unlikely(!__pyx_t_1)) __PYX_ERR(1, 2, __pyx_L1_error)
+  __pyx_t_1 = __Pyx_PyObject_Call(__pyx_builtin_TypeError, __pyx_tuple__16, NULL); if (unlikely(!__pyx_t_1)) __PYX_ERR(1, 2, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
   __Pyx_Raise(__pyx_t_1, 0, 0, 0);
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
@@ -12314,7 +12538,7 @@ static PyObject *__pyx_pf___pyx_memoryview_2__setstate_cython__(CYTHON_UNUSED st
  * def __setstate_cython__(self, __pyx_state):
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")             # <<<<<<<<<<<<<<
  */
-  __pyx_t_1 = __Pyx_PyObject_Call(__pyx_builtin_TypeError, __pyx_tuple__16, NULL); if (unlikely(!__pyx_t_1)) __PYX_ERR(1, 4, __pyx_L1_error)
+  __pyx_t_1 = __Pyx_PyObject_Call(__pyx_builtin_TypeError, __pyx_tuple__17, NULL); if (unlikely(!__pyx_t_1)) __PYX_ERR(1, 4, __pyx_L1_error)
   __Pyx_GOTREF(__pyx_t_1);
   __Pyx_Raise(__pyx_t_1, 0, 0, 0);
   __Pyx_DECREF(__pyx_t_1); __pyx_t_1 = 0;
@@ -12671,9 +12895,9 @@ static PyObject *_unellipsify(PyObject *__pyx_v_index, int __pyx_v_ndim) {
         __Pyx_GOTREF(__pyx_t_7);
         { Py_ssize_t __pyx_temp;
           for (__pyx_temp=0; __pyx_temp < ((__pyx_v_ndim - __pyx_t_8) + 1); __pyx_temp++) {
-            __Pyx_INCREF(__pyx_slice__17);
-            __Pyx_GIVEREF(__pyx_slice__17);
-            PyList_SET_ITEM(__pyx_t_7, __pyx_temp, __pyx_slice__17);
+            __Pyx_INCREF(__pyx_slice_);
+            __Pyx_GIVEREF(__pyx_slice_);
+            PyList_SET_ITEM(__pyx_t_7, __pyx_temp, __pyx_slice_);
           }
         }
         __pyx_t_9 = __Pyx_PyList_Extend(__pyx_v_result, __pyx_t_7); if (unlikely(__pyx_t_9 == ((int)-1))) __PYX_ERR(1, 684, __pyx_L1_error)
@@ -12706,7 +12930,7 @@ static PyObject *_unellipsify(PyObject *__pyx_v_index, int __pyx_v_ndim) {
  *         else:
  */
       /*else*/ {
-        __pyx_t_9 = __Pyx_PyList_Append(__pyx_v_result, __pyx_slice__17); if (unlikely(__pyx_t_9 == ((int)-1))) __PYX_ERR(1, 687, __pyx_L1_error)
+        __pyx_t_9 = __Pyx_PyList_Append(__pyx_v_result, __pyx_slice_); if (unlikely(__pyx_t_9 == ((int)-1))) __PYX_ERR(1, 687, __pyx_L1_error)
       }
       __pyx_L7:;
 
@@ -12846,9 +13070,9 @@ static PyObject *_unellipsify(PyObject *__pyx_v_index, int __pyx_v_ndim) {
     __Pyx_GOTREF(__pyx_t_3);
     { Py_ssize_t __pyx_temp;
       for (__pyx_temp=0; __pyx_temp < __pyx_v_nslices; __pyx_temp++) {
-        __Pyx_INCREF(__pyx_slice__17);
-        __Pyx_GIVEREF(__pyx_slice__17);
-        PyList_SET_ITEM(__pyx_t_3, __pyx_temp, __pyx_slice__17);
+        __Pyx_INCREF(__pyx_slice_);
+        __Pyx_GIVEREF(__pyx_slice_);
+        PyList_SET_ITEM(__pyx_t_3, __pyx_temp, __pyx_slice_);
       }
     }
     __pyx_t_9 = __Pyx_PyList_Extend(__pyx_v_result, __pyx_t_3); if (unlikely(__pyx_t_9 == ((int)-1))) __PYX_ERR(1, 698, __pyx_L1_error)
@@ -18934,11 +19158,12 @@ static int __pyx_setprop_13queueing_tool_7network_14priority_queue_13PriorityQue
 }
 
 static PyMethodDef __pyx_methods_13queueing_tool_7network_14priority_queue_PriorityQueue[] = {
-  {"q_map", (PyCFunction)__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_5q_map, METH_NOARGS, 0},
-  {"pop", (PyCFunction)__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_7pop, METH_NOARGS, 0},
-  {"push", (PyCFunction)(void*)(PyCFunctionWithKeywords)__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_9push, METH_VARARGS|METH_KEYWORDS, 0},
-  {"__reduce_cython__", (PyCFunction)__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_11__reduce_cython__, METH_NOARGS, 0},
-  {"__setstate_cython__", (PyCFunction)__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_13__setstate_cython__, METH_O, 0},
+  {"__deepcopy__", (PyCFunction)__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_5__deepcopy__, METH_O, 0},
+  {"q_map", (PyCFunction)__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_7q_map, METH_NOARGS, 0},
+  {"pop", (PyCFunction)__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_9pop, METH_NOARGS, 0},
+  {"push", (PyCFunction)(void*)(PyCFunctionWithKeywords)__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_11push, METH_VARARGS|METH_KEYWORDS, 0},
+  {"__reduce_cython__", (PyCFunction)__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_13__reduce_cython__, METH_NOARGS, 0},
+  {"__setstate_cython__", (PyCFunction)__pyx_pw_13queueing_tool_7network_14priority_queue_13PriorityQueue_15__setstate_cython__, METH_O, 0},
   {0, 0, 0, 0}
 };
 
@@ -19872,6 +20097,7 @@ static __Pyx_StringTabEntry __pyx_string_tab[] = {
   {&__pyx_n_s_pyx_type, __pyx_k_pyx_type, sizeof(__pyx_k_pyx_type), 0, 0, 1, 1},
   {&__pyx_n_s_pyx_unpickle_Enum, __pyx_k_pyx_unpickle_Enum, sizeof(__pyx_k_pyx_unpickle_Enum), 0, 0, 1, 1},
   {&__pyx_n_s_pyx_vtable, __pyx_k_pyx_vtable, sizeof(__pyx_k_pyx_vtable), 0, 0, 1, 1},
+  {&__pyx_n_s_q_map, __pyx_k_q_map, sizeof(__pyx_k_q_map), 0, 0, 1, 1},
   {&__pyx_n_s_range, __pyx_k_range, sizeof(__pyx_k_range), 0, 0, 1, 1},
   {&__pyx_n_s_reduce, __pyx_k_reduce, sizeof(__pyx_k_reduce), 0, 0, 1, 1},
   {&__pyx_n_s_reduce_cython, __pyx_k_reduce_cython, sizeof(__pyx_k_reduce_cython), 0, 0, 1, 1},
@@ -19900,7 +20126,7 @@ static __Pyx_StringTabEntry __pyx_string_tab[] = {
 static CYTHON_SMALL_CODE int __Pyx_InitCachedBuiltins(void) {
   __pyx_builtin_range = __Pyx_GetBuiltinName(__pyx_n_s_range); if (!__pyx_builtin_range) __PYX_ERR(0, 37, __pyx_L1_error)
   __pyx_builtin_TypeError = __Pyx_GetBuiltinName(__pyx_n_s_TypeError); if (!__pyx_builtin_TypeError) __PYX_ERR(1, 2, __pyx_L1_error)
-  __pyx_builtin_reversed = __Pyx_GetBuiltinName(__pyx_n_s_reversed); if (!__pyx_builtin_reversed) __PYX_ERR(0, 198, __pyx_L1_error)
+  __pyx_builtin_reversed = __Pyx_GetBuiltinName(__pyx_n_s_reversed); if (!__pyx_builtin_reversed) __PYX_ERR(0, 215, __pyx_L1_error)
   __pyx_builtin_MemoryError = __Pyx_GetBuiltinName(__pyx_n_s_MemoryError); if (!__pyx_builtin_MemoryError) __PYX_ERR(2, 109, __pyx_L1_error)
   __pyx_builtin_ValueError = __Pyx_GetBuiltinName(__pyx_n_s_ValueError); if (!__pyx_builtin_ValueError) __PYX_ERR(1, 134, __pyx_L1_error)
   __pyx_builtin_enumerate = __Pyx_GetBuiltinName(__pyx_n_s_enumerate); if (!__pyx_builtin_enumerate) __PYX_ERR(1, 152, __pyx_L1_error)
@@ -19916,24 +20142,35 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
   __Pyx_RefNannyDeclarations
   __Pyx_RefNannySetupContext("__Pyx_InitCachedConstants", 0);
 
+  /* "queueing_tool/network/priority_queue.pyx":45
+ *         cdef PriorityQueue new = PriorityQueue()
+ * 
+ *         new.array_times = self.array_times[:]             # <<<<<<<<<<<<<<
+ *         new.array_edges = self.array_edges[:]
+ * 
+ */
+  __pyx_slice_ = PySlice_New(Py_None, Py_None, Py_None); if (unlikely(!__pyx_slice_)) __PYX_ERR(0, 45, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_slice_);
+  __Pyx_GIVEREF(__pyx_slice_);
+
   /* "(tree fragment)":2
  * def __reduce_cython__(self):
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")             # <<<<<<<<<<<<<<
  * def __setstate_cython__(self, __pyx_state):
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")
  */
-  __pyx_tuple_ = PyTuple_Pack(1, __pyx_kp_s_no_default___reduce___due_to_non); if (unlikely(!__pyx_tuple_)) __PYX_ERR(1, 2, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple_);
-  __Pyx_GIVEREF(__pyx_tuple_);
+  __pyx_tuple__2 = PyTuple_Pack(1, __pyx_kp_s_no_default___reduce___due_to_non); if (unlikely(!__pyx_tuple__2)) __PYX_ERR(1, 2, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__2);
+  __Pyx_GIVEREF(__pyx_tuple__2);
 
   /* "(tree fragment)":4
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")
  * def __setstate_cython__(self, __pyx_state):
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")             # <<<<<<<<<<<<<<
  */
-  __pyx_tuple__2 = PyTuple_Pack(1, __pyx_kp_s_no_default___reduce___due_to_non); if (unlikely(!__pyx_tuple__2)) __PYX_ERR(1, 4, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple__2);
-  __Pyx_GIVEREF(__pyx_tuple__2);
+  __pyx_tuple__3 = PyTuple_Pack(1, __pyx_kp_s_no_default___reduce___due_to_non); if (unlikely(!__pyx_tuple__3)) __PYX_ERR(1, 4, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__3);
+  __Pyx_GIVEREF(__pyx_tuple__3);
 
   /* "View.MemoryView":134
  * 
@@ -19942,9 +20179,9 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
  * 
  *         if itemsize <= 0:
  */
-  __pyx_tuple__3 = PyTuple_Pack(1, __pyx_kp_s_Empty_shape_tuple_for_cython_arr); if (unlikely(!__pyx_tuple__3)) __PYX_ERR(1, 134, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple__3);
-  __Pyx_GIVEREF(__pyx_tuple__3);
+  __pyx_tuple__4 = PyTuple_Pack(1, __pyx_kp_s_Empty_shape_tuple_for_cython_arr); if (unlikely(!__pyx_tuple__4)) __PYX_ERR(1, 134, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__4);
+  __Pyx_GIVEREF(__pyx_tuple__4);
 
   /* "View.MemoryView":137
  * 
@@ -19953,9 +20190,9 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
  * 
  *         if not isinstance(format, bytes):
  */
-  __pyx_tuple__4 = PyTuple_Pack(1, __pyx_kp_s_itemsize_0_for_cython_array); if (unlikely(!__pyx_tuple__4)) __PYX_ERR(1, 137, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple__4);
-  __Pyx_GIVEREF(__pyx_tuple__4);
+  __pyx_tuple__5 = PyTuple_Pack(1, __pyx_kp_s_itemsize_0_for_cython_array); if (unlikely(!__pyx_tuple__5)) __PYX_ERR(1, 137, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__5);
+  __Pyx_GIVEREF(__pyx_tuple__5);
 
   /* "View.MemoryView":149
  * 
@@ -19964,9 +20201,9 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
  * 
  * 
  */
-  __pyx_tuple__5 = PyTuple_Pack(1, __pyx_kp_s_unable_to_allocate_shape_and_str); if (unlikely(!__pyx_tuple__5)) __PYX_ERR(1, 149, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple__5);
-  __Pyx_GIVEREF(__pyx_tuple__5);
+  __pyx_tuple__6 = PyTuple_Pack(1, __pyx_kp_s_unable_to_allocate_shape_and_str); if (unlikely(!__pyx_tuple__6)) __PYX_ERR(1, 149, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__6);
+  __Pyx_GIVEREF(__pyx_tuple__6);
 
   /* "View.MemoryView":177
  *             self.data = <char *>malloc(self.len)
@@ -19975,9 +20212,9 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
  * 
  *             if self.dtype_is_object:
  */
-  __pyx_tuple__6 = PyTuple_Pack(1, __pyx_kp_s_unable_to_allocate_array_data); if (unlikely(!__pyx_tuple__6)) __PYX_ERR(1, 177, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple__6);
-  __Pyx_GIVEREF(__pyx_tuple__6);
+  __pyx_tuple__7 = PyTuple_Pack(1, __pyx_kp_s_unable_to_allocate_array_data); if (unlikely(!__pyx_tuple__7)) __PYX_ERR(1, 177, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__7);
+  __Pyx_GIVEREF(__pyx_tuple__7);
 
   /* "View.MemoryView":193
  *             bufmode = PyBUF_F_CONTIGUOUS | PyBUF_ANY_CONTIGUOUS
@@ -19986,9 +20223,9 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
  *         info.buf = self.data
  *         info.len = self.len
  */
-  __pyx_tuple__7 = PyTuple_Pack(1, __pyx_kp_s_Can_only_create_a_buffer_that_is); if (unlikely(!__pyx_tuple__7)) __PYX_ERR(1, 193, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple__7);
-  __Pyx_GIVEREF(__pyx_tuple__7);
+  __pyx_tuple__8 = PyTuple_Pack(1, __pyx_kp_s_Can_only_create_a_buffer_that_is); if (unlikely(!__pyx_tuple__8)) __PYX_ERR(1, 193, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__8);
+  __Pyx_GIVEREF(__pyx_tuple__8);
 
   /* "(tree fragment)":2
  * def __reduce_cython__(self):
@@ -19996,18 +20233,18 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
  * def __setstate_cython__(self, __pyx_state):
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")
  */
-  __pyx_tuple__8 = PyTuple_Pack(1, __pyx_kp_s_no_default___reduce___due_to_non); if (unlikely(!__pyx_tuple__8)) __PYX_ERR(1, 2, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple__8);
-  __Pyx_GIVEREF(__pyx_tuple__8);
+  __pyx_tuple__9 = PyTuple_Pack(1, __pyx_kp_s_no_default___reduce___due_to_non); if (unlikely(!__pyx_tuple__9)) __PYX_ERR(1, 2, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__9);
+  __Pyx_GIVEREF(__pyx_tuple__9);
 
   /* "(tree fragment)":4
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")
  * def __setstate_cython__(self, __pyx_state):
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")             # <<<<<<<<<<<<<<
  */
-  __pyx_tuple__9 = PyTuple_Pack(1, __pyx_kp_s_no_default___reduce___due_to_non); if (unlikely(!__pyx_tuple__9)) __PYX_ERR(1, 4, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple__9);
-  __Pyx_GIVEREF(__pyx_tuple__9);
+  __pyx_tuple__10 = PyTuple_Pack(1, __pyx_kp_s_no_default___reduce___due_to_non); if (unlikely(!__pyx_tuple__10)) __PYX_ERR(1, 4, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__10);
+  __Pyx_GIVEREF(__pyx_tuple__10);
 
   /* "View.MemoryView":420
  *     def __setitem__(memoryview self, object index, object value):
@@ -20016,9 +20253,9 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
  * 
  *         have_slices, index = _unellipsify(index, self.view.ndim)
  */
-  __pyx_tuple__10 = PyTuple_Pack(1, __pyx_kp_s_Cannot_assign_to_read_only_memor); if (unlikely(!__pyx_tuple__10)) __PYX_ERR(1, 420, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple__10);
-  __Pyx_GIVEREF(__pyx_tuple__10);
+  __pyx_tuple__11 = PyTuple_Pack(1, __pyx_kp_s_Cannot_assign_to_read_only_memor); if (unlikely(!__pyx_tuple__11)) __PYX_ERR(1, 420, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__11);
+  __Pyx_GIVEREF(__pyx_tuple__11);
 
   /* "View.MemoryView":497
  *             result = struct.unpack(self.view.format, bytesitem)
@@ -20027,9 +20264,9 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
  *         else:
  *             if len(self.view.format) == 1:
  */
-  __pyx_tuple__11 = PyTuple_Pack(1, __pyx_kp_s_Unable_to_convert_item_to_object); if (unlikely(!__pyx_tuple__11)) __PYX_ERR(1, 497, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple__11);
-  __Pyx_GIVEREF(__pyx_tuple__11);
+  __pyx_tuple__12 = PyTuple_Pack(1, __pyx_kp_s_Unable_to_convert_item_to_object); if (unlikely(!__pyx_tuple__12)) __PYX_ERR(1, 497, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__12);
+  __Pyx_GIVEREF(__pyx_tuple__12);
 
   /* "View.MemoryView":522
  *     def __getbuffer__(self, Py_buffer *info, int flags):
@@ -20038,9 +20275,9 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
  * 
  *         if flags & PyBUF_ND:
  */
-  __pyx_tuple__12 = PyTuple_Pack(1, __pyx_kp_s_Cannot_create_writable_memory_vi); if (unlikely(!__pyx_tuple__12)) __PYX_ERR(1, 522, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple__12);
-  __Pyx_GIVEREF(__pyx_tuple__12);
+  __pyx_tuple__13 = PyTuple_Pack(1, __pyx_kp_s_Cannot_create_writable_memory_vi); if (unlikely(!__pyx_tuple__13)) __PYX_ERR(1, 522, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__13);
+  __Pyx_GIVEREF(__pyx_tuple__13);
 
   /* "View.MemoryView":572
  *         if self.view.strides == NULL:
@@ -20049,9 +20286,9 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
  * 
  *         return tuple([stride for stride in self.view.strides[:self.view.ndim]])
  */
-  __pyx_tuple__13 = PyTuple_Pack(1, __pyx_kp_s_Buffer_view_does_not_expose_stri); if (unlikely(!__pyx_tuple__13)) __PYX_ERR(1, 572, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple__13);
-  __Pyx_GIVEREF(__pyx_tuple__13);
+  __pyx_tuple__14 = PyTuple_Pack(1, __pyx_kp_s_Buffer_view_does_not_expose_stri); if (unlikely(!__pyx_tuple__14)) __PYX_ERR(1, 572, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__14);
+  __Pyx_GIVEREF(__pyx_tuple__14);
 
   /* "View.MemoryView":579
  *     def suboffsets(self):
@@ -20060,12 +20297,12 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
  * 
  *         return tuple([suboffset for suboffset in self.view.suboffsets[:self.view.ndim]])
  */
-  __pyx_tuple__14 = PyTuple_New(1); if (unlikely(!__pyx_tuple__14)) __PYX_ERR(1, 579, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple__14);
+  __pyx_tuple__15 = PyTuple_New(1); if (unlikely(!__pyx_tuple__15)) __PYX_ERR(1, 579, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__15);
   __Pyx_INCREF(__pyx_int_neg_1);
   __Pyx_GIVEREF(__pyx_int_neg_1);
-  PyTuple_SET_ITEM(__pyx_tuple__14, 0, __pyx_int_neg_1);
-  __Pyx_GIVEREF(__pyx_tuple__14);
+  PyTuple_SET_ITEM(__pyx_tuple__15, 0, __pyx_int_neg_1);
+  __Pyx_GIVEREF(__pyx_tuple__15);
 
   /* "(tree fragment)":2
  * def __reduce_cython__(self):
@@ -20073,29 +20310,18 @@ static CYTHON_SMALL_CODE int __Pyx_InitCachedConstants(void) {
  * def __setstate_cython__(self, __pyx_state):
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")
  */
-  __pyx_tuple__15 = PyTuple_Pack(1, __pyx_kp_s_no_default___reduce___due_to_non); if (unlikely(!__pyx_tuple__15)) __PYX_ERR(1, 2, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple__15);
-  __Pyx_GIVEREF(__pyx_tuple__15);
+  __pyx_tuple__16 = PyTuple_Pack(1, __pyx_kp_s_no_default___reduce___due_to_non); if (unlikely(!__pyx_tuple__16)) __PYX_ERR(1, 2, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__16);
+  __Pyx_GIVEREF(__pyx_tuple__16);
 
   /* "(tree fragment)":4
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")
  * def __setstate_cython__(self, __pyx_state):
  *     raise TypeError("no default __reduce__ due to non-trivial __cinit__")             # <<<<<<<<<<<<<<
  */
-  __pyx_tuple__16 = PyTuple_Pack(1, __pyx_kp_s_no_default___reduce___due_to_non); if (unlikely(!__pyx_tuple__16)) __PYX_ERR(1, 4, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_tuple__16);
-  __Pyx_GIVEREF(__pyx_tuple__16);
-
-  /* "View.MemoryView":684
- *         if item is Ellipsis:
- *             if not seen_ellipsis:
- *                 result.extend([slice(None)] * (ndim - len(tup) + 1))             # <<<<<<<<<<<<<<
- *                 seen_ellipsis = True
- *             else:
- */
-  __pyx_slice__17 = PySlice_New(Py_None, Py_None, Py_None); if (unlikely(!__pyx_slice__17)) __PYX_ERR(1, 684, __pyx_L1_error)
-  __Pyx_GOTREF(__pyx_slice__17);
-  __Pyx_GIVEREF(__pyx_slice__17);
+  __pyx_tuple__17 = PyTuple_Pack(1, __pyx_kp_s_no_default___reduce___due_to_non); if (unlikely(!__pyx_tuple__17)) __PYX_ERR(1, 4, __pyx_L1_error)
+  __Pyx_GOTREF(__pyx_tuple__17);
+  __Pyx_GIVEREF(__pyx_tuple__17);
 
   /* "View.MemoryView":705
  *     for suboffset in suboffsets[:ndim]:
@@ -21221,6 +21447,167 @@ static void __Pyx_RaiseBufferIndexError(int axis) {
      "Out of bounds on buffer access (axis %d)", axis);
 }
 
+/* PyFunctionFastCall */
+#if CYTHON_FAST_PYCALL
+static PyObject* __Pyx_PyFunction_FastCallNoKw(PyCodeObject *co, PyObject **args, Py_ssize_t na,
+                                               PyObject *globals) {
+    PyFrameObject *f;
+    PyThreadState *tstate = __Pyx_PyThreadState_Current;
+    PyObject **fastlocals;
+    Py_ssize_t i;
+    PyObject *result;
+    assert(globals != NULL);
+    /* XXX Perhaps we should create a specialized
+       PyFrame_New() that doesn't take locals, but does
+       take builtins without sanity checking them.
+       */
+    assert(tstate != NULL);
+    f = PyFrame_New(tstate, co, globals, NULL);
+    if (f == NULL) {
+        return NULL;
+    }
+    fastlocals = __Pyx_PyFrame_GetLocalsplus(f);
+    for (i = 0; i < na; i++) {
+        Py_INCREF(*args);
+        fastlocals[i] = *args++;
+    }
+    result = PyEval_EvalFrameEx(f,0);
+    ++tstate->recursion_depth;
+    Py_DECREF(f);
+    --tstate->recursion_depth;
+    return result;
+}
+#if 1 || PY_VERSION_HEX < 0x030600B1
+static PyObject *__Pyx_PyFunction_FastCallDict(PyObject *func, PyObject **args, Py_ssize_t nargs, PyObject *kwargs) {
+    PyCodeObject *co = (PyCodeObject *)PyFunction_GET_CODE(func);
+    PyObject *globals = PyFunction_GET_GLOBALS(func);
+    PyObject *argdefs = PyFunction_GET_DEFAULTS(func);
+    PyObject *closure;
+#if PY_MAJOR_VERSION >= 3
+    PyObject *kwdefs;
+#endif
+    PyObject *kwtuple, **k;
+    PyObject **d;
+    Py_ssize_t nd;
+    Py_ssize_t nk;
+    PyObject *result;
+    assert(kwargs == NULL || PyDict_Check(kwargs));
+    nk = kwargs ? PyDict_Size(kwargs) : 0;
+    if (Py_EnterRecursiveCall((char*)" while calling a Python object")) {
+        return NULL;
+    }
+    if (
+#if PY_MAJOR_VERSION >= 3
+            co->co_kwonlyargcount == 0 &&
+#endif
+            likely(kwargs == NULL || nk == 0) &&
+            co->co_flags == (CO_OPTIMIZED | CO_NEWLOCALS | CO_NOFREE)) {
+        if (argdefs == NULL && co->co_argcount == nargs) {
+            result = __Pyx_PyFunction_FastCallNoKw(co, args, nargs, globals);
+            goto done;
+        }
+        else if (nargs == 0 && argdefs != NULL
+                 && co->co_argcount == Py_SIZE(argdefs)) {
+            /* function called with no arguments, but all parameters have
+               a default value: use default values as arguments .*/
+            args = &PyTuple_GET_ITEM(argdefs, 0);
+            result =__Pyx_PyFunction_FastCallNoKw(co, args, Py_SIZE(argdefs), globals);
+            goto done;
+        }
+    }
+    if (kwargs != NULL) {
+        Py_ssize_t pos, i;
+        kwtuple = PyTuple_New(2 * nk);
+        if (kwtuple == NULL) {
+            result = NULL;
+            goto done;
+        }
+        k = &PyTuple_GET_ITEM(kwtuple, 0);
+        pos = i = 0;
+        while (PyDict_Next(kwargs, &pos, &k[i], &k[i+1])) {
+            Py_INCREF(k[i]);
+            Py_INCREF(k[i+1]);
+            i += 2;
+        }
+        nk = i / 2;
+    }
+    else {
+        kwtuple = NULL;
+        k = NULL;
+    }
+    closure = PyFunction_GET_CLOSURE(func);
+#if PY_MAJOR_VERSION >= 3
+    kwdefs = PyFunction_GET_KW_DEFAULTS(func);
+#endif
+    if (argdefs != NULL) {
+        d = &PyTuple_GET_ITEM(argdefs, 0);
+        nd = Py_SIZE(argdefs);
+    }
+    else {
+        d = NULL;
+        nd = 0;
+    }
+#if PY_MAJOR_VERSION >= 3
+    result = PyEval_EvalCodeEx((PyObject*)co, globals, (PyObject *)NULL,
+                               args, (int)nargs,
+                               k, (int)nk,
+                               d, (int)nd, kwdefs, closure);
+#else
+    result = PyEval_EvalCodeEx(co, globals, (PyObject *)NULL,
+                               args, (int)nargs,
+                               k, (int)nk,
+                               d, (int)nd, closure);
+#endif
+    Py_XDECREF(kwtuple);
+done:
+    Py_LeaveRecursiveCall();
+    return result;
+}
+#endif
+#endif
+
+/* PyObjectCallMethO */
+#if CYTHON_COMPILING_IN_CPYTHON
+static CYTHON_INLINE PyObject* __Pyx_PyObject_CallMethO(PyObject *func, PyObject *arg) {
+    PyObject *self, *result;
+    PyCFunction cfunc;
+    cfunc = PyCFunction_GET_FUNCTION(func);
+    self = PyCFunction_GET_SELF(func);
+    if (unlikely(Py_EnterRecursiveCall((char*)" while calling a Python object")))
+        return NULL;
+    result = cfunc(self, arg);
+    Py_LeaveRecursiveCall();
+    if (unlikely(!result) && unlikely(!PyErr_Occurred())) {
+        PyErr_SetString(
+            PyExc_SystemError,
+            "NULL result without error in PyObject_Call");
+    }
+    return result;
+}
+#endif
+
+/* PyObjectCallNoArg */
+#if CYTHON_COMPILING_IN_CPYTHON
+static CYTHON_INLINE PyObject* __Pyx_PyObject_CallNoArg(PyObject *func) {
+#if CYTHON_FAST_PYCALL
+    if (PyFunction_Check(func)) {
+        return __Pyx_PyFunction_FastCall(func, NULL, 0);
+    }
+#endif
+#if defined(__Pyx_CyFunction_USED) && defined(NDEBUG)
+    if (likely(PyCFunction_Check(func) || __Pyx_CyFunction_Check(func)))
+#else
+    if (likely(PyCFunction_Check(func)))
+#endif
+    {
+        if (likely(PyCFunction_GET_FLAGS(func) & METH_NOARGS)) {
+            return __Pyx_PyObject_CallMethO(func, NULL);
+        }
+    }
+    return __Pyx_PyObject_Call(func, __pyx_empty_tuple, NULL);
+}
+#endif
+
 /* SliceObject */
 static CYTHON_INLINE PyObject* __Pyx_PyObject_GetSlice(PyObject* obj,
         Py_ssize_t cstart, Py_ssize_t cstop,
@@ -21318,6 +21705,82 @@ bad:
     return NULL;
 }
 
+/* ExtTypeTest */
+static CYTHON_INLINE int __Pyx_TypeTest(PyObject *obj, PyTypeObject *type) {
+    if (unlikely(!type)) {
+        PyErr_SetString(PyExc_SystemError, "Missing type object");
+        return 0;
+    }
+    if (likely(__Pyx_TypeCheck(obj, type)))
+        return 1;
+    PyErr_Format(PyExc_TypeError, "Cannot convert %.200s to %.200s",
+                 Py_TYPE(obj)->tp_name, type->tp_name);
+    return 0;
+}
+
+/* PyCFunctionFastCall */
+#if CYTHON_FAST_PYCCALL
+static CYTHON_INLINE PyObject * __Pyx_PyCFunction_FastCall(PyObject *func_obj, PyObject **args, Py_ssize_t nargs) {
+    PyCFunctionObject *func = (PyCFunctionObject*)func_obj;
+    PyCFunction meth = PyCFunction_GET_FUNCTION(func);
+    PyObject *self = PyCFunction_GET_SELF(func);
+    int flags = PyCFunction_GET_FLAGS(func);
+    assert(PyCFunction_Check(func));
+    assert(METH_FASTCALL == (flags & ~(METH_CLASS | METH_STATIC | METH_COEXIST | METH_KEYWORDS | METH_STACKLESS)));
+    assert(nargs >= 0);
+    assert(nargs == 0 || args != NULL);
+    /* _PyCFunction_FastCallDict() must not be called with an exception set,
+       because it may clear it (directly or indirectly) and so the
+       caller loses its exception */
+    assert(!PyErr_Occurred());
+    if ((PY_VERSION_HEX < 0x030700A0) || unlikely(flags & METH_KEYWORDS)) {
+        return (*((__Pyx_PyCFunctionFastWithKeywords)(void*)meth)) (self, args, nargs, NULL);
+    } else {
+        return (*((__Pyx_PyCFunctionFast)(void*)meth)) (self, args, nargs);
+    }
+}
+#endif
+
+/* PyObjectCallOneArg */
+#if CYTHON_COMPILING_IN_CPYTHON
+static PyObject* __Pyx__PyObject_CallOneArg(PyObject *func, PyObject *arg) {
+    PyObject *result;
+    PyObject *args = PyTuple_New(1);
+    if (unlikely(!args)) return NULL;
+    Py_INCREF(arg);
+    PyTuple_SET_ITEM(args, 0, arg);
+    result = __Pyx_PyObject_Call(func, args, NULL);
+    Py_DECREF(args);
+    return result;
+}
+static CYTHON_INLINE PyObject* __Pyx_PyObject_CallOneArg(PyObject *func, PyObject *arg) {
+#if CYTHON_FAST_PYCALL
+    if (PyFunction_Check(func)) {
+        return __Pyx_PyFunction_FastCall(func, &arg, 1);
+    }
+#endif
+    if (likely(PyCFunction_Check(func))) {
+        if (likely(PyCFunction_GET_FLAGS(func) & METH_O)) {
+            return __Pyx_PyObject_CallMethO(func, arg);
+#if CYTHON_FAST_PYCCALL
+        } else if (__Pyx_PyFastCFunction_Check(func)) {
+            return __Pyx_PyCFunction_FastCall(func, &arg, 1);
+#endif
+        }
+    }
+    return __Pyx__PyObject_CallOneArg(func, arg);
+}
+#else
+static CYTHON_INLINE PyObject* __Pyx_PyObject_CallOneArg(PyObject *func, PyObject *arg) {
+    PyObject *result;
+    PyObject *args = PyTuple_Pack(1, arg);
+    if (unlikely(!args)) return NULL;
+    result = __Pyx_PyObject_Call(func, args, NULL);
+    Py_DECREF(args);
+    return result;
+}
+#endif
+
 /* pyobject_as_double */
 static double __Pyx__PyObject_AsDouble(PyObject* obj) {
     PyObject* float_value;
@@ -21422,19 +21885,6 @@ static void __Pyx_WriteUnraisable(const char *name, CYTHON_UNUSED int clineno,
 #endif
 }
 
-/* ExtTypeTest */
-static CYTHON_INLINE int __Pyx_TypeTest(PyObject *obj, PyTypeObject *type) {
-    if (unlikely(!type)) {
-        PyErr_SetString(PyExc_SystemError, "Missing type object");
-        return 0;
-    }
-    if (likely(__Pyx_TypeCheck(obj, type)))
-        return 1;
-    PyErr_Format(PyExc_TypeError, "Cannot convert %.200s to %.200s",
-                 Py_TYPE(obj)->tp_name, type->tp_name);
-    return 0;
-}
-
 /* RaiseException */
 #if PY_MAJOR_VERSION < 3
 static void __Pyx_Raise(PyObject *type, PyObject *value, PyObject *tb,
@@ -21623,148 +22073,6 @@ static int __Pyx__ArgTypeTest(PyObject *obj, PyTypeObject *type, const char *nam
     return 0;
 }
 
-/* PyCFunctionFastCall */
-#if CYTHON_FAST_PYCCALL
-static CYTHON_INLINE PyObject * __Pyx_PyCFunction_FastCall(PyObject *func_obj, PyObject **args, Py_ssize_t nargs) {
-    PyCFunctionObject *func = (PyCFunctionObject*)func_obj;
-    PyCFunction meth = PyCFunction_GET_FUNCTION(func);
-    PyObject *self = PyCFunction_GET_SELF(func);
-    int flags = PyCFunction_GET_FLAGS(func);
-    assert(PyCFunction_Check(func));
-    assert(METH_FASTCALL == (flags & ~(METH_CLASS | METH_STATIC | METH_COEXIST | METH_KEYWORDS | METH_STACKLESS)));
-    assert(nargs >= 0);
-    assert(nargs == 0 || args != NULL);
-    /* _PyCFunction_FastCallDict() must not be called with an exception set,
-       because it may clear it (directly or indirectly) and so the
-       caller loses its exception */
-    assert(!PyErr_Occurred());
-    if ((PY_VERSION_HEX < 0x030700A0) || unlikely(flags & METH_KEYWORDS)) {
-        return (*((__Pyx_PyCFunctionFastWithKeywords)(void*)meth)) (self, args, nargs, NULL);
-    } else {
-        return (*((__Pyx_PyCFunctionFast)(void*)meth)) (self, args, nargs);
-    }
-}
-#endif
-
-/* PyFunctionFastCall */
-#if CYTHON_FAST_PYCALL
-static PyObject* __Pyx_PyFunction_FastCallNoKw(PyCodeObject *co, PyObject **args, Py_ssize_t na,
-                                               PyObject *globals) {
-    PyFrameObject *f;
-    PyThreadState *tstate = __Pyx_PyThreadState_Current;
-    PyObject **fastlocals;
-    Py_ssize_t i;
-    PyObject *result;
-    assert(globals != NULL);
-    /* XXX Perhaps we should create a specialized
-       PyFrame_New() that doesn't take locals, but does
-       take builtins without sanity checking them.
-       */
-    assert(tstate != NULL);
-    f = PyFrame_New(tstate, co, globals, NULL);
-    if (f == NULL) {
-        return NULL;
-    }
-    fastlocals = __Pyx_PyFrame_GetLocalsplus(f);
-    for (i = 0; i < na; i++) {
-        Py_INCREF(*args);
-        fastlocals[i] = *args++;
-    }
-    result = PyEval_EvalFrameEx(f,0);
-    ++tstate->recursion_depth;
-    Py_DECREF(f);
-    --tstate->recursion_depth;
-    return result;
-}
-#if 1 || PY_VERSION_HEX < 0x030600B1
-static PyObject *__Pyx_PyFunction_FastCallDict(PyObject *func, PyObject **args, Py_ssize_t nargs, PyObject *kwargs) {
-    PyCodeObject *co = (PyCodeObject *)PyFunction_GET_CODE(func);
-    PyObject *globals = PyFunction_GET_GLOBALS(func);
-    PyObject *argdefs = PyFunction_GET_DEFAULTS(func);
-    PyObject *closure;
-#if PY_MAJOR_VERSION >= 3
-    PyObject *kwdefs;
-#endif
-    PyObject *kwtuple, **k;
-    PyObject **d;
-    Py_ssize_t nd;
-    Py_ssize_t nk;
-    PyObject *result;
-    assert(kwargs == NULL || PyDict_Check(kwargs));
-    nk = kwargs ? PyDict_Size(kwargs) : 0;
-    if (Py_EnterRecursiveCall((char*)" while calling a Python object")) {
-        return NULL;
-    }
-    if (
-#if PY_MAJOR_VERSION >= 3
-            co->co_kwonlyargcount == 0 &&
-#endif
-            likely(kwargs == NULL || nk == 0) &&
-            co->co_flags == (CO_OPTIMIZED | CO_NEWLOCALS | CO_NOFREE)) {
-        if (argdefs == NULL && co->co_argcount == nargs) {
-            result = __Pyx_PyFunction_FastCallNoKw(co, args, nargs, globals);
-            goto done;
-        }
-        else if (nargs == 0 && argdefs != NULL
-                 && co->co_argcount == Py_SIZE(argdefs)) {
-            /* function called with no arguments, but all parameters have
-               a default value: use default values as arguments .*/
-            args = &PyTuple_GET_ITEM(argdefs, 0);
-            result =__Pyx_PyFunction_FastCallNoKw(co, args, Py_SIZE(argdefs), globals);
-            goto done;
-        }
-    }
-    if (kwargs != NULL) {
-        Py_ssize_t pos, i;
-        kwtuple = PyTuple_New(2 * nk);
-        if (kwtuple == NULL) {
-            result = NULL;
-            goto done;
-        }
-        k = &PyTuple_GET_ITEM(kwtuple, 0);
-        pos = i = 0;
-        while (PyDict_Next(kwargs, &pos, &k[i], &k[i+1])) {
-            Py_INCREF(k[i]);
-            Py_INCREF(k[i+1]);
-            i += 2;
-        }
-        nk = i / 2;
-    }
-    else {
-        kwtuple = NULL;
-        k = NULL;
-    }
-    closure = PyFunction_GET_CLOSURE(func);
-#if PY_MAJOR_VERSION >= 3
-    kwdefs = PyFunction_GET_KW_DEFAULTS(func);
-#endif
-    if (argdefs != NULL) {
-        d = &PyTuple_GET_ITEM(argdefs, 0);
-        nd = Py_SIZE(argdefs);
-    }
-    else {
-        d = NULL;
-        nd = 0;
-    }
-#if PY_MAJOR_VERSION >= 3
-    result = PyEval_EvalCodeEx((PyObject*)co, globals, (PyObject *)NULL,
-                               args, (int)nargs,
-                               k, (int)nk,
-                               d, (int)nd, kwdefs, closure);
-#else
-    result = PyEval_EvalCodeEx(co, globals, (PyObject *)NULL,
-                               args, (int)nargs,
-                               k, (int)nk,
-                               d, (int)nd, closure);
-#endif
-    Py_XDECREF(kwtuple);
-done:
-    Py_LeaveRecursiveCall();
-    return result;
-}
-#endif
-#endif
-
 /* PyObjectCall2Args */
 static CYTHON_UNUSED PyObject* __Pyx_PyObject_Call2Args(PyObject* function, PyObject* arg1, PyObject* arg2) {
     PyObject *args, *result = NULL;
@@ -21794,66 +22102,6 @@ done:
     return result;
 }
 
-/* PyObjectCallMethO */
-#if CYTHON_COMPILING_IN_CPYTHON
-static CYTHON_INLINE PyObject* __Pyx_PyObject_CallMethO(PyObject *func, PyObject *arg) {
-    PyObject *self, *result;
-    PyCFunction cfunc;
-    cfunc = PyCFunction_GET_FUNCTION(func);
-    self = PyCFunction_GET_SELF(func);
-    if (unlikely(Py_EnterRecursiveCall((char*)" while calling a Python object")))
-        return NULL;
-    result = cfunc(self, arg);
-    Py_LeaveRecursiveCall();
-    if (unlikely(!result) && unlikely(!PyErr_Occurred())) {
-        PyErr_SetString(
-            PyExc_SystemError,
-            "NULL result without error in PyObject_Call");
-    }
-    return result;
-}
-#endif
-
-/* PyObjectCallOneArg */
-#if CYTHON_COMPILING_IN_CPYTHON
-static PyObject* __Pyx__PyObject_CallOneArg(PyObject *func, PyObject *arg) {
-    PyObject *result;
-    PyObject *args = PyTuple_New(1);
-    if (unlikely(!args)) return NULL;
-    Py_INCREF(arg);
-    PyTuple_SET_ITEM(args, 0, arg);
-    result = __Pyx_PyObject_Call(func, args, NULL);
-    Py_DECREF(args);
-    return result;
-}
-static CYTHON_INLINE PyObject* __Pyx_PyObject_CallOneArg(PyObject *func, PyObject *arg) {
-#if CYTHON_FAST_PYCALL
-    if (PyFunction_Check(func)) {
-        return __Pyx_PyFunction_FastCall(func, &arg, 1);
-    }
-#endif
-    if (likely(PyCFunction_Check(func))) {
-        if (likely(PyCFunction_GET_FLAGS(func) & METH_O)) {
-            return __Pyx_PyObject_CallMethO(func, arg);
-#if CYTHON_FAST_PYCCALL
-        } else if (__Pyx_PyFastCFunction_Check(func)) {
-            return __Pyx_PyCFunction_FastCall(func, &arg, 1);
-#endif
-        }
-    }
-    return __Pyx__PyObject_CallOneArg(func, arg);
-}
-#else
-static CYTHON_INLINE PyObject* __Pyx_PyObject_CallOneArg(PyObject *func, PyObject *arg) {
-    PyObject *result;
-    PyObject *args = PyTuple_Pack(1, arg);
-    if (unlikely(!args)) return NULL;
-    result = __Pyx_PyObject_Call(func, args, NULL);
-    Py_DECREF(args);
-    return result;
-}
-#endif
-
 /* BytesEquals */
 static CYTHON_INLINE int __Pyx_PyBytes_Equals(PyObject* s1, PyObject* s2, int equals) {
 #if CYTHON_COMPILING_IN_PYPY
diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index e41d394..f7df304 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -39,6 +39,23 @@ cdef class PriorityQueue:
         for key in keys:
             self.q_times[key[1]] = key[0]
 
+    def __deepcopy__(self, memo):
+        cdef PriorityQueue new = PriorityQueue()
+
+        new.array_times = self.array_times[:]
+        new.array_edges = self.array_edges[:]
+
+        new.sorted_times = new.array_times
+        new.sorted_edges = new.array_edges
+        new.q_times = self.q_map()
+
+        new.size = self.size
+        new.actual_size = self.actual_size
+        new.next_time = self.next_time
+        new.next_node = self.next_node
+
+        return new
+
     @property
     def times(self):
         return self.array_times[:self.size]
diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index b16688a..9340f44 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -654,9 +654,9 @@ class QueueNetwork(object):
         net.edge2queue = copy.deepcopy(self.edge2queue)
         net._route_probs = copy.deepcopy(self._route_probs)
 
-        if net._initialized:
-            keys = [q._key() for q in net.edge2queue if q._time < np.infty]
-            net._fancy_heap = PriorityQueue(keys, net.nE)
+        # The same heap, so that queues whose events are tied take turns in
+        # the same order.
+        net._fancy_heap = copy.deepcopy(self._fancy_heap)
 
         return net
 
-- 
2.43.0


From c4fc00cc874021f853a603cda95b45423dd5c4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 27/39] fix: the dictionaries given to a network or queue are
 not changed

---
 queueing_tool/network/queue_network.py | 8 ++++++--
 queueing_tool/queues/queue_servers.py  | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 9340f44..868782c 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -319,8 +319,12 @@ class QueueNetwork(object):
         self._fancy_heap = PriorityQueue()
         self._blocking = True if blocking.lower() != 'rs' else False
 
-        if colors is None:
-            colors = {}
+        # These are filled in below, and the caller's are left as they are.
+        colors = {} if colors is None else dict(colors)
+        if q_classes is not None:
+            q_classes = dict(q_classes)
+        if q_args is not None:
+            q_args = {k: dict(args) for k, args in q_args.items()}
 
         for key, value in self.default_colors.items():
             if key not in colors:
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 86b223c..30d73dc 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -326,7 +326,7 @@ class QueueServer(object):
             np.random.seed(seed)
 
         if colors is not None:
-            self.colors = colors
+            self.colors = dict(colors)
             for col in set(self._default_colors.keys()) - set(self.colors.keys()):
                 self.colors[col] = self._default_colors[col]
         else:
-- 
2.43.0


From 285c108e3adeb7d7f6dba4c47bf107b1a293ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 28/39] fix: adjacency2graph accepts an empty dictionary

---
 queueing_tool/graph/graph_wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 7e376df..7b03191 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -28,6 +28,9 @@ def _dict2dict(adj_dict):
     """Takes a dictionary based representation of an adjacency list
     and returns a dict of dicts based representation.
     """
+    if len(adj_dict) == 0:
+        return adj_dict
+
     item = adj_dict.popitem()
     adj_dict[item[0]] = item[1]
     if not isinstance(item[1], dict):
-- 
2.43.0


From 58dab8f0f9ddddf90bda33a470a0e10f3fcc0796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 29/39] fix: properties can have the name of a method of the
 graph

---
 queueing_tool/graph/graph_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 7b03191..c41b49b 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -277,14 +277,14 @@ class QueueNetworkDiGraph(nx.DiGraph):
 
     def set_ep(self, e, edge_property, value):
         self.adj[e[0]][e[1]][edge_property] = value
-        if hasattr(self, edge_property):
-            attr = getattr(self, edge_property)
+        attr = getattr(self, edge_property, None)
+        if isinstance(attr, (list, np.ndarray)):
             attr[self.edge_index[e]] = value
 
     def set_vp(self, v, vertex_property, value):
         self.nodes[v][vertex_property] = value
-        if hasattr(self, vertex_property):
-            attr = getattr(self, vertex_property)
+        attr = getattr(self, vertex_property, None)
+        if isinstance(attr, (list, np.ndarray)):
             attr[v] = value
 
     def vertex_properties(self):
-- 
2.43.0


From 0eb2af31f60d08cca330e605902ae697b6ba5f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 30/39] fix: a random graph of one vertex has that vertex

---
 queueing_tool/graph/graph_generation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queueing_tool/graph/graph_generation.py b/queueing_tool/graph/graph_generation.py
index 87b6cdc..f4d6522 100644
--- a/queueing_tool/graph/graph_generation.py
+++ b/queueing_tool/graph/graph_generation.py
@@ -222,6 +222,7 @@ def minimal_random_graph(num_vertices, seed=None, **kwargs):
     unionF = UnionFind([k for k in range(num_vertices)])
 
     g = nx.Graph()
+    g.add_nodes_from(range(num_vertices))
 
     for n1, n2, dummy in edges:
         unionF.union(n1, n2)
-- 
2.43.0


From 8730f795282b379d299e6a40d6a77f94214f54ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 31/39] fix: set_types_rank can make no vertex a top ranked one

---
 queueing_tool/graph/graph_generation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/graph/graph_generation.py b/queueing_tool/graph/graph_generation.py
index f4d6522..6c39aa1 100644
--- a/queueing_tool/graph/graph_generation.py
+++ b/queueing_tool/graph/graph_generation.py
@@ -377,19 +377,19 @@ def set_types_rank(g, rank, pType2=0.1, pType3=0.1, seed=None, **kwargs):
 
     tmp = np.sort(np.array(rank))
     nDests = int(np.ceil(g.number_of_nodes() * pType2))
-    dests = np.where(rank >= tmp[-nDests])[0]
+    dests = np.where(rank >= tmp[-nDests])[0] if nDests > 0 else []
 
     if 'pos' not in g.vertex_properties():
         g.set_pos()
 
     dest_pos = np.array([g.vp(v, 'pos') for v in dests])
-    nFCQ = int(pType3 * g.number_of_nodes())
+    nFCQ = int(pType3 * g.number_of_nodes()) if nDests > 0 else 0
     min_g_dist = np.ones(nFCQ) * np.infty
     ind_g_dist = np.ones(nFCQ, int)
 
     r, theta = np.random.random(nFCQ) / 500., np.random.random(nFCQ) * 360.
     xy_pos = np.array([r * np.cos(theta), r * np.sin(theta)]).transpose()
-    g_pos = xy_pos + dest_pos[np.array(np.mod(np.arange(nFCQ), nDests), int)]
+    g_pos = xy_pos + dest_pos.reshape(-1, 2)[np.array(np.mod(np.arange(nFCQ), max(nDests, 1)), int)]
 
     for v in g.nodes():
         if v not in dests:
-- 
2.43.0


From aedbb4626e484c6b3d56d9efd0b7fec296ad6558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 32/39] fix: the documentation of set_types_rank says which
 vertices get which type

---
 queueing_tool/graph/graph_generation.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/queueing_tool/graph/graph_generation.py b/queueing_tool/graph/graph_generation.py
index 6c39aa1..ddb217c 100644
--- a/queueing_tool/graph/graph_generation.py
+++ b/queueing_tool/graph/graph_generation.py
@@ -141,12 +141,12 @@ def generate_pagerank_graph(num_vertices=250, **kwargs):
     Notes
     -----
     This function sets the edge types of a graph to be either 1, 2, or
-    3. It sets the vertices to type 2 by selecting the top
+    3. It sets the vertices to type 3 by selecting the top
     ``pType2 * g.number_of_nodes()`` vertices given by the
     :func:`~networkx.pagerank` of the graph. A loop is added
     to all vertices identified this way (if one does not exist
-    already). It then randomly sets vertices close to the type 2
-    vertices as type 3, and adds loops to these vertices as well. These
+    already). It then randomly sets vertices close to the type 3
+    vertices as type 2, and adds loops to these vertices as well. These
     loops then have edge types that correspond to the vertices type.
     The rest of the edges are set to type 1.
     """
@@ -331,12 +331,12 @@ def set_types_rank(g, rank, pType2=0.1, pType3=0.1, seed=None, **kwargs):
     """Creates a stylized graph. Sets edge and types using `pagerank`_.
 
     This function sets the edge types of a graph to be either 1, 2, or
-    3. It sets the vertices to type 2 by selecting the top
+    3. It sets the vertices to type 3 by selecting the top
     ``pType2 * g.number_of_nodes()`` vertices given by the
     :func:`~networkx.pagerank` of the graph. A loop is added
     to all vertices identified this way (if one does not exist
-    already). It then randomly sets vertices close to the type 2
-    vertices as type 3, and adds loops to these vertices as well. These
+    already). It then randomly sets vertices close to the type 3
+    vertices as type 2, and adds loops to these vertices as well. These
     loops then have edge types the correspond to the vertices type. The
     rest of the edges are set to type 1.
 
@@ -349,10 +349,11 @@ def set_types_rank(g, rank, pType2=0.1, pType3=0.1, seed=None, **kwargs):
     rank : :class:`numpy.ndarray`
         An ordering of the vertices.
     pType2 : float (optional, default: 0.1)
-        Specifies the proportion of vertices that will be of type 2.
+        Specifies the proportion of vertices, the top ranked ones, that
+        will be of type 3.
     pType3 : float (optional, default: 0.1)
-        Specifies the proportion of vertices that will be of type 3 and
-        that are near pType2 vertices.
+        Specifies the largest proportion of vertices that will be of
+        type 2. These are near top ranked vertices.
     seed : int (optional)
         An integer used to initialize numpy's psuedo-random number
         generator.
-- 
2.43.0


From 38980a4dada0f9b6acfbd263ef0fc012be88c0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 33/39] fix: a resource taken by a departing agent does not
 serve the next one

The agent departing took its resource after the next agent had entered
service on it, so more agents were in service than there were resources.
---
 queueing_tool/queues/queue_servers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 30d73dc..9037cd7 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -601,6 +601,10 @@ class QueueServer(object):
             if self.collect_data and new_depart.agent_id in self.data:
                 self.data[new_depart.agent_id][-1][2] = self._current_t
 
+            # The agent may take a server with it (see ResourceAgent), so this
+            # comes before the next agent enters service.
+            new_depart.queue_action(self, 2)
+
             num_queued = len(self.queue)
             # This is the number of agents currently being serviced by
             # the QueueServer. This number need not be equal to 
@@ -611,7 +615,6 @@ class QueueServer(object):
             if num_queued > 0 and num_servicing < self.num_servers:
                 self._service_from_queue()
 
-            new_depart.queue_action(self, 2)
             self._update_time()
             return new_depart
 
-- 
2.43.0


From 35f9278c31c9e045cc2cad6e955c9257d37f67d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 34/39] fix: adding servers to a ResourceQueue serves the
 agents that wait

Also, over_max counted every change of the number of servers above the
maximum, and not just resources that were deposited.
---
 queueing_tool/queues/queue_extentions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 380ac1b..dea6bed 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -108,10 +108,14 @@ class ResourceQueue(LossQueue):
         return my_str.format(*arg)
 
     def set_num_servers(self, n):
-        self.num_servers = n
-        if n > self.max_servers:
+        if n > self.max_servers and n > self.num_servers:
             self.over_max += 1
 
+        if n > 0:
+            super(ResourceQueue, self).set_num_servers(n)
+        else:
+            self.num_servers = n
+
     def next_event(self):
         """Simulates the queue forward one event.
 
@@ -144,10 +148,6 @@ class ResourceQueue(LossQueue):
                     self._num_total -= 1
                     self.set_num_servers(self.num_servers + 1)
 
-                    num_servicing = self.num_system - len(self.queue)
-                    if len(self.queue) > 0 and num_servicing < self.num_servers:
-                        self._service_from_queue()
-
                     if self.collect_data:
                         t = arrival._time
                         if arrival.agent_id not in self.data:
-- 
2.43.0


From 00537836cbdc3fa8d57e7909766a33a291488352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:20 +0000
Subject: [PATCH 35/39] fix: a vertex with a terminal loop shows the agents
 bound for it when all colors are updated

_update_all_colors considered the vertex done when it met the terminal loop
before an edge into the vertex, and kept an outdated fill color.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 868782c..e84dbdf 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1557,7 +1557,7 @@ class QueueNetwork(object):
                 self.g.set_vp(v, 'vertex_color', q._current_color(2))
                 if q.edge[3] != 0:
                     self.g.set_vp(v, 'vertex_fill_color', q._current_color())
-                do[v] = False
+                    do[v] = False
             else:
                 self.g.set_ep(e, 'edge_color', q._current_color())
                 if do[v]:
-- 
2.43.0


From 8144d08e69aa962c6c1b767eaf182fddb6f83d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 36/39] fix: reset_colors restores the default colors of
 vertices with loops too

The fill color of a vertex with a loop comes from the queue on the loop, but
was reset to the color of vertices without one; its border was not reset.
---
 queueing_tool/network/queue_network.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index e84dbdf..b660e51 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1018,7 +1018,14 @@ class QueueNetwork(object):
             color = 'edge_loop_color' if e[0] == e[1] else 'edge_color'
             self.g.set_ep(e, 'edge_color', self.edge2queue[k].colors[color])
         for v in self.g.nodes():
-            self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_fill_color'])
+            e = (v, v)
+            if self.g.is_edge(e):
+                q = self.edge2queue[self.g.edge_index[e]]
+                self.g.set_vp(v, 'vertex_color', q._current_color(2))
+                self.g.set_vp(v, 'vertex_fill_color', q.colors['vertex_fill_color'])
+            else:
+                self.g.set_vp(v, 'vertex_color', self.colors['vertex_color'])
+                self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_fill_color'])
 
     def set_transitions(self, mat):
         """Change the routing transitions probabilities for the
-- 
2.43.0


From 437d022a8e687faea17e4ab52d9d247a12582718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 37/39] fix: drawing passes facecolor, edgecolor and
 orientation on to savefig

The names in the list of savefig arguments were misspelled.
---
 queueing_tool/graph/graph_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index c41b49b..e302d68 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -187,9 +187,9 @@ def adjacency2graph(adjacency, edge_type=None, adjust=1, **kwargs):
 
 SAVEFIG_KWARGS = set([
     'dpi',
-    'facecolorw',
-    'edgecolorw',
-    'orientationportrait',
+    'facecolor',
+    'edgecolor',
+    'orientation',
     'papertype',
     'format',
     'transparent',
-- 
2.43.0


From 195b1ca511262a1a1b8da9cf7a4ef21a494bfb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 38/39] fix: isolated vertices get their colors back after
 show_type and show_active

_update_all_colors only visited vertices with an edge other than a terminal loop.
---
 queueing_tool/network/queue_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index b660e51..211db6b 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1573,6 +1573,9 @@ class QueueNetwork(object):
                 if do[q.edge[0]]:
                     self._update_vertex_color(q.edge[0])
                     do[q.edge[0]] = False
+        for v in range(self.nV):
+            if do[v]:
+                self._update_vertex_color(v)
 
     def _update_vertex_color(self, v):
         ee = (v, v)
-- 
2.43.0


From 97009d153ea2c40a66fdb82e701e12ac290c6acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 39/39] fix: a queue activated again after its cut-off time is
 not active

set_active() left a queue active whose next arrival had come after deactive_t
and was not scheduled, and no arrival was ever scheduled again.
---
 queueing_tool/queues/queue_extentions.py | 4 ++++
 queueing_tool/queues/queue_servers.py    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index dea6bed..96f4604 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -322,6 +322,10 @@ class InfoQueue(LossQueue):
                 if self._oArrivals >= self.active_cap:
                     self._active = False
 
+            elif self._next_ct >= self.deactive_t:
+                # The next arrival came too late, and was not scheduled.
+                self._active = False
+
         if self._arrivals[0]._time < self._departures[0]._time:
             self._time = self._arrivals[0]._time
 
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 9037cd7..ce2a338 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -390,6 +390,10 @@ class QueueServer(object):
                 if self._oArrivals >= self.active_cap:
                     self._active = False
 
+            elif self._next_ct >= self.deactive_t:
+                # The next arrival came too late, and was not scheduled.
+                self._active = False
+
         if self._arrivals[0]._time < self._departures[0]._time:
             self._time = self._arrivals[0]._time
 
-- 
2.43.0

