From 752b15e39de35716ceb1be731a4aba6b6d1532c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 01/17] fix: accumulate the squares when the peaks statistics
 are recomputed

---
 src/peaks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peaks.c b/src/peaks.c
index fcaaadc..97010d7 100644
--- a/src/peaks.c
+++ b/src/peaks.c
@@ -42,7 +42,7 @@ static unsigned long peaks_update_stats(struct Peaks *peaks) {
         // value = *iterator;
         double value = peaks->container.data[i];
         peaks->e += value;
-        peaks->e2 = value * value;
+        peaks->e2 += value * value;
         if (is_nan(peaks->min) || (value < peaks->min)) {
             peaks->min = value;
         }
-- 
2.43.0


From 8f882e1f7a045d4467e7d80ad7c72ed9244d6038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 02/17] fix: spot_init rejects a NaN level or a NaN q

---
 src/spot.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spot.c b/src/spot.c
index 7dc4ed7..1f1d85c 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -23,10 +23,11 @@ static const char *license = LICENSE;
 
 int spot_init(struct Spot *spot, double q, int low, int discard_anomalies,
               double level, unsigned long max_excess) {
-    if ((level < 0.) || (level >= 1.)) {
+    // (negated tests so as to reject NaN too)
+    if (!((level >= 0.) && (level < 1.))) {
         return -ERR_LEVEL_OUT_OF_BOUNDS;
     }
-    if ((q >= (1. - level)) || (q <= 0.0)) {
+    if (!((q > 0.0) && (q < (1. - level)))) {
         return -ERR_Q_OUT_OF_BOUNDS;
     }
     spot->q = q;
-- 
2.43.0


From c4de79ecf89d2dd9c1246d5ede6c10ebe6933db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 03/17] fix: ubend_init rejects a capacity it cannot provide
 storage for

---
 src/ubend.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ubend.c b/src/ubend.c
index 9a58175..adc9e0f 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -14,7 +14,13 @@ int ubend_init(struct Ubend *ubend, unsigned long capacity) {
     ubend->filled = 0;
     ubend->capacity = capacity;
     ubend->last_erased_data = _NAN;
-    ubend->data = (double *)xmalloc(capacity * __SIZEOF_DOUBLE__);
+    ubend->data = 0x0;
+    // an empty container cannot store any value, and the size of the storage
+    // (in bytes) must not wrap around
+    if ((capacity > 0) &&
+        (capacity <= ((unsigned long)-1) / __SIZEOF_DOUBLE__)) {
+        ubend->data = (double *)xmalloc(capacity * __SIZEOF_DOUBLE__);
+    }
     if (ubend->data) {
         return 0;
     }
-- 
2.43.0


From c6cd8707b29bd2b2c3e9fa5e8441f294c70e3b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 04/17] fix: ubend_free does not keep a dangling pointer

---
 src/ubend.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ubend.c b/src/ubend.c
index adc9e0f..8660dea 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -34,6 +34,7 @@ void ubend_free(struct Ubend *ubend) {
     ubend->last_erased_data = _NAN;
     if (ubend->data) {
         xfree(ubend->data);
+        ubend->data = 0x0;
     }
 }
 
-- 
2.43.0


From 13dae6400ccf8d7f25fc8796bb073ecad694a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 05/17] fix: do not write before the buffer when its size is
 zero

---
 src/spot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spot.c b/src/spot.c
index 1f1d85c..fdfc426 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -173,7 +173,7 @@ void set_allocators(malloc_fn m, free_fn f) { internal_set_allocators(m, f); }
  * @return char* pointer to the output buffer
  */
 static char *strncpy(char *dst, const char *src, unsigned long size) {
-    if (dst) {
+    if (dst && (size > 0)) {
         unsigned long i = 0;
         for (; (i < size) && (src[i] != '\0'); i++) {
             dst[i] = src[i];
-- 
2.43.0


From 0ab4bee3483225a8ea0acd5e41fdda2eff7a4108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 06/17] fix: xexp overflows to infinity for any large input

---
 src/xmath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xmath.c b/src/xmath.c
index 81dfcb8..cc02966 100644
--- a/src/xmath.c
+++ b/src/xmath.c
@@ -325,6 +325,10 @@ double xexp(double x) {
     if (x < 0) {
         return 1.0 / xexp(-x);
     }
+    if (x > 1024 * LOG2) {
+        // overflow (besides k below must fit in an int)
+        return _INFINITY;
+    }
     if (x > LOG2) {
         unsigned int k = x / LOG2;
         double r = x - LOG2 * (double)k;
-- 
2.43.0


From 1699cac156d2b5e177dae36d124ebd9e2fb9bf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 07/17] fix: xlog of infinity is infinity

---
 src/xmath.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xmath.c b/src/xmath.c
index cc02966..d8369fb 100644
--- a/src/xmath.c
+++ b/src/xmath.c
@@ -348,6 +348,9 @@ double xlog(double x) {
     if (x == 0) {
         return -_INFINITY;
     }
+    if (x == _INFINITY) {
+        return _INFINITY;
+    }
     // double_cast casted = {.d = x};
     // if (casted.bits.exponent == 1022 || casted.bits.exponent == 1023) {
     //     // 1/2 < x < 1
-- 
2.43.0


From f6cc43dd4e400f5f745792a97e8d1d58bbcf45f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 08/17] fix: python fit accepts any sequence, raises its errors
 and does not leak it

---
 python/libspotmodule.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 0af61aa..c523598 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -134,14 +134,34 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
         return NULL;
     }
 
-    unsigned long size = (unsigned long)PyList_Size(seq);
+    // seq is either a list or a tuple
+    Py_ssize_t length = PySequence_Size(seq);
+    if (length < 0) {
+        Py_DECREF(seq);
+        return NULL;
+    }
+    unsigned long size = (unsigned long)length;
 
     // allocate a new raw buffer to pass to the fit method
     double *x = malloc(size * sizeof(double));
+    if (x == NULL && size > 0) {
+        Py_DECREF(seq);
+        return PyErr_NoMemory();
+    }
     for (unsigned long i = 0; i < size; i++) {
-        // https://docs.python.org/3/c-api/float.html#c.PyFloat_AsDouble
-        x[i] = PyFloat_AsDouble(PyList_GetItem(seq, i));
+        PyObject *item = PySequence_GetItem(seq, (Py_ssize_t)i);
+        if (item != NULL) {
+            // https://docs.python.org/3/c-api/float.html#c.PyFloat_AsDouble
+            x[i] = PyFloat_AsDouble(item);
+            Py_DECREF(item);
+        }
+        if (PyErr_Occurred()) {
+            free(x);
+            Py_DECREF(seq);
+            return NULL;
+        }
     }
+    Py_DECREF(seq);
     // libspot API call
     int result = spot_fit(&(self->_spot), x, size);
     // free the buffer
@@ -152,6 +172,7 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
         char buffer[256];
         libspot_error(-result, buffer, 256);
         PyErr_SetString(PyExc_RuntimeError, buffer);
+        return NULL;
     }
     Py_RETURN_NONE;
 }
-- 
2.43.0


From c73098bee860c785ff0e2c8018ec6093c6fdc636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 09/17] fix: python methods raise when the argument is not a
 number

---
 python/libspotmodule.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index c523598..059827a 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -182,6 +182,9 @@ PyDoc_STRVAR(Spot_step_doc, "step($self, x)\n--\n\n"
 
 static PyObject *Spot_step(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if (z == -1.0 && PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     int result = spot_step(&(self->_spot), z);
@@ -194,6 +197,9 @@ PyDoc_STRVAR(Spot_quantile_doc, "quantile($self, q)\n--\n\n"
 
 static PyObject *Spot_quantile(Spot *self, PyObject *x) {
     double q = PyFloat_AsDouble(x);
+    if (q == -1.0 && PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double z = spot_quantile(&(self->_spot), q);
@@ -207,6 +213,9 @@ PyDoc_STRVAR(Spot_probability_doc,
 
 static PyObject *Spot_probability(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if (z == -1.0 && PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double q = spot_probability(&(self->_spot), z);
-- 
2.43.0


From d1f63f0f185bdd27c77683e91a670cbd8ca09a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 10/17] fix: python objects are released when they are
 destroyed

---
 python/libspotmodule.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 059827a..bf1d276 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -274,7 +274,11 @@ static void Spot_dealloc(Spot *self) {
     // free internal structure
     // libspot API call
     spot_free(&(self->_spot));
-    // Py_TYPE(self)->tp_free((PyObject *)self);
+    // free the object itself (its type is allocated on the heap)
+    PyTypeObject *type = Py_TYPE(self);
+    freefunc tp_free = (freefunc)PyType_GetSlot(type, Py_tp_free);
+    tp_free(self);
+    Py_DECREF(type);
 }
 
 static const PyMemberDef Spot_members[] = {
-- 
2.43.0


From 02e682a2d6f927343c97c5a4b4c57ce281f9f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 11/17] fix: js fit copies the given view only, not its whole
 underlying buffer

---
 wasm/index.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index 2095cc1..a123c08 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -198,7 +198,10 @@ export class Spot {
     // reserve heap
     const arrayPtr = libspot._malloc(data.length * data.BYTES_PER_ELEMENT);
     // copy array (converted to bytes) to the heap
-    libspot.HEAPU8.set(new Uint8Array(data.buffer), arrayPtr);
+    libspot.HEAPU8.set(
+      new Uint8Array(data.buffer, data.byteOffset, data.byteLength),
+      arrayPtr
+    );
     // call the function
     const code = spotFit(this.ptr, arrayPtr, data.length);
     if (code < 0) {
-- 
2.43.0


From 2e83cdceffc13e080b8fc5203972b489b056c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 12/17] fix: js fit releases its buffer when it throws

---
 wasm/index.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index a123c08..587dff5 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -204,11 +204,11 @@ export class Spot {
     );
     // call the function
     const code = spotFit(this.ptr, arrayPtr, data.length);
+    // release heap
+    libspot._free(arrayPtr);
     if (code < 0) {
       throw new Error(libspotError(-code));
     }
-    // release heap
-    libspot._free(arrayPtr);
     return code;
   }
 
-- 
2.43.0


From e248f6e1b52aab4e35fa9ec25b75a4c2632d3d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 13/17] fix: js finalizer does not release the internals of an
 object whose init failed

---
 wasm/index.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index 587dff5..9a8d98e 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -165,11 +165,13 @@ export class Spot {
     maxExcess = 500,
   }: SpotConfig) {
     this.ptr = spotNew();
-    freg.register(this, this.ptr); // kind of destructor
     const code = spotInit(this.ptr, q, low, discardAnomalies, level, maxExcess);
     if (code < 0) {
+      // nothing has been allocated inside the object
+      libspot._free(this.ptr);
       throw new Error(libspotError(-code));
     }
+    freg.register(this, this.ptr); // kind of destructor
   }
 
   anomaly_threshold() {
-- 
2.43.0


From 22b34d3929c94a1d4075a0264d7bd6a540ee2ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:56 +0000
Subject: [PATCH 14/17] fix: python Spot.__init__ called again leaked the
 previous excesses (and left a half-initialized object on failure)

---
 python/libspotmodule.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index bf1d276..841a61d 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -113,14 +113,20 @@ static int Spot_init(Spot *self, PyObject *args, PyObject *kwds) {
         return -1;
 
     // libspot API call
-    int result = spot_init(&(self->_spot), q, low, discard_anomalies, level,
-                           max_excess);
+    // (the object may be initialized again: keep it as is until it succeeds)
+    struct Spot spot;
+    int result =
+        spot_init(&spot, q, low, discard_anomalies, level, max_excess);
     if (result < 0) {
         char buffer[256];
         libspot_error(-result, buffer, 256);
         PyErr_SetString(PyExc_RuntimeError, buffer);
+        return -1;
     }
-    return result;
+    // release the storage of a previous initialization (if any)
+    spot_free(&(self->_spot));
+    self->_spot = spot;
+    return 0;
 }
 
 PyDoc_STRVAR(Spot_fit_doc,
-- 
2.43.0


From e498adbf0441bf61fb5a4404eb27ca958c3aa172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:56 +0000
Subject: [PATCH 15/17] fix: python module initialization used the type without
 checking its creation

---
 python/libspotmodule.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 841a61d..94f8afe 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -365,6 +365,9 @@ static PyModuleDef libspotmodule = {
 
 PyMODINIT_FUNC PyInit_libspot(void) {
     PyObject *SpotType = PyType_FromSpec(&SpotType_spec);
+    if (SpotType == NULL) {
+        return NULL;
+    }
     if (PyType_Ready((PyTypeObject *)SpotType) < 0) {
         return NULL;
     }
-- 
2.43.0


From c7f5d9b626aa11a52308c122f351a1c25c1cc2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:29 +0000
Subject: [PATCH 16/17] fix: python module initialization ignored a failure to
 register the Spot type

---
 python/libspotmodule.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 94f8afe..912be3e 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -398,7 +398,9 @@ PyMODINIT_FUNC PyInit_libspot(void) {
     }
 
     // add Spot object
-    PyModule_AddObject(m, "Spot", SpotType);
+    if (PyModule_AddObject(m, "Spot", SpotType) < 0) {
+        return NULL;
+    }
 
     // set default allocators
     // libspot API call
-- 
2.43.0


From 2b546ab9719998e5a3dcb78b7783e1f4f2ad7ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:17 +0000
Subject: [PATCH 17/17] fix: release the type and the module when the import of
 the Python module fails

---
 python/libspotmodule.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 912be3e..9713676 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -369,41 +369,46 @@ PyMODINIT_FUNC PyInit_libspot(void) {
         return NULL;
     }
     if (PyType_Ready((PyTypeObject *)SpotType) < 0) {
+        Py_DECREF(SpotType);
         return NULL;
     }
 
     PyObject *m = PyModule_Create(&libspotmodule);
     if (m == NULL) {
+        Py_DECREF(SpotType);
         return NULL;
     }
 
-    Py_INCREF(SpotType);
-
     // inject __version__
     char buffer[64];
     libspot_version(buffer, 64);
     if (PyModule_AddStringConstant(m, "__version__", buffer) < 0) {
-        return NULL;
+        goto failure;
     }
 
     // add global constants
     if (PyModule_AddIntConstant(m, "NORMAL", NORMAL) < 0) {
-        return NULL;
+        goto failure;
     }
     if (PyModule_AddIntConstant(m, "EXCESS", EXCESS) < 0) {
-        return NULL;
+        goto failure;
     }
     if (PyModule_AddIntConstant(m, "ANOMALY", ANOMALY) < 0) {
-        return NULL;
+        goto failure;
     }
 
-    // add Spot object
+    // add Spot object (the module becomes the owner of the type)
     if (PyModule_AddObject(m, "Spot", SpotType) < 0) {
-        return NULL;
+        goto failure;
     }
 
     // set default allocators
     // libspot API call
     set_allocators(malloc, free);
     return m;
+
+failure:
+    Py_DECREF(SpotType);
+    Py_DECREF(m);
+    return NULL;
 }
-- 
2.43.0

