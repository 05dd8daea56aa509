From 6d48f28dcd3a4036eb6576bb480bddb3dd7804f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:36 +0000
Subject: [PATCH 01/12] fix: accumulate the squares when the peaks statistics
 are recomputed

---
 src/peaks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peaks.c b/src/peaks.c
index fcaaadc..97010d7 100644
--- a/src/peaks.c
+++ b/src/peaks.c
@@ -42,7 +42,7 @@ static unsigned long peaks_update_stats(struct Peaks *peaks) {
         // value = *iterator;
         double value = peaks->container.data[i];
         peaks->e += value;
-        peaks->e2 = value * value;
+        peaks->e2 += value * value;
         if (is_nan(peaks->min) || (value < peaks->min)) {
             peaks->min = value;
         }
-- 
2.43.0


From aca9f03546295c7774f1d4ad4847a5d11ee3c513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:36 +0000
Subject: [PATCH 02/12] fix: do not write before an empty output buffer

---
 src/spot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spot.c b/src/spot.c
index 7dc4ed7..f8d783e 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -172,7 +172,7 @@ void set_allocators(malloc_fn m, free_fn f) { internal_set_allocators(m, f); }
  * @return char* pointer to the output buffer
  */
 static char *strncpy(char *dst, const char *src, unsigned long size) {
-    if (dst) {
+    if (dst && size > 0) {
         unsigned long i = 0;
         for (; (i < size) && (src[i] != '\0'); i++) {
             dst[i] = src[i];
-- 
2.43.0


From b060d579425a276cf653532a503b81df9ae4d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:36 +0000
Subject: [PATCH 03/12] fix: reject NaN level and q parameters

---
 src/spot.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spot.c b/src/spot.c
index f8d783e..6738b37 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -23,10 +23,10 @@ static const char *license = LICENSE;
 
 int spot_init(struct Spot *spot, double q, int low, int discard_anomalies,
               double level, unsigned long max_excess) {
-    if ((level < 0.) || (level >= 1.)) {
+    if (!(level >= 0. && level < 1.)) {
         return -ERR_LEVEL_OUT_OF_BOUNDS;
     }
-    if ((q >= (1. - level)) || (q <= 0.0)) {
+    if (!(q > 0.0 && q < (1. - level))) {
         return -ERR_Q_OUT_OF_BOUNDS;
     }
     spot->q = q;
-- 
2.43.0


From 4d6538ac64a666e2a2df9899c13f2b154b3dfb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:36 +0000
Subject: [PATCH 04/12] fix: refuse a tail capacity that is null or too large
 to be allocated

---
 src/ubend.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ubend.c b/src/ubend.c
index 9a58175..574086c 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -14,6 +14,11 @@ int ubend_init(struct Ubend *ubend, unsigned long capacity) {
     ubend->filled = 0;
     ubend->capacity = capacity;
     ubend->last_erased_data = _NAN;
+    ubend->data = 0x0;
+    // the container cannot be empty and its size in bytes must not wrap
+    if (capacity == 0 || capacity > (~0UL / __SIZEOF_DOUBLE__)) {
+        return -ERR_MEMORY_ALLOCATION_FAILED;
+    }
     ubend->data = (double *)xmalloc(capacity * __SIZEOF_DOUBLE__);
     if (ubend->data) {
         return 0;
-- 
2.43.0


From 781b208f637b1319cd9cecb44e68f219a925d37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:24 +0000
Subject: [PATCH 05/12] fix: make xexp overflow to infinity for large arguments

---
 src/xmath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xmath.c b/src/xmath.c
index 81dfcb8..2544171 100644
--- a/src/xmath.c
+++ b/src/xmath.c
@@ -325,6 +325,10 @@ double xexp(double x) {
     if (x < 0) {
         return 1.0 / xexp(-x);
     }
+    if (x > 1025. * LOG2) {
+        // exp(x) overflows (and x / LOG2 may not fit in an integer)
+        return _INFINITY;
+    }
     if (x > LOG2) {
         unsigned int k = x / LOG2;
         double r = x - LOG2 * (double)k;
-- 
2.43.0


From a929125fa26bc1debf56eb471020509c51159306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:24 +0000
Subject: [PATCH 06/12] fix: make xlog return infinity at infinity

---
 src/xmath.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xmath.c b/src/xmath.c
index 2544171..b352878 100644
--- a/src/xmath.c
+++ b/src/xmath.c
@@ -348,6 +348,9 @@ double xlog(double x) {
     if (x == 0) {
         return -_INFINITY;
     }
+    if (x == _INFINITY) {
+        return _INFINITY;
+    }
     // double_cast casted = {.d = x};
     // if (casted.bits.exponent == 1022 || casted.bits.exponent == 1023) {
     //     // 1/2 < x < 1
-- 
2.43.0


From 6d7cdcfae84280b5054ce3bef14336bd83265f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:05 +0000
Subject: [PATCH 07/12] fix: keep the first P2 marker in place when the minimum
 is observed again

---
 src/p2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p2.c b/src/p2.c
index 88e4360..6ce2347 100644
--- a/src/p2.c
+++ b/src/p2.c
@@ -134,12 +134,12 @@ static double quantile(struct P2 *p2, double const *x, unsigned long size) {
             // k = 3;
             p2->q[4] = xj;
         } else {
-            k = 0;
+            k = 1;
             while (xj > p2->q[k]) {
                 k++;
             }
             k--;
-            // here q[k] < x < q[k + 1]
+            // here q[k] <= x <= q[k + 1]
             for (i = k + 1; i < 5; i++) {
                 p2->n[i] += 1.0;
             }
-- 
2.43.0


From 34f9b54a0b54e5d742b6aefdef09b0507d314721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:02 +0000
Subject: [PATCH 08/12] fix: let the python fit method accept any sequence and
 report its errors

---
 python/libspotmodule.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 0af61aa..d665a8d 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -129,7 +129,8 @@ PyDoc_STRVAR(Spot_fit_doc,
              "on training data");
 
 static PyObject *Spot_fit(Spot *self, PyObject *data) {
-    PyObject *seq = PySequence_Fast(data, "cannot turn arg into sequence");
+    // turn any iterable into a (new) list
+    PyObject *seq = PySequence_List(data);
     if (seq == NULL) {
         return NULL;
     }
@@ -137,11 +138,21 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
     unsigned long size = (unsigned long)PyList_Size(seq);
 
     // allocate a new raw buffer to pass to the fit method
-    double *x = malloc(size * sizeof(double));
+    double *x = malloc((size + 1) * sizeof(double));
+    if (x == NULL) {
+        Py_DECREF(seq);
+        return PyErr_NoMemory();
+    }
     for (unsigned long i = 0; i < size; i++) {
         // https://docs.python.org/3/c-api/float.html#c.PyFloat_AsDouble
         x[i] = PyFloat_AsDouble(PyList_GetItem(seq, i));
+        if (x[i] == -1.0 && PyErr_Occurred()) {
+            free(x);
+            Py_DECREF(seq);
+            return NULL;
+        }
     }
+    Py_DECREF(seq);
     // libspot API call
     int result = spot_fit(&(self->_spot), x, size);
     // free the buffer
@@ -152,6 +163,7 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
         char buffer[256];
         libspot_error(-result, buffer, 256);
         PyErr_SetString(PyExc_RuntimeError, buffer);
+        return NULL;
     }
     Py_RETURN_NONE;
 }
-- 
2.43.0


From 62e271dd46cf94db16d1b864983095a3305c5d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:02 +0000
Subject: [PATCH 09/12] fix: report the conversion errors in the python methods

---
 python/libspotmodule.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index d665a8d..d6c19a4 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -173,6 +173,9 @@ PyDoc_STRVAR(Spot_step_doc, "step($self, x)\n--\n\n"
 
 static PyObject *Spot_step(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if (z == -1.0 && PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     int result = spot_step(&(self->_spot), z);
@@ -185,6 +188,9 @@ PyDoc_STRVAR(Spot_quantile_doc, "quantile($self, q)\n--\n\n"
 
 static PyObject *Spot_quantile(Spot *self, PyObject *x) {
     double q = PyFloat_AsDouble(x);
+    if (q == -1.0 && PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double z = spot_quantile(&(self->_spot), q);
@@ -198,6 +204,9 @@ PyDoc_STRVAR(Spot_probability_doc,
 
 static PyObject *Spot_probability(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if (z == -1.0 && PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double q = spot_probability(&(self->_spot), z);
-- 
2.43.0


From a3ddb269ead984d484f5ca8a7f189f3e01ebe1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:02 +0000
Subject: [PATCH 10/12] fix: release the python objects when they are
 deallocated

---
 python/libspotmodule.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index d6c19a4..5bc4383 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -265,7 +265,11 @@ static void Spot_dealloc(Spot *self) {
     // free internal structure
     // libspot API call
     spot_free(&(self->_spot));
-    // Py_TYPE(self)->tp_free((PyObject *)self);
+    // release the object (and its reference to the heap type)
+    PyTypeObject *type = Py_TYPE(self);
+    freefunc tp_free = (freefunc)PyType_GetSlot(type, Py_tp_free);
+    tp_free(self);
+    Py_DECREF(type);
 }
 
 static const PyMemberDef Spot_members[] = {
-- 
2.43.0


From 58ec01077f8e542c148ae872280da3aab1d63129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:36 +0000
Subject: [PATCH 11/12] fix: refuse to fit or step a python object that is not
 initialized

---
 python/libspotmodule.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 5bc4383..810f73e 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -47,6 +47,15 @@ static PyObject *excesses(struct Ubend *ubend) {
     return to_python_list(ubend->data, size);
 }
 
+// without a (successful) call to __init__ there is no storage for the excesses
+static int is_initialized(Spot *self) {
+    if (self->_spot.tail.peaks.container.data == NULL) {
+        PyErr_SetString(PyExc_RuntimeError, "The object is not initialized");
+        return 0;
+    }
+    return 1;
+}
+
 //
 // Methods to turn struct into dict
 //
@@ -129,6 +138,10 @@ PyDoc_STRVAR(Spot_fit_doc,
              "on training data");
 
 static PyObject *Spot_fit(Spot *self, PyObject *data) {
+    if (!is_initialized(self)) {
+        return NULL;
+    }
+
     // turn any iterable into a (new) list
     PyObject *seq = PySequence_List(data);
     if (seq == NULL) {
@@ -172,6 +185,10 @@ PyDoc_STRVAR(Spot_step_doc, "step($self, x)\n--\n\n"
                             "Fit-predict step");
 
 static PyObject *Spot_step(Spot *self, PyObject *x) {
+    if (!is_initialized(self)) {
+        return NULL;
+    }
+
     double z = PyFloat_AsDouble(x);
     if (z == -1.0 && PyErr_Occurred()) {
         return NULL;
-- 
2.43.0


From b636cd8188406ed6ff5d540a9dc3b91c9f633f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:36 +0000
Subject: [PATCH 12/12] fix: release the previous storage when a python object
 is initialized again

---
 python/libspotmodule.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 810f73e..fff236e 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -122,14 +122,21 @@ static int Spot_init(Spot *self, PyObject *args, PyObject *kwds) {
         return -1;
 
     // libspot API call
-    int result = spot_init(&(self->_spot), q, low, discard_anomalies, level,
-                           max_excess);
+    struct Spot spot;
+    int result =
+        spot_init(&spot, q, low, discard_anomalies, level, max_excess);
     if (result < 0) {
         char buffer[256];
         libspot_error(-result, buffer, 256);
         PyErr_SetString(PyExc_RuntimeError, buffer);
+        return -1;
+    }
+    // release the storage of a previous initialization
+    if (self->_spot.tail.peaks.container.data) {
+        spot_free(&(self->_spot));
     }
-    return result;
+    self->_spot = spot;
+    return 0;
 }
 
 PyDoc_STRVAR(Spot_fit_doc,
-- 
2.43.0

