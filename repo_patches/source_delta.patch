From 31ff5ab14ed16841e75d5e42ececbe680704bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:51 +0000
Subject: [PATCH 01/25] fix: count array elements with npy_intp, not int

Loop counters and core-dimension counters of type int overflow (undefined
behaviour) once an array dimension reaches 2**31 elements.
---
 src/gendot/gendotmodule.c                        | 8 ++++----
 src/issnan/issnan_ufunc.c.src                    | 2 +-
 src/linear_interp1d/linear_interp1d_gufunc.c.src | 6 +++---
 src/tri_area/tri_area_gufunc.h                   | 2 +-
 src/vnorm/vnorm_gufunc.h                         | 8 ++++----
 tools/cxxgen/generate_ufunc_extmod.py            | 2 +-
 tools/cxxgen/gufuncgen.py                        | 2 +-
 7 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index 9edbc43..534ea9e 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -71,7 +71,7 @@ reduce(PyUFuncGenericFunction *loop_function, void *loop_data,
     loop_steps[0] = stride;
     loop_steps[1] = stride;
     loop_steps[2] = stride;
-    for (int k = 1; k < n; ++k, data += stride) {
+    for (npy_intp k = 1; k < n; ++k, data += stride) {
         loop_args[1] = data;
         ((PyUFuncGenericFunction)loop_function)(loop_args, loop_dimensions, loop_steps, loop_data);
     }
@@ -105,7 +105,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
         if (SUMFUNC_HAS_IDENTITY(data)) {
             // Attempting to apply the reduction to empty sequences.
             // Return the identity element.
-            for (int j = 0; j < nloops; ++j, pout += steps[2]) {
+            for (npy_intp j = 0; j < nloops; ++j, pout += steps[2]) {
                 memcpy(pout, SUMFUNC_IDENTITY_BUFFER(data), itemsize);
             }
             return;
@@ -153,7 +153,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
     if (SUMFUNC_NIN(data) == 2) {
         // sumfunc is an element-wise ufunc with 2 inputs and 1 output.
 
-        for (int j = 0; j < nloops; ++j, px += steps[0],
+        for (npy_intp j = 0; j < nloops; ++j, px += steps[0],
                                          py += steps[1],
                                          pout += steps[2]) {
             prodfunc_args[0] = px;
@@ -175,7 +175,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
         // Note that sumfunc_steps[0] and sumfunc_steps[1] will not actually be
         // used in sumfunc_loop, because sumfunc_dimensions[0] is 1.
 
-        for (int j = 0; j < nloops; ++j, px += steps[0],
+        for (npy_intp j = 0; j < nloops; ++j, px += steps[0],
                                          py += steps[1],
                                          pout += steps[2]) {
             prodfunc_args[0] = px;
diff --git a/src/issnan/issnan_ufunc.c.src b/src/issnan/issnan_ufunc.c.src
index ca75ae8..5c42b6d 100644
--- a/src/issnan/issnan_ufunc.c.src
+++ b/src/issnan/issnan_ufunc.c.src
@@ -87,7 +87,7 @@ static void issnan_@typename@_loop(char **args, const npy_intp *dimensions,
     char *pout = args[1];
     npy_intp n = dimensions[0];
 
-    for (int j = 0; j < n; ++j, px += steps[0], pout += steps[1]) {
+    for (npy_intp j = 0; j < n; ++j, px += steps[0], pout += steps[1]) {
         @ctype@ x = *((@ctype@ *) px);
         *((npy_bool *) pout) = issnan@suffix@(x);
     }
diff --git a/src/linear_interp1d/linear_interp1d_gufunc.c.src b/src/linear_interp1d/linear_interp1d_gufunc.c.src
index 1462f61..63a57d6 100644
--- a/src/linear_interp1d/linear_interp1d_gufunc.c.src
+++ b/src/linear_interp1d/linear_interp1d_gufunc.c.src
@@ -97,7 +97,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         if ((x < left) || (x > right)) {
             // No extrapolation. Output is NAN if x is outside the values
             // given in xp.
-            for (int j = 0; j < nloops; ++j, pout += out_stride) {
+            for (npy_intp j = 0; j < nloops; ++j, pout += out_stride) {
                 *((@ctype@ *) pout) = NPY_NAN;
             }
             return;
@@ -111,7 +111,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
             r = (x - xpk) / (xpk_next - xpk);
         }
 
-        for (int j = 0; j < nloops; ++j, pfp += steps[2], pout += steps[3]) {
+        for (npy_intp j = 0; j < nloops; ++j, pfp += steps[2], pout += steps[3]) {
             @ctype@ fpk = *((@ctype@ *) (pfp + k*fp_stride));
             if (x == xpk) {
                 *((@ctype@ *) pout) = fpk;
@@ -124,7 +124,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         return;
     }
 
-    for (int j = 0; j < nloops; ++j, px += steps[0], pxp += steps[1], pfp += steps[2],
+    for (npy_intp j = 0; j < nloops; ++j, px += steps[0], pxp += steps[1], pfp += steps[2],
                                      pout += out_stride) {
         if (n < 1) {
             *((@ctype@ *) pout) = NPY_NAN;
diff --git a/src/tri_area/tri_area_gufunc.h b/src/tri_area/tri_area_gufunc.h
index af58cfd..cf9ed33 100644
--- a/src/tri_area/tri_area_gufunc.h
+++ b/src/tri_area/tri_area_gufunc.h
@@ -17,7 +17,7 @@ template<typename T>
 static T norm_diff(npy_intp n, T *p_p, const npy_intp p_strides[2], npy_intp i1, npy_intp i2)
 {
     T sumsq = 0.0;
-    for (int k = 0; k < n; ++k) {
+    for (npy_intp k = 0; k < n; ++k) {
         T x1 = get2d(p_p, p_strides, i1, k);
         T x2 = get2d(p_p, p_strides, i2, k);
         T dx = x2 - x1;
diff --git a/src/vnorm/vnorm_gufunc.h b/src/vnorm/vnorm_gufunc.h
index 659c797..567e8d8 100644
--- a/src/vnorm/vnorm_gufunc.h
+++ b/src/vnorm/vnorm_gufunc.h
@@ -75,7 +75,7 @@ static void vnorm_core_calc(
         return;
     }
 
-    for (int k = 0; k < n; ++k) {
+    for (npy_intp k = 0; k < n; ++k) {
         T current_x = get(p_x, x_stride, k);
         U abs_x = my_abs(current_x);
         if (abs_x > maxabsx) {
@@ -87,7 +87,7 @@ static void vnorm_core_calc(
     }
     else {
         U sum = 0;
-        for (int k = 0; k < n; ++k) {
+        for (npy_intp k = 0; k < n; ++k) {
             T current_x = get(p_x, x_stride, k);
             U abs_x = my_abs(current_x);
             if (isinf(order)) {
@@ -208,12 +208,12 @@ static void vdot_core_calc(
     T sum = 0;
     if (x_stride == sizeof(T) && y_stride == sizeof(T)) {
         // Give the compiler a chance to optimize the contiguous case.
-        for (int k = 0; k < n; ++k) {
+        for (npy_intp k = 0; k < n; ++k) {
             sum += p_x[k] * p_y[k];
         }
     }
     else {
-        for (int k = 0; k < n; ++k) {
+        for (npy_intp k = 0; k < n; ++k) {
             T xk = get(p_x, x_stride, k);
             T yk = get(p_y, y_stride, k);
             sum += xk * yk;
diff --git a/tools/cxxgen/generate_ufunc_extmod.py b/tools/cxxgen/generate_ufunc_extmod.py
index 83df409..3e86360 100644
--- a/tools/cxxgen/generate_ufunc_extmod.py
+++ b/tools/cxxgen/generate_ufunc_extmod.py
@@ -222,7 +222,7 @@ def generate_ufunc_extmod(cxxgenpath, extmod, destdir):
                         print(f'    char *px{k} = args[{k}];', file=f)
                     print(f'    char *pout = args[{k+1}];', file=f)
                     print('    npy_intp n = dimensions[0];', file=f)
-                    print('    for (int j = 0; j < n; ++j,', file=f)
+                    print('    for (npy_intp j = 0; j < n; ++j,', file=f)
                     for k in range(nin):
                         print(' '*26, f'px{k} += steps[{k}],', file=f)
                     print(' '*26, f'pout += steps[{k+1}]) {{', file=f)
diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index eda6fe3..15dc084 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -312,7 +312,7 @@ def generate_concrete_loop(name, corename, varnames,
         text.append('\n'.join(dim_asserts))
 
     text.append('')
-    text.append('    for (int j = 0; j < nloops; ++j, ')
+    text.append('    for (npy_intp j = 0; j < nloops; ++j, ')
     for k, varname in enumerate(varnames):
         line = []
         line.append(' '*32)
-- 
2.43.0


From 93d64e2c41b183cb70f653e10b8b6b1ff9e002e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:23 +0000
Subject: [PATCH 02/25] fix: check that bincount indices are less than m
 without a signed conversion

A uint64 value of 2**63 or more became a negative index and bincount and
bincountw wrote outside of the output array.
---
 src/bincount/bincount_gufunc.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bincount/bincount_gufunc.h b/src/bincount/bincount_gufunc.h
index 401b36d..1fd6c9d 100644
--- a/src/bincount/bincount_gufunc.h
+++ b/src/bincount/bincount_gufunc.h
@@ -36,7 +36,7 @@ bincount_core_calc(
         if (out_stride == sizeof(U)) {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
                     p_out[k] += 1;
                 }
             }
@@ -44,7 +44,7 @@ bincount_core_calc(
         else {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
                     set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
                 }
             }
@@ -53,7 +53,7 @@ bincount_core_calc(
     else {
         for (npy_intp i = 0; i < n; ++i) {
             T k = get(p_x, x_stride, i);
-            if (k >= 0 && static_cast<npy_intp>(k) < m) {
+            if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
                 set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
             }
         }
@@ -82,7 +82,7 @@ bincountw_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
             W w = get(p_w, w_stride, i);
             set<W>(p_out, static_cast<ptrdiff_t>(out_stride),
                    static_cast<ptrdiff_t>(k),
@@ -130,7 +130,7 @@ bincountw_complex_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
             W w = get(p_w, w_stride, i);
             W *p = (W *)((char *)p_out + k*out_stride);
             npy_complex_add_inplace(p, w);
-- 
2.43.0


From cd48dbb701e56ad41bbd40aafa6678ecdf9e2629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:23 +0000
Subject: [PATCH 03/25] fix: ordered compares consecutive elements of object
 arrays, and NaN is not ordered

The object loop compared every element with the first one, and it passed an
invalid op code to PyObject_RichCompareBool.  The floating point loops
reported arrays containing nan as ordered.
---
 src/ordered/ordered_gufunc.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index 5dc8515..c2e8e57 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -29,7 +29,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 >= x2) {
+            if (!(x1 < x2)) {
                 return false;
             }
             x1 = x2;
@@ -39,7 +39,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 > x2) {
+            if (!(x1 <= x2)) {
                 return false;
             }
             x1 = x2;
@@ -69,7 +69,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 <= x2) {
+            if (!(x1 > x2)) {
                 return false;
             }
             x1 = x2;
@@ -80,7 +80,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 < x2) {
+            if (!(x1 >= x2)) {
                 return false;
             }
             x1 = x2;
@@ -130,6 +130,11 @@ static void ordered_core_object(
         npy_bool *p_out     // pointer to out
 ) {
     int op = *p_op;
+
+    if (op < LT || op > GE) {
+        // As in ordered_core(), an unknown code means GE.
+        op = GE;
+    }
     *p_out = true;
     if (n > 1) {
         PyObject *x1 = *p_x;
@@ -143,6 +148,7 @@ static void ordered_core_object(
                 *p_out = false;
                 break;
             }
+            x1 = x2;
         }
     }
 }
-- 
2.43.0


From fa4b4026f0cad69b0cc3585e9f594dd62dfbacc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:42 +0000
Subject: [PATCH 04/25] fix: compute the unsigned peak-to-peak value without
 signed overflow

---
 src/peaktopeak/peaktopeak_gufunc.c.src | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/peaktopeak/peaktopeak_gufunc.c.src b/src/peaktopeak/peaktopeak_gufunc.c.src
index 31ddbfa..cdca8d5 100644
--- a/src/peaktopeak/peaktopeak_gufunc.c.src
+++ b/src/peaktopeak/peaktopeak_gufunc.c.src
@@ -30,12 +30,8 @@
 
 #if @is_signed_int@
 static inline @ctype_out@ max_diff_@typename@(@ctype_in@ xmax, @ctype_in@ xmin) {
-    if ((xmax > 0 && xmin > 0) || (xmax <= 0 && xmin <= 0)) {
-        return xmax - xmin;
-    }
-    else {
-        return xmax + (@ctype_out@) (-xmin);
-    }
+    // Signed subtraction (or negation of xmin) could overflow.
+    return (@ctype_out@) xmax - (@ctype_out@) xmin;
 }
 #endif
 
-- 
2.43.0


From ee6eebd8b2528cdb1e0567c680987d5152c25fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:42 +0000
Subject: [PATCH 05/25] fix: percentileofscore always writes its output

An invalid kind left the output element uninitialized, and a kind outside
the range of int was truncated to a valid one.
---
 src/percentileofscore/percentileofscore_gufunc.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/percentileofscore/percentileofscore_gufunc.h b/src/percentileofscore/percentileofscore_gufunc.h
index 1fab4fa..9215e72 100644
--- a/src/percentileofscore/percentileofscore_gufunc.h
+++ b/src/percentileofscore/percentileofscore_gufunc.h
@@ -7,6 +7,7 @@
 
 #define NPY_NO_DEPRECATED_API NPY_API_VERSION
 #include "numpy/ndarraytypes.h"
+#include "numpy/npy_math.h"
 
 #include "../src/util/strided.hpp"
 
@@ -64,7 +65,7 @@ percentileofscore_core_calc(
 
     count(n, p_x, x_stride, *p_score, &nless, &nequal, &ngreater);
 
-    switch (static_cast<int>(*p_kind)) {
+    switch (*p_kind) {
         case RANK:
             sum = 2*nless + nequal;
             if (nequal > 0) {
@@ -81,6 +82,10 @@ percentileofscore_core_calc(
         case MEAN:
             *p_out = (2*nless + nequal)*50.0/n;
             return;
+        default:
+            // Not a valid kind.
+            *p_out = NPY_NAN;
+            return;
     }
 }
 
-- 
2.43.0


From 0fccc66d8689fece865a4efdeedc887a716668b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:42 +0000
Subject: [PATCH 06/25] fix: convert_to_base with base 0, or the smallest
 integer with base -1, crashed

The integer division raised SIGFPE.  The digits are now 0.
---
 src/convert_to_base/convert_to_base_gufunc.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/convert_to_base/convert_to_base_gufunc.h b/src/convert_to_base/convert_to_base_gufunc.h
index 2ef4a74..30872b0 100644
--- a/src/convert_to_base/convert_to_base_gufunc.h
+++ b/src/convert_to_base/convert_to_base_gufunc.h
@@ -4,6 +4,8 @@
 #define PY_SSIZE_T_CLEAN
 #include "Python.h"
 
+#include <type_traits>
+
 #define NPY_NO_DEPRECATED_API NPY_API_VERSION
 #include "numpy/ndarraytypes.h"
 
@@ -20,6 +22,14 @@ static void convert_to_base_core_calc(
 {
     T k = *p_k;
     T base = *p_base;
+    if (base == 0 || (std::is_signed<T>::value && base == static_cast<T>(-1))) {
+        // Avoid the undefined k % 0 and k / 0, and the overflow of the most
+        // negative value divided by -1.  k % -1 is 0 for all k.
+        for (npy_intp i = 0; i < n; ++i) {
+            set(p_out, out_stride, i, static_cast<T>(0));
+        }
+        return;
+    }
     for (npy_intp i = 0; i < n; ++i) {
         set(p_out, out_stride, i, static_cast<T>(k % base));
         k = k / base;
-- 
2.43.0


From f5fccaafe757475649710331a911f2d90766898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:02 +0000
Subject: [PATCH 07/25] fix: release the objects that object outputs held
 before overwriting them

---
 src/cross/cross_gufunc.h               | 8 ++++++++
 src/first/first_gufunc.h               | 2 ++
 src/minmax/minmax_gufunc.h             | 8 ++++++++
 src/peaktopeak/peaktopeak_gufunc.c.src | 2 ++
 4 files changed, 20 insertions(+)

diff --git a/src/cross/cross_gufunc.h b/src/cross/cross_gufunc.h
index 77eb24f..54b8f2f 100644
--- a/src/cross/cross_gufunc.h
+++ b/src/cross/cross_gufunc.h
@@ -106,9 +106,15 @@ cross3_core_calc_object(
         return;
     }
 
+    PyObject *old0 = get(p_out, out_stride, 0);
+    PyObject *old1 = get(p_out, out_stride, 1);
+    PyObject *old2 = get(p_out, out_stride, 2);
     set(p_out, out_stride, 0, out0);
     set(p_out, out_stride, 1, out1);
     set(p_out, out_stride, 2, out2);
+    Py_XDECREF(old0);
+    Py_XDECREF(old1);
+    Py_XDECREF(old2);
 }
 
 //
@@ -156,7 +162,9 @@ cross2_core_calc_object(
     if (out == NULL) {
         return;
     }
+    PyObject *old = p_out[0];
     p_out[0] = out;
+    Py_XDECREF(old);
 }
 
 #endif  // UFUNCLAB_CROSS_GUFUNC_H
diff --git a/src/first/first_gufunc.h b/src/first/first_gufunc.h
index d4e9ac5..53517d4 100644
--- a/src/first/first_gufunc.h
+++ b/src/first/first_gufunc.h
@@ -171,8 +171,10 @@ first_core_calc_object(
             }
         }
     }
+    PyObject *old = *p_out;
     Py_XINCREF(result);
     *p_out = result;
+    Py_XDECREF(old);
 }
 
 
diff --git a/src/minmax/minmax_gufunc.h b/src/minmax/minmax_gufunc.h
index 48e6815..7641a6d 100644
--- a/src/minmax/minmax_gufunc.h
+++ b/src/minmax/minmax_gufunc.h
@@ -66,10 +66,14 @@ static void minmax_object_core(
             }
         }
     }
+    PyObject *old_min = *p_out;
+    PyObject *old_max = get(p_out, out_stride, 1);
     Py_INCREF(xmin);
     Py_INCREF(xmax);
     *p_out = xmin;
     set(p_out, out_stride, 1, xmax);
+    Py_XDECREF(old_min);
+    Py_XDECREF(old_max);
 }
 
 
@@ -282,9 +286,11 @@ static void min_argmin_object_core(
             xmin_index = k;
         }
     }
+    PyObject *old = *p_out1;
     Py_INCREF(xmin);
     *p_out1 = xmin;
     *p_out2 = xmin_index;
+    Py_XDECREF(old);
 }
 
 
@@ -333,9 +339,11 @@ static void max_argmax_object_core(
             xmax_index = k;
         }
     }
+    PyObject *old = *p_out1;
     Py_INCREF(xmax);
     *p_out1 = xmax;
     *p_out2 = xmax_index;
+    Py_XDECREF(old);
 }
 
 #endif  // UFUNCLAB_MINMAX_GUFUNC_H
diff --git a/src/peaktopeak/peaktopeak_gufunc.c.src b/src/peaktopeak/peaktopeak_gufunc.c.src
index cdca8d5..832e372 100644
--- a/src/peaktopeak/peaktopeak_gufunc.c.src
+++ b/src/peaktopeak/peaktopeak_gufunc.c.src
@@ -223,7 +223,9 @@ static void peaktopeak_object_loop(char **args, const npy_intp *dimensions,
         if (diff == NULL) {
             return;
         }
+        PyObject *old = *((PyObject **) out);
         *((PyObject **) out) = diff;
+        Py_XDECREF(old);
     }
 }
 
-- 
2.43.0


From 5f7c839cafa91f45b89b91a6473f771498051f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:43 +0000
Subject: [PATCH 08/25] fix: stop an object loop when an element operation has
 raised an exception

---
 tools/cxxgen/gufuncgen.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index 15dc084..2631703 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -356,6 +356,13 @@ def generate_concrete_loop(name, corename, varnames,
             line.append(', ')
         text.append(''.join(line))
 
+    if typechar_to_npy_ctype('O') in var_ctypes:
+        # The core function can't return an error status.  Don't call it
+        # again with an exception set.
+        text.append('        if (PyErr_Occurred()) {')
+        text.append('            return;')
+        text.append('        }')
+
     text.append('    }')
 
     text.append('}')
-- 
2.43.0


From 8d4fc8a670dc617004df630f6bf0e3769435edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:26 +0000
Subject: [PATCH 09/25] fix: kbnsum honours the stride of x after an infinity

---
 src/kbnsum/kbnsum_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kbnsum/kbnsum_gufunc.h b/src/kbnsum/kbnsum_gufunc.h
index 83b95a2..77bd721 100644
--- a/src/kbnsum/kbnsum_gufunc.h
+++ b/src/kbnsum/kbnsum_gufunc.h
@@ -121,7 +121,7 @@ static void kbnsum_core_calc(
         }
         if (std::isinf(xk)) {
             for (npy_intp j = k + 1; j < n; ++j) {
-                T y = p_x[j];
+                T y = get(p_x, x_stride, j);
                 if (std::isnan(xk + y)) {
                     p_out[0] = std::numeric_limits<T>::quiet_NaN();
                     return;
-- 
2.43.0


From defa025ab599c80beaad3317ddae7d5be07d7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:14 +0000
Subject: [PATCH 10/25] fix: unwrap did not convert large or non-finite period
 counts correctly

The number of periods was converted to int, which is undefined when it is
large, infinite or nan; with x[0] = nan the rest of the output was garbage.
---
 src/unwrap/unwrap_gufunc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unwrap/unwrap_gufunc.h b/src/unwrap/unwrap_gufunc.h
index 37c59b8..d77addd 100644
--- a/src/unwrap/unwrap_gufunc.h
+++ b/src/unwrap/unwrap_gufunc.h
@@ -19,7 +19,7 @@ template<typename T>
 T unwrap1(T x0, T x1, T period)
 {
     T delta = x1 - x0;
-    int q = static_cast<int>(delta/period + std::copysign(0.5, delta));
+    T q = static_cast<T>(std::trunc(delta/period + std::copysign(0.5, delta)));
     return x1 - q * period;
 }
 
@@ -43,7 +43,7 @@ unwrap_core(
     p_out[0] = x0;
     for (npy_intp k = 1; k < n; ++k) {
         T x1 = get(p_x, x_stride, k);
-        if (!std::isfinite(x1)) {
+        if (!std::isfinite(x0) || !std::isfinite(x1)) {
             // inf or nan; output from here onwards is nan.
             for (npy_intp k1 = k; k1 < n; ++k1) {
                 set(p_out, out_stride, k1, static_cast<T>(NPY_NAN));
-- 
2.43.0


From 7a9bbc81ea1ebff5d1fd3dae3a4f1c6c92fea6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:15 +0000
Subject: [PATCH 11/25] fix: tri_area of a degenerate triangle is 0, not nan,
 when rounding makes a factor negative

---
 src/tri_area/tri_area_gufunc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tri_area/tri_area_gufunc.h b/src/tri_area/tri_area_gufunc.h
index cf9ed33..fc831d8 100644
--- a/src/tri_area/tri_area_gufunc.h
+++ b/src/tri_area/tri_area_gufunc.h
@@ -70,7 +70,8 @@ tri_area_common_calc(
     //   https://people.eecs.berkeley.edu/~wkahan/Triangle.pdf
     //
     T f1 = a + (b + c);
-    T f2 = (c - (a - b));
+    // Rounding can make this factor of a degenerate triangle negative.
+    T f2 = std::max(c - (a - b), static_cast<T>(0));
     T f3 = (c + (a - b));
     T f4 = (a + (b - c));
     *p_out = std::sqrt(f1*f2*f3*f4)/4;
-- 
2.43.0


From 4c763124302d69acea5c7db99d00db79a9234e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:15 +0000
Subject: [PATCH 12/25] fix: vnorm of an array that contains nan is nan, and
 inf is inf

---
 src/vnorm/vnorm_gufunc.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vnorm/vnorm_gufunc.h b/src/vnorm/vnorm_gufunc.h
index 567e8d8..1bdd235 100644
--- a/src/vnorm/vnorm_gufunc.h
+++ b/src/vnorm/vnorm_gufunc.h
@@ -78,12 +78,16 @@ static void vnorm_core_calc(
     for (npy_intp k = 0; k < n; ++k) {
         T current_x = get(p_x, x_stride, k);
         U abs_x = my_abs(current_x);
+        if (std::isnan(abs_x)) {
+            p_out[0] = abs_x;
+            return;
+        }
         if (abs_x > maxabsx) {
             maxabsx = abs_x;
         }
     }
-    if (maxabsx == 0) {
-        p_out[0] = 0;
+    if (maxabsx == 0 || std::isinf(maxabsx)) {
+        p_out[0] = maxabsx;
     }
     else {
         U sum = 0;
-- 
2.43.0


From d01db9d51f1f2075c2290045de49c5a81b6e91b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:40 +0000
Subject: [PATCH 13/25] fix: sosfilter with no sections did not write its
 output

---
 src/sosfilter/sosfilter_gufunc.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sosfilter/sosfilter_gufunc.h b/src/sosfilter/sosfilter_gufunc.h
index 69877cc..8c658e9 100644
--- a/src/sosfilter/sosfilter_gufunc.h
+++ b/src/sosfilter/sosfilter_gufunc.h
@@ -44,7 +44,6 @@ static void sosfilter_ic_core(
 
                 // y[i] = sos[k, 0]*xi + zf[k, 0];
                 T yi = get2d(p_sos, sos_strides, k, 0) * xi + get2d(p_zf, zf_strides, k, 0);
-                p_y[i] = yi;
 
                 // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*y[i];
                 T tmp1 = get2d(p_zf, zf_strides, k, 1) + get2d(p_sos, sos_strides, k, 1)*xi
@@ -57,6 +56,7 @@ static void sosfilter_ic_core(
 
                 xi = yi;
             }
+            p_y[i] = xi;
         }
     }
     else {
@@ -66,7 +66,6 @@ static void sosfilter_ic_core(
 
                 // y[i] = sos[k, 0]*xi + zf[k, 0];
                 T yi = get2d(p_sos, sos_strides, k, 0) * xi +get2d(p_zf, zf_strides, k, 0);
-                set(p_y, y_stride, i, yi);
 
                 // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*y[i];
                 T tmp1 = get2d(p_zf, zf_strides, k, 1) + get2d(p_sos, sos_strides, k, 1)*xi
@@ -79,6 +78,7 @@ static void sosfilter_ic_core(
 
                 xi = yi;
             }
+            set(p_y, y_stride, i, xi);
         }
     }
 }
@@ -114,7 +114,6 @@ static void sosfilter_ic_contig_core(
 
             // y[i] = sos[k, 0]*xi + zf[k, 0];
             T yi = (*(p_sos + 6*k))*xi + (*(p_zf + 2*k));
-            p_y[i] = yi;
 
             // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*y[i];
             *(p_zf + 2*k) = (*(p_zf + 2*k + 1)) + (*(p_sos + 6*k + 1))*xi - (*(p_sos + 6*k + 4))*yi;
@@ -124,6 +123,7 @@ static void sosfilter_ic_contig_core(
 
             xi = yi;
         }
+        p_y[i] = xi;
     }
 }
 
-- 
2.43.0


From da81189bad589bf44f6e480f88fcea781eb02ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:40 +0000
Subject: [PATCH 14/25] fix: linear_interp1d read beyond the arrays when they
 have fewer than two elements

---
 src/linear_interp1d/linear_interp1d_gufunc.c.src | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/linear_interp1d/linear_interp1d_gufunc.c.src b/src/linear_interp1d/linear_interp1d_gufunc.c.src
index 63a57d6..a1b48d3 100644
--- a/src/linear_interp1d/linear_interp1d_gufunc.c.src
+++ b/src/linear_interp1d/linear_interp1d_gufunc.c.src
@@ -90,11 +90,17 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
     npy_intp fp_stride = steps[5];
 
     if ((steps[0] == 0) && (steps[1] == 0)) {
+        if (n < 1) {
+            for (npy_intp j = 0; j < nloops; ++j, pout += out_stride) {
+                *((@ctype@ *) pout) = NPY_NAN;
+            }
+            return;
+        }
         @ctype@ x = *((@ctype@ *) px);
 
         @ctype@ left = *((@ctype@ *) pxp);
         @ctype@ right = *((@ctype@ *) (pxp + (n - 1)*xp_stride));
-        if ((x < left) || (x > right)) {
+        if (!((x >= left) && (x <= right))) {
             // No extrapolation. Output is NAN if x is outside the values
             // given in xp.
             for (npy_intp j = 0; j < nloops; ++j, pout += out_stride) {
@@ -133,7 +139,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         @ctype@ x = *((@ctype@ *) px);
         @ctype@ left = *((@ctype@ *) pxp);
         @ctype@ right = *((@ctype@ *) (pxp + (n - 1)*xp_stride));
-        if ((x < left) || (x > right)) {
+        if (!((x >= left) && (x <= right))) {
             // No extrapolation. Output is NAN if x is outside the values
             // given in xp.
             *((@ctype@ *) pout) = NPY_NAN;
-- 
2.43.0


From 8ade3d961b1cf6f32781a6ee37ed52867918d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:20 +0000
Subject: [PATCH 15/25] fix: mad: n*n overflows npy_intp for long arrays

---
 src/mad/mad_gufunc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mad/mad_gufunc.h b/src/mad/mad_gufunc.h
index 25e975b..c7e157e 100644
--- a/src/mad/mad_gufunc.h
+++ b/src/mad/mad_gufunc.h
@@ -91,7 +91,8 @@ static void mad_core(
         *p_out = 2*sum/n/(n-1);
     }
     else {
-        *p_out = 2*sum/(n*n);
+        // Convert before multiplying: n*n overflows npy_intp for very long arrays.
+        *p_out = 2*sum/((T) n * (T) n);
     }
 }
 
-- 
2.43.0


From 9b222d6b4d5cd5edfc05ad35565ab94ccb86eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:20 +0000
Subject: [PATCH 16/25] fix: expint1: do not convert nan to int

---
 src/expint1/expint1.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expint1/expint1.h b/src/expint1/expint1.h
index 8c11532..e8063f3 100644
--- a/src/expint1/expint1.h
+++ b/src/expint1/expint1.h
@@ -72,7 +72,9 @@ static T expint1_t(T x)
 template<typename T>
 T expint1(T x)
 {
-    if (x < 0.0) {
+    // In expint1_t(x), a quotient that involves x is converted to int,
+    // which is undefined for nan, so nan must not get there.
+    if (std::isnan(x) || x < 0.0) {
         return std::numeric_limits<T>::quiet_NaN();
     }
     if (x == 0) {
-- 
2.43.0


From 87d0ca7344cecec59e2562d2c239b9817f22fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:39 +0000
Subject: [PATCH 17/25] fix: erfcx: do not convert nan to int

---
 src/normal/erfcx_funcs.cxx        | 9 +++++++++
 src/normal/generate_erfcx_code.py | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/src/normal/erfcx_funcs.cxx b/src/normal/erfcx_funcs.cxx
index b544cf7..af3f91f 100644
--- a/src/normal/erfcx_funcs.cxx
+++ b/src/normal/erfcx_funcs.cxx
@@ -634,6 +634,9 @@ erfcx_y100(float y100)
 float
 erfcx(float x)
 {
+    if (std::isnan(x)) {
+        return x;
+    }
     if (x > 0.0f) {
         if (x > 5.0f) {
             // Use the truncated continued fraction expansion.
@@ -1576,6 +1579,9 @@ erfcx_y100(double y100)
 double
 erfcx(double x)
 {
+    if (std::isnan(x)) {
+        return x;
+    }
     if (x > 0.0) {
         if (x > 50.0) {
             // Use the truncated continued fraction expansion.
@@ -2618,6 +2624,9 @@ erfcx_y100(long double y100)
 long double
 erfcx(long double x)
 {
+    if (std::isnan(x)) {
+        return x;
+    }
     if (x > 0.0L) {
         if (x > 100.0L) {
             // Use the truncated continued fraction expansion.
diff --git a/src/normal/generate_erfcx_code.py b/src/normal/generate_erfcx_code.py
index 23de116..e1c39fa 100644
--- a/src/normal/generate_erfcx_code.py
+++ b/src/normal/generate_erfcx_code.py
@@ -121,6 +121,9 @@ _erfcx_body = """
 {type_str}
 erfcx({type_str} x)
 {{
+    if (std::isnan(x)) {{
+        return x;
+    }}
     if (x > 0.0{sfx}) {{
         if (x > {cfbound}{sfx}) {{
             // Use the truncated continued fraction expansion.
-- 
2.43.0


From 68e699c15f05d671c5623f0570cd34f9f8ce9a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:27 +0000
Subject: [PATCH 18/25] fix: bincount: default m overflowed when max(x) is the
 largest value of its type

---
 ufunclab/_wrapped.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 6ea4f82..b9dd7de 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -161,7 +161,8 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     if x.dtype.char not in np.typecodes['AllInteger']:
         raise ValueError('x must be an integer array.')
     if m is None:
-        m = max(np.max(x) + 1, 0)
+        # Convert to a Python int to avoid overflow in the dtype of x.
+        m = max(int(np.max(x)) + 1, 0)
     else:
         try:
             m = operator.index(m)
-- 
2.43.0


From daf3bb343430d1eb2db3608f37c2e3d7f963c1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:45 +0000
Subject: [PATCH 19/25] fix: one_hot: unsigned integer arrays raised
 UFuncTypeError

---
 ufunclab/_wrapped.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index b9dd7de..da472ed 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -373,7 +373,11 @@ def one_hot(k, n, *, out=None, axis=-1):
                              f'got {out.shape}.')
     else:
         out = np.empty(out_shape, dtype=k.dtype)
-    return _one_hot(k, out=out, axis=axis)
+    # The gufunc has just one loop, for intp.  With casting='unsafe', k can
+    # have any integer type, and so can the output.  (An index too big for
+    # intp becomes negative, so it is still an index that is out of range.)
+    return _one_hot(k, out=out, axis=axis, signature=(np.intp, np.intp),
+                    casting='unsafe')
 
 
 one_hot.gufunc = _one_hot
-- 
2.43.0


From dad7265ca48ab08cd673334a84713fdfb4985814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:33 +0000
Subject: [PATCH 20/25] fix: bincount: result was garbage when out or float16
 weights needed a cast

---
 ufunclab/_wrapped.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index da472ed..23a5e84 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -44,6 +44,22 @@ def bad_integer_error(name, value):
     return ValueError(f"{name} must be an integer; got {value!r}")
 
 
+def _accumulate(gufunc, args, out, dtype, axes):
+    """
+    Call gufunc(*args), adding the result to out.
+
+    The gufunc reads the values of its output array.  If out is not a native,
+    aligned array with the type of the loop, then NumPy gives the loop an
+    uninitialized temporary array, so the cast has to be done here.
+    """
+    dtype = dtype.newbyteorder('=')
+    if out.dtype == dtype and out.flags.aligned:
+        return gufunc(*args, out=out, axes=axes)
+    counts = np.zeros(out.shape, dtype=dtype)
+    gufunc(*args, out=counts, axes=axes)
+    return np.add(out, counts, out=out, casting='same_kind')
+
+
 def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     """
     Count the number of occurrences of the positive integers in the 1-d
@@ -186,7 +202,11 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
         else:
             out = np.zeros(out_shape, dtype=weights.dtype)
 
-        return _bincountw(x, weights, out=out, axes=[axis, axis, axis])
+        # There is no loop for float16; the loop for float32 is used.
+        dtype = (np.dtype(np.float32) if weights.dtype.char == 'e'
+                 else weights.dtype)
+        return _accumulate(_bincountw, (x, weights), out, dtype,
+                           axes=[axis, axis, axis])
     else:
         x_shape = x.shape
         adjusted_axis = _normalize_axis(x.ndim, axis)
@@ -200,7 +220,8 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
         else:
             out = np.zeros(out_shape, dtype=np.intp)
 
-        return _bincount(x, out=out, axes=[axis, axis])
+        return _accumulate(_bincount, (x,), out, np.dtype(np.intp),
+                           axes=[axis, axis])
 
 
 bincount._bincount = _bincount
-- 
2.43.0


From b2c9bb061028078c5d04665abe98347478c22464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:07 +0000
Subject: [PATCH 21/25] fix: gendot: heap overflow when the input and output
 types of sumfunc differ

---
 src/gendot/gendotmodule.c | 14 ++++++++++----
 ufunclab/_gendot_wrap.py  |  5 ++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index 534ea9e..2062956 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -15,6 +15,7 @@
 typedef struct gendot_data_t {
     PyUFuncGenericFunction *prodfunc_loop;
     void *prodfunc_loop_data;
+    npy_intp prodfunc_out_itemsize; // size of the input of sumfunc_loop
     PyUFuncGenericFunction *sumfunc_loop;
     void *sumfunc_loop_data;
     npy_intp sumfunc_loop_itemsize;
@@ -27,6 +28,7 @@ typedef struct gendot_data_t {
 
 #define PRODFUNC_LOOP(p)            (((gendot_data_t *)(p))->prodfunc_loop)
 #define PRODFUNC_LOOP_DATA(p)       (((gendot_data_t *)(p))->prodfunc_loop_data)
+#define PRODFUNC_OUT_ITEMSIZE(p)    (((gendot_data_t *)(p))->prodfunc_out_itemsize)
 #define SUMFUNC_LOOP(p)             (((gendot_data_t *)(p))->sumfunc_loop)
 #define SUMFUNC_LOOP_DATA(p)        (((gendot_data_t *)(p))->sumfunc_loop_data)
 #define SUMFUNC_LOOP_ITEMSIZE(p)    (((gendot_data_t *)(p))->sumfunc_loop_itemsize)
@@ -99,14 +101,17 @@ gendot_loop(char **args, const npy_intp *dimensions,
     npy_intp prodfunc_dimensions[3];
     npy_intp prodfunc_steps[3];
 
-    size_t itemsize = SUMFUNC_LOOP_ITEMSIZE(data);
+    // Size of the items in the temporary array.  If sumfunc is an
+    // element-wise ufunc, it is also the size of an item of the output.
+    size_t itemsize = PRODFUNC_OUT_ITEMSIZE(data);
 
     if (dimensions[1] == 0) {
         if (SUMFUNC_HAS_IDENTITY(data)) {
             // Attempting to apply the reduction to empty sequences.
             // Return the identity element.
             for (npy_intp j = 0; j < nloops; ++j, pout += steps[2]) {
-                memcpy(pout, SUMFUNC_IDENTITY_BUFFER(data), itemsize);
+                memcpy(pout, SUMFUNC_IDENTITY_BUFFER(data),
+                       SUMFUNC_LOOP_ITEMSIZE(data));
             }
             return;
         }
@@ -315,11 +320,12 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
         gendot_data[i].sumfunc_loop = (PyUFuncGenericFunction *) sumfunc->functions[sum_index];
         gendot_data[i].sumfunc_loop_data = sumfunc->data[sum_index];
         gendot_data[i].sumfunc_nin = (npy_intp) sumfunc->nin;
-        gendot_data[i].sumfunc_loop_itemsize = gendot_itemsizes[i];
+        gendot_data[i].prodfunc_out_itemsize = gendot_itemsizes[2*i];
+        gendot_data[i].sumfunc_loop_itemsize = gendot_itemsizes[2*i + 1];
         gendot_data[i].sumfunc_has_identity = (npy_intp) sumfunc_has_identity;
         memcpy(gendot_data[i].sumfunc_identity_buffer,
                sumfunc_identity_data + 32*i,  // FIXME: hard-coded constant 32 :(
-               gendot_itemsizes[i]);
+               gendot_itemsizes[2*i + 1]);
 
         gendot_data_ptrs[i] = &gendot_data[i];
     }
diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index 93db795..74a9a1d 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -173,7 +173,10 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
                 dot_types.append((prod_type, sum_type))
     typechars = [prod_type[:2] + sum_type[-1]
                  for prod_type, sum_type in dot_types]
-    itemsizes = np.array([np.dtype(c[-1]).itemsize for c in typechars],
+    # For each loop, the sizes of the outputs of prodfunc and sumfunc.
+    itemsizes = np.array([[np.dtype(prod_type[-1]).itemsize,
+                           np.dtype(sum_type[-1]).itemsize]
+                          for prod_type, sum_type in dot_types],
                          dtype=np.intp)  # Actually, np.uint8 would be OK.
 
     typecodes = np.array([[reverse_typedict[np.dtype(c).type] for c in chars]
-- 
2.43.0


From 6ce85b8e68113d6a195c64b38cd7f20b30303255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:10 +0000
Subject: [PATCH 22/25] fix: gendot: do not reduce with loops whose output type
 is not the input type

---
 ufunclab/_gendot_wrap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index 74a9a1d..0362a93 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -167,7 +167,11 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
             continue
         prod_outtype = prod_type.replace(' ', '')[-1]
         for j, sum_type in enumerate(sumfunc.types):
-            sum_intype = sum_type.replace(' ', '').split('->')[0]
+            sum_intype, sum_outtype = sum_type.replace(' ', '').split('->')
+            if sumfunc.nin == 2 and sum_intype != 2*sum_outtype:
+                # This loop can't be used for a reduction: its output is
+                # not an input of the next step (e.g. 'dd->?').
+                continue
             if sum_intype == sumfunc.nin*prod_outtype:
                 loop_indices.append((i, j))
                 dot_types.append((prod_type, sum_type))
-- 
2.43.0


From a05b5d94f1b95bab5a0e48023758e86486a67226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:37 +0000
Subject: [PATCH 23/25] fix: gendot: OverflowError for the identity of
 np.bitwise_and

---
 ufunclab/_gendot_wrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index 0362a93..5642984 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -195,7 +195,8 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
     if sumfunc.identity is not None:
         sumfunc_has_identity = True
         for k, tc in enumerate(typechars):
-            identity = np.dtype(tc[-1]).type(sumfunc.identity)
+            # The cast handles -1, the identity of np.bitwise_and.
+            identity = np.array(sumfunc.identity).astype(tc[-1])[()]
             size = identity.itemsize
             identity_bytes = identity.view(np.dtype(('B', (size,))))
             sumfunc_identity_array[k, :size] = identity_bytes
-- 
2.43.0


From 99af82941da09e1bc321272a30b633fe37feaae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:53 +0000
Subject: [PATCH 24/25] fix: gmean, gmeanw: -inf is negative, so the mean is
 nan, not inf

---
 src/means/means_gufunc.c.src | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 149457a..6199788 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -57,7 +57,7 @@
             has_nan = true;
             break;
         }
-        else if (isinf(x)) {
+        else if (isinf(x) && x > 0) {
             has_inf = true;
         }
         else if (x == 0) {
@@ -137,7 +137,7 @@ static void gmean_@typename@_loop(char **args, const npy_intp *dimensions,
             has_nan = true;
             break;
         }
-        else if (isinf(x)) {
+        else if (isinf(x) && x > 0) {
             has_inf = true;
         }
         else if (x == 0) {
-- 
2.43.0


From b71eef8d367d9e8c8fb7a7de078741fd877dfe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:53 +0000
Subject: [PATCH 25/25] fix: pmean, pmeanw: long double means were computed
 with the double pow

---
 src/means/means_gufunc.c.src | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 6199788..c960813 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -413,9 +413,9 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
         @ctype_out@ scale = (p > 0) ? xmax : xmin;
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
             @ctype_in@ x = *(@ctype_in@ *)inner;
-            sum += pow(x/scale, p);
+            sum += pow@funcsuffix@(x/scale, p);
         }
-        *(@ctype_out@ *) out = scale*pow(sum/dimensions[1], 1/p);
+        *(@ctype_out@ *) out = scale*pow@funcsuffix@(sum/dimensions[1], 1/p);
     }
 }
 
@@ -562,9 +562,9 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             @ctype_in@ x = *(@ctype_in@ *) inner0;
             @ctype_in@ w = *(@ctype_in@ *) inner1;
             sumw += w;
-            sum += w*pow(x/scale, p);
+            sum += w*pow@funcsuffix@(x/scale, p);
         }
-        *(@ctype_out@ *) out = scale*pow(sum/sumw, 1/p);
+        *(@ctype_out@ *) out = scale*pow@funcsuffix@(sum/sumw, 1/p);
     }
 }
 
-- 
2.43.0

