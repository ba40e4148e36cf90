From a33e815191939b585d4e25d207e8e83552406090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 01/50] fix: evaluate an array of times at a single location

---
 eoxmagmod/eoxmagmod/magnetic_model/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/util.py b/eoxmagmod/eoxmagmod/magnetic_model/util.py
index 2c93a9b..27467e0 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/util.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/util.py
@@ -80,7 +80,7 @@ def reshape_times_and_coordinates(time, coords):
             strides=(
                 *coords.strides[:-1],
                 *((0,) * (ndim_result - ndim_common)),
-                coords.ndim[-1]
+                coords.strides[-1]
             )
         )
 
-- 
2.43.0


From 7448f338805659bf2bd4b8a7476d7696449d7e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 02/50] fix: evaluate non-contiguous location arrays correctly

---
 eoxmagmod/eoxmagmod/pymm_sheval.h     | 2 +-
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 2 +-
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 545a245..d83474a 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -189,7 +189,7 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     // cast the objects to arrays
-    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[0])))
+    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_IN_ARRAY, keywords[0])))
         goto exit;
 
     if (NULL == (arr_coef = _get_as_double_array(obj_coef, 2, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_IN_ARRAY, keywords[1])))
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index fb330da..0933e37 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -204,7 +204,7 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_t2 = _get_as_double_array(obj_t2, 0, 0, NPY_ARRAY_ALIGNED, keywords[1])))
         goto exit;
 
-    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[2])))
+    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_IN_ARRAY, keywords[2])))
         goto exit;
 
     // check the arrays' dimensions
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 3c16fdd..a4be7ec 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -250,7 +250,7 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_t = _get_as_double_array(obj_t, 0, 0, NPY_ARRAY_ALIGNED, keywords[0])))
         goto exit;
 
-    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[1])))
+    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_IN_ARRAY, keywords[1])))
         goto exit;
 
     if (degree < 0)
-- 
2.43.0


From 696611ca6088ca090df23809536b79ccb9f5b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 03/50] fix: reject sheval locations which do not have three
 components

---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index d83474a..a7d0873 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -195,6 +195,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_coef = _get_as_double_array(obj_coef, 2, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_IN_ARRAY, keywords[1])))
         goto exit;
 
+    // check the last dimension of the position array
+    if (_check_array_dim_eq(arr_x, -1, 3, keywords[0]))
+        goto exit;
+
     // extract degree from the array dimensions
     { 
         const int ndegrees = 1;
@@ -295,10 +299,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     // handle the gradient scale factors
     if (NULL != obj_scale)
     {
-        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[9])))
+        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[8])))
             goto exit;
 
-        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[9]))
+        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[8]))
             goto exit;
     }
 
-- 
2.43.0


From 397589dd0c887c911931a6b1d14189e7598e0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 04/50] fix: Legendre functions buffer overflow for degree 0

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 2a79476..4b190a2 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -104,10 +104,14 @@ static void shc_legendre_low(double *lp, double *ldp, int degree, double sin_elv
     // with respect to the elevation (latitude) instead of the
     // inclination (co-latitude).
     lp[0] = 1.0;
+    ldp[0] = 0.0 ;
+
+    if (degree < 1)
+        return;
+
     lp[1] = sin_elv ;
     lp[2] = cos_elv;
 
-    ldp[0] = 0.0 ;
     ldp[1] = cos_elv;
     ldp[2] = -sin_elv;
 
-- 
2.43.0


From 6243b271ea0f0eda033ddc0026e753e446c7eb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 05/50] fix: loss of precision of the Legendre functions near
 the poles

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 4b190a2..5b886b8 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -274,8 +274,7 @@ static void shc_legendre_high(double *lp, double *ldp, int degree, double sin_el
 static void shc_legendre(double *lp, double *ldp, int degree, double elv, const double *psqrt, const double *prsqrt)
 {
     const double sin_elv = sin(elv);
-    //const double cos_elv = cos(elv);
-    const double cos_elv = sqrt((1.0-sin_elv)*(1.0+sin_elv));
+    const double cos_elv = cos(elv);
 
     if ((degree <= 16)||(fabs(cos_elv) < 1e-10))
         // low degree model + poles
-- 
2.43.0


From 0c55bda9786fc1365f27765c476d0469c1e8d986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 06/50] fix: sum the coefficients shared by multiple shevaltemp
 coefficient sets

---
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index a4be7ec..0133d5a 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -78,7 +78,6 @@ typedef struct CoefSet {
     size_t ncoef;
     int spline_order;
     int degree;
-    ptrdiff_t idx_last;
 } COEF_SET;
 
 static void _coefset_reset(COEF_SET *coefset);
@@ -459,12 +458,14 @@ static int parse_coefset(COEF_SET *coefset, const char *label, size_t idx, PyObj
 }
 
 
-/* coefficients time-series interpolation*/
+/* coefficients time-series interpolation - sum of all coefficients sets */
 
 static void _coeff_interp(double time, MODEL_TS *model) {
 
     size_t i, n = model->ncoefset;
 
+    memset(model->coef, 0, model->sh_model.nterm*sizeof(double[2]));
+
     for (i = 0; i < n; ++i) {
         const COEF_SET *coefset = model->coefsets + i;
         coefset->coeff_set_interp(time, model, coefset);
@@ -683,7 +684,6 @@ static int _coefset_init(
     coefset->ncoef = PyArray_DIMS(arr_cm)[0];
     coefset->spline_order = spline_order;
     coefset->degree = 0;
-    coefset->idx_last = -1;
 
     if (NULL == (coefset->offset = (ptrdiff_t*)malloc(coefset->ncoef*sizeof(ptrdiff_t))))
     {
@@ -729,10 +729,6 @@ static int _coefset_init(
 static void _coeff_set_interp0(double time, MODEL_TS *model, const COEF_SET *coefset) {
     INTERP_BASIS basis = get_interp0_basis(time, coefset->ct, coefset->ntime);
 
-    if (coefset->idx_last == basis.i) {
-        return;
-    }
-
     double (*coef)[2] = model->coef;
 
     size_t i, n = coefset->ncoef;
@@ -741,10 +737,8 @@ static void _coeff_set_interp0(double time, MODEL_TS *model, const COEF_SET *coe
     {
         size_t offset = abs(coefset->offset[i]);
         size_t kind = coefset->offset[i] < 0;
-        coef[offset][kind] = interp0_eval(&basis, coefset->cv + i*coefset->ntime);
+        coef[offset][kind] += interp0_eval(&basis, coefset->cv + i*coefset->ntime);
     }
-
-     ((COEF_SET*)coefset)->idx_last = basis.i;
 }
 
 
@@ -761,7 +755,7 @@ static void _coeff_set_interp1(double time, MODEL_TS *model, const COEF_SET *coe
     {
         size_t offset = abs(coefset->offset[i]);
         size_t kind = coefset->offset[i] < 0;
-        coef[offset][kind] = interp1_eval(&basis, coefset->cv + i*coefset->ntime);
+        coef[offset][kind] += interp1_eval(&basis, coefset->cv + i*coefset->ntime);
     }
 }
 
-- 
2.43.0


From 89084c8d64c5d906f00905359f18de77ebf94812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 07/50] fix: reject shevaltemp and sheval2dfs coefficient sets
 addressing memory out of bounds

---
 eoxmagmod/eoxmagmod/pymm_aux.h        | 16 ++++++++++++++++
 eoxmagmod/eoxmagmod/pymm_sheval.h     | 13 ++++++++++++-
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h |  3 +++
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 10 ++++++++++
 4 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_aux.h b/eoxmagmod/eoxmagmod/pymm_aux.h
index d12c031..838a4c2 100644
--- a/eoxmagmod/eoxmagmod/pymm_aux.h
+++ b/eoxmagmod/eoxmagmod/pymm_aux.h
@@ -266,6 +266,22 @@ static int _check_equal_shape(PyArrayObject *arr0, PyArrayObject *arr1, const ch
 }
 
 
+/*
+ * Check that the degree and order of a spherical harmonic coefficient are valid.
+ */
+
+static int _check_degree_and_order(int degree, int order, const char *label)
+{
+    if ((degree < 0) || (order < -degree) || (order > degree))
+    {
+        PyErr_Format(PyExc_ValueError, "Invalid degree and order (%d, %d) of the %s coefficients!", degree, order, label);
+        return 1;
+    }
+
+    return 0;
+}
+
+
 /*
  *  Extract 1D Numpy array or broadcast scalar to a 1D C array.
  */
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index a7d0873..e7fdbd4 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -52,6 +52,9 @@
 #define RADIUS  6371.2
 #endif
 
+/* max. degree keeping the number of the terms within the integer range */
+#define SHEVAL_MAX_DEGREE 32766
+
 #ifndef STR
 #define SRINGIFY(x) #x
 #define STR(x) SRINGIFY(x)
@@ -630,10 +633,18 @@ static int _model_init(
     MODEL *model, int is_internal, int degree, int coord_in, int coord_out,
     const double scale_potential, const double *scale_gradient)
 {
-    const int nterm = ((degree+1)*(degree+2))/2;
+    int nterm;
 
     _model_reset(model);
 
+    if (degree > SHEVAL_MAX_DEGREE)
+    {
+        PyErr_Format(PyExc_ValueError, "The degree %d exceeds the maximum allowed value %d!", degree, SHEVAL_MAX_DEGREE);
+        goto error;
+    }
+
+    nterm = ((degree+1)*(degree+2))/2;
+
     model->is_internal = is_internal;
     model->degree = degree;
     model->nterm = nterm;
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 0933e37..71a454d 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -636,6 +636,9 @@ static int _f2d_coefset_init(
             ptrdiff_t offset = ((ptrdiff_t)degree)*((ptrdiff_t)degree+1)/2 + ABS(order);
             ptrdiff_t sign = order < 0 ? -1 : 1;
 
+            if (_check_degree_and_order(degree, order, "coef_cm"))
+                goto error;
+
             coefset->offset[i] = sign * offset;
             coefset->degree = MAX(coefset->degree, degree);
         }
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 0133d5a..f839edd 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -442,6 +442,13 @@ static int parse_coefset(COEF_SET *coefset, const char *label, size_t idx, PyObj
     if (_check_array_dim_eq(arr_cv, 1, PyArray_DIMS(arr_ct)[0], buffer))
         goto error;
 
+    // check that there are enough nodes for the requested interpolation
+
+    snprintf(buffer, buffer_size, "%s[%ld].%s", label, idx, keywords[0]);
+
+    if (_check_array_dim_le(arr_ct, 0, spline_order, buffer))
+        goto error;
+
     snprintf(buffer, buffer_size, "%s[%ld].%s", label, idx, keywords[2]);
 
     if (_check_array_dim_eq(arr_cm, 1, 2, buffer))
@@ -699,6 +706,9 @@ static int _coefset_init(
             ptrdiff_t offset = ((ptrdiff_t)degree)*((ptrdiff_t)degree+1)/2 + ABS(order);
             ptrdiff_t sign = order < 0 ? -1 : 1;
 
+            if (_check_degree_and_order(degree, order, "coef_nm"))
+                goto error;
+
             coefset->offset[i] = sign * offset;
             coefset->degree = MAX(coefset->degree, degree);
         }
-- 
2.43.0


From c95a339bf062d10ff5c3166f1913a9b81d05682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 08/50] fix: sheval2dfs memory leak and unhandled coefficient
 set errors

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 71a454d..43fc675 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -244,7 +244,8 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     // parse coefficient set
-    _f2d_coefset_parse(&coefset, keywords[3], obj_coef_set);
+    if (_f2d_coefset_parse(&coefset, keywords[3], obj_coef_set))
+        goto exit;
 
     degree = coefset.degree;
 
@@ -590,6 +591,9 @@ static void _f2d_coefset_reset(FOURIER_2D_COEF_SET *coefset)
 
 static void _f2d_coefset_destroy(FOURIER_2D_COEF_SET *coefset)
 {
+    if (NULL != coefset->offset)
+        free(coefset->offset);
+
     if (coefset->arr_ab) Py_DECREF(coefset->arr_ab);
     if (coefset->arr_cm) Py_DECREF(coefset->arr_cm);
 
-- 
2.43.0


From 298d85d69a99dc9ee037f93bdb6bc59616ab4067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 09/50] fix: 2D Fourier series buffer overflow for large second
 degrees

---
 eoxmagmod/eoxmagmod/pymm_fourier2d.h | 29 ++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_fourier2d.h b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
index a8b7a6d..d86d497 100644
--- a/eoxmagmod/eoxmagmod/pymm_fourier2d.h
+++ b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
@@ -43,6 +43,9 @@
 #endif
 
 
+/* max. allowed absolute value of the min. degree */
+#define FOURIER2D_MAX_ABS_DEGREE 1000000
+
 /* 2D Fourier series - auxiliary structure */
 typedef struct Fourier2D {
     ptrdiff_t min_degree1;
@@ -331,12 +334,26 @@ static int _fourier2d_init(
     const double scale2
 )
 {
-    ptrdiff_t max_degree1 = min_degree1 + size1 - 1;
-    ptrdiff_t max_degree2 = min_degree2 + size2 - 1;
+    ptrdiff_t max_degree1;
+    ptrdiff_t max_degree2;
     ptrdiff_t max_abs_degree;
 
     _fourier2d_reset(f2d);
 
+    if (
+        (min_degree1 < -FOURIER2D_MAX_ABS_DEGREE) ||
+        (min_degree1 > FOURIER2D_MAX_ABS_DEGREE) ||
+        (min_degree2 < -FOURIER2D_MAX_ABS_DEGREE) ||
+        (min_degree2 > FOURIER2D_MAX_ABS_DEGREE)
+    )
+    {
+        PyErr_Format(PyExc_ValueError, "The min. degree of the Fourier series exceeds the allowed range!");
+        goto error;
+    }
+
+    max_degree1 = min_degree1 + size1 - 1;
+    max_degree2 = min_degree2 + size2 - 1;
+
     f2d->min_degree1 = min_degree1;
     f2d->max_degree1 = max_degree1;
     f2d->min_degree2 = min_degree2;
@@ -345,10 +362,10 @@ static int _fourier2d_init(
     f2d->scale2 = scale2;
 
     max_abs_degree = 1;
-    max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
-    max_abs_degree = MAX(max_abs_degree, abs(max_degree1));
-    max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
-    max_abs_degree = MAX(max_abs_degree, abs(max_degree2));
+    max_abs_degree = MAX(max_abs_degree, labs(min_degree1));
+    max_abs_degree = MAX(max_abs_degree, labs(max_degree1));
+    max_abs_degree = MAX(max_abs_degree, labs(min_degree2));
+    max_abs_degree = MAX(max_abs_degree, labs(max_degree2));
     f2d->max_abs_degree = max_abs_degree;
 
     if (NULL == (f2d->cos_sin_tmp = (double(*)[2])malloc((max_abs_degree+1)*sizeof(double[2]))))
-- 
2.43.0


From e87e040b9f596f1013656aa2eb5805c0e10d2b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:36 +0000
Subject: [PATCH 10/50] fix: combining of coefficients interpolated in
 different time domains

Both the MJD2000 and decimal year coefficients were declared as having
the same time scale and a combination of the two evaluated the MJD2000
coefficients for times converted to decimal years. The time scale attribute
of the constant coefficients had a wrong name.
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index be96cda..f23c3dc 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -481,7 +481,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
 
 class SparseSHCoefficientsConstant(SparseSHCoefficientsTimeDependent):
     """ Time invariant sparse spherical harmonic coefficients. """
-    time_scale = ()
+    time_scales = ()
 
     def __init__(self, indices, coefficients, **kwargs):
         indices = asarray(indices)
@@ -515,7 +515,7 @@ class SparseSHCoefficientsTimeDependentDecimalYear(SparseSHCoefficientsTimeDepen
     by spine interpolation of a time series of coefficients snapshots.
     with time in decimal year interpolated in the decimal years time domain.
     """
-    time_scales = ("MJD2000",)
+    time_scales = ("DecimalYear",)
 
     def __init__(self, indices, coefficients, times,
                  to_mjd2000=decimal_year_to_mjd2000,
-- 
2.43.0


From 7c93b5d0c2393a34b1a7ba98b546a7cb46ca4f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:52 +0000
Subject: [PATCH 11/50] fix: false time-gaps detected between nested validity
 intervals

The end of the covered time interval is the latest of all the already
processed ends, not the end of the last processed coefficient set.
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index f23c3dc..fe3d069 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -156,7 +156,7 @@ class ComposedSHCoefficients(SHCoefficients):
                     "the sets of coefficients!"
                 )
 
-            last_item_validity_end = item_validity_end
+            last_item_validity_end = max(validity_end, item_validity_end)
 
             validity_start = min(validity_start, item_validity_start)
             validity_end = max(validity_end, item_validity_end)
-- 
2.43.0


From b2c21fc3147cbceea70394c41c8c989cdb27e8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:52 +0000
Subject: [PATCH 12/50] fix: endless recursion of a composed or combined single
 item

ComposedSHCoefficients and CombinedSHCoefficients pass a single item through
and re-initialized the item if it was an instance of the same class, making
it an item of itself.
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index fe3d069..fa64404 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -135,6 +135,9 @@ class ComposedSHCoefficients(SHCoefficients):
 
     def __init__(self, *items):
 
+        if len(items) == 1 and items[0] is self:
+            return # single item passed through by the constructor
+
         if len(items) < 1:
             raise ValueError(
                 "The composed model requires at least one set of coefficients!"
@@ -263,6 +266,9 @@ class CombinedSHCoefficients(SHCoefficients):
 
     def __init__(self, *items):
 
+        if len(items) == 1 and items[0] is self:
+            return # single item passed through by the constructor
+
         if len(items) < 1:
             raise ValueError(
                 "The combined model requires at least one set of coefficients!"
-- 
2.43.0


From 5673ccbef1c8c51d38be708cfb3eadcb1f493f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:52 +0000
Subject: [PATCH 13/50] fix: selection of coefficients composed of overlapping
 time intervals

The field was evaluated for different sets of coefficients than those
selected by ComposedSHCoefficients: the overlaps between the composed sets
were not resolved, an end-point shared by two intervals was evaluated by
the last set in case of an array of times, and the order of preference was
not kept.
---
 .../eoxmagmod/magnetic_model/coefficients.py  | 27 +++++++++++--------
 eoxmagmod/eoxmagmod/magnetic_model/model.py   |  4 ++-
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index fa64404..1bd280b 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -32,10 +32,7 @@ from numpy import (
 )
 from ..time_util import decimal_year_to_mjd2000, mjd2000_to_decimal_year
 from .._pymm import interp, INTERP_C0, INTERP_C1
-from .util import (
-    get_nonoverlapping_intervals, aggregate_intersected_intervals,
-    coeff_size, convert_value,
-)
+from .util import coeff_size, convert_value
 
 __all__ = [
     "SHCoefficients",
@@ -53,7 +50,9 @@ class SHCoefficients:
     time_scales = ()
 
     def decompose(self):
-        """ Return a sequence of decomposed coefficient sets. """
+        """ Return a sequence of decomposed coefficient sets and their validity
+        intervals. The first set whose interval contains the time applies.
+        """
         raise NotImplementedError
 
     def __init__(self, is_internal=True, **kwargs):
@@ -112,9 +111,10 @@ class ComposedSHCoefficients(SHCoefficients):
     """
 
     def decompose(self):
+        # intervals in order of precedence, the first matching one applies
         result = []
         for item in self:
-            result.extend(get_nonoverlapping_intervals(item.decompose()))
+            result.extend(item.decompose())
         return result
 
     @property
@@ -238,13 +238,18 @@ class CombinedSHCoefficients(SHCoefficients):
     """
 
     def decompose(self):
-        aggergates = None
+        # all intersections of the intervals, preserving their precedence
+        aggregates = [((-inf, inf), [])]
         for item in self:
-            aggergates = aggregate_intersected_intervals(
-                item.decompose(), aggergates
-            )
+            intervals = item.decompose()
+            aggregates = [
+                ((max(start, item_start), min(end, item_end)), [*items, item])
+                for (start, end), items in aggregates
+                for (item_start, item_end), item in intervals
+                if max(start, item_start) <= min(end, item_end)
+            ]
         result = []
-        for validity, items in aggergates:
+        for validity, items in aggregates:
             result.append((validity, CombinedSHCoefficients(*items)))
         return result
 
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index ac40063..fb6297d 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -149,8 +149,10 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
 
         # time is an array
         result = _get_nans()
+        remaining = full(time.shape, True)
         for (start, end), method, coefficients in self._components:
-            mask = _is_valid(start, end)
+            mask = remaining & _is_valid(start, end)
+            remaining &= ~mask
             result[mask, :] = _call_eval(
                 method, coefficients, time[mask], location[mask, :]
             )
-- 
2.43.0


From 440d4e453ee9ff49d1016063e19e686a7023d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:52 +0000
Subject: [PATCH 14/50] fix: evaluation of more than 16 combined sets of
 coefficients

---
 eoxmagmod/eoxmagmod/magnetic_model/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index fb6297d..6ac703a 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -44,6 +44,8 @@ __all__ = [
     "DipoleSphericalHarmomicGeomagneticModel",
 ]
 
+SHEVALTEMP_MAX_COEF_SETS = 16 # max. number of sets accepted by shevaltemp
+
 
 class GeomagneticModel:
     """ Abstract base class of the Earth magnetic field model. """
@@ -94,11 +96,15 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
                 return self._eval_default
 
             try:
-                coefficients.get_coefficient_sets()
+                coefficient_sets = coefficients.get_coefficient_sets()
             except AttributeError:
                 # coefficient cannot be extracted - falling back to the default
                 return self._eval_default
 
+            if len(coefficient_sets) > SHEVALTEMP_MAX_COEF_SETS:
+                # too many coefficient sets - falling back to the default
+                return self._eval_default
+
             return self._eval_interpolated
 
         # default evaluation method
-- 
2.43.0


From 8069cfe7381993cd2fd8d32b2c9c0feb2320c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:46 +0000
Subject: [PATCH 15/50] fix: spline order of the SHC files ignored by the
 loader

A misspelled option, moreover set after it could take any effect, caused
that piecewise constant models (spline order 1) were interpolated linearly.
---
 eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py b/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
index 53a7f1c..f547b01 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
@@ -113,13 +113,15 @@ def load_coeff_shc(path, interpolate_in_decimal_years=False, **kwargs):
 
     times = data["t"]
 
-    kwargs["spline_oder"] = kwargs.get("spline_oder", min(data["spline_order"], 2))
-
     if len(times) == 1:
+        options.pop("spline_order", None)
         return SparseSHCoefficientsConstant(
             data["nm"], data["gh"][:, 0], **options
         )
 
+    if "spline_order" not in options:
+        options["spline_order"] = min(data["spline_order"], 2)
+
     if interpolate_in_decimal_years:
         coeff_class = SparseSHCoefficientsTimeDependentDecimalYear
     else:
-- 
2.43.0


From 50ad1cdb91c19188e55495bc9260dafd2f2dc6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:46 +0000
Subject: [PATCH 16/50] fix: refuse SHC files with mismatched number of times
 and coefficients

The superfluous coefficients of a model with a single time were silently
ignored.
---
 eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
index dc89fd8..502d766 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
@@ -37,6 +37,10 @@ def parse_shc_file(file_in):
     lines = _strip_shc_comments(file_in)
     data = _parse_shc_header(lines)
     data["nm"], data["gh"] = _parse_shc_coefficients(lines)
+    if data["gh"].shape[1:] != data["t"].shape:
+        raise ValueError(
+            "Mismatch between the number of times and coefficients columns!"
+        )
     return data
 
 
-- 
2.43.0


From ce716b6b3bd34eac1f2558bf051765f11b4561be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:46 +0000
Subject: [PATCH 17/50] fix: refuse incompatible EMM files

The exception was created but never raised.
---
 eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
index a8c26d3..d2f032c 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
@@ -54,8 +54,12 @@ def combine_emm_variable(data_static, data_secvar):
     nm_secvar, gh_secvar = data_secvar["nm"], data_secvar["gh"]
     size = nm_secvar.shape[0]
 
-    if epoch_static != epoch_secvar or (nm_secvar != nm_static[:size]).any():
-        ValueError("Incompatible sets of the static and variation coefficients!")
+    if (
+        epoch_static != epoch_secvar
+        or nm_secvar.shape != nm_static[:size].shape
+        or (nm_secvar != nm_static[:size]).any()
+    ):
+        raise ValueError("Incompatible sets of the static and variation coefficients!")
 
     return {
         "epoch": epoch_secvar,
-- 
2.43.0


From 23900d8c3ea58cff81b3ae60030b8f72f4c34f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:21 +0000
Subject: [PATCH 18/50] fix: quasi-dipole coordinates depending on the
 preceding calls and elements

An undefined (NaN) time was evaluated with whatever coefficients had been
loaded before, or with none and out of the array bounds, times within one day
were evaluated for the time of a preceding array element, and for an altitude
of -999km the coefficients of a previous epoch were reused.
---
 qdipole/apexsh.f90        |  4 ++--
 qdipole/eval_qdlatlon.f90 | 41 +++++++++++++++++++++++++++++----------
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index 09099df..6551a4a 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -204,8 +204,8 @@
         gcoeff0(iterm,icoord)= we0*coeff0(iterm,iepoch0,icoord+3)+we1*coeff0(iterm,iepoch1,icoord+3)
       enddo
       enddo
-      altlastq = -999.0
-      altlastg = -999.0
+      altlastq = missing
+      altlastg = missing
     endif
 
     !UPDATE LOAD VARIABLES
diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index 0a6dbef..90f0f0f 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -70,19 +70,27 @@
       real*8  qdlon(*), qdlat(*)
       real*8  t_dy(*), gcrad(*), gclat(*), gclon(*)
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
-      real*4  epoch, epoch_limit, epoch_old
+      real*4  epoch, epoch_old
       integer*4  vecflag, n_data, i
+      logical loaded
       character*1023 coeff_file
-      parameter(epoch_limit = 1./365.25, vecflag = 0)
+      parameter(vecflag = 0)
 
-      epoch_old = -9999.9
+      loaded = .false.
 
       do i = 1, n_data
-!        Reload coefficients if time has changed by more than epoch_limit
          epoch = t_dy(i)
-         if (abs(epoch - epoch_old) .gt. epoch_limit) then
+!        Undefined time
+         if (epoch .ne. epoch) then
+            qdlat(i) = t_dy(i)
+            qdlon(i) = t_dy(i)
+            cycle
+         endif
+!        Reload coefficients if time has changed
+         if (.not. loaded .or. epoch .ne. epoch_old) then
             call loadapxsh(coeff_file, epoch)
             epoch_old = epoch
+            loaded = .true.
          endif
 !        Convert geocentric coordinates to geodetic coordinates
          call convrt(4, gdlat, gdalt, sngl(gclat(i)), sngl(gcrad(i)))
@@ -106,19 +114,32 @@
       real*8  qdlon(*), qdlat(*), f11(*), f12(*), f21(*), f22(*), f(*)
       real*8  t_dy(*), gcrad(*), gclat(*), gclon(*)
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
-      real*4  epoch, epoch_limit, epoch_old
+      real*4  epoch, epoch_old
       integer*4  vecflag, n_data, i
+      logical loaded
       character*256 coeff_file
-      parameter(epoch_limit = 1./365.25, vecflag = 1)
+      parameter(vecflag = 1)
 
-      epoch_old = -9999.9
+      loaded = .false.
 
       do i = 1, n_data
-!        Reload coefficients if time has changed by more than epoch_limit
          epoch = t_dy(i)
-         if (abs(epoch - epoch_old) .gt. epoch_limit) then
+!        Undefined time
+         if (epoch .ne. epoch) then
+            qdlat(i) = t_dy(i)
+            qdlon(i) = t_dy(i)
+            f11(i) = t_dy(i)
+            f12(i) = t_dy(i)
+            f21(i) = t_dy(i)
+            f22(i) = t_dy(i)
+            f(i) = t_dy(i)
+            cycle
+         endif
+!        Reload coefficients if time has changed
+         if (.not. loaded .or. epoch .ne. epoch_old) then
             call loadapxsh(coeff_file, epoch)
             epoch_old = epoch
+            loaded = .true.
          endif
 !        Convert geocentric coordinates to geodetic coordinates
          call convrt(4, gdlat, gdalt, sngl(gclat(i)), sngl(gcrad(i)))
-- 
2.43.0


From b902b950f8be6e809fadd9ecd00db6f488c4aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:00 +0000
Subject: [PATCH 19/50] fix: malformed quasi-dipole coefficients file
 terminating the process

The coefficients file is now read with error handling and a failure is
reported to the caller.
---
 qdipole/apexsh.f90        | 50 +++++++++++++++++++++++++++++++++++----
 qdipole/cqdipole.c        | 16 ++++++++-----
 qdipole/eval_qdlatlon.f90 | 26 +++++++++++++++-----
 3 files changed, 75 insertions(+), 17 deletions(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index 6551a4a..8c44401 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -167,16 +167,20 @@
     character(1023)             :: datafilenew, datafilelast=''
     real(4)                     :: epochnew, epochlast=-999.0
     real(8)                     :: we0, we1
-    integer(4)                  :: iepoch0, iepoch1, iterm, icoord
+    integer(4)                  :: iepoch0, iepoch1, iterm, icoord, ios
 
     !CHECK FILE, GET DIMENSIONS, AND ALLOCATE ARRAYS
     if ((datafilenew .ne. datafilelast) .or. (loadflag)) then
+      loadflag = .true.
       datafile = datafilenew
-      open(unit=23,file=trim(datafile),status='old',form='formatted')
-      read(23,*) nepoch, nmax, mmax, lmax, nterm
-      call allocatearrays
-      read(23,*) epochgrid, coeff0
+      open(unit=23,file=trim(datafile),status='old',form='formatted',iostat=ios)
+      if (ios .ne. 0) return
+      read(23,*,iostat=ios) nepoch, nmax, mmax, lmax, nterm
+      if (ios .eq. 0) call checkdimensions(ios)
+      if (ios .eq. 0) call allocatearrays
+      if (ios .eq. 0) read(23,*,iostat=ios) epochgrid, coeff0
       close(23)
+      if (ios .ne. 0) return
     endif
     
     !LOAD COEFFICIENTS AND INTEPOLATE TO SELECTED EPOCH
@@ -219,6 +223,42 @@ end subroutine loadapxsh
 
 !***************************************************************************************************
 
+!  Check if the coefficients were successfully loaded by the last LOADAPXSH call.
+
+logical function apxshloaded()
+
+    use apxshmodule
+
+    implicit none
+
+    apxshloaded = .not. loadflag
+
+end function apxshloaded
+
+!***************************************************************************************************
+
+!  Check the array dimensions read from the coefficients file. Set status to non-zero if not valid.
+
+subroutine checkdimensions(status)
+
+    use apxshmodule
+
+    implicit none
+
+    integer(4), intent(out)     :: status
+    integer(4), parameter       :: maxdim = 1000
+
+    status = 1
+    if ((nepoch .lt. 1) .or. (nepoch .gt. maxdim)) return
+    if ((mmax .lt. 1) .or. (mmax .gt. nmax) .or. (nmax .gt. maxdim)) return
+    if ((lmax .lt. 0) .or. (lmax .gt. maxdim)) return
+    if (nterm .ne. (mmax*(2*nmax - mmax + 1) + nmax + 1)*(lmax + 1)) return
+    status = 0
+
+end subroutine checkdimensions
+
+!***************************************************************************************************
+
 subroutine allocatearrays
 
     use apxshmodule
diff --git a/qdipole/cqdipole.c b/qdipole/cqdipole.c
index b723669..80be8ab 100644
--- a/qdipole/cqdipole.c
+++ b/qdipole/cqdipole.c
@@ -91,7 +91,7 @@ int c_eval_subsol(double *sbsllat, double *sbsllon, const double *time_mjd2k,
 
 
 void eval_qdlatlon_(double*, double*, const double*, const double*,
-                    const double*, const double*, const int*, const char*);
+                    const double*, const double*, const int*, const char*, int*);
 
 int c_eval_qdlatlon(
      double *qdlat, double *qdlon, const double *time_dy, const double *gcrad,
@@ -100,19 +100,21 @@ int c_eval_qdlatlon(
 {
     /* NOTE: Fortran code expects the file name as a sized size string. */
     char filename[MAX_PATH_LENGTH + 1];
+    int status = 0;
     if (check_string_lenght(coeff_file, MAX_PATH_LENGTH)) return 1;
     copy_string(filename, coeff_file, MAX_PATH_LENGTH + 1);
 
     /* call the Fortran subroutine */
-    eval_qdlatlon_(qdlat, qdlon, time_dy, gcrad, gclat, gclon, &n_data, filename);
+    eval_qdlatlon_(qdlat, qdlon, time_dy, gcrad, gclat, gclon, &n_data, filename,
+                   &status);
 
-    return 0;
+    return status;
 }
 
 
 void eval_qdlatlonvb_(double*, double*, double*, double*, double*, double*,
                       double*, const double*, const double*, const double*,
-                      const double*, const int*, const char*);
+                      const double*, const int*, const char*, int*);
 
 int c_eval_qdlatlonvb(
      double *qdlat, double *qdlon, double *f11, double *f12, double *f21,
@@ -122,12 +124,14 @@ int c_eval_qdlatlonvb(
 {
     /* NOTE: Fortran code expects the file name as a sized size string. */
     char filename[MAX_PATH_LENGTH + 1];
+    int status = 0;
     if (check_string_lenght(coeff_file, MAX_PATH_LENGTH)) return 1;
     copy_string(filename, coeff_file, MAX_PATH_LENGTH + 1);
 
     /* call the Fortran subroutine */
     eval_qdlatlonvb_(qdlat, qdlon, f11, f12, f21, f22, f,
-                     time_dy, gcrad, gclat, gclon, &n_data, filename);
+                     time_dy, gcrad, gclat, gclon, &n_data, filename,
+                     &status);
 
-    return 0;
+    return status;
 }
diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index 90f0f0f..2ed0a87 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -32,6 +32,7 @@
 !    coeff_file  path to the coefficients (string up to 1023 bytes)
 !
 !  OUTPUT ARGUMENTS
+!    status    0 on success, non-zero if the coefficients could not be loaded
 !    qdlat     array of Quasi-Dipole latitudes
 !    qdlon     array of Quasi-Dipole longitudes
 !
@@ -53,6 +54,7 @@
 !    coeff_file  path to the coefficients (string up to 1023 bytes)
 !
 !  OUTPUT ARGUMENTS
+!    status    0 on success, non-zero if the coefficients could not be loaded
 !    qdlat     array of Quasi-Dipole latitudes
 !    qdlon     array of Quasi-Dipole longitudes
 !    f11,f12   arrays of components of the Quasi-Dipole coordinate
@@ -64,18 +66,20 @@
 !***********************************************************************
 
       subroutine eval_qdlatlon(qdlat, qdlon, t_dy, gcrad, gclat, gclon,&
-                               n_data, coeff_file)
+                               n_data, coeff_file, status)
       implicit none
 
       real*8  qdlon(*), qdlat(*)
       real*8  t_dy(*), gcrad(*), gclat(*), gclon(*)
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_old
-      integer*4  vecflag, n_data, i
-      logical loaded
+      integer*4  vecflag, n_data, i, status
+      logical loaded, apxshloaded
+      external apxshloaded
       character*1023 coeff_file
       parameter(vecflag = 0)
 
+      status = 0
       loaded = .false.
 
       do i = 1, n_data
@@ -89,6 +93,10 @@
 !        Reload coefficients if time has changed
          if (.not. loaded .or. epoch .ne. epoch_old) then
             call loadapxsh(coeff_file, epoch)
+            if (.not. apxshloaded()) then
+               status = 2
+               return
+            endif
             epoch_old = epoch
             loaded = .true.
          endif
@@ -108,18 +116,20 @@
 !***********************************************************************
 
       subroutine eval_qdlatlonvb(qdlat, qdlon, f11, f12, f21, f22, f, &
-        t_dy, gcrad, gclat, gclon, n_data, coeff_file)
+        t_dy, gcrad, gclat, gclon, n_data, coeff_file, status)
       implicit none
 
       real*8  qdlon(*), qdlat(*), f11(*), f12(*), f21(*), f22(*), f(*)
       real*8  t_dy(*), gcrad(*), gclat(*), gclon(*)
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_old
-      integer*4  vecflag, n_data, i
-      logical loaded
+      integer*4  vecflag, n_data, i, status
+      logical loaded, apxshloaded
+      external apxshloaded
       character*256 coeff_file
       parameter(vecflag = 1)
 
+      status = 0
       loaded = .false.
 
       do i = 1, n_data
@@ -138,6 +148,10 @@
 !        Reload coefficients if time has changed
          if (.not. loaded .or. epoch .ne. epoch_old) then
             call loadapxsh(coeff_file, epoch)
+            if (.not. apxshloaded()) then
+               status = 2
+               return
+            endif
             epoch_old = epoch
             loaded = .true.
          endif
-- 
2.43.0


From 21d58bbaa13d5e5b028411c044a7a3613f5a4441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:00 +0000
Subject: [PATCH 20/50] fix: day of year of the sub-solar point calculation
 before year 2000

The negative MJD2000 times were rounded towards zero, i.e., to the next day.
---
 qdipole/eval_mlt.f90    | 2 +-
 qdipole/eval_subsol.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index e3924c7..e684cf9 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -64,7 +64,7 @@
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = int(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, sbsllat, sbsllon)
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index e8a8e2b..16b88f7 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -56,7 +56,7 @@
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = int(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, lat, lon)
-- 
2.43.0


From 5e704f351c53d7ae378199350bbb372ebce3f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:29 +0000
Subject: [PATCH 21/50] fix: unsupported times terminating the process in
 sub-solar point and MLT

The sub-solar point and magnetic local time of undefined times or times not
supported by the underlying subroutines are set to NaN. MLT no longer depends
on the times of the preceding array elements.
---
 qdipole/eval_mlt.f90    | 18 ++++++++++++++----
 qdipole/eval_subsol.f90 | 11 +++++++++++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index e684cf9..2b9a302 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -29,11 +29,13 @@
 !
 !  OUTPUT ARGUMENTS
 !    t_mlt     array of Magnetic Local Time values.
+!              (NaN for times out of the years 1900 to 2100)
 !
 !***********************************************************************
 
       subroutine eval_mlt(t_mlt, qdlon, t_mjd2k, n_data)
 
+      use, intrinsic :: ieee_arithmetic
       implicit none
 
       real*8  qdlon(*), t_mjd2k(*), t_mlt(*)
@@ -41,19 +43,27 @@
       real*4  t_mlt4, qdlon4
       real*4  dp_colat, dp_elon, dp_vp
       real*4  sbsllat, sbsllon, ssec
-      real*4  epoch, epoch_limit, epoch_old
+      real*8  t_min, t_max
+      real*4  epoch, epoch_old
       integer  n_data, i
       integer  iyr, imon, iday, idoy, ihour, imin
-      parameter(epoch_limit = 1./365.25)
+!     extent of the supported times [1900-01-01, 2101-01-01)
+      parameter(t_min = -36524.d0, t_max = 36890.d0)
 
       epoch_old = -9999.9
 
       do i = 1, n_data
+!        Undefined time or time not supported by the COFRM and SUBSOL
+!        subroutines
+         if (.not. (t_mjd2k(i) .ge. t_min .and. t_mjd2k(i) .lt. t_max)) then
+            t_mlt(i) = ieee_value(t_mlt(i), ieee_quiet_nan)
+            cycle
+         endif
 !        The epoch is approximated by neglecting the leap years
          epoch = t_mjd2k(i) / 365.25 + 2000
 !        Reload coefficients and evaluate the dipole pole location.
-!        If time has changed by more than epoch_limit
-         if (abs(epoch - epoch_old) .gt. epoch_limit) then
+!        If time has changed
+         if (epoch .ne. epoch_old) then
             call cofrm (epoch)
             call dypol(dp_colat, dp_elon, dp_vp)
             epoch_old = epoch
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index 16b88f7..2d5e2dc 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -38,10 +38,12 @@
 !  OUTPUT ARGUMENTS
 !    sbsllat    array of sub-solar latitudes
 !    sbsllon    array of sub-solar longitudes
+!               (NaN for times out of the years 1601 to 2100)
 !
 !***********************************************************************
 
       subroutine eval_subsol(sbsllat, sbsllon, t_mjd2k, n_data)
+      use, intrinsic :: ieee_arithmetic
       implicit none
 
       real*8        sbsllat(*), sbsllon(*), t_mjd2k(*)
@@ -49,8 +51,17 @@
       real*4        lat, lon, ssec
       integer       n_data, i
       integer       iyr, imon, iday, idoy, ihour, imin
+      real*8        t_min, t_max
+!     extent of the supported times [1601-01-01, 2101-01-01)
+      parameter(t_min = -145731.d0, t_max = 36890.d0)
 
       do i = 1, n_data
+!        Undefined time or time not supported by the SUBSOL subroutine
+         if (.not. (t_mjd2k(i) .ge. t_min .and. t_mjd2k(i) .lt. t_max)) then
+            sbsllat(i) = ieee_value(sbsllat(i), ieee_quiet_nan)
+            sbsllon(i) = ieee_value(sbsllon(i), ieee_quiet_nan)
+            cycle
+         endif
 !        1. Calculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
-- 
2.43.0


From 845c46941d19b664eaae570c2db6173a818813f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 22/50] fix: loss of precision of the Cartesian to spherical
 conversion

The arcsine of a value close to one has an error up to 1e-8 radians near
the poles and it is not defined in the origin.
---
 eoxmagmod/eoxmagmod/include/geo_conversion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/include/geo_conversion.h b/eoxmagmod/eoxmagmod/include/geo_conversion.h
index 7268b6e..a387f38 100644
--- a/eoxmagmod/eoxmagmod/include/geo_conversion.h
+++ b/eoxmagmod/eoxmagmod/include/geo_conversion.h
@@ -255,7 +255,7 @@ static void cart2sph(
     double x, double y, double z)
 {
     *r = norm3d(x, y, z);
-    *th = asin(z/(*r));
+    *th = atan2(z, norm2d(x, y));
     *ph = atan2(y, x);
 }
 
-- 
2.43.0


From 586835d8750b468c7d801bfeec52e4517e8415a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 23/50] fix: identity coordinate conversion returning the input
 array

The converted coordinates shared data with the input and a later change of
one changed the other.
---
 eoxmagmod/eoxmagmod/pymm_cconv.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_cconv.h b/eoxmagmod/eoxmagmod/pymm_cconv.h
index f9a467f..545fd7b 100644
--- a/eoxmagmod/eoxmagmod/pymm_cconv.h
+++ b/eoxmagmod/eoxmagmod/pymm_cconv.h
@@ -182,9 +182,12 @@ static PyObject* convert(PyObject *self, PyObject *args, PyObject *kwdict)
     if (_check_array_dim_eq(arr_in, -1, 3, keywords[0]))
         goto exit;
 
-    // shortcut identity handling
+    // shortcut identity handling - the result must not share the input data
     if (ct_in == ct_out)
-        return (PyObject*) arr_in;
+    {
+        retval = PyArray_NewCopy(arr_in, NPY_CORDER);
+        goto exit;
+    }
 
     // create a new output array
     if (NULL == (arr_out = _get_new_double_array(PyArray_NDIM(arr_in), PyArray_DIMS(arr_in), 3)))
-- 
2.43.0


From b768a9054741c99135587e349b4df23ffc74b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:14 +0000
Subject: [PATCH 24/50] fix: minimum degree of the composed MIO primary field
 model

---
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index d7d22ee..7c1ab50 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -58,7 +58,7 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
     @property
     def min_degree(self):
         """ Get minimum degree of the model. """
-        return max(
+        return min(
             self.model_below_ionosphere.min_degree,
             self.model_above_ionosphere.min_degree
         )
-- 
2.43.0


From c1062c0757f8a2771b34a7b3a20f768482a05562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 25/50] fix: MIO model evaluation of mixed single values and
 arrays

The combinations of a single time with an array of F10.7, of an array of times
with a single location, or of arrays with different number of dimensions
failed or produced results of a wrong shape.
---
 .../eoxmagmod/magnetic_model/model_mio.py     | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index 7c1ab50..194c7e2 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -41,6 +41,20 @@ MIO_EARTH_RADIUS = 6371.2 # km
 MIO_WOLF_RATIO = 0.014850
 
 
+def _reshape_options(shape, options, keys=("f107", "lat_sol", "lon_sol")):
+    """ Reshape array options to the common shape of the times and locations.
+    Single values are passed through.
+    """
+    options = dict(options)
+    for key in keys:
+        if options.get(key) is not None:
+            value = asarray(options[key])
+            options[key] = (
+                reshape_array(shape, value) if value.ndim > 0 else value
+            )
+    return options
+
+
 class MIOPrimaryGeomagneticModel(GeomagneticModel):
     """ Composed model switching between MIO primary fields evaluation
     above and below the Ionosphere.
@@ -74,10 +88,14 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
              input_coordinate_system=GEOCENTRIC_SPHERICAL,
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
-        time = asarray(time)
+        # reshape time, location and options to a compatible shape
+        time, location = reshape_times_and_coordinates(
+            asarray(time), asarray(location)
+        )
         location = convert(
             location, input_coordinate_system, GEOCENTRIC_SPHERICAL
         )
+        options = _reshape_options(location.shape[:-1], options)
 
         radius_ionosphere = self.height + self.earth_radius
         radius = location[..., 2]
@@ -163,10 +181,11 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
                 return data[mask]
             return data
 
-        # reshape time and location to a compatible shape
+        # reshape time, location and options to a compatible shape
         time, location = reshape_times_and_coordinates(
             asarray(time), asarray(location)
         )
+        options = _reshape_options(location.shape[:-1], options)
 
         # MIO scaling factor
         mask = True
@@ -177,6 +196,8 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
 
         start, end = self.validity
         mask = (time >= start) & (time <= end) & mask
+        if mask.ndim > time.ndim:
+            time = full(mask.shape, time)
         result = full(location.shape, nan)
         result[mask, :] = self._eval(
             self._eval_fourier2d, self.coefficients,
@@ -189,7 +210,7 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
 
         if mio_scale is not None:
             if mio_scale.ndim > 0:
-                mio_scale = reshape_array(location.shape, mio_scale)
+                mio_scale = mio_scale[..., None]
             result *= mio_scale
 
         return result
-- 
2.43.0


From 0bae407bf1276cf717f8c391f346f5c0d4c81ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 26/50] fix: identity vector rotation returning the input
 vectors

The rotated vectors shared data with the input and a later change of one
changed the other.
---
 eoxmagmod/eoxmagmod/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/util.py b/eoxmagmod/eoxmagmod/util.py
index aee6e8f..5f70ed1 100644
--- a/eoxmagmod/eoxmagmod/util.py
+++ b/eoxmagmod/eoxmagmod/util.py
@@ -27,7 +27,7 @@
 #-------------------------------------------------------------------------------
 # pylint: disable=no-name-in-module
 
-from numpy import sqrt, asarray
+from numpy import sqrt, array, asarray
 from ._pymm import (
     GEODETIC_ABOVE_WGS84, GEOCENTRIC_SPHERICAL, GEOCENTRIC_CARTESIAN,
     convert, vrot_sph2geod, vrot_sph2cart, vrot_cart2sph,
@@ -55,14 +55,12 @@ def vrotate(arr, coord_in, coord_out, coord_type_in, coord_type_out):
     """
     # pylint: disable=too-many-return-statements
     if coord_type_in == coord_type_out:
-        return arr
+        return array(arr, 'float64') # result must not share the input data
 
     coord_out = None if coord_out is None else asarray(coord_out)
     coord_in = None if coord_in is None else asarray(coord_in)
 
     if coord_type_in == GEODETIC_ABOVE_WGS84:
-        if coord_type_out == GEODETIC_ABOVE_WGS84:
-            return arr
         if coord_type_out == GEOCENTRIC_SPHERICAL:
             return vrot_sph2geod(arr, coord_out[..., 0] - coord_in[..., 0])
         if coord_type_out == GEOCENTRIC_CARTESIAN:
-- 
2.43.0


From 7d74a92c9f24b3f84310c9d0e64c2346473a2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 27/50] fix: conversion of the last supported datetime year to
 a decimal year

---
 eoxmagmod/eoxmagmod/time_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/time_util.py b/eoxmagmod/eoxmagmod/time_util.py
index 721d01b..791d329 100644
--- a/eoxmagmod/eoxmagmod/time_util.py
+++ b/eoxmagmod/eoxmagmod/time_util.py
@@ -28,6 +28,7 @@
 # THE SOFTWARE.
 #-------------------------------------------------------------------------------
 
+from calendar import isleap
 from datetime import datetime
 from numpy import asarray, floor
 from ._pytimeconv import (
@@ -80,9 +81,8 @@ def datetime_to_decimal_year(time):
         raise TypeError("The input must be a datetime object.")
 
     year_start = datetime(year=time.year, month=1, day=1)
-    next_year_start = datetime(year=time.year+1, month=1, day=1)
 
     year_elapsed = (time - year_start).total_seconds()
-    year_total = (next_year_start - year_start).total_seconds()
+    year_total = (366 if isleap(time.year) else 365) * 86400.0
 
     return time.year + year_elapsed / year_total
-- 
2.43.0


From 486ffd901808e585a5d0325e7ed94fcbc3c0ff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 28/50] fix: sub-solar point given as a sequence in the
 magnetic time conversion

---
 eoxmagmod/eoxmagmod/magnetic_time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_time.py b/eoxmagmod/eoxmagmod/magnetic_time.py
index 967297f..b4543fa 100644
--- a/eoxmagmod/eoxmagmod/magnetic_time.py
+++ b/eoxmagmod/eoxmagmod/magnetic_time.py
@@ -27,7 +27,7 @@
 #-------------------------------------------------------------------------------
 
 from math import pi
-from numpy import sin, cos, arctan2
+from numpy import asarray, sin, cos, arctan2
 from .solar_position import sunpos
 
 __all__ = ["mjd2000_to_magnetic_universal_time"]
@@ -50,6 +50,8 @@ def mjd2000_to_magnetic_universal_time(mjd2000, lat_ngp, lon_ngp,
     """
     if lat_sol is None or lon_sol is None:
         lat_sol, lon_sol = get_subsol(mjd2000)
+    else:
+        lat_sol, lon_sol = asarray(lat_sol), asarray(lon_sol)
 
     return _mjd2000_to_magnetic_universal_time(
         mjd2000, lat_ngp, lon_ngp, lat_sol, lon_sol
-- 
2.43.0


From f3d9e53ca91e5c769390f5e4e8ffdc23da93eeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 29/50] fix: loading of EMM models without constant
 coefficients

---
 eoxmagmod/eoxmagmod/magnetic_model/loader_emm.py | 16 +++++++++++-----
 eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py |  4 ++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/loader_emm.py b/eoxmagmod/eoxmagmod/magnetic_model/loader_emm.py
index b824cd6..f090b6e 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/loader_emm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/loader_emm.py
@@ -54,11 +54,17 @@ def load_coeff_emm(path_static, path_secvar):
                 parse_emm_file(file_secvar),
             )
 
-    return CombinedSHCoefficients(
+    coefficients = [
         SparseSHCoefficientsTimeDependentDecimalYear(
             data_variable["nm"], data_variable["gh"], data_variable["t"],
-        ),
-        SparseSHCoefficientsConstant(
-            data_constant["nm"], data_constant["gh"][:, 0]
         )
-    )
+    ]
+
+    if data_constant["nm"].shape[0] > 0:
+        coefficients.append(
+            SparseSHCoefficientsConstant(
+                data_constant["nm"], data_constant["gh"][:, 0]
+            )
+        )
+
+    return CombinedSHCoefficients(*coefficients)
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
index d2f032c..ea98d78 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
@@ -84,8 +84,8 @@ def extract_emm_constant(data_static, data_secvar):
     nm_static, gh_static = nm_static[nonzeros], gh_static[nonzeros]
     return {
         "epoch": epoch,
-        "degree_min": nm_static[:, 0].min(),
-        "degree_max": nm_static[:, 0].max(),
+        "degree_min": nm_static[:, 0].min() if nm_static.size else 0,
+        "degree_max": nm_static[:, 0].max() if nm_static.size else 0,
         "t": array([epoch]),
         "nm": nm_static,
         "gh": gh_static,
-- 
2.43.0


From d270a7a7ffcbd7ed32c05ceecfff2591d9c1a19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 30/50] fix: loss of precision of the zonal Legendre
 derivatives near the poles

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 5b886b8..0ccd383 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -188,7 +188,6 @@ static void shc_legendre_high(double *lp, double *ldp, int degree, double sin_el
     int i, j, idx, idx0;
     const double scale = SHC_LEG_HIGH_SCALE;
     const double rscale = 1.0/SHC_LEG_HIGH_SCALE;
-    const double rcos_elv = 1.0/cos_elv ;
     double pm2, pm1, pm0, pmm;
     double pow_cos_elv;
 
@@ -205,7 +204,6 @@ static void shc_legendre_high(double *lp, double *ldp, int degree, double sin_el
         const double f2 = FDIV(i-1,i);
 
         lp[idx] = pm0 = f1*sin_elv*pm1 - f2*pm2;
-        ldp[idx] = i*rcos_elv*(pm1 - sin_elv*pm0);
 
         pm2 = pm1;
         pm1 = pm0;
@@ -253,6 +251,10 @@ static void shc_legendre_high(double *lp, double *ldp, int degree, double sin_el
 
     lp[idx0] = pow_cos_elv*cos_elv*pm2;
     ldp[idx0] = -pow_cos_elv*(j*sin_elv*pm2);
+
+    // zonal derivatives - avoiding the cancellation close to the poles
+    for (i = 2, idx = 3; i <= degree; idx += ++i)
+        ldp[idx] = sqrt(0.5)*psqrt[i]*psqrt[i+1]*lp[idx+1];
 }
 
 
-- 
2.43.0


From f352036d26fad9005a4155ccaaa28cf579e8cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 31/50] fix: composed model evaluation of more times than
 locations

---
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 479e6a8..8630c37 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -33,6 +33,7 @@ from .._pymm import (
     convert, vrot_sph2geod, vrot_sph2cart,
 )
 from .model import GeomagneticModel
+from .util import reshape_times_and_coordinates
 
 __all__ = ["ComposedGeomagneticModel"]
 
@@ -81,8 +82,10 @@ class ComposedGeomagneticModel(GeomagneticModel):
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
 
-        time = asarray(time)
-        location = asarray(location)
+        # reshape time and location to a compatible shape
+        time, location = reshape_times_and_coordinates(
+            asarray(time), asarray(location)
+        )
 
         # convert input coordinates to spherical coordinates
         coord_sph = convert(
@@ -102,10 +105,7 @@ class ComposedGeomagneticModel(GeomagneticModel):
                 args.update(params)
                 result += model.eval(time, coord_sph, scale=scale, **args)
         else:
-            result = zeros(
-                (*time.shape, 3) if time.ndim > (location.ndim - 1) else
-                location.shape
-            )
+            result = zeros(location.shape)
             result[isnan(time), :] = nan
 
         # rotate result to the desired coordinate frame
-- 
2.43.0


From c21f22172e95fb1c5bce982e1e3b328f6a3aa0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:48 +0000
Subject: [PATCH 32/50] fix: loss of precision and integer overflow for inputs
 of other types than float64

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py     | 6 +++---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py | 4 ++--
 eoxmagmod/eoxmagmod/magnetic_model/model.py            | 2 +-
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py   | 2 +-
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py        | 6 +++---
 eoxmagmod/eoxmagmod/magnetic_time.py                   | 3 ++-
 eoxmagmod/eoxmagmod/time_util.py                       | 6 +++---
 eoxmagmod/eoxmagmod/util.py                            | 6 +++---
 8 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 1bd280b..9c5a7fc 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -193,7 +193,7 @@ class ComposedSHCoefficients(SHCoefficients):
         return self._min_degree
 
     def __call__(self, time, **parameters):
-        time = asarray(time)
+        time = asarray(time, 'float64')
         if time.ndim == 0:
             return self._get_coeff_single_time(time, **parameters)
         return self._get_coeff_multi_time(time, **parameters)
@@ -333,7 +333,7 @@ class CombinedSHCoefficients(SHCoefficients):
         return None
 
     def __call__(self, time, **parameters):
-        time = asarray(time)
+        time = asarray(time, 'float64')
         # evaluate coefficient sets ...
         degree = 0
         results = []
@@ -478,7 +478,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
         return [(self._times, coeff, nm_, self._spline_order)]
 
     def __call__(self, time, **parameters):
-        time = convert_value(asarray(time), getattr(self, "convert_time", None))
+        time = convert_value(asarray(time, 'float64'), getattr(self, "convert_time", None))
         degree, coeff, _, index = self.subset_degree(
             parameters.get("min_degree", -1),
             parameters.get("max_degree", -1),
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py
index b32ed65..e3fff5e 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py
@@ -77,8 +77,8 @@ class SparseSHCoefficientsMIO(SparseSHCoefficients):
         self.mjd2000_to_year_fraction = mjd2000_to_year_fraction
 
     def __call__(self, time, mut, **parameters):
-        time = asarray(time)
-        mut = asarray(mut)
+        time = asarray(time, 'float64')
+        mut = asarray(mut, 'float64')
         degree, coeff, _, index = self.subset_degree(
             parameters.get("min_degree", -1), parameters.get("max_degree", -1)
         )
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index 6ac703a..3ac3325 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -131,7 +131,7 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
 
         # reshape time and location to a compatible shape
         time, location = reshape_times_and_coordinates(
-            asarray(time), asarray(location)
+            asarray(time, 'float64'), asarray(location, 'float64')
         )
 
         def _is_valid(start, end):
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 8630c37..98871c1 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -84,7 +84,7 @@ class ComposedGeomagneticModel(GeomagneticModel):
 
         # reshape time and location to a compatible shape
         time, location = reshape_times_and_coordinates(
-            asarray(time), asarray(location)
+            asarray(time, 'float64'), asarray(location, 'float64')
         )
 
         # convert input coordinates to spherical coordinates
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index 194c7e2..8c4a9ef 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -48,7 +48,7 @@ def _reshape_options(shape, options, keys=("f107", "lat_sol", "lon_sol")):
     options = dict(options)
     for key in keys:
         if options.get(key) is not None:
-            value = asarray(options[key])
+            value = asarray(options[key], 'float64')
             options[key] = (
                 reshape_array(shape, value) if value.ndim > 0 else value
             )
@@ -90,7 +90,7 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
              **options):
         # reshape time, location and options to a compatible shape
         time, location = reshape_times_and_coordinates(
-            asarray(time), asarray(location)
+            asarray(time, 'float64'), asarray(location, 'float64')
         )
         location = convert(
             location, input_coordinate_system, GEOCENTRIC_SPHERICAL
@@ -183,7 +183,7 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
 
         # reshape time, location and options to a compatible shape
         time, location = reshape_times_and_coordinates(
-            asarray(time), asarray(location)
+            asarray(time, 'float64'), asarray(location, 'float64')
         )
         options = _reshape_options(location.shape[:-1], options)
 
diff --git a/eoxmagmod/eoxmagmod/magnetic_time.py b/eoxmagmod/eoxmagmod/magnetic_time.py
index b4543fa..cc7a852 100644
--- a/eoxmagmod/eoxmagmod/magnetic_time.py
+++ b/eoxmagmod/eoxmagmod/magnetic_time.py
@@ -51,7 +51,8 @@ def mjd2000_to_magnetic_universal_time(mjd2000, lat_ngp, lon_ngp,
     if lat_sol is None or lon_sol is None:
         lat_sol, lon_sol = get_subsol(mjd2000)
     else:
-        lat_sol, lon_sol = asarray(lat_sol), asarray(lon_sol)
+        lat_sol = asarray(lat_sol, 'float64')
+        lon_sol = asarray(lon_sol, 'float64')
 
     return _mjd2000_to_magnetic_universal_time(
         mjd2000, lat_ngp, lon_ngp, lat_sol, lon_sol
diff --git a/eoxmagmod/eoxmagmod/time_util.py b/eoxmagmod/eoxmagmod/time_util.py
index 791d329..120c520 100644
--- a/eoxmagmod/eoxmagmod/time_util.py
+++ b/eoxmagmod/eoxmagmod/time_util.py
@@ -53,7 +53,7 @@ def mjd2000_to_decimal_year_simple(mjd2000):
     using the simplified conversion method:
         decimal_year = 2000.0 + mjd2000/365.25
     """
-    return 2000.0 + asarray(mjd2000) / 365.25
+    return 2000.0 + asarray(mjd2000, 'float64') / 365.25
 
 
 def mjd2000_to_year_fraction_simple(mjd2000):
@@ -61,7 +61,7 @@ def mjd2000_to_year_fraction_simple(mjd2000):
     using the simplified conversion method:
         year_fraction = mjd2000/365.25 - floor(mjd2000/365.25)
     """
-    mjy2000 = asarray(mjd2000) / 365.25
+    mjy2000 = asarray(mjd2000, 'float64') / 365.25
     return mjy2000 - floor(mjy2000)
 
 
@@ -70,7 +70,7 @@ def decimal_year_to_mjd2000_simple(decimal_year):
     using the simplified conversion method:
         mjd2000 = (decimal_year - 2000.0) * 365.25
     """
-    return (asarray(decimal_year) - 2000.0) * 365.25
+    return (asarray(decimal_year, 'float64') - 2000.0) * 365.25
 
 
 def datetime_to_decimal_year(time):
diff --git a/eoxmagmod/eoxmagmod/util.py b/eoxmagmod/eoxmagmod/util.py
index 5f70ed1..60c649e 100644
--- a/eoxmagmod/eoxmagmod/util.py
+++ b/eoxmagmod/eoxmagmod/util.py
@@ -57,8 +57,8 @@ def vrotate(arr, coord_in, coord_out, coord_type_in, coord_type_out):
     if coord_type_in == coord_type_out:
         return array(arr, 'float64') # result must not share the input data
 
-    coord_out = None if coord_out is None else asarray(coord_out)
-    coord_in = None if coord_in is None else asarray(coord_in)
+    coord_out = None if coord_out is None else asarray(coord_out, 'float64')
+    coord_in = None if coord_in is None else asarray(coord_in, 'float64')
 
     if coord_type_in == GEODETIC_ABOVE_WGS84:
         if coord_type_out == GEOCENTRIC_SPHERICAL:
@@ -83,7 +83,7 @@ def vnorm(arr):
     """ Calculate norm for each vector form an input array of vectors:
         |v| = sqrt(dot(v, v))
     """
-    arr = asarray(arr)
+    arr = asarray(arr).astype('float64', casting='same_kind')
     return sqrt((arr*arr).sum(axis=arr.ndim-1))
 
 
-- 
2.43.0


From 779f22b5fb84d33c5f3fdee8b44b8fcc9685b902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:48 +0000
Subject: [PATCH 33/50] fix: coefficient objects sharing data with the source
 arrays

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 9c5a7fc..1218742 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -28,7 +28,7 @@
 # pylint: disable=too-few-public-methods,abstract-method
 
 from numpy import (
-    inf, asarray, zeros, ones, argsort, abs as aabs, stack,
+    inf, array, asarray, zeros, ones, argsort, abs as aabs, stack,
 )
 from ..time_util import decimal_year_to_mjd2000, mjd2000_to_decimal_year
 from .._pymm import interp, INTERP_C0, INTERP_C1
@@ -367,7 +367,7 @@ class SparseSHCoefficients(SHCoefficients):
             aabs(m_idx) + (n_idx*(n_idx + 1))//2,
             (m_idx < 0).astype('int'),
         ), -1)
-        self._coeff = coefficients
+        self._coeff = array(coefficients) # own copy, not a view
 
     @property
     def degree(self):
-- 
2.43.0


From 2af599bfa10dced0deec294588fce7a1371c21c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:41 +0000
Subject: [PATCH 34/50] fix: composed model not following later changes of its
 components' validity and parameters

---
 .../eoxmagmod/magnetic_model/model_composed.py    | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 98871c1..5f47ebd 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -56,26 +56,29 @@ class ComposedGeomagneticModel(GeomagneticModel):
     """
 
     def __init__(self, *models):
-        self._parameters = set(["time", "location"])
         self._components = []
-        self._validity = (-inf, inf)
         for model in models:
             self.push(model)
 
     def push(self, model, scale=1.0, **parameters):
         """ Add model. """
-        self._parameters.update(model.parameters)
-        self._validity = _validity_overlap(self.validity, model.validity)
         self._components.append(Component(model, scale, parameters))
 
     @property
     def validity(self):
-        return self._validity
+        # evaluated on demand as the components may be changed after the push
+        validity = (-inf, inf)
+        for model, _, _ in self._components:
+            validity = _validity_overlap(validity, model.validity)
+        return validity
 
     @property
     def parameters(self):
         """ required parameters. """
-        return tuple(self._parameters)
+        parameters = set(["time", "location"])
+        for model, _, _ in self._components:
+            parameters.update(model.parameters)
+        return tuple(parameters)
 
     def eval(self, time, location,
              input_coordinate_system=GEOCENTRIC_SPHERICAL,
-- 
2.43.0


From cc60c0547d349a3bc0a4fcfe83d3818f16d1f2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:50 +0000
Subject: [PATCH 35/50] fix: refuse SHC files with other number of times than
 declared in the header

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
index 502d766..ec69106 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
@@ -41,6 +41,8 @@ def parse_shc_file(file_in):
         raise ValueError(
             "Mismatch between the number of times and coefficients columns!"
         )
+    if data["t"].size != data["ntime"]:
+        raise ValueError("Mismatch between the header and the number of times!")
     return data
 
 
-- 
2.43.0


From 68364742556d578ea797687e5bf42959e6d66562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 36/50] fix: undefined values of linearly interpolated series
 ending with repeated nodes

---
 eoxmagmod/eoxmagmod/include/interpolation.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/interpolation.h b/eoxmagmod/eoxmagmod/include/interpolation.h
index b904dec..e6af7ea 100644
--- a/eoxmagmod/eoxmagmod/include/interpolation.h
+++ b/eoxmagmod/eoxmagmod/include/interpolation.h
@@ -93,7 +93,9 @@ static INTERP_BASIS get_interp1_basis (const double x, const double *v, const si
 {
     ptrdiff_t idx0 = bisect_right(x, v, n);
     ptrdiff_t idx = CLIP(idx0, 0, n-2);
-    double alpha = (x - v[idx]) / (v[idx+1] - v[idx]);
+    double width = v[idx+1] - v[idx];
+    // nodes repeated at the series end hold the last value
+    double alpha = (width == 0.0 && x == x) ? 1.0 : (x - v[idx]) / width;
 
     INTERP_BASIS basis = {idx0, idx, 2, {1.0 - alpha, alpha}};
 
@@ -116,7 +118,9 @@ static INTERP_BASIS get_interp1d1_basis (const double x, const double *v, const
 {
     ptrdiff_t idx0 = bisect_right(x, v, n);
     ptrdiff_t idx = CLIP(idx0, 0, n-2);
-    double alpha = 1.0 / (v[idx+1] - v[idx]);
+    double width = v[idx+1] - v[idx];
+    // nodes repeated at the series end hold the last value
+    double alpha = (width == 0.0) ? 0.0 : 1.0 / width;
 
     INTERP_BASIS basis = {idx0, idx, 2, {-alpha, alpha}};
 
-- 
2.43.0


From e8793a09d16f8dcd3d71732f4eb4b9f3ce334fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:19 +0000
Subject: [PATCH 37/50] fix: undefined zenith angle at the sub-solar and
 anti-solar points

A rounding error could make the sine of the elevation exceed one.
---
 eoxmagmod/eoxmagmod/include/sun_ephemeris.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/sun_ephemeris.h b/eoxmagmod/eoxmagmod/include/sun_ephemeris.h
index 4c4d6b4..3d4cef2 100644
--- a/eoxmagmod/eoxmagmod/include/sun_ephemeris.h
+++ b/eoxmagmod/eoxmagmod/include/sun_ephemeris.h
@@ -171,7 +171,9 @@ void sunpos5original(
     const double cd = sqrt(1-sd*sd);
     const double sh = sin(*hang);
     const double ch = cos(*hang);
-    const double se0 = sp*sd + cp*cd*ch;
+    // sine of the elevation (a rounding error must not exceed the unit)
+    const double _se0 = sp*sd + cp*cd*ch;
+    const double se0 = _se0 > 1.0 ? 1.0 : (_se0 < -1.0 ? -1.0 : _se0);
 
     // elevation including parallax correction with radius in km
     const double ep = asin(se0) - sqrt(1.0-se0*se0)*rad*(1.0/149597871.0);
@@ -298,7 +300,9 @@ void sunpos5eq2hor(
     const double cd = sqrt(1-sd*sd);
     const double sh = sin(hang);
     const double ch = cos(hang);
-    const double se0 = sp*sd + cp*cd*ch;
+    // sine of the elevation (a rounding error must not exceed the unit)
+    const double _se0 = sp*sd + cp*cd*ch;
+    const double se0 = _se0 > 1.0 ? 1.0 : (_se0 < -1.0 ? -1.0 : _se0);
 
     // elevation including parallax correction with radius in km
     const double ep = asin(se0) - sqrt(1.0-se0*se0)*rad*(1.0/149597871.0);
-- 
2.43.0


From a96edfb0979cf6c91beea0d8309f57a5ecd4f79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:19 +0000
Subject: [PATCH 38/50] fix: magnetic local time of any longitude stays within
 0 to 24 hours

---
 qdipole/apex.f90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qdipole/apex.f90 b/qdipole/apex.f90
index 97e0ac3..29b096f 100644
--- a/qdipole/apex.f90
+++ b/qdipole/apex.f90
@@ -2781,6 +2781,8 @@
         MLT = (ALON - SMLON)/15.0 + 12.0
         IF (MLT .GE. 24.0) MLT = MLT - 24.0
         IF (MLT .LT.   0.) MLT = MLT + 24.0
+!       longitudes more than a turn off the -180 to 180 degrees range
+        IF (MLT .GT. 24.0 .OR. MLT .LT. 0.) MLT = MODULO(MLT, 24.0)
         RETURN
 !
       ENTRY MLT2ALON (XMLT,SBSLLAT,SBSLLON,CLATP,POLON,ALONX)
-- 
2.43.0


From 039bff96e777186a163fdb70560db4617e00df52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:14 +0000
Subject: [PATCH 39/50] fix: sub-solar point and magnetic local time just
 before midnight

The time of the day was rounded to the following day while the day of the year
was not, the result was a day off, and the last moments of 2100 ended the
process.
---
 qdipole/eval_mlt.f90    | 12 ++++++++----
 qdipole/eval_subsol.f90 | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index 2b9a302..6ace1b7 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -39,14 +39,14 @@
       implicit none
 
       real*8  qdlon(*), t_mjd2k(*), t_mlt(*)
-      real*8  t_0, sec
+      real*8  t_0, t_day, sec, jsec
       real*4  t_mlt4, qdlon4
       real*4  dp_colat, dp_elon, dp_vp
       real*4  sbsllat, sbsllon, ssec
       real*8  t_min, t_max
       real*4  epoch, epoch_old
       integer  n_data, i
-      integer  iyr, imon, iday, idoy, ihour, imin
+      integer  iyr, imon, iday, idoy, ihour, imin, jhour, jmin
 !     extent of the supported times [1900-01-01, 2101-01-01)
       parameter(t_min = -36524.d0, t_max = 36890.d0)
 
@@ -71,10 +71,14 @@
 
 !        1. Ccalculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
-!        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
+!        2. Calculate mjd = nint(t_day) of the civil date and mjd = nint(t_0)
+!           of first day of year 'iyr'. The time just before midnight may be
+!           rounded to the following day or even to the following year.
+         call tmjd(iyr, imon, iday, 0, 0, 0.d0, t_day, 1)
+         call tmjd(iyr, imon, iday, jhour, jmin, jsec, floor(t_mjd2k(i)) + 0.5d0, -1)
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = nint(t_day) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, sbsllat, sbsllon)
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index 2d5e2dc..37170e0 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -47,10 +47,10 @@
       implicit none
 
       real*8        sbsllat(*), sbsllon(*), t_mjd2k(*)
-      real*8        t_0, sec
+      real*8        t_0, t_day, sec, jsec
       real*4        lat, lon, ssec
       integer       n_data, i
-      integer       iyr, imon, iday, idoy, ihour, imin
+      integer       iyr, imon, iday, idoy, ihour, imin, jhour, jmin
       real*8        t_min, t_max
 !     extent of the supported times [1601-01-01, 2101-01-01)
       parameter(t_min = -145731.d0, t_max = 36890.d0)
@@ -64,10 +64,14 @@
          endif
 !        1. Calculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
-!        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
+!        2. Calculate mjd = nint(t_day) of the civil date and mjd = nint(t_0)
+!           of first day of year 'iyr'. The time just before midnight may be
+!           rounded to the following day or even to the following year.
+         call tmjd(iyr, imon, iday, 0, 0, 0.d0, t_day, 1)
+         call tmjd(iyr, imon, iday, jhour, jmin, jsec, floor(t_mjd2k(i)) + 0.5d0, -1)
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = nint(t_day) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, lat, lon)
-- 
2.43.0


From fd27230e10736a4abf98d1f97ee6193e8fe4d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:38 +0000
Subject: [PATCH 40/50] fix: errors of the truth-value tests of boolean flags
 were ignored

---
 eoxmagmod/eoxmagmod/pymm_aux.h           | 20 ++++++++++++++++++++
 eoxmagmod/eoxmagmod/pymm_interp.h        |  5 ++---
 eoxmagmod/eoxmagmod/pymm_relradpow.h     |  5 +++--
 eoxmagmod/eoxmagmod/pymm_sheval.h        |  5 +++--
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h    |  5 +++--
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h    |  5 +++--
 eoxmagmod/eoxmagmod/pymm_sphargrd.h      |  5 +++--
 eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h |  5 +++--
 8 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_aux.h b/eoxmagmod/eoxmagmod/pymm_aux.h
index 838a4c2..7364f1a 100644
--- a/eoxmagmod/eoxmagmod/pymm_aux.h
+++ b/eoxmagmod/eoxmagmod/pymm_aux.h
@@ -94,6 +94,26 @@ static int _parse_double_value(double *target, PyObject *obj, const char *label)
     return 0;
 }
 
+/*
+ * Parse an optional boolean flag. Missing value leaves the target unchanged.
+ */
+
+static int _parse_flag(int *target, PyObject *obj)
+{
+    int value;
+
+    if (obj == NULL)
+        return 0;
+
+    if (0 > (value = PyObject_IsTrue(obj)))
+        return 1;
+
+    *target = value;
+
+    return 0;
+}
+
+
 /*
  * Check the input python object and convert it to a NumPy array of a speciefied
  * type, ensuring the native byte-order.Returns NULL if the conversion failed.
diff --git a/eoxmagmod/eoxmagmod/pymm_interp.h b/eoxmagmod/eoxmagmod/pymm_interp.h
index 624cf86..3237372 100644
--- a/eoxmagmod/eoxmagmod/pymm_interp.h
+++ b/eoxmagmod/eoxmagmod/pymm_interp.h
@@ -98,9 +98,8 @@ static PyObject* interp(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    if (obj_extrapolate != NULL) {
-        extrapolate = PyObject_IsTrue(obj_extrapolate);
-    }
+    if (_parse_flag(&extrapolate, obj_extrapolate))
+        goto exit;
 
     switch (kind) {
         case INTERP_C0:
diff --git a/eoxmagmod/eoxmagmod/pymm_relradpow.h b/eoxmagmod/eoxmagmod/pymm_relradpow.h
index 2e12bdb..6e082cc 100644
--- a/eoxmagmod/eoxmagmod/pymm_relradpow.h
+++ b/eoxmagmod/eoxmagmod/pymm_relradpow.h
@@ -73,7 +73,7 @@ static PyObject* relradpow(PyObject *self, PyObject *args, PyObject *kwdict)
     };
 
     int degree;
-    int is_internal;
+    int is_internal = 1;
     double reference_radius = RADIUS; // reference radius
     PyArrayObject *arr_rad = NULL; // input array of radii
     PyArrayObject *arr_rrp = NULL; // radial series array
@@ -88,7 +88,8 @@ static PyObject* relradpow(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    if (_parse_flag(&is_internal, obj_is_internal))
+        goto exit;
 
     if (degree < 0)
     {
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index e7fdbd4..4f6740d 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -155,7 +155,7 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     int ct_out = CT_GEODETIC_ABOVE_WGS84;
     int degree = -1;
     int mode = SM_GRADIENT;
-    int is_internal;
+    int is_internal = 1;
     double scale_potential = 1.0;
     double scale_gradient[3] = {1.0, 1.0, 1.0};
     PyObject *obj_is_internal = NULL; // boolean flag
@@ -178,7 +178,8 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    if (_parse_flag(&is_internal, obj_is_internal))
+        goto exit;
 
     // check the type of the coordinate transformation
     if (CT_INVALID == _check_coord_type(ct_in, keywords[2]))
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 43fc675..9d6e772 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -155,7 +155,7 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
         "is_internal", "scale_potential", "scale_gradient", NULL
     };
 
-    int degree = 0, mode = 0x2, is_internal;
+    int degree = 0, mode = 0x2, is_internal = 1;
     int ct_in = CT_GEODETIC_ABOVE_WGS84;
     int ct_out = CT_GEODETIC_ABOVE_WGS84;
     double scale_potential = 1.0;
@@ -184,7 +184,8 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    if (_parse_flag(&is_internal, obj_is_internal))
+        goto exit;
 
     // check the type of the coordinate transformation
     if (CT_INVALID == _check_coord_type(ct_in, keywords[4]))
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index f839edd..0ff9a2f 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -172,7 +172,7 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
     };
     int ct_in = CT_GEODETIC_ABOVE_WGS84;
     int ct_out = CT_GEODETIC_ABOVE_WGS84;
-    int degree = 0, mode = 0x2, is_internal;
+    int degree = 0, mode = 0x2, is_internal = 1;
     size_t ncoefset = 0;
     double scale_potential = 1.0;
     double scale_gradient[3] = {1.0, 1.0, 1.0};
@@ -198,7 +198,8 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    if (_parse_flag(&is_internal, obj_is_internal))
+        goto exit;
 
     // check the type of the coordinate transformation
     if (CT_INVALID == _check_coord_type(ct_in, keywords[3]))
diff --git a/eoxmagmod/eoxmagmod/pymm_sphargrd.h b/eoxmagmod/eoxmagmod/pymm_sphargrd.h
index 7cdba3d..adc8aa9 100644
--- a/eoxmagmod/eoxmagmod/pymm_sphargrd.h
+++ b/eoxmagmod/eoxmagmod/pymm_sphargrd.h
@@ -73,7 +73,7 @@ static PyObject* sphargrd(PyObject *self, PyObject *args, PyObject *kwdict)
         "rrp", "lcs", "is_internal", "degree", NULL
     };
 
-    int degree = -1, is_internal;
+    int degree = -1, is_internal = 1;
 
     PyObject *obj_is_internal = NULL; // boolean flag
     PyObject *obj_lat = NULL; // latitude object
@@ -100,7 +100,8 @@ static PyObject* sphargrd(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    if (_parse_flag(&is_internal, obj_is_internal))
+        goto exit;
 
     // cast the objects to arrays
     if (NULL == (arr_lat = _get_as_double_array(obj_lat, 0, 0, NPY_ARRAY_ALIGNED, keywords[0])))
diff --git a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
index d7470a3..e495bcf 100644
--- a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
+++ b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
@@ -62,7 +62,7 @@ static PyObject* eval_qdlatlon(PyObject *self, PyObject *args, PyObject *kwdict)
         "gclat", "gclon", "gcrad", "time", "fname", "eval_base", NULL
     };
 
-    int eval_base;
+    int eval_base = 0;
     const char *model_fname = NULL;
     PyObject *obj_gclat = NULL; // gclat object
     PyObject *obj_gclon = NULL; // gclon object
@@ -101,7 +101,8 @@ static PyObject* eval_qdlatlon(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
     }
 
-    eval_base = obj_flag ? (1 == PyObject_IsTrue(obj_flag)) : 0;
+    if (_parse_flag(&eval_base, obj_flag))
+        goto exit;
 
     #define NPY_REQ (NPY_ARRAY_ALIGNED|NPY_ARRAY_C_CONTIGUOUS)
 
-- 
2.43.0


From b32bdd57a661f2dbbbb29bb98f0ea75f3f00b73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:57 +0000
Subject: [PATCH 41/50] fix: shevaltemp must hold the coefficient sets while
 they are converted

---
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 0ff9a2f..90f148f 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -180,6 +180,7 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
     PyObject *obj_t = NULL; // times
     PyObject *obj_x = NULL; // spatial coordinates
     PyObject *obj_coef_list = NULL; // list of coefficient objects
+    PyObject *coef_tuple = NULL; // tuple holding the coefficient objects
     PyObject *obj_scale = NULL; // gradient scale object
     PyArrayObject *arr_t = NULL; // times array
     PyArrayObject *arr_x = NULL; // spatial coordinates array
@@ -231,13 +232,17 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
     }
 
+    // hold the list items (the list can be changed by the conversion of the items)
+    if (NULL == (coef_tuple = PyList_AsTuple(obj_coef_list)))
+        goto exit;
+
     // parse coefficient sets
     {
-        size_t i, n = PyList_Size(obj_coef_list);
+        size_t i, n = PyTuple_Size(coef_tuple);
 
         for (i = 0; i < n; ++i)
         {
-            if(parse_coefset(&coefsets[i], keywords[2], i, PyList_GetItem(obj_coef_list, i)))
+            if(parse_coefset(&coefsets[i], keywords[2], i, PyTuple_GetItem(coef_tuple, i)))
                 goto exit;
 
             ncoefset += 1;
@@ -358,6 +363,7 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
     }
 
     // decrease reference counters to the arrays
+    if (coef_tuple) Py_DECREF(coef_tuple);
     if (arr_t) Py_DECREF(arr_t);
     if (arr_x) Py_DECREF(arr_x);
     if (arr_scale) Py_DECREF(arr_scale);
-- 
2.43.0


From 49e4043f8f7e3203109943ca6cce10d7f2c762fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:22 +0000
Subject: [PATCH 42/50] fix: arrays released twice when the output tuple cannot
 be created

---
 eoxmagmod/eoxmagmod/pymm_legendre.h      | 4 ++++
 eoxmagmod/eoxmagmod/pymm_sheval.h        | 4 ++++
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h    | 4 ++++
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h    | 4 ++++
 eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h | 8 +++++++-
 eoxmagmod/eoxmagmod/pyqd_eval_subsol.h   | 4 ++++
 6 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_legendre.h b/eoxmagmod/eoxmagmod/pymm_legendre.h
index 131e65f..e1ca0c4 100644
--- a/eoxmagmod/eoxmagmod/pymm_legendre.h
+++ b/eoxmagmod/eoxmagmod/pymm_legendre.h
@@ -127,7 +127,11 @@ static PyObject* legendre(PyObject *self, PyObject *args, PyObject *kwdict)
 
 
     if (NULL == (retval = Py_BuildValue("NN", arr_p, arr_dp)))
+    {
+        // the array references have been already released
+        arr_p = arr_dp = NULL;
         goto exit;
+    }
 
 
     // evaluate associated Legendre functions and their derivatives
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 4f6740d..afdcc02 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -349,7 +349,11 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
                 &model
             );
             if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd)))
+            {
+                // the array references have been already released
+                arr_pot = arr_grd = NULL;
                 goto exit;
+            }
             break;
     }
 
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 9d6e772..4e0b693 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -343,7 +343,11 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
                  &model
             );
             if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd)))
+            {
+                // the array references have been already released
+                arr_pot = arr_grd = NULL;
                 goto exit;
+            }
             break;
     }
 
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 90f148f..ff97d90 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -348,7 +348,11 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
                  &model
             );
             if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd)))
+            {
+                // the array references have been already released
+                arr_pot = arr_grd = NULL;
                 goto exit;
+            }
             break;
     }
 
diff --git a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
index e495bcf..fed5d56 100644
--- a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
+++ b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
@@ -218,7 +218,13 @@ static PyObject* eval_qdlatlon(PyObject *self, PyObject *args, PyObject *kwdict)
         );
     }
 
-    if (NULL == retval) goto exit;
+    if (NULL == retval)
+    {
+        // the array references have been already released
+        arr_qdlat = arr_qdlon = NULL;
+        arr_f11 = arr_f12 = arr_f21 = arr_f22 = arr_f = NULL;
+        goto exit;
+    }
 
   exit:
 
diff --git a/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h b/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h
index ff9a56d..e8aabe4 100644
--- a/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h
+++ b/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h
@@ -95,7 +95,11 @@ static PyObject* eval_subsol(PyObject *self, PyObject *args, PyObject *kwdict)
     }
 
     if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_gdlat, (PyObject*) arr_gdlon)))
+    {
+        // the array references have been already released
+        arr_gdlat = arr_gdlon = NULL;
         goto exit;
+    }
 
   exit:
 
-- 
2.43.0


From 3978d35244bd901d3d091bd6f5f3a7f3d4b84724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:08 +0000
Subject: [PATCH 43/50] fix: failed allocation of the quasi-dipole coefficients
 ended the process

---
 qdipole/apexsh.f90     | 61 +++++++++++++++++++-----------------------
 qdipole/makeapexsh.f90 |  5 ++--
 2 files changed, 30 insertions(+), 36 deletions(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index 8c44401..18f0369 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -177,7 +177,7 @@
       if (ios .ne. 0) return
       read(23,*,iostat=ios) nepoch, nmax, mmax, lmax, nterm
       if (ios .eq. 0) call checkdimensions(ios)
-      if (ios .eq. 0) call allocatearrays
+      if (ios .eq. 0) call allocatearrays(ios)
       if (ios .eq. 0) read(23,*,iostat=ios) epochgrid, coeff0
       close(23)
       if (ios .ne. 0) return
@@ -259,12 +259,15 @@ end subroutine checkdimensions
 
 !***************************************************************************************************
 
-subroutine allocatearrays
+!  Allocate the coefficients and work arrays. Set status to non-zero if the allocation failed.
+
+subroutine allocatearrays(status)
 
     use apxshmodule
 
     implicit none
 
+    integer(4), intent(out)     :: status
     external alfbasisinit
 
     !RESET ARRAYS
@@ -293,35 +296,22 @@ subroutine allocatearrays
 
     !ALLOCATE ARRAYS
     ntermsh = mmax*(2*nmax - mmax + 1) + nmax + 1
-    allocate(    epochgrid(0:nepoch-1) )
-    allocate(       coeff0(0:nterm-1, 0:nepoch-1, 0:5) )
-    allocate(      qcoeff0(0:nterm-1, 0:2) )
-    allocate(      gcoeff0(0:nterm-1, 0:2) )
-    allocate(      xqcoeff(0:ntermsh-1) )
-    allocate(      yqcoeff(0:ntermsh-1) )
-    allocate(      zqcoeff(0:ntermsh-1) )
-    allocate( dxqdrhocoeff(0:ntermsh-1) )
-    allocate( dyqdrhocoeff(0:ntermsh-1) )
-    allocate( dzqdrhocoeff(0:ntermsh-1) )
-    allocate(      xgcoeff(0:ntermsh-1) )
-    allocate(      ygcoeff(0:ntermsh-1) )
-    allocate(      zgcoeff(0:ntermsh-1) )
-    allocate(           sh(0:ntermsh-1) )
-    allocate(  shgradtheta(0:ntermsh-1) )
-    allocate(    shgradphi(0:ntermsh-1) )
-    allocate(     polynomq(0:lmax) )
-    allocate(    dpolynomq(0:lmax) )
-    allocate(     polynomg(0:lmax) )
-    allocate(         pbar(0:nmax, 0:mmax) )
-    allocate(         vbar(0:nmax, 0:mmax) )
-    allocate(         wbar(0:nmax, 0:mmax) )
+    allocate(    epochgrid(0:nepoch-1), coeff0(0:nterm-1, 0:nepoch-1, 0:5), &
+                   qcoeff0(0:nterm-1, 0:2), gcoeff0(0:nterm-1, 0:2), &
+                   xqcoeff(0:ntermsh-1), yqcoeff(0:ntermsh-1), zqcoeff(0:ntermsh-1), &
+              dxqdrhocoeff(0:ntermsh-1), dyqdrhocoeff(0:ntermsh-1), dzqdrhocoeff(0:ntermsh-1), &
+                   xgcoeff(0:ntermsh-1), ygcoeff(0:ntermsh-1), zgcoeff(0:ntermsh-1), &
+                        sh(0:ntermsh-1), shgradtheta(0:ntermsh-1), shgradphi(0:ntermsh-1), &
+                  polynomq(0:lmax), dpolynomq(0:lmax), polynomg(0:lmax), &
+                      pbar(0:nmax, 0:mmax), vbar(0:nmax, 0:mmax), wbar(0:nmax, 0:mmax), stat=status )
+    if (status .ne. 0) return
     polynomq(0) = 1D0
     dpolynomq(0) = 0D0
     polynomg(0) = 1D0
     pbar = 0
     vbar = 0
     wbar = 0
-    call alfbasisinit(nmax,mmax)
+    call alfbasisinit(nmax,mmax,status)
 
     return
 
@@ -727,25 +717,28 @@ end module alfbasismodule
 
 !***************************************************************************************************
 
-subroutine alfbasisinit(nmax0in,mmax0in)
+subroutine alfbasisinit(nmax0in,mmax0in,status)
 
     use alfbasismodule
 
     implicit none
 
     integer(4), intent(in) :: nmax0in, mmax0in
+    integer(4), intent(out) :: status
     integer(8)             :: n, m
 
     nmax0 = nmax0in
     mmax0 = mmax0in
-    if (allocated(anm)) deallocate(anm, bnm, cm, dnm, en, marr, narr)
-    allocate( anm(0:nmax0, 0:mmax0) )
-    allocate( bnm(0:nmax0, 0:mmax0) )
-    allocate( cm(0:mmax0) )
-    allocate( dnm(0:nmax0, 0:mmax0) )
-    allocate( en(0:nmax0) )
-    allocate( marr(0:mmax0) )
-    allocate( narr(0:nmax0) )
+    if (allocated(anm)) deallocate(anm)
+    if (allocated(bnm)) deallocate(bnm)
+    if (allocated(cm)) deallocate(cm)
+    if (allocated(dnm)) deallocate(dnm)
+    if (allocated(en)) deallocate(en)
+    if (allocated(marr)) deallocate(marr)
+    if (allocated(narr)) deallocate(narr)
+    allocate( anm(0:nmax0, 0:mmax0), bnm(0:nmax0, 0:mmax0), cm(0:mmax0), &
+              dnm(0:nmax0, 0:mmax0), en(0:nmax0), marr(0:mmax0), narr(0:nmax0), stat=status )
+    if (status .ne. 0) return
 
     do n = 1, nmax0
       narr(n) = dble(n)
diff --git a/qdipole/makeapexsh.f90 b/qdipole/makeapexsh.f90
index 1181168..9262e39 100644
--- a/qdipole/makeapexsh.f90
+++ b/qdipole/makeapexsh.f90
@@ -60,7 +60,7 @@ subroutine makeapxsh(datafilein,epochgridin,nepochin,lmaxin,mmaxin,nmaxin)
     real(8), allocatable        :: Gg(:,:), Gq(:,:), Fg(:), Fq(:), cfdiag(:), coefftemp(:)
     real(8), allocatable        :: Dxq(:), Dyq(:), Dzq(:), Dxg(:), Dyg(:), Dzg(:)
     
-    integer(4)                  :: NMAXIGRF
+    integer(4)                  :: NMAXIGRF, ios
     real(4)                     :: GB(1:255)
     real(4)                     :: A,ALAT,ALON,dum1,dum2,dum3,dum4,dum5
 
@@ -79,7 +79,8 @@ subroutine makeapxsh(datafilein,epochgridin,nepochin,lmaxin,mmaxin,nmaxin)
     nlon = sampfact*mmax
     nlat = sampfact*nmax
     nalt = sampfact*lmax
-    call allocatearrays
+    call allocatearrays(ios)
+    if (ios .ne. 0) stop 'Failed to allocate the coefficient arrays!'
     coeff0 = 0
     do iepoch = 0, nepoch-1
       epochgrid(iepoch) = epochgridin(iepoch)
-- 
2.43.0


From 11604232a6429799f44e3fb288d0eb1c84b2b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:21 +0000
Subject: [PATCH 44/50] fix: out-of-bounds read for quasi-dipole coefficients
 with undefined epochs

---
 qdipole/apexsh.f90 | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index 18f0369..c956ae0 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -180,6 +180,7 @@
       if (ios .eq. 0) call allocatearrays(ios)
       if (ios .eq. 0) read(23,*,iostat=ios) epochgrid, coeff0
       close(23)
+      if (ios .eq. 0) call checkepochs(ios)
       if (ios .ne. 0) return
     endif
     
@@ -259,6 +260,28 @@ end subroutine checkdimensions
 
 !***************************************************************************************************
 
+!  Check the epochs read from the coefficients file. Set status to non-zero if they are not valid
+!  numbers in the ascending order.
+
+subroutine checkepochs(status)
+
+    use apxshmodule
+
+    implicit none
+
+    integer(4), intent(out)     :: status
+    integer(4)                  :: iepoch
+
+    status = 1
+    do iepoch = 1, nepoch-1
+      if (.not. (epochgrid(iepoch) .gt. epochgrid(iepoch-1))) return
+    enddo
+    status = 0
+
+end subroutine checkepochs
+
+!***************************************************************************************************
+
 !  Allocate the coefficients and work arrays. Set status to non-zero if the allocation failed.
 
 subroutine allocatearrays(status)
-- 
2.43.0


From 99f048a773ec1f60e8a24bea3307ff5f9f248b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:59 +0000
Subject: [PATCH 45/50] fix: crash for coefficient indices given as a matrix

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 1218742..2522f0c 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -359,6 +359,7 @@ class SparseSHCoefficients(SHCoefficients):
 
     def __init__(self, indices, coefficients, **kwargs):
         SHCoefficients.__init__(self, **kwargs)
+        indices = asarray(indices)
         n_idx, m_idx = indices[..., 0], indices[..., 1]
         self._degree = n_idx.max()
         self._min_degree = n_idx.min()
-- 
2.43.0


From 822285f18a163f357fbaae08018b66eac78ca98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:15 +0000
Subject: [PATCH 46/50] fix: values of the MIO primary model outside of its
 validity

---
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index 8c4a9ef..70a2474 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -27,7 +27,7 @@
 #-------------------------------------------------------------------------------
 # pylint: disable=too-many-arguments
 
-from numpy import nan, asarray, empty, isnan, full
+from numpy import nan, asarray, isnan, full
 from .._pymm import GRADIENT, GEOCENTRIC_SPHERICAL, convert, sheval2dfs
 from ..magnetic_time import mjd2000_to_magnetic_universal_time
 from .coefficients_mio import SparseSHCoefficientsMIO
@@ -101,7 +101,11 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
         radius = location[..., 2]
         mask_below_ionosphere = radius <= radius_ionosphere
 
-        result = empty(location.shape)
+        # no values outside of the common validity of the two models
+        start, end = self.validity
+        mask_valid = (time >= start) & (time <= end)
+
+        result = full(location.shape, nan)
 
         def _eval_model(model, mask, **options):
 
@@ -120,10 +124,12 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
             )
 
         _eval_model(
-            self.model_below_ionosphere, mask_below_ionosphere, **options
+            self.model_below_ionosphere,
+            mask_valid & mask_below_ionosphere, **options
         )
         _eval_model(
-            self.model_above_ionosphere, ~mask_below_ionosphere, **options
+            self.model_above_ionosphere,
+            mask_valid & ~mask_below_ionosphere, **options
         )
 
         return result
-- 
2.43.0


From 5a09cb29165bb079eba12b2a0efe0d3909f1cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:08 +0000
Subject: [PATCH 47/50] fix: refuse repeated and invalid degrees and orders of
 the coefficients

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 2522f0c..e57147e 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -28,7 +28,7 @@
 # pylint: disable=too-few-public-methods,abstract-method
 
 from numpy import (
-    inf, array, asarray, zeros, ones, argsort, abs as aabs, stack,
+    inf, array, asarray, zeros, ones, argsort, abs as aabs, stack, unique,
 )
 from ..time_util import decimal_year_to_mjd2000, mjd2000_to_decimal_year
 from .._pymm import interp, INTERP_C0, INTERP_C1
@@ -361,6 +361,8 @@ class SparseSHCoefficients(SHCoefficients):
         SHCoefficients.__init__(self, **kwargs)
         indices = asarray(indices)
         n_idx, m_idx = indices[..., 0], indices[..., 1]
+        if (aabs(m_idx) > n_idx).any():
+            raise ValueError("Invalid degree or order of the coefficients!")
         self._degree = n_idx.max()
         self._min_degree = n_idx.min()
         self._nm = indices.astype('int32')
@@ -368,6 +370,8 @@ class SparseSHCoefficients(SHCoefficients):
             aabs(m_idx) + (n_idx*(n_idx + 1))//2,
             (m_idx < 0).astype('int'),
         ), -1)
+        if len(unique(self._index, axis=0)) != len(self._index):
+            raise ValueError("Repeated coefficients of the same degree and order!")
         self._coeff = array(coefficients) # own copy, not a view
 
     @property
-- 
2.43.0


From 3307fb493ddc5c85dcc567048ebe3d813b9f2a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:45 +0000
Subject: [PATCH 48/50] fix: refuse repeated coefficients of the static EMM
 file

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
index ea98d78..835a5a0 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
@@ -27,7 +27,7 @@
 #-------------------------------------------------------------------------------
 
 import re
-from numpy import array, stack
+from numpy import array, stack, unique
 
 __all__ = [
     "combine_emm_coefficients",
@@ -40,6 +40,9 @@ EMM_VALIDITY_PERIOD = 5.0 # years
 
 def combine_emm_coefficients(data_static, data_secvar):
     """ Combine coefficient read from the separate EMM files. """
+    nm_static = data_static["nm"]
+    if len(unique(nm_static, axis=0)) != len(nm_static):
+        raise ValueError("Repeated coefficients of the same degree and order!")
     return (
         combine_emm_variable(data_static, data_secvar),
         extract_emm_constant(data_static, data_secvar),
-- 
2.43.0


From aef8e0952ae0442aa6d79d353e4df8628c805d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:28 +0000
Subject: [PATCH 49/50] fix: C01 overflow of the expansions of degrees above
 1024 at the poles

The low degree algorithm used at the poles overflows for degrees above 1024
which led to undefined Legendre functions and field. Use the algorithm
of high degrees, which does not suffer by the vicinity of the poles, and
evaluate the azimuth component with normalised terms.
---
 .../eoxmagmod/include/spherical_harmonics.h   | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 0ccd383..f9f1bd0 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -278,8 +278,8 @@ static void shc_legendre(double *lp, double *ldp, int degree, double elv, const
     const double sin_elv = sin(elv);
     const double cos_elv = cos(elv);
 
-    if ((degree <= 16)||(fabs(cos_elv) < 1e-10))
-        // low degree model + poles
+    if (degree <= 16)
+        // low degree model
         shc_legendre_low(lp, ldp, degree, sin_elv, cos_elv, psqrt, prsqrt);
     else
         // high degree model
@@ -414,8 +414,7 @@ static void shc_eval_dvaz_pole(
 
     const double lcos1 = lcs[1][0];
     const double lsin1 = lcs[1][1];
-    double sqn3, sqn1 = 1.0;
-    double ps2, ps1 = 1.0, ps0 = 1.0;
+    double ps2, ps1 = 0.0, ps0 = 1.0;
 
     // i = 1
     double _dvaz = (coef[2][0]*lsin1 - coef[2][1]*lcos1) * rrp[1];
@@ -423,18 +422,15 @@ static void shc_eval_dvaz_pole(
     for (i = 2; i <= degree; ++i)
     {
         const size_t idx = 1 + (i*(i+1))/2;
-        const double tmp = FDIV((i-1)*(i-1)-1, (2*i-1)*(2*i-3));
 
-        // evaluate ratio between the Gauss-normalised and Schmidt
-        // quasi-normalised associated Legendre functions.
-        //  Equivalent to: sqrt((j==0?1:2)*(i-j)!/(i+j!))*(2i-1)!!/(i-j)!
-        sqn1 = sqn1 * FDIV(2*i-1, i);
-        sqn3 = sqn1 * sqrt(FDIV(i*2, i+1));
+        // evaluate the scaled associated Legendre functions of the order 1
+        // divided by the elevation cosine
         ps2 = ps1;
         ps1 = ps0;
-        ps0 = sin_elv*ps1 - tmp*ps2;
+        ps0 = FDIV(2*i-1, i)*sin_elv*ps1 - FDIV(i-2, i-1)*ps2;
 
-        _dvaz += (coef[idx][0]*lsin1 - coef[idx][1]*lcos1) * rrp[i] * ps0 * sqn3;
+        // finish the Schmidt quasi-normalisation
+        _dvaz += (coef[idx][0]*lsin1 - coef[idx][1]*lcos1) * rrp[i] * ps0 * sqrt(FDIV(i*2, i+1));
     }
 
     *dvaz = -_dvaz;
-- 
2.43.0


From 314fa1c11969de9dbad7a00449ab681d86152577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:33 +0000
Subject: [PATCH 50/50] fix: refuse indices arrays of other than two columns

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index e57147e..d4129c1 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -437,7 +437,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
         if coefficients.ndim != 2:
             raise ValueError(f"Invalid coefficients array dimension {coefficients.shape}!")
 
-        if indices.ndim != 2 and indices.shape[1] != 2:
+        if indices.ndim != 2 or indices.shape[1] != 2:
             raise ValueError(f"Invalid indices array dimension {indices.shape}!")
 
         if indices.shape[0] != coefficients.shape[0]:
@@ -507,7 +507,7 @@ class SparseSHCoefficientsConstant(SparseSHCoefficientsTimeDependent):
         if coefficients.ndim != 1:
             raise ValueError(f"Invalid coefficients array dimension {coefficients.shape}!")
 
-        if indices.ndim != 2 and indices.shape[1] != 2:
+        if indices.ndim != 2 or indices.shape[1] != 2:
             raise ValueError(f"Invalid indices array dimension {indices.shape}!")
 
         if indices.shape[0] != coefficients.shape[0]:
-- 
2.43.0

