From 1621af35eefa7352a15b8cc82ec05da7bf61b9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:55 +0000
Subject: [PATCH 01/71] fix: hold the GIL around the FFTW planner, which is not
 thread-safe

---
 lsl/correlator/core.cpp   | 20 ++++++++++----------
 lsl/correlator/spec.cpp   | 20 ++++++++++----------
 lsl/correlator/stokes.cpp | 20 ++++++++++----------
 lsl/imaging/gridder.cpp   | 10 +++++-----
 4 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index c84ec3c..391feed 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -131,9 +131,7 @@ void compute_fengine_real(long nStand,
     // Setup
     long ij, i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
-    
-    // Create the FFTW plan     
+    // Create the FFTW plan (the FFTW planner is not thread-safe so keep the GIL)     
     float *inP, *in;                          
     Complex32 *outP, *out;
     inP = (float*) fftwf_malloc(sizeof(float) * 2*nChan*nTap);
@@ -145,6 +143,8 @@ void compute_fengine_real(long nStand,
                                 reinterpret_cast<fftwf_complex*>(outP), NULL, 1, nChan+1, \
                                 FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     
@@ -218,12 +218,12 @@ void compute_fengine_real(long nStand,
     }
     aligned64_free(rot);
     
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
     fftwf_free(outP);
     
-    Py_END_ALLOW_THREADS
-    
 }
 
 
@@ -246,9 +246,7 @@ void compute_fengine_complex(long nStand,
     // Setup
     long ij, i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
-    
-    // Create the FFTW plan
+    // Create the FFTW plan (the FFTW planner is not thread-safe so keep the GIL)
     Complex32 *inP, *in;
     inP = (Complex32*) fftwf_malloc(sizeof(Complex32) * nChan*nTap);
     fftwf_plan p;
@@ -258,6 +256,8 @@ void compute_fengine_complex(long nStand,
                           reinterpret_cast<fftwf_complex*>(inP), NULL, 1, nChan, \
                           FFTW_FORWARD, FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     
@@ -328,10 +328,10 @@ void compute_fengine_complex(long nStand,
     }
     aligned64_free(rot);
     
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 4dc51cb..d6c8f63 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -46,9 +46,7 @@ void compute_spec_real(long nStand,
     // Setup
     long i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
-    
-    // Create the FFTW plan                          
+    // Create the FFTW plan (the FFTW planner is not thread-safe so keep the GIL)                          
     float *inP, *in;                          
     Complex32 *outP, *out;
     inP = (float*) fftwf_malloc(sizeof(float) * 2*nChan*nTap);
@@ -60,6 +58,8 @@ void compute_spec_real(long nStand,
                                 reinterpret_cast<fftwf_complex*>(outP), NULL, 1, nChan+1, \
                                 FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     
@@ -130,11 +130,11 @@ void compute_spec_real(long nStand,
         fftwf_free(in);
         fftwf_free(out);
     }
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
     fftwf_free(outP);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
@@ -152,9 +152,7 @@ void compute_spec_complex(long nStand,
     // Setup
     long i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
-    
-    // Create the FFTW plan
+    // Create the FFTW plan (the FFTW planner is not thread-safe so keep the GIL)
     Complex32 *inP, *in;
     inP = (Complex32*) fftwf_malloc(sizeof(Complex32) * nChan*nTap);
     fftwf_plan p;
@@ -164,6 +162,8 @@ void compute_spec_complex(long nStand,
                             reinterpret_cast<fftwf_complex*>(inP), NULL, 1, nChan, \
                             FFTW_FORWARD, FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     double* temp2;
@@ -234,10 +234,10 @@ void compute_spec_complex(long nStand,
         fftwf_free(in);
         aligned64_free(temp2);
     }
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 2110ecc..31d95d3 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -47,9 +47,7 @@ void compute_stokes_real(long nStand,
     // Setup
     long i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
-    
-    // Create the FFTW plan                          
+    // Create the FFTW plan (the FFTW planner is not thread-safe so keep the GIL)                          
     float *inP, *inX, *inY;                          
     Complex32 *outP, *outX, *outY;
     inP = (float*) fftwf_malloc(sizeof(float) * 2*nChan*nTap);
@@ -61,6 +59,8 @@ void compute_stokes_real(long nStand,
                                 reinterpret_cast<fftwf_complex*>(outP), NULL, 1, nChan+1, \
                                 FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     
@@ -162,11 +162,11 @@ void compute_stokes_real(long nStand,
         fftwf_free(outX);
         fftwf_free(outY);
     }
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
     fftwf_free(outP);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
@@ -185,9 +185,7 @@ void compute_stokes_complex(long nStand,
     // Setup
     long i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
-    
-    // Create the FFTW plan
+    // Create the FFTW plan (the FFTW planner is not thread-safe so keep the GIL)
     Complex32 *inP, *inX, *inY;
     inP = (Complex32*) fftwf_malloc(sizeof(Complex32) * nChan*nTap);
     fftwf_plan p;
@@ -197,6 +195,8 @@ void compute_stokes_complex(long nStand,
                             reinterpret_cast<fftwf_complex*>(inP), NULL, 1, nChan, \
                             FFTW_FORWARD, FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     double* temp2;
@@ -294,10 +294,10 @@ void compute_stokes_complex(long nStand,
         fftwf_free(inY);
         aligned64_free(temp2);
     }
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 161357b..7894f54 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -194,8 +194,6 @@ void compute_gridding(long nVis,
     // Setup
     long i, j, l, m;
     
-    Py_BEGIN_ALLOW_THREADS
-    
     // Figure out the w-planes to use
     int nPlanes = 0;
     long *planeStart, *planeStop;
@@ -214,7 +212,7 @@ void compute_gridding(long nVis,
     Complex32 *suv, *sbm, *kern;
     static float norm = (float) 1.0 / (nPixSide * nPixSide);
     
-    // FFT setup
+    // FFT setup (the FFTW planner is not thread-safe so keep the GIL)
     Complex32* inP;
     inP = (Complex32*) fftwf_malloc(sizeof(Complex32) * nPixSide*nPixSide);
     fftwf_plan pF, pR;
@@ -227,6 +225,8 @@ void compute_gridding(long nVis,
                            reinterpret_cast<fftwf_complex*>(inP), \
                            FFTW_BACKWARD, FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Go!
     #ifdef _OPENMP
         #pragma omp parallel default(shared) private(suv, sbm, kern, i, j, l, m, secStart, secStop, avgW, ci, cj, pi, pj, gi, gj, temp, temp2)
@@ -338,6 +338,8 @@ void compute_gridding(long nVis,
         fftwf_free(kern);
     }
     
+    Py_END_ALLOW_THREADS
+    
     // Correct for the kernel
     compute_kernel_correction(nPixSide, kernel1D, corr);
     
@@ -350,8 +352,6 @@ void compute_gridding(long nVis,
     
     free(planeStart);
     free(planeStop);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
-- 
2.43.0


From b8ea90d925fa3c8a5d09aa963b7a3ed22f39ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:55 +0000
Subject: [PATCH 02/71] fix: buildWisdom checks that the output file opened and
 no longer raises or plans without the GIL

---
 lsl/misc/wisdom.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lsl/misc/wisdom.cpp b/lsl/misc/wisdom.cpp
index f8866d3..98c2750 100644
--- a/lsl/misc/wisdom.cpp
+++ b/lsl/misc/wisdom.cpp
@@ -41,7 +41,7 @@ static PyObject *buildWisdom(PyObject *self, PyObject *args) {
         return NULL;
     }
     
-    Py_BEGIN_ALLOW_THREADS
+    // NOTE: The FFTW planner is not thread-safe so the GIL is kept throughout
     
     if(!fftwf_import_system_wisdom()) {
         std::cout << "Warning: system wisdom file not found, continuing" << std::endl;
@@ -147,15 +147,13 @@ static PyObject *buildWisdom(PyObject *self, PyObject *args) {
     
     // Save the wisdom
     fh = fopen(filename, "w");
-    if(ferror(fh)) {
+    if(fh == NULL) {
         PyErr_Format(PyExc_IOError, "An error occurred while opening the file for writing");
         return NULL;
     }
     fftwf_export_wisdom_to_file(fh);
     fclose(fh);
     
-    Py_END_ALLOW_THREADS
-    
     output = Py_True;
     Py_INCREF(output);
     return output;
-- 
2.43.0


From 9c665451d5226d3ab0b2f3aaefc7c858e9670164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:55 +0000
Subject: [PATCH 03/71] fix: gridder normalization follows the grid size of
 each call, not that of the first call

---
 lsl/imaging/gridder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 7894f54..1c10d3d 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -210,7 +210,7 @@ void compute_gridding(long nVis,
     double avgW, ci, cj, temp, temp2;
     long pi, pj, gi, gj;
     Complex32 *suv, *sbm, *kern;
-    static float norm = (float) 1.0 / (nPixSide * nPixSide);
+    float norm = (float) 1.0 / (nPixSide * nPixSide);
     
     // FFT setup (the FFTW planner is not thread-safe so keep the GIL)
     Complex32* inP;
-- 
2.43.0


From 1ed472ef34f48f632e74b3d970c9e5b71afcd74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:35 +0000
Subject: [PATCH 04/71] fix: correlator engines release their delay arrays and
 window arguments on every path and report a failing window function

---
 lsl/correlator/core.cpp   | 46 +++++++++++++++++++++++++--------------
 lsl/correlator/spec.cpp   |  9 +++++++-
 lsl/correlator/stokes.cpp |  9 +++++++-
 3 files changed, 46 insertions(+), 18 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index 391feed..08154e9 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -343,6 +343,8 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     int Overlap = 1;
     int Clip = 0;
     double SampleRate = 196.0e6;
+    long *fifo=NULL;
+    double *frac=NULL;
 
     long nStand, nSamps, nFFT;
     
@@ -406,15 +408,22 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     
     // Calculate the windowing function
     if( windowFunc != Py_None ) {
-        window = Py_BuildValue("(i)", (1+isReal)*nChan);
-        window = PyObject_CallObject(windowFunc, window);
-        windowData = (PyArrayObject *) PyArray_ContiguousFromObject(window, NPY_DOUBLE, 1, 1);
-        Py_DECREF(window);
+        PyObject *arglist = Py_BuildValue("(i)", (1+isReal)*nChan);
+        PyObject *windowValue = PyObject_CallObject(windowFunc, arglist);
+        Py_XDECREF(arglist);
+        if( windowValue == NULL ) {
+            goto fail;
+        }
+        windowData = (PyArrayObject *) PyArray_ContiguousFromObject(windowValue, NPY_DOUBLE, 1, 1);
+        Py_DECREF(windowValue);
+        if( windowData == NULL ) {
+            PyErr_Format(PyExc_RuntimeError, "Cannot cast window values to 1-D double");
+            goto fail;
+        }
     }
     
     // Compute the integer sample offset and the fractional sample delay for each stand
-    long *fifo, fifoMax;
-    double *frac;
+    long fifoMax;
     fifo = (long *) aligned64_malloc(nStand*sizeof(long));
     frac = (double *) aligned64_malloc(nStand*nChan*sizeof(double));
     if( fifo == NULL || frac == NULL ) {
@@ -433,8 +442,6 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     dataF = (PyArrayObject*) PyArray_ZEROS(3, dims, NPY_COMPLEX64, 0);
     if(dataF == NULL) {
         PyErr_Format(PyExc_MemoryError, "Cannot create output array");
-        aligned64_free(fifo);
-        aligned64_free(frac);
         goto fail;
     }
     
@@ -445,8 +452,6 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     validF = (PyArrayObject*) PyArray_ZEROS(2, dimsV, NPY_UINT8, 0);
     if(validF == NULL) {
         PyErr_Format(PyExc_MemoryError, "Cannot create valid index array");
-        aligned64_free(fifo);
-        aligned64_free(frac);
         goto fail;
     }
     
@@ -498,6 +503,12 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     return signalsF;
     
 fail:
+    if( fifo != NULL ) {
+        aligned64_free(fifo);
+    }
+    if( frac != NULL ) {
+        aligned64_free(frac);
+    }
     Py_XDECREF(data);
     Py_XDECREF(freq);
     Py_XDECREF(delay);
@@ -545,6 +556,8 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     int Overlap = 1;
     int Clip = 0;
     double SampleRate = 196.0e6;
+    long *fifo=NULL;
+    double *frac=NULL;
 
     long nStand, nSamps, nFFT;
     double *pfb = NULL;
@@ -615,8 +628,7 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Compute the integer sample offset and the fractional sample delay for each stand
-    long *fifo, fifoMax;
-    double *frac;
+    long fifoMax;
     fifo = (long *) aligned64_malloc(nStand*sizeof(long));
     frac = (double *) aligned64_malloc(nStand*nChan*sizeof(double));
     if( fifo == NULL || frac == NULL ) {
@@ -635,8 +647,6 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     dataF = (PyArrayObject*) PyArray_ZEROS(3, dims, NPY_COMPLEX64, 0);
     if(dataF == NULL) {
         PyErr_Format(PyExc_MemoryError, "Cannot create output array");
-        aligned64_free(fifo);
-        aligned64_free(frac);
         goto fail;
     }
     
@@ -647,8 +657,6 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     validF = (PyArrayObject*) PyArray_ZEROS(2, dimsV, NPY_UINT8, 0);
     if(validF == NULL) {
         PyErr_Format(PyExc_MemoryError, "Cannot create valid index array");
-        aligned64_free(fifo);
-        aligned64_free(frac);
         goto fail;
     }
     
@@ -700,6 +708,12 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     return signalsF;
     
 fail:
+    if( fifo != NULL ) {
+        aligned64_free(fifo);
+    }
+    if( frac != NULL ) {
+        aligned64_free(frac);
+    }
     if( pfb != NULL ) {
         aligned64_free(pfb);
     }
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index d6c8f63..c4a5cec 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -287,9 +287,16 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     if( windowFunc != Py_None ) {
         arglist = Py_BuildValue("(i)", (1+isReal)*nChan);
         windowValue = PyObject_CallObject(windowFunc, arglist);
+        Py_XDECREF(arglist);
+        if( windowValue == NULL ) {
+            goto fail;
+        }
         windowData = (PyArrayObject *) PyArray_ContiguousFromObject(windowValue, NPY_DOUBLE, 1, 1);
-        Py_DECREF(arglist);
         Py_DECREF(windowValue);
+        if( windowData == NULL ) {
+            PyErr_Format(PyExc_RuntimeError, "Cannot cast window values to 1-D double");
+            goto fail;
+        }
     }
     
     // Find out how large the output array needs to be and initialize it
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 31d95d3..636290f 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -368,9 +368,16 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     if( windowFunc != Py_None ) {
         arglist = Py_BuildValue("(i)", (1+isReal)*nChan);
         windowValue = PyObject_CallObject(windowFunc, arglist);
+        Py_XDECREF(arglist);
+        if( windowValue == NULL ) {
+            goto fail;
+        }
         windowData = (PyArrayObject *) PyArray_ContiguousFromObject(windowValue, NPY_DOUBLE, 1, 1);
-        Py_DECREF(arglist);
         Py_DECREF(windowValue);
+        if( windowData == NULL ) {
+            PyErr_Format(PyExc_RuntimeError, "Cannot cast window values to 1-D double");
+            goto fail;
+        }
     }
     
     // Find out how large the output array needs to be and initialize it
-- 
2.43.0


From fe1822e6bd13174a7b5a4b82ad3c7b1530158275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:25 +0000
Subject: [PATCH 05/71] fix: frame readers neither leak nor release twice on
 their failure paths, and 8-bit complex VDIF is unpacked with its own type

---
 lsl/reader/cor.cpp    | 10 ++++++++--
 lsl/reader/drspec.cpp |  2 ++
 lsl/reader/tbx.cpp    |  9 +++++++--
 lsl/reader/vdif.cpp   | 12 ++++++++++--
 4 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/lsl/reader/cor.cpp b/lsl/reader/cor.cpp
index 73e4070..4abb162 100644
--- a/lsl/reader/cor.cpp
+++ b/lsl/reader/cor.cpp
@@ -120,7 +120,12 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
         cached_nchan = nchan;   // Update for next time
         Py_XDECREF(cor_size);   // Update for next time
         cor_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change cor_size
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        Py_XDECREF(data);
+        temp = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        if( temp == NULL ) {
+            return NULL;
+        }
+        Py_XDECREF(temp);
         
         switch(nchan) {
             case 33:
@@ -170,7 +175,8 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
         cached_nchan = 192;   // Update for next time
         Py_XDECREF(cor_size);   // Update for next time
         cor_size = NULL;
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        temp = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        Py_XDECREF(temp);
         PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
         goto fail;
     }
diff --git a/lsl/reader/drspec.cpp b/lsl/reader/drspec.cpp
index 6aa65d7..f5b15c6 100644
--- a/lsl/reader/drspec.cpp
+++ b/lsl/reader/drspec.cpp
@@ -275,6 +275,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
     }
     memcpy(&header, PyBytes_AS_STRING(buffer), sizeof(header));
     Py_XDECREF(buffer);
+    buffer = NULL;
     
     // Check the header's magic numbers
     if( header.MAGIC1 != 0xC0DEC0DE || header.MAGIC2 != 0xED0CED0C) {
@@ -370,6 +371,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
     }
     memcpy(data, PyBytes_AS_STRING(buffer), nBytes);
     Py_XDECREF(buffer);
+    buffer = NULL;
     
     Py_BEGIN_ALLOW_THREADS
     
diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index 13be605..5802ced 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -96,7 +96,11 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
         cached_nchan = nchan;
         Py_XDECREF(tbx_size);   // Update for next time
         tbx_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change tbx_size
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        temp = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        if( temp == NULL ) {
+            return NULL;
+        }
+        Py_XDECREF(temp);
         
 #define MATCH_TBX_MODE(MNSTAND,MNCHAN) \
     case MNCHAN: \
@@ -185,7 +189,8 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     
     // Validate
     if( !validSync5C(cFrame.header.syncWord) ) {
-        buffer = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        temp = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        Py_XDECREF(temp);
         PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
         Py_XDECREF(data);
         return NULL;
diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index a69caa9..508003f 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -211,6 +211,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     memcpy(&bHeader, PyBytes_AS_STRING(buffer), sizeof(bHeader));
     Py_XDECREF(buffer);
+    buffer = NULL;
     
     // Fix up various bits in the basic header
     uint32_t nChan;
@@ -250,6 +251,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         }
         memcpy(&eHeader, PyBytes_AS_STRING(buffer), sizeof(eHeader));
         Py_XDECREF(buffer);
+        buffer = NULL;
         
     } else {
         // Legacy headers are missing this information
@@ -269,6 +271,10 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
     // Read in a chunk of the data
     uint8_t *rawData;
     rawData = (uint8_t *) malloc(dataLength);
+    if( rawData == NULL ) {
+        PyErr_Format(PyExc_MemoryError, "Cannot allocate data buffer");
+        goto fail;
+    }
     if( vdif_size_dat == NULL ) {
         vdif_size_dat = Py_BuildValue("i", dataLength);
     } else if( PyLong_AsLong(vdif_size_dat) != dataLength ) {
@@ -291,6 +297,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     memcpy(rawData, PyBytes_AS_STRING(buffer), sizeof(uint8_t)*dataLength);
     Py_XDECREF(buffer);
+    buffer = NULL;
     
     // Parse it out
     if( bitsPerSample == 8 ) {
@@ -328,10 +335,10 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
             goto fail;
         }
         
-        float *a;
+        T *a;
         std::complex<float> *b;
         
-        a = (float *) PyArray_DATA(data);
+        a = (T *) PyArray_DATA(data);
         b = (std::complex<float> *) PyArray_DATA(tempArrayComplex);
         for(i=0; i<nSamples; i+=2) {
             *(b+i/2) = std::complex<float>(*(a+i+0), *(a+i+1));
@@ -357,6 +364,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         
         tempArrayMulti = (PyArrayObject*) PyArray_Newshape(data, &padims, NPY_CORDER);
         Py_XDECREF(data);
+        data = NULL;
         if( tempArrayMulti == NULL ) {
             PyErr_Format(PyExc_MemoryError, "Cannot create output array");
             goto fail;
-- 
2.43.0


From fa8256b279eaeee9ab9d194bda975013038e6fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:20 +0000
Subject: [PATCH 06/71] fix: FastVis reports unusable inputs instead of
 dereferencing NULL, and frees its work arrays on failure

---
 lsl/sim/simfast.cpp | 86 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 74 insertions(+), 12 deletions(-)

diff --git a/lsl/sim/simfast.cpp b/lsl/sim/simfast.cpp
index d201166..aa5bb51 100644
--- a/lsl/sim/simfast.cpp
+++ b/lsl/sim/simfast.cpp
@@ -153,6 +153,8 @@ static PyObject *FastVis(PyObject *self, PyObject *args, PyObject *kwds) {
     long int i, j;
     long int resolve, nAnt, nSrc, nFreq, nBL, chanMin, chanMax;
     double lat, pcAz, pcEl, pcHA, pcDec;
+    double *pos=NULL;
+    int *bll=NULL;
     
     chanMin = 0;
     chanMax = -1;
@@ -168,28 +170,44 @@ static PyObject *FastVis(PyObject *self, PyObject *args, PyObject *kwds) {
     // Bring the data into C and make it usable
     /* Site latitude */
     temp = PyObject_GetAttrString(antarray, "lat");
+    if( temp == NULL ) {
+        goto fail;
+    }
     lat = PyFloat_AsDouble(temp);
     Py_DECREF(temp);
     
     /* Frequencies (GHz) */
     temp = PyObject_CallMethod(antarray, "get_afreqs", NULL);
+    if( temp == NULL ) {
+        goto fail;
+    }
     freq = (PyArrayObject *) PyArray_ContiguousFromObject(temp, NPY_DOUBLE, 1, 2);
+    Py_DECREF(temp);
+    if( freq == NULL ) {
+        PyErr_Format(PyExc_RuntimeError, "Cannot cast frequency array to 1-D double");
+        goto fail;
+    }
     if( PyArray_NDIM(freq) == 2 ) {
         // Flatten 2-D arrays since the first dimension is one
-        Py_DECREF(temp);
-        temp = PyArray_Flatten(freq, NPY_ANYORDER);
-        Py_XDECREF(freq);
-        freq = (PyArrayObject *) PyArray_ContiguousFromAny(temp, NPY_DOUBLE, 1, 1);
+        tempA = (PyArrayObject *) PyArray_Flatten(freq, NPY_ANYORDER);
+        Py_DECREF(freq);
+        freq = tempA;
+        if( freq == NULL ) {
+            goto fail;
+        }
     }
-    Py_DECREF(temp);
     
     /* Source cache and properties */
     /** Cache **/
     temp = PyObject_GetAttrString(antarray, "_cache");
+    if( temp == NULL ) {
+        goto fail;
+    }
     /** Hour angle **/
     temp2 = PyDict_GetItemString(temp, "s_ha");
     if( temp2 == NULL ) {
         PyErr_Format(PyExc_TypeError, "Cannot find HA array 's_ha' in the simulation cache");
+        Py_DECREF(temp);
         goto fail;
     }
     ha   = (PyArrayObject *) PyArray_ContiguousFromObject(temp2, NPY_DOUBLE, 1, 1);
@@ -197,6 +215,7 @@ static PyObject *FastVis(PyObject *self, PyObject *args, PyObject *kwds) {
     temp2 = PyDict_GetItemString(temp, "s_dec");
     if( temp2 == NULL ) {
         PyErr_Format(PyExc_TypeError, "Cannot find dec. array 's_dec' in the simulation cache");
+        Py_DECREF(temp);
         goto fail;
     }
     dec  = (PyArrayObject *) PyArray_ContiguousFromObject(temp2, NPY_DOUBLE, 1, 1);
@@ -204,6 +223,7 @@ static PyObject *FastVis(PyObject *self, PyObject *args, PyObject *kwds) {
     temp2 = PyDict_GetItemString(temp, "jys");
     if( temp2 == NULL ) {
         PyErr_Format(PyExc_TypeError, "Cannot find flux density array 'jys' in the simulation cache");
+        Py_DECREF(temp);
         goto fail;
     }
     flux = (PyArrayObject *) PyArray_ContiguousFromObject(temp2,
@@ -213,10 +233,15 @@ static PyObject *FastVis(PyObject *self, PyObject *args, PyObject *kwds) {
     temp2 = PyDict_GetItemString(temp, "s_shp");
     if( temp2 == NULL ) {
         PyErr_Format(PyExc_TypeError, "Cannot find source shape array 's_shp' in the simulation cache");
+        Py_DECREF(temp);
         goto fail;
     }
     shape = (PyArrayObject *) PyArray_ContiguousFromObject(temp2, NPY_DOUBLE, 2, 2);
     Py_DECREF(temp);
+    if( ha == NULL || dec == NULL || flux == NULL || shape == NULL ) {
+        PyErr_Format(PyExc_RuntimeError, "Cannot convert the simulation cache arrays");
+        goto fail;
+    }
     
     /* Pointing center */
     pcAz *= NPY_PI / 180.0;
@@ -258,13 +283,19 @@ static PyObject *FastVis(PyObject *self, PyObject *args, PyObject *kwds) {
     
     // Dimensions
     temp = PyObject_CallMethod(antarray, "__len__", NULL);
+    if( temp == NULL ) {
+        goto fail;
+    }
     nAnt = (long int) PyLong_AsLong(temp);
+    Py_DECREF(temp);
     temp2 = PyObject_CallMethod(bls, "__len__", NULL);
+    if( temp2 == NULL ) {
+        goto fail;
+    }
     nBL = (long int) PyLong_AsLong(temp2);
+    Py_DECREF(temp2);
     nFreq = (long int) PyArray_DIM(freq, 0);
     nSrc = (long int) PyArray_DIM(ha, 0);
-    Py_DECREF(temp);
-    Py_DECREF(temp2);
     if( chanMax < chanMin ) {
         chanMax = nFreq;
     } else {
@@ -296,16 +327,36 @@ static PyObject *FastVis(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Load in the antenna equatorial positions
-    double *pos, *t;
+    double *t;
     pos = (double *) malloc(nAnt*3*sizeof(double));
+    if( pos == NULL ) {
+        PyErr_Format(PyExc_MemoryError, "Cannot create antenna position array");
+        goto fail;
+    }
     for(i=0; i<nAnt; i++) {
         temp = PyLong_FromLong(i);
         temp2 = PyObject_GetItem(antarray, temp);
-        temp3 = PyObject_GetAttrString(temp2, "pos");
         Py_DECREF(temp);
+        if( temp2 == NULL ) {
+            goto fail;
+        }
+        temp3 = PyObject_GetAttrString(temp2, "pos");
         Py_DECREF(temp2);
+        if( temp3 == NULL ) {
+            goto fail;
+        }
         
         tempA = (PyArrayObject *) PyArray_ContiguousFromObject(temp3, NPY_DOUBLE, 1, 1);
+        Py_DECREF(temp3);
+        if( tempA == NULL ) {
+            PyErr_Format(PyExc_RuntimeError, "Cannot cast antenna position to 1-D double");
+            goto fail;
+        }
+        if( PyArray_DIM(tempA, 0) < 3 ) {
+            PyErr_Format(PyExc_RuntimeError, "Antenna position has fewer than three elements");
+            Py_DECREF(tempA);
+            goto fail;
+        }
         t = (double *) PyArray_DATA(tempA);
         
         for(j=0; j<3; j++) {
@@ -313,22 +364,31 @@ static PyObject *FastVis(PyObject *self, PyObject *args, PyObject *kwds) {
         }
           
         Py_XDECREF(tempA);
-        Py_DECREF(temp3);
     }
     
     // Load in baseline pairs
-    int *bll;
     bll = (int *) malloc(nBL*2*sizeof(int));
+    if( bll == NULL ) {
+        PyErr_Format(PyExc_MemoryError, "Cannot create baseline array");
+        goto fail;
+    }
     for(i=0; i<nBL; i++) {
         temp = PyLong_FromLong(i);
         temp2 = PyObject_GetItem(bls, temp);
         Py_DECREF(temp);
+        if( temp2 == NULL ) {
+            goto fail;
+        }
         
         for(j=0; j<2; j++) {
             temp = PyLong_FromLong(j);
             temp3 = PyObject_GetItem(temp2, temp);
-            *(bll + 2*i + j) = (int) PyLong_AsLong(temp3);
             Py_DECREF(temp);
+            if( temp3 == NULL ) {
+                Py_DECREF(temp2);
+                goto fail;
+            }
+            *(bll + 2*i + j) = (int) PyLong_AsLong(temp3);
             Py_DECREF(temp3);
         }
         
@@ -374,6 +434,8 @@ static PyObject *FastVis(PyObject *self, PyObject *args, PyObject *kwds) {
     return output;
     
 fail:
+    free(pos);
+    free(bll);
     Py_XDECREF(freq);
     Py_XDECREF(ha);
     Py_XDECREF(dec);
-- 
2.43.0


From 25d07eeccccf2b1727c3d36b45c6c0343fe94431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:46 +0000
Subject: [PATCH 07/71] fix: COR header fields with the top bit set are no
 longer returned as 32-bit values

---
 lsl/reader/cor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/cor.cpp b/lsl/reader/cor.cpp
index 4abb162..9d03b49 100644
--- a/lsl/reader/cor.cpp
+++ b/lsl/reader/cor.cpp
@@ -197,11 +197,11 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
     PyObject_SetAttrString(fHeader, "second_count", temp);
     Py_XDECREF(temp);
     
-    temp = Py_BuildValue("H", cFrame.header.first_chan);
+    temp = Py_BuildValue("h", cFrame.header.first_chan);
     PyObject_SetAttrString(fHeader, "first_chan", temp);
     Py_XDECREF(temp);
     
-    temp = Py_BuildValue("H", cFrame.header.gain);
+    temp = Py_BuildValue("h", cFrame.header.gain);
     PyObject_SetAttrString(fHeader, "gain", temp);
     Py_XDECREF(temp);
     
-- 
2.43.0


From cfdae62cdeb92459b522626f4e5695a9e08fcf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:30 +0000
Subject: [PATCH 08/71] fix: TBX first_chan is an unsigned 32-bit field and is
 returned as one

---
 lsl/reader/tbx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index 5802ced..a4f49c0 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -212,7 +212,7 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     PyObject_SetAttrString(fHeader, "second_count", temp);
     Py_XDECREF(temp);
     
-    temp = Py_BuildValue("h", cFrame.header.first_chan);
+    temp = PyLong_FromUnsignedLong(cFrame.header.first_chan);
     PyObject_SetAttrString(fHeader, "first_chan", temp);
     Py_XDECREF(temp);
     
-- 
2.43.0


From 3dece7ba96812357c749ab14fc504f143d8b2543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:15 +0000
Subject: [PATCH 09/71] fix: astro.date.load reports an out-of-range second
 instead of failing with a NameError

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 20fade9..847f3cb 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -481,7 +481,7 @@ class date(object):
         except ValueError:
             raise ValueError(f"seconds incorrectly formatted: {secondStr}")
         if second < 0.0 or second >= 60.0:
-            raise ValueError(f"seconds parameter range is [0.0, 60.0), is set to {seconds:0.3f}")
+            raise ValueError(f"seconds parameter range is [0.0, 60.0), is set to {second:0.3f}")
             
         # set attributes
         self.years = year
-- 
2.43.0


From f4213907bb6cc7cf622ea8c31f971821ace34cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:15 +0000
Subject: [PATCH 10/71] fix: SDF/IDF durations accept astropy quantities, and
 Project.autofilled and Observation.dec use the values they are given

---
 lsl/common/idf.py | 2 +-
 lsl/common/sdf.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 22c6661..b9fb6a2 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -710,7 +710,7 @@ class Scan(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 590c747..83469bf 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -232,7 +232,7 @@ class Project(object):
         id = OBSV_CONFIG.get('project_id')
         if name is None or id is None:
             raise RuntimeError("Auto-fill values for the project cannot be loaded from the configuration file")
-        return cls(observer, name, id, sessions=session, comments=comments, project_office=project_office)
+        return cls(observer, name, id, sessions=sessions, comments=comments, project_office=project_office)
         
     def update(self):
         """Update the various sessions that are part of this project."""
@@ -629,7 +629,7 @@ class Observation(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
@@ -669,7 +669,7 @@ class Observation(object):
         elif isinstance(value, str):
             value = AstroAngle(value).to('deg').value
         if value < -90.0 or value > 90.0:
-            raise ValueError(f"Invalid value for dec. '{dec:+.6f}' deg")
+            raise ValueError(f"Invalid value for dec. '{value:+.6f}' deg")
         self._dec = value
         
     @property
@@ -1627,7 +1627,7 @@ class BeamStep(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
-- 
2.43.0


From 7acaa3f4340d6eff58d8fbb24c16b4936043a3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:15 +0000
Subject: [PATCH 11/71] fix: SummaryCode.description names the code it does not
 know

---
 lsl/common/mcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/mcs.py b/lsl/common/mcs.py
index e1d26bc..664eaa7 100644
--- a/lsl/common/mcs.py
+++ b/lsl/common/mcs.py
@@ -674,7 +674,7 @@ class SummaryCode(enum.Enum):
         elif self.value == 6:
             return "Unknown"
         else:
-            raise ValueError(f"Unknown summary code '{code}'")
+            raise ValueError(f"Unknown summary code '{self.value}'")
 
 
 class SubsystemID(enum.Enum):
-- 
2.43.0


From e9af7293cd34015542346df18499f00c057b57dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:16 +0000
Subject: [PATCH 12/71] fix: lsl.reader.buffer no longer exports a frame buffer
 that does not exist

---
 lsl/reader/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index b2f7c7d..b032fec 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -39,7 +39,7 @@ from lsl.logger import LSL_LOGGER
 
 __version__ = '1.4'
 __all__ = ['FrameBufferBase', 'DRXFrameBuffer', 'DRX8FrameBuffer', 
-           'TBFFrameBuffer', 'VDIFFrameBuffer', 'TBXFrameBuffer']
+           'VDIFFrameBuffer', 'TBXFrameBuffer']
 
 
 def _cmp_frames(x, y):
-- 
2.43.0


From b29196c84ddcc982446c339d308c94573452c3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:16 +0000
Subject: [PATCH 13/71] fix: arithmetic on DR spectrometer frames with
 different products reports the mismatch

---
 lsl/reader/drspec.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lsl/reader/drspec.py b/lsl/reader/drspec.py
index cff2a52..7573534 100644
--- a/lsl/reader/drspec.py
+++ b/lsl/reader/drspec.py
@@ -387,7 +387,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) + getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot add {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot add {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) + np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -416,7 +416,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) - getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot add {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot add {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) - np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -445,7 +445,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) * getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot multiply {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot multiply {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) * np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -474,7 +474,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) // getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot multiply {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot multiply {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) // np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -503,7 +503,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) / getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot multiply {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot multiply {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) / np.float32(y)
                 setattr(self.payload, attr, temp)
-- 
2.43.0


From acf31c948c432e6e7d13259aa44b2c4d765b24a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:59 +0000
Subject: [PATCH 14/71] fix: stand-alone beam steps and alternate phase centers
 can be validated before they are added to an observation

---
 lsl/common/idf.py | 2 ++
 lsl/common/sdf.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index b9fb6a2..0a5d14e 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1037,6 +1037,8 @@ class Jovian(Scan):
 class AlternatePhaseCenter(object):
     """Class to hold an alternate phase center for a scan."""
     
+    _parent = None
+    
     def __init__(self, target, intent, ra, dec, pm=[0.0, 0.0]):
         self.target = target
         self.intent = intent
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 83469bf..2f298f9 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1508,6 +1508,8 @@ class BeamStep(object):
         instances
     """
     
+    _parent = None
+    
     def __init__(self, c1, c2, duration, frequency1, frequency2, is_radec=True, high_dr=False, spec_delays=None, spec_gains=None):
         self.is_radec = bool(is_radec)
         if self.is_radec:
-- 
2.43.0


From dfc196147b120a1e65fe607f68b24378a76f168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:59 +0000
Subject: [PATCH 15/71] fix: TBX channel frequencies and the sync error of
 read_frame_ci8 no longer refer to constants that do not exist

---
 lsl/reader/tbx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/tbx.py b/lsl/reader/tbx.py
index 4909ff6..ea2664f 100644
--- a/lsl/reader/tbx.py
+++ b/lsl/reader/tbx.py
@@ -82,7 +82,7 @@ class FrameHeader(FrameHeaderBase):
         """
         
         fC = ndp_common.fC
-        return (np.arange(FRAME_CHANNEL_COUNT, dtype=np.float32)+self.first_chan) * fC
+        return (np.arange(self.nchan, dtype=np.float32)+self.first_chan) * fC
 
 
 class FramePayload(FramePayloadBase):
@@ -203,7 +203,7 @@ def read_frame_ci8(filehandle):
         newFrame = read_tbx_ci8(filehandle, Frame())
         newFrame.payload._data = newFrame.payload.data.view(CI8)
     except gSyncError:
-        mark = filehandle.tell() - FRAME_SIZE
+        mark = filehandle.tell()
         raise SyncError(location=mark)
     except gEOFError:
         raise EOFError
-- 
2.43.0


From 2b4199d51c73981014aeb5813f9926f0112ac8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:59 +0000
Subject: [PATCH 16/71] fix: COR and TBX files can be read to the end and
 offset from a partially read state

---
 lsl/reader/ldp.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index f132c53..a3d36f3 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1599,7 +1599,7 @@ class TBXFile(LDPFileBase):
             if curr is None:
                 frame = tbx.read_frame(self.fh)
                 self.fh.seek(-frame_size, 1)
-                curr = frame.payload.time_tag
+                curr = frame.payload.timetag
             buffer_offset = curr - self._timetag
             buffer_offset = buffer_offset / fS
             
@@ -1978,14 +1978,16 @@ class CORFile(LDPFileBase):
             than to the start of the file
         """
         
+        frame_size = self.description['frame_size']
+        
         # Find out where we really are taking into account the buffering
         buffer_offset = 0
         if getattr(self, "_timetag", None) is not None:
             curr = self.buffer.peek(require_filled=False)
             if curr is None:
                 frame = cor.read_frame(self.fh)
-                self.fh.seek(-cor.FRAME_SIZE, 1)
-                curr = frame.payload.time_tag
+                self.fh.seek(-frame_size, 1)
+                curr = frame.payload.timetag
             buffer_offset = curr - self._timetag
             buffer_offset = buffer_offset / fS
             
@@ -1993,7 +1995,7 @@ class CORFile(LDPFileBase):
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         frameOffset = int(offset / self.description['tint'] * framesPerObs)
         frameOffset = int(1.0 * frameOffset / framesPerObs) * framesPerObs
-        self.fh.seek(frameOffset*cor.FRAME_SIZE, 1)
+        self.fh.seek(frameOffset*frame_size, 1)
         
         # Update the file metadata
         self._describe_file()
@@ -2058,10 +2060,10 @@ class CORFile(LDPFileBase):
             self._timetag = 0
             
         # Find out how many frames to read in
+        framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         if duration is None:
             duration = self.description['nframe'] / framesPerObs * self.description['tint']
             LSL_LOGGER.debug(f"Requested duration is None, loading {duration:.1f} s of data")
-        framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         frame_count = int(round(1.0 * duration / self.description['tint']))
         frame_count = frame_count if frame_count else 1
         duration = frame_count * self.description['tint']
-- 
2.43.0


From 05df0589aea88c34bf401d047645300cfa9ee5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:31 +0000
Subject: [PATCH 17/71] fix: building a frame from the wrong kind of header or
 payload reports a TypeError

---
 lsl/reader/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/base.py b/lsl/reader/base.py
index 0457399..97c5ce7 100644
--- a/lsl/reader/base.py
+++ b/lsl/reader/base.py
@@ -82,14 +82,14 @@ class FrameBase(object):
             self.header = self._header_class()
         else:
             if not isinstance(header, self._header_class):
-                raise TypeError(f"Excepted header of type '{self._header_class.__type__.__name__}' but found '{header.__type__.__name__}'")
+                raise TypeError(f"Excepted header of type '{self._header_class.__name__}' but found '{type(header).__name__}'")
             self.header = header
             
         if payload is None:
             self.payload = self._payload_class()
         else:
             if not isinstance(payload, self._payload_class):
-                raise TypeError(f"Excepted payload of type '{self._payload_class.__type__.__name__}' but found '{payload.__type__.__name__}'")
+                raise TypeError(f"Excepted payload of type '{self._payload_class.__name__}' but found '{type(payload).__name__}'")
             self.payload = payload
             
         self.valid = valid
-- 
2.43.0


From 13f4d457fe869ba4af6776f8d3d900f989d0214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:31 +0000
Subject: [PATCH 18/71] fix: catalog debug messages have a place for the source
 name

---
 lsl/catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/catalog.py b/lsl/catalog.py
index e424a42..1b9b71e 100644
--- a/lsl/catalog.py
+++ b/lsl/catalog.py
@@ -317,13 +317,13 @@ class PSR_Catalog(Catalog):
                         sourcePos = astro.equ_posn(ra, dec) 
                         entry = CatalogEntry(name, transform.CelestialPosition(sourcePos, name=name))
                         self.source_map[name] = entry
-                        LSL_LOGGER.debug('Added ', name)
+                        LSL_LOGGER.debug('Added %s', name)
                         
                         if alias is not None:
                             alias = alias.rstrip()
                             self.alias_map[alias] = entry
                             entry.alias_list.append(alias)
-                            LSL_LOGGER.debug('Alias : ', alias.rstrip())
+                            LSL_LOGGER.debug('Alias : %s', alias.rstrip())
                                 
                     # Clear out vars for next source
                     psrb = None
-- 
2.43.0


From 75a6bf55e737fdbfea90e1dc5c0a76853bd7f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:58 +0000
Subject: [PATCH 19/71] fix: robust.polyfit of long inputs no longer reads an
 unassigned variable when few points survive

---
 lsl/statistics/robust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index 61677c3..b399e52 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -546,7 +546,7 @@ def polyfit(inputX, inputY, order, max_iter=25):
         cc = npp_polyfit(u, v, order)
         yFit = npp_polyval(u, cc)
     else:
-        lsqfit = 0
+        lsqFit = 0
         q = np.argsort(u)
         u = u[q]
         v = v[q]
-- 
2.43.0


From 31a3c171c8109ba2b244bffce81fa7982c66edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:40 +0000
Subject: [PATCH 20/71] fix: comparing SDF sessions or IDF runs no longer
 reorders their observations or scans

---
 lsl/common/idf.py | 16 ++++++++--------
 lsl/common/sdf.py | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 0a5d14e..72a468d 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -570,22 +570,22 @@ class Run(object):
             
     def __eq__(self, other):
         if isinstance(other, Run):
-            self.scans.sort()
-            other.scans.sort()
+            firstSelf = min(self.scans)
+            firstOther = min(other.scans)
             
-            startSelf = self.scans[0].mjd + self.scans[0].mpm / (1000.0*3600.0*24.0)
-            startOther = other.scans[0].mjd + other.scans[0].mpm / (1000.0*3600.0*24.0)
+            startSelf = firstSelf.mjd + firstSelf.mpm / (1000.0*3600.0*24.0)
+            startOther = firstOther.mjd + firstOther.mpm / (1000.0*3600.0*24.0)
             return startSelf == startOther
         else:
             raise TypeError(f"Unsupported type: '{type(other).__name__}'")
             
     def __lt__(self, other):
         if isinstance(other, Run):
-            self.scans.sort()
-            other.scans.sort()
+            firstSelf = min(self.scans)
+            firstOther = min(other.scans)
             
-            startSelf = self.scans[0].mjd + self.scans[0].mpm / (1000.0*3600.0*24.0)
-            startOther = other.scans[0].mjd + other.scans[0].mpm / (1000.0*3600.0*24.0)
+            startSelf = firstSelf.mjd + firstSelf.mpm / (1000.0*3600.0*24.0)
+            startOther = firstOther.mjd + firstOther.mpm / (1000.0*3600.0*24.0)
             return startSelf < startOther
         else:
             raise TypeError(f"Unsupported type: '{type(other).__name__}'")
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 2f298f9..a1c7f6a 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2006,22 +2006,22 @@ class Session(object):
             
     def __eq__(self, other):
         if isinstance(other, Session):
-            self.observations.sort()
-            other.observations.sort()
+            firstSelf = min(self.observations)
+            firstOther = min(other.observations)
             
-            startSelf = self.observations[0].mjd + self.observations[0].mpm / (1000.0*3600.0*24.0)
-            startOther = other.observations[0].mjd + other.observations[0].mpm / (1000.0*3600.0*24.0)
+            startSelf = firstSelf.mjd + firstSelf.mpm / (1000.0*3600.0*24.0)
+            startOther = firstOther.mjd + firstOther.mpm / (1000.0*3600.0*24.0)
             return startSelf == startOther
         else:
             raise TypeError(f"Unsupported type: '{type(other).__name__}'")
             
     def __lt__(self, other):
         if isinstance(other, Session):
-            self.observations.sort()
-            other.observations.sort()
+            firstSelf = min(self.observations)
+            firstOther = min(other.observations)
             
-            startSelf = self.observations[0].mjd + self.observations[0].mpm / (1000.0*3600.0*24.0)
-            startOther = other.observations[0].mjd + other.observations[0].mpm / (1000.0*3600.0*24.0)
+            startSelf = firstSelf.mjd + firstSelf.mpm / (1000.0*3600.0*24.0)
+            startOther = firstOther.mjd + firstOther.mpm / (1000.0*3600.0*24.0)
             return startSelf < startOther
         else:
             raise TypeError(f"Unsupported type: '{type(other).__name__}'")
-- 
2.43.0


From 91f23880dc485545f35452189fd8f244686887b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:39 +0000
Subject: [PATCH 21/71] fix: SplitFileWrapper no longer sorts the list of file
 names of its caller

---
 lsl/reader/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index da932cb..ba83b68 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -34,7 +34,7 @@ class SplitFileWrapper(object):
     """
     
     def __init__(self, filenames, sort=True, buffering=-1):
-        self._filenames = filenames
+        self._filenames = list(filenames)
         if sort:
             self._filenames.sort()
             
-- 
2.43.0


From f08140526d6e0d94b615010843f6cf87f5a810ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:15 +0000
Subject: [PATCH 22/71] fix: do not move the shared station when asking an
 observation for its target visibility

---
 lsl/common/sdf.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index a1c7f6a..c105a7c 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1081,7 +1081,8 @@ class DRX(Observation):
         station = lwa1
         if self._parent is not None:
             station = self._parent.station
-            
+        lwa = station.get_observer()
+        
         pnt = self.fixed_body
         
         vis = 0
@@ -1089,8 +1090,8 @@ class DRX(Observation):
         dt = 0.0
         max_alt = 0.0
         while dt <= self.dur/1000.0:
-            station.date = self.mjd + (self.mpm/1000.0 + dt)/3600/24.0 + MJD_OFFSET - DJD_OFFSET
-            pnt.compute(station)
+            lwa.date = self.mjd + (self.mpm/1000.0 + dt)/3600/24.0 + MJD_OFFSET - DJD_OFFSET
+            pnt.compute(lwa)
             max_alt = max([max_alt, pnt.alt])
             
             cnt += 1
@@ -1397,7 +1398,8 @@ class Stepped(Observation):
         station = lwa1
         if self._parent is not None:
             station = self._parent.station
-            
+        lwa = station.get_observer()
+        
         vis = 0
         cnt = 0
         relStart = 0
@@ -1408,8 +1410,8 @@ class Stepped(Observation):
                 
                 dt = 0.0
                 while dt <= self.dur/1000.0:
-                    station.date = self.mjd + (relStart/1000.0 + self.mpm/1000.0 + dt)/3600/24.0 + MJD_OFFSET - DJD_OFFSET
-                    pnt.compute(station)
+                    lwa.date = self.mjd + (relStart/1000.0 + self.mpm/1000.0 + dt)/3600/24.0 + MJD_OFFSET - DJD_OFFSET
+                    pnt.compute(lwa)
                     max_alt = max([max_alt, pnt.alt])
                     
                     cnt += 1
-- 
2.43.0


From 9e8135b81953f5d853317a8e09b68d14a7c76bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:15 +0000
Subject: [PATCH 23/71] fix: do not serve the contents of a replaced metadata
 tarball from the cache

---
 lsl/common/_metabundle_utils.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 656daae..6c74f04 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -23,17 +23,32 @@ __all__ = ['FILENAME_RE', '_open_tarball', '_get_members', 'managed_mkdtemp',
 FILENAME_RE = re.compile(r'(?P<projectID>[a-zA-Z0-9]{1,8})_(?P<sessionID>\d+)(_(?P<obsID>\d+)(_(?P<obsOutcome>\d+))?)?.*\..*')
 
 
+def _get_file_state(tarname):
+    # What identifies the current contents of the tarball, so that a file that
+    # has been replaced or rewritten is not served from the caches below
+    st = os.stat(tarname)
+    return (st.st_dev, st.st_ino, st.st_size, st.st_mtime_ns)
+
+
 @lru_cache(maxsize=1)
-def _open_tarball(tarname):
+def _cached_open_tarball(tarname, state):
     return tarfile.open(tarname, mode='r:*')
 
 
 @lru_cache(maxsize=1)
-def _get_members(tarname):
-    tf = _open_tarball(tarname)
+def _cached_get_members(tarname, state):
+    tf = _cached_open_tarball(tarname, state)
     return tf.getmembers()
 
 
+def _open_tarball(tarname):
+    return _cached_open_tarball(tarname, _get_file_state(tarname))
+
+
+def _get_members(tarname):
+    return _cached_get_members(tarname, _get_file_state(tarname))
+
+
 class managed_mkdtemp(object):
     """
     Wrapper class around tempfile.mkdtemp to enable 'with' statements with 
-- 
2.43.0


From 65ef85201795f8652a183095e4833a765e0ec4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:07 +0000
Subject: [PATCH 24/71] fix: keep the tuning word when a DRX frame is converted
 back to a raw frame

---
 lsl/sim/drx.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lsl/sim/drx.py b/lsl/sim/drx.py
index 6b9c0a0..d9d08ce 100644
--- a/lsl/sim/drx.py
+++ b/lsl/sim/drx.py
@@ -59,11 +59,15 @@ def frame_to_frame(drx_frame):
     rawFrame[21] = (drx_frame.payload.timetag>>16) & 255
     rawFrame[22] = (drx_frame.payload.timetag>>8) & 255
     rawFrame[23] = drx_frame.payload.timetag & 255
+    ## Tuning word
+    tuning_word = drx_frame.payload.tuning_word
+    if tuning_word is None:
+        tuning_word = drx_frame.payload.flags>>32
+    rawFrame[24] = (tuning_word>>24) & 255
+    rawFrame[25] = (tuning_word>>16) & 255
+    rawFrame[26] = (tuning_word>>8) & 255
+    rawFrame[27] = tuning_word & 255
     ## Flags
-    rawFrame[24] = (drx_frame.payload.flags>>56) & 255
-    rawFrame[25] = (drx_frame.payload.flags>>48) & 255
-    rawFrame[26] = (drx_frame.payload.flags>>40) & 255
-    rawFrame[27] = (drx_frame.payload.flags>>32) & 255
     rawFrame[28] = (drx_frame.payload.flags>>24) & 255
     rawFrame[29] = (drx_frame.payload.flags>>16) & 255
     rawFrame[30] = (drx_frame.payload.flags>>8) & 255
-- 
2.43.0


From f8ccfa1fce8a43feb5f5b7a547b4b237e2e8eda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:07 +0000
Subject: [PATCH 25/71] fix: write VDIF version 1 in the header instead of 2

---
 lsl/writer/vdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/writer/vdif.py b/lsl/writer/vdif.py
index 596137a..b7fa733 100644
--- a/lsl/writer/vdif.py
+++ b/lsl/writer/vdif.py
@@ -122,7 +122,7 @@ class Frame(object):
 
         # VDIF version number, number of channels (just 1), and data frame 
         # length in units to 8-bytes (8 raw array elements)
-        raw[11] = (1 << 6) | (0 & 31)
+        raw[11] = (1 << 5) | (0 & 31)
         raw[10] = ((len(raw) // 8) >> 16) & 255
         raw[9] = ((len(raw) // 8) >> 8) & 255
         raw[8] = (len(raw) // 8) & 255
-- 
2.43.0


From 137e384313b1b6763c006b6a23f3532561334a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:07 +0000
Subject: [PATCH 26/71] fix: decode the Mark 5B frame number and time code
 without losing or inventing bits

---
 lsl/reader/vdif.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/vdif.py b/lsl/reader/vdif.py
index cef3d73..d2aa271 100644
--- a/lsl/reader/vdif.py
+++ b/lsl/reader/vdif.py
@@ -238,7 +238,7 @@ class FrameHeader(FrameHeaderBase):
             fields['years_from_2000'] = int((self.extended_data_2 >> 28) & 0xF)
             fields['user_specified_data'] = int((self.extended_data_2 >> 16) & 0xFFF)
             fields['data_from_internal_tvg'] = (self.extended_data_2 >> 15) & 1
-            fields['frame_in_second'] = int(self.extended_data_2 & (2**14-1))
+            fields['frame_in_second'] = int(self.extended_data_2 & (2**15-1))
             j0 = int((self.extended_data_3 >> 28) & 0xF)
             j1 = int((self.extended_data_3 >> 24) & 0xF)
             j2 = int((self.extended_data_3 >> 20) & 0xF)
@@ -251,11 +251,10 @@ class FrameHeader(FrameHeaderBase):
             f1 = int((self.extended_data_4 >> 24) & 0xF)
             f2 = int((self.extended_data_4 >> 20) & 0xF)
             f3 = int((self.extended_data_4 >> 16) & 0xF)
-            f4 = int((self.extended_data_4 >>  8) & 0xF)
             crcf = int(self.extended_data_4 & 0xFFFF)
             crcf = (crcf & 0xF) << 8 | ((crcf >> 8) & 0xF)
             crcc = _crcc((self.extended_data_3 << 16) | ((self.extended_data_3 >> 16) & 0xFF), 48)
-            fields['vlba_timecode'] = j0*1e7+j1*1e6+j2*1e5 + s0*1e4+s1*1e3+s2*1e2+s3*1e1+s4*1e0 + f0/1e1+f1/1e2+f2/1e3+f3/1e4+f4/1e5
+            fields['vlba_timecode'] = j0*1e7+j1*1e6+j2*1e5 + s0*1e4+s1*1e3+s2*1e2+s3*1e1+s4*1e0 + f0/1e1+f1/1e2+f2/1e3+f3/1e4
             fields['vlba_timecode_value'] = True if crcc == crcf else False
             
         else:
-- 
2.43.0


From b514b27ca971e4f655177c11305a88ca884a8c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:07 +0000
Subject: [PATCH 27/71] fix: a file cache gives its lock back when a cached
 file cannot be opened or closed

---
 lsl/misc/file_cache.py | 51 +++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 0f8714d..c5fa8b1 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -95,21 +95,20 @@ class FileCache(object):
         self._lock.acquire()
         assert(self._lock.locked())
         
-        if mode.startswith('w') or mode.startswith('a'):
-            parent_dirs = os.path.dirname(filename)
-            if parent_dirs != '':
-                parent_dirs = os.path.join(self.cache_dir, parent_dirs)
-                if not os.path.exists(parent_dirs):
-                    os.makedirs(parent_dirs, exist_ok=True)
-                    
-        fh = open(os.path.join(self.cache_dir, filename), mode)
-        if mode.startswith('w') or mode.startswith('a'):
-            self._cache_management()
-            
         try:
-            yield fh
+            if mode.startswith('w') or mode.startswith('a'):
+                parent_dirs = os.path.dirname(filename)
+                if parent_dirs != '':
+                    parent_dirs = os.path.join(self.cache_dir, parent_dirs)
+                    if not os.path.exists(parent_dirs):
+                        os.makedirs(parent_dirs, exist_ok=True)
+                        
+            with open(os.path.join(self.cache_dir, filename), mode) as fh:
+                if mode.startswith('w') or mode.startswith('a'):
+                    self._cache_management()
+                    
+                yield fh
         finally:
-            fh.close()
             self._lock.release()
             
     def remove(self, filename):
@@ -429,19 +428,21 @@ class MemoryCache(object):
         assert(self._lock.locked())
         
         try:
-            fh = self._cache[filename]
-        except KeyError:
-            self._cache[filename] = MemoryFile(filename)
-            fh = self._cache[filename]
-        if mode.startswith('w'):
-            fh.truncate(0)
-        if mode.startswith('w') or mode.startswith('a'):
-            self._cache_management()
-            
-        try:
-            yield fh.open(mode=mode)
+            try:
+                fh = self._cache[filename]
+            except KeyError:
+                self._cache[filename] = MemoryFile(filename)
+                fh = self._cache[filename]
+            if mode.startswith('w'):
+                fh.truncate(0)
+            if mode.startswith('w') or mode.startswith('a'):
+                self._cache_management()
+                
+            try:
+                yield fh.open(mode=mode)
+            finally:
+                fh.close()
         finally:
-            fh.close()
             self._lock.release()
             
     def remove(self, filename):
-- 
2.43.0


From 7b51f776b22a89883659f3183c3eda9e343c3b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:07 +0000
Subject: [PATCH 28/71] fix: kurtosis.get_limits restores the numpy error
 handling when it fails

---
 lsl/statistics/kurtosis.py | 47 +++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/lsl/statistics/kurtosis.py b/lsl/statistics/kurtosis.py
index f1f76c4..267490c 100644
--- a/lsl/statistics/kurtosis.py
+++ b/lsl/statistics/kurtosis.py
@@ -110,34 +110,29 @@ def get_limits(sigma, M, N=1):
     """
     
     # Adjust the NumPy error levels so that we know when ppf() may be suspect
-    errLevels = np.geterr()
-    np.seterr(all='raise')
-    
-    # Convert the sigma to a fraction for the high and low clip levels
-    percentClip = ( 1.0 - erf(sigma/np.sqrt(2)) ) / 2.0
-    
-    # Build the Pearson type VI distribution function - parameters then instance
-    a = _alpha(M, N)
-    b = _beta(M, N)
-    d = _delta(M, N)
-    
-    rv = betaprime(a, b, loc=d)
-    
-    # Try to get a realistic lower limit, giving up if we hit an overflow error
-    try:
-        lower = rv.ppf(percentClip)
-    except FloatingPointError:
-        lower = mean(M, N) - sigma*std(M, N)
+    with np.errstate(all='raise'):
+        # Convert the sigma to a fraction for the high and low clip levels
+        percentClip = ( 1.0 - erf(sigma/np.sqrt(2)) ) / 2.0
         
-    # Try to get a realistic upper limit, giving up if we hit an overflow error
-    try:
-        upper = rv.ppf(1.0-percentClip)
-    except FloatingPointError:
-        upper = mean(M, N) + sigma*std(M, N)
+        # Build the Pearson type VI distribution function - parameters then instance
+        a = _alpha(M, N)
+        b = _beta(M, N)
+        d = _delta(M, N)
         
-    # Restore the NumPy error levels
-    np.seterr(**errLevels)
-    
+        rv = betaprime(a, b, loc=d)
+        
+        # Try to get a realistic lower limit, giving up if we hit an overflow error
+        try:
+            lower = rv.ppf(percentClip)
+        except FloatingPointError:
+            lower = mean(M, N) - sigma*std(M, N)
+            
+        # Try to get a realistic upper limit, giving up if we hit an overflow error
+        try:
+            upper = rv.ppf(1.0-percentClip)
+        except FloatingPointError:
+            upper = mean(M, N) + sigma*std(M, N)
+            
     return lower, upper
 
 
-- 
2.43.0


From 989351d4573f03c4405c58760cf2bdc893a3eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:07 +0000
Subject: [PATCH 29/71] fix: VirtualWriter puts the date of its antenna array
 back when the phase center cannot be computed

---
 lsl/writer/virtual.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index c9a65ba..4840bd9 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -165,9 +165,11 @@ class VirtualWriter(WriterBase):
         
             phase_center = RadioFixedBody.from_astropy(pc, name=f"ZA{pc.ra.to_string(sep='')}")
             old_obs_date = self.antenna_array.date
-            self.antenna_array.date = ot.iso
-            phase_center.compute(self.antenna_array)
-            self.antenna_array.date = old_obs_date
+            try:
+                self.antenna_array.date = ot.iso
+                phase_center.compute(self.antenna_array)
+            finally:
+                self.antenna_array.date = old_obs_date
         else:
             phase_center = source
                                                       
-- 
2.43.0


From 1005959d31b476d9a606f0550ff699af26452d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:22 +0000
Subject: [PATCH 30/71] fix: the scratch copy of a packed measurement set is
 removed when it cannot be unpacked

---
 lsl/imaging/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 51efcbc..2251f2d 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -865,6 +865,10 @@ try:
                 # LASI generate compressed tarballs that contain the MS.  Deal with 
                 # those in a transparent manner by automatically unpacking them
                 tempdir = tempfile.mkdtemp(prefix='CorrelatedMS-')
+                
+                # Clean up the temporary directory when the script exists
+                atexit.register(lambda: shutil.rmtree(tempdir))
+                
                 with tarfile.open(self.filename, mode='r:*') as tf:
                     for member in tf.getmembers():
                         mname = os.path.abspath(os.path.normpath(os.path.join(tempdir, member.name)))
@@ -884,9 +888,6 @@ try:
                         self.filename = path
                         break
                         
-                # Clean up the temporary directory when the script exists
-                atexit.register(lambda: shutil.rmtree(tempdir))
-                
             # Open the various tables that we need
             data = table(self.filename, ack=False)
             try:
-- 
2.43.0


From 6f5252c5f95babe1f8458384403245ebecb99357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:31 +0000
Subject: [PATCH 31/71] fix: telemetry.ignore stops the recording of uses

---
 lsl/misc/telemetry/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lsl/misc/telemetry/__init__.py b/lsl/misc/telemetry/__init__.py
index 174d27c..5cbda9d 100644
--- a/lsl/misc/telemetry/__init__.py
+++ b/lsl/misc/telemetry/__init__.py
@@ -221,8 +221,7 @@ class _TelemetryClient(object):
         Disable saving data to the telemetry cache in a temporary way.
         """
         
-        TELE_CONFIG.set_temp('enabled', False)
-        self.active = TELE_CONFIG.get('enabled')
+        self.active = False
 
 
 # Create an instance of the telemetry client to use.
-- 
2.43.0


From 36d80fa06453c8fe8002409cf95a8e536aaa231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:08 +0000
Subject: [PATCH 32/71] fix: download_file does not report a transfer that
 stopped short or failed as received

---
 lsl/common/data_access.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index 3069976..de405b9 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -142,18 +142,17 @@ def download_file(url, filename_or_fh, byte_range=None, verbose=True):
             if is_interactive:
                 sys.stdout.write(pbar.show()+'\n')
                 sys.stdout.flush()
-    except IOError as e:
+                
+            if received < remote_size:
+                raise IOError(f"connection closed after {received} of {remote_size} bytes")
+    except Exception as e:
         if verbose:
             warnings.warn(colorfy("{{%%yellow Error downloading file from %s: %s}}" % (url, str(e))), RuntimeWarning)
         received = 0
-    except (socket.timeout, TimeoutError):
-        received = 0
-    except HTTPError:
-        received = 0
-        
-    if do_close:
-        filename_or_fh.close()
-        
+    finally:
+        if do_close:
+            filename_or_fh.close()
+            
     return (remote_size, received, mtime)
 
 
-- 
2.43.0


From 5b4f49efb18d8c7964d1f8c8e0228855c29504f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:08 +0000
Subject: [PATCH 33/71] fix: a data file whose copy or download is cut off does
 not stay in the cache

---
 lsl/common/data_access.py | 92 +++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 43 deletions(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index de405b9..3048043 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -196,32 +196,35 @@ class _DataAccess(object):
         local_path = os.path.join(DATA_PATH, relative_url)
         
         received = 0
-        if os.path.exists(local_path):
-            with open(local_path, 'rb') as uh:
-                with self._data_cache.open(filename, 'wb') as fh:
-                    while True:
-                        data = uh.read(DOWN_CONFIG.get('block_size'))
-                        if len(data) == 0:
-                            break
-                        received += len(data)
-                        
-                        fh.write(data)
-                        
-            with self._data_cache.open(metaname, 'w') as fh:
-                fh.write(f"created: {time.time():.0f}\n")
-                fh.write(f"source: {local_path}\n")
-                fh.write(f"source size: {os.path.getsize(local_path)} B\n")
-                fh.write(f"source last modified: {os.path.getmtime(local_path):.0f}\n")
+        complete = False
+        try:
+            if os.path.exists(local_path):
+                with open(local_path, 'rb') as uh:
+                    with self._data_cache.open(filename, 'wb') as fh:
+                        while True:
+                            data = uh.read(DOWN_CONFIG.get('block_size'))
+                            if len(data) == 0:
+                                break
+                            received += len(data)
+                            
+                            fh.write(data)
+                            
+                with self._data_cache.open(metaname, 'w') as fh:
+                    fh.write(f"created: {time.time():.0f}\n")
+                    fh.write(f"source: {local_path}\n")
+                    fh.write(f"source size: {os.path.getsize(local_path)} B\n")
+                    fh.write(f"source last modified: {os.path.getmtime(local_path):.0f}\n")
+                    
+            # Did we get anything or, at least, enough of something like it looks like 
+            # a real file?
+            complete = (received >= 3)
+        finally:
+            if not complete:
+                ## Fail
+                self._data_cache.remove(filename)
+                self._data_cache.remove(metaname)
                 
-        # Did we get anything or, at least, enough of something like it looks like 
-        # a real file?
-        if received < 3:
-            ## Fail
-            self._data_cache.remove(filename)
-            self._data_cache.remove(metaname)
-            return False
-            
-        return True
+        return complete
         
     def _download_mtime(self, relative_url, use_backup=False, verbose=True):
         url = self._BASE_URL+'/'+relative_url
@@ -248,24 +251,27 @@ class _DataAccess(object):
             url = self._BACKUP_URL+'/'+relative_url
             
         mtime = 0
-        with self._data_cache.open(filename, 'wb') as fh:
-            remote_size, received, mtime = download_file(url, fh, verbose=verbose)
-            
-        with self._data_cache.open(metaname, 'w') as fh:
-            fh.write(f"created: {time.time():.0f}\n")
-            fh.write(f"source: {url}\n")
-            fh.write(f"source size: {remote_size} B\n")
-            fh.write(f"source last modified: {mtime:.0f}\n")
-            
-        # Did we get anything or, at least, enough of something like it looks like 
-        # a real file?
-        if received < 3:
-            ## Fail
-            self._data_cache.remove(filename)
-            self._data_cache.remove(metaname)
-            return False
-            
-        return True
+        complete = False
+        try:
+            with self._data_cache.open(filename, 'wb') as fh:
+                remote_size, received, mtime = download_file(url, fh, verbose=verbose)
+                
+            with self._data_cache.open(metaname, 'w') as fh:
+                fh.write(f"created: {time.time():.0f}\n")
+                fh.write(f"source: {url}\n")
+                fh.write(f"source size: {remote_size} B\n")
+                fh.write(f"source last modified: {mtime:.0f}\n")
+                
+            # Did we get anything or, at least, enough of something like it looks like 
+            # a real file?
+            complete = (received >= 3)
+        finally:
+            if not complete:
+                ## Fail
+                self._data_cache.remove(filename)
+                self._data_cache.remove(metaname)
+                
+        return complete
         
     def fetch_data_file(self, filename):
         """
-- 
2.43.0


From 4a038dbadf9ab0e3c726ba77bbb561a8309bb67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:08 +0000
Subject: [PATCH 34/71] fix: an ionospheric map whose download or unpacking is
 cut off does not stay in the cache

---
 lsl/misc/ionosphere/_glotec.py | 10 ++++++++--
 lsl/misc/ionosphere/_utils.py  | 36 +++++++++++++++++++++-------------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/lsl/misc/ionosphere/_glotec.py b/lsl/misc/ionosphere/_glotec.py
index dbe07a1..413ce9d 100644
--- a/lsl/misc/ionosphere/_glotec.py
+++ b/lsl/misc/ionosphere/_glotec.py
@@ -60,8 +60,14 @@ def _download(mjd, type='final'):
                 h5name = os.path.join("glotec_%s" % dateStr, h5name)
                 ti = tf.extractfile(h5name)
                 if ti:
-                    with _CACHE_DIR.open(os.path.basename(h5name), 'wb') as hh:
-                        hh.write(ti.read())
+                    complete = False
+                    try:
+                        with _CACHE_DIR.open(os.path.basename(h5name), 'wb') as hh:
+                            hh.write(ti.read())
+                        complete = True
+                    finally:
+                        if not complete:
+                            _CACHE_DIR.remove(os.path.basename(h5name))
                 else:
                     status = False
                     
diff --git a/lsl/misc/ionosphere/_utils.py b/lsl/misc/ionosphere/_utils.py
index 4a4aecc..9f1a74f 100644
--- a/lsl/misc/ionosphere/_utils.py
+++ b/lsl/misc/ionosphere/_utils.py
@@ -74,6 +74,7 @@ def _download_worker_cddis(url, filename):
     # Attempt to download the data
     LSL_LOGGER.info(f"Downloading {url}")
     ftps = None
+    complete = False
     try:
         ## Login
         ftps = FTP_TLS("gdc.cddis.eosdis.nasa.gov", timeout=DOWN_CONFIG.get('timeout'),
@@ -106,27 +107,29 @@ def _download_worker_cddis(url, filename):
                 sys.stdout.flush()
 
         if not status.startswith("226"):
-            _CACHE_DIR.remove(filename)
             return False
 
+        ## Further processing, if needed
+        if os.path.splitext(url)[1] == '.Z':
+            ## Save it to a regular gzip'd file after uncompressing it.
+            _convert_to_gzip(filename)
+
+        complete = True
+
     except (IOError, ssl.SSLError, socket.timeout, TimeoutError, EOFError,
-            FTP_ERROR_TEMP, FTP_ERROR_PERM) as e:
-        ## Network/transfer problem - clean up any partial file and give up
+            FTP_ERROR_TEMP, FTP_ERROR_PERM, subprocess.SubprocessError) as e:
+        ## Network/transfer problem - give up
         LSL_LOGGER.warning(f"Failed to download {url}: {str(e)}")
-        _CACHE_DIR.remove(filename)
-        return False
 
     finally:
+        ## Clean up any partial file
+        if not complete:
+            _CACHE_DIR.remove(filename)
         if ftps is not None:
             ftps.close()
 
-    ## Further processing, if needed
-    if os.path.splitext(url)[1] == '.Z':
-        ## Save it to a regular gzip'd file after uncompressing it.
-        _convert_to_gzip(filename)
-
     # Done
-    return True
+    return complete
 
 
 def _download_worker_standard(url, filename):
@@ -152,10 +155,15 @@ def _download_worker_standard(url, filename):
             
         status = True
         
-    except RuntimeError:
-        # Failed to download, remove the empty file
-        _CACHE_DIR.remove(filename)
+    except (RuntimeError, subprocess.SubprocessError) as e:
+        # Failed to download
+        LSL_LOGGER.warning(f"Failed to download {url}: {str(e)}")
         
+    finally:
+        # Remove the empty or partial file
+        if not status:
+            _CACHE_DIR.remove(filename)
+            
     return status
 
 
-- 
2.43.0


From 3b64ef4b86e9a8441d756305390a3b15166439f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:08 +0000
Subject: [PATCH 35/71] fix: MemoryCache does not make up an empty file when a
 missing one is opened for reading

---
 lsl/misc/file_cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index c5fa8b1..c1d25a5 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -431,6 +431,8 @@ class MemoryCache(object):
             try:
                 fh = self._cache[filename]
             except KeyError:
+                if not (mode.startswith('w') or mode.startswith('a')):
+                    raise FileNotFoundError(f"No such file in the cache: '{filename}'")
                 self._cache[filename] = MemoryFile(filename)
                 fh = self._cache[filename]
             if mode.startswith('w'):
-- 
2.43.0


From a0fc8844a9d1657a71907ac8df7f6619455a6236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:08 +0000
Subject: [PATCH 36/71] fix: MemoryCache.getmtime reads the modification time
 by its name

---
 lsl/misc/file_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index c1d25a5..981240a 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -488,7 +488,7 @@ class MemoryCache(object):
         assert(self._lock.locked())
         
         try:
-            mtime = self._cache[filename].stat['st_mtime']
+            mtime = self._cache[filename].stat.st_mtime
         except KeyError:
             raise OSError()
         finally:
-- 
2.43.0


From 2b3b49656a6d1f6b406a3b61a5e26e0be6357fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:08 +0000
Subject: [PATCH 37/71] fix: FileCache does not loop forever over a file it
 cannot remove

---
 lsl/misc/file_cache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 981240a..33fcfec 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -77,12 +77,12 @@ class FileCache(object):
                 idx = mtimes.index(oldest)
                 try:
                     os.unlink(filenames[idx])
-                    del filenames[idx]
-                    del sizes[idx]
-                    del mtimes[idx]
                 except OSError:
                     pass
-                    
+                del filenames[idx]
+                del sizes[idx]
+                del mtimes[idx]
+                
     @contextlib.contextmanager
     def open(self, filename, mode='r'):
         """
-- 
2.43.0


From 2c1d4361ec516a2c979b25b5e9ba36ee36a54012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:18 +0000
Subject: [PATCH 38/71] fix: links in a packed bundle or measurement set are
 not unpacked, nothing is written through them

---
 lsl/common/_metabundle_utils.py |  6 ++++++
 lsl/common/metabundle.py        | 14 ++++++++++++++
 lsl/imaging/utils.py            |  2 ++
 3 files changed, 22 insertions(+)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 6c74f04..00eec9f 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -91,6 +91,8 @@ def get_beamformer_min_delay(tarname):
                     continue
             except ValueError:
                 continue
+            if not member.isfile():
+                continue
             tf.extract(member, tempDir)
         
         # Parse the SDM file and build the SDM instance
@@ -133,6 +135,8 @@ def get_session_metadata(tarname):
                     continue
             except ValueError:
                 continue
+            if not member.isfile():
+                continue
             tf.extract(member, tempDir)
         
         # Read in the SMF
@@ -233,6 +237,8 @@ def get_asp_configuration(tarname, which='beginning'):
                         continue
                 except ValueError:
                     continue
+                if not member.isfile():
+                    continue
                 tf.extract(member, tempDir)
             
             # Read in the right MIB
diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 3bd84e7..7025ba8 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -207,6 +207,8 @@ def get_sdm(tarname):
                     continue
             except ValueError:
                 continue
+            if not member.isfile():
+                continue
             tf.extract(member, tempDir)
         
         # Parse the SDM file and build the SDM instance
@@ -238,6 +240,8 @@ def get_mcs_hostname(tarname):
                     continue
             except ValueError:
                 continue
+            if not member.isfile():
+                continue
             tf.extract(member, tempDir)
         
         # Read in the name
@@ -276,6 +280,8 @@ def get_station(tarname, apply_sdm=True):
                     continue
             except ValueError:
                 continue
+            if not member.isfile():
+                continue
             tf.extract(member, tempDir)
         
         # Read in the SSMIF
@@ -327,6 +333,8 @@ def get_session_spec(tarname):
                     continue
             except ValueError:
                 continue
+            if not member.isfile():
+                continue
             tf.extract(member, tempDir)
         
         # Read in the SES
@@ -358,6 +366,8 @@ def get_observation_spec(tarname, obs_id=None):
                     continue
             except ValueError:
                 continue
+            if not member.isfile():
+                continue
             tf.extract(member, tempDir)
         
         # Read in the OBS files
@@ -416,6 +426,8 @@ def get_sdf(tarname):
                     continue
             except ValueError:
                 continue
+            if not member.isfile():
+                continue
             tf.extract(member, tempDir)
         
         # Parse it
@@ -444,6 +456,8 @@ def get_command_script(tarname):
                     continue
             except ValueError:
                 continue
+            if not member.isfile():
+                continue
             tf.extract(member, tempDir)
         
         # Read in the CS
diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 2251f2d..7fad128 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -878,6 +878,8 @@ try:
                         except ValueError:
                             continue
                             
+                        if not (member.isfile() or member.isdir()):
+                            continue
                         tf.extract(member, tempdir)
                         
                 # Find the first directory that could be a MS
-- 
2.43.0


From 50c14d7be3bff1a7df79b46d135206b351849304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:18 +0000
Subject: [PATCH 39/71] fix: a member of a metadata tarball that was not
 unpacked is not looked for outside of the scratch directory

---
 lsl/common/_metabundle_utils.py | 16 ++++++++--------
 lsl/common/metabundle.py        | 24 ++++++++++++------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 00eec9f..2436eb2 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -132,11 +132,11 @@ def get_session_metadata(tarname):
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
                 if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
+                    raise ValueError("outside of the scratch directory")
+            except ValueError as e:
+                raise RuntimeError(f"Cannot unpack '{member.name}': {str(e)}")
             if not member.isfile():
-                continue
+                raise RuntimeError(f"Cannot unpack '{member.name}': not a file")
             tf.extract(member, tempDir)
         
         # Read in the SMF
@@ -234,11 +234,11 @@ def get_asp_configuration(tarname, which='beginning'):
                 mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
                 try:
                     if os.path.commonpath([tempDir, mname]) != tempDir:
-                        continue
-                except ValueError:
-                    continue
+                        raise ValueError("outside of the scratch directory")
+                except ValueError as e:
+                    raise RuntimeError(f"Cannot unpack '{member.name}': {str(e)}")
                 if not member.isfile():
-                    continue
+                    raise RuntimeError(f"Cannot unpack '{member.name}': not a file")
                 tf.extract(member, tempDir)
             
             # Read in the right MIB
diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 7025ba8..2fd1fb8 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -330,11 +330,11 @@ def get_session_spec(tarname):
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
                 if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
+                    raise ValueError("outside of the scratch directory")
+            except ValueError as e:
+                raise RuntimeError(f"Cannot unpack '{member.name}': {str(e)}")
             if not member.isfile():
-                continue
+                raise RuntimeError(f"Cannot unpack '{member.name}': not a file")
             tf.extract(member, tempDir)
         
         # Read in the SES
@@ -423,11 +423,11 @@ def get_sdf(tarname):
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
                 if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
+                    raise ValueError("outside of the scratch directory")
+            except ValueError as e:
+                raise RuntimeError(f"Cannot unpack '{member.name}': {str(e)}")
             if not member.isfile():
-                continue
+                raise RuntimeError(f"Cannot unpack '{member.name}': not a file")
             tf.extract(member, tempDir)
         
         # Parse it
@@ -453,11 +453,11 @@ def get_command_script(tarname):
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
                 if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
+                    raise ValueError("outside of the scratch directory")
+            except ValueError as e:
+                raise RuntimeError(f"Cannot unpack '{member.name}': {str(e)}")
             if not member.isfile():
-                continue
+                raise RuntimeError(f"Cannot unpack '{member.name}': not a file")
             tf.extract(member, tempDir)
         
         # Read in the CS
-- 
2.43.0


From 5ea420e2ece5cf2bb599b5c250982fc5ea11b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:18 +0000
Subject: [PATCH 40/71] fix: a metadata tarball without the wanted file is
 reported instead of reading its last member

---
 lsl/common/_metabundle_utils.py | 2 ++
 lsl/common/metabundle.py        | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 2436eb2..16c1ae9 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -128,6 +128,8 @@ def get_session_metadata(tarname):
             for ti in _get_members(tarname):
                 if ti.name[-13:] == '_metadata.txt':
                     break
+            else:
+                raise RuntimeError(f"Cannot find a session meta-data file in '{tarname}'")
         for member in [ti,]:
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 2fd1fb8..055d60b 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -326,6 +326,8 @@ def get_session_spec(tarname):
             for ti in _get_members(tarname):
                 if ti.name[-4:] == '.ses':
                     break
+            else:
+                raise RuntimeError(f"Cannot find a session specification file in '{tarname}'")
         for member in [ti,]:
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
@@ -419,6 +421,8 @@ def get_sdf(tarname):
         for ti in _get_members(tarname):
             if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1:
                 break
+        else:
+            raise RuntimeError(f"Cannot find a session definition file in '{tarname}'")
         for member in [ti,]:
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
@@ -449,6 +453,8 @@ def get_command_script(tarname):
         for ti in _get_members(tarname):
             if ti.name[-3:] == '.cs':
                 break
+        else:
+            raise RuntimeError(f"Cannot find a command script in '{tarname}'")
         for member in [ti,]:
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
-- 
2.43.0


From da11a5a52302770a1e4a7cd7f08646de9f6a052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:02 +0000
Subject: [PATCH 41/71] fix: DRSpecFile.offset gives up instead of searching
 for ever in a file with a time gap

---
 lsl/reader/ldp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index a3d36f3..8709f2b 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1312,6 +1312,7 @@ class DRSpecFile(LDPFileBase):
         # is needed to deal with files that start with only one tuning and/or a 
         # different sample rate.
         diffs_used = deque([], 25)
+        nattempt = 0
         while True:
             junkFrame = drspec.read_frame(self.fh)
             self.fh.seek(-self.description['frame_size'], 1)
@@ -1338,7 +1339,9 @@ class DRSpecFile(LDPFileBase):
                 break
             try:
                 self.fh.seek(cOffset*self.description['frame_size'], 1)
+                nattempt += 1
                 assert(len(set(diffs_used)) > len(diffs_used)//4)
+                assert(nattempt < 1000)
             except (IOError, AssertionError):
                 LSL_LOGGER.warning("Could not find the correct offset, giving up")
 
-- 
2.43.0


From 09d4d522352f728841ca99820b39ce1960991800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:57 +0000
Subject: [PATCH 42/71] fix: CORFile.read moves on from a corrupted frame
 instead of reading it again for ever

---
 lsl/reader/ldp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 8709f2b..0b06a8d 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -2094,6 +2094,8 @@ class CORFile(LDPFileBase):
                     cFrames = []
                     break
                 except errors.SyncError:
+                    # The reader leaves us at the start of the bad frame
+                    self.fh.seek(1, 1)
                     continue
                     
             self.buffer.append(cFrames)
-- 
2.43.0


From c90fe03e47c575abaecc988cdacfaa5f92b0aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:57 +0000
Subject: [PATCH 43/71] fix: drspec frames with an unsupported set of
 polarization products are reported instead of read past their data

---
 lsl/reader/drspec.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lsl/reader/drspec.cpp b/lsl/reader/drspec.cpp
index f5b15c6..d9612ec 100644
--- a/lsl/reader/drspec.cpp
+++ b/lsl/reader/drspec.cpp
@@ -287,6 +287,27 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
     // Get the data format
     nSets = pol_count(header.stokes_format)*2;
     
+    // Can it be parsed?
+    switch( header.stokes_format ) {
+        case LINEAR_XX:
+        case LINEAR_XY_RE:
+        case LINEAR_XY_IM:
+        case LINEAR_YY:
+        case (LINEAR_XX | LINEAR_YY):
+        case (LINEAR_XY_RE | LINEAR_XY_IM):
+        case (LINEAR_XX | LINEAR_XY_RE | LINEAR_XY_IM | LINEAR_YY):
+        case STOKES_I:
+        case STOKES_Q:
+        case STOKES_U:
+        case STOKES_V:
+        case (STOKES_I | STOKES_V):
+        case (STOKES_I | STOKES_Q | STOKES_U | STOKES_V):
+            break;
+        default:
+            PyErr_Format(PyExc_RuntimeError, "Cannot parse data with polarization products 0x%02X", header.stokes_format);
+            goto fail;
+    }
+    
     // Create the output data arrays
     npy_intp dims[1];
     dims[0] = (npy_intp) header.nFreqs;
-- 
2.43.0


From 0fdb8418e783729fc1425614a38a60ef10f37ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:00 +0000
Subject: [PATCH 44/71] fix: skip pulsar catalog entries whose right ascension
 cannot be split

---
 lsl/catalog.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lsl/catalog.py b/lsl/catalog.py
index 1b9b71e..76454ea 100644
--- a/lsl/catalog.py
+++ b/lsl/catalog.py
@@ -261,6 +261,7 @@ class PSR_Catalog(Catalog):
                     else:
                         LSL_LOGGER.debug(f"Bad format for RAJ line: {line}")
                         bad = True
+                        continue
                     raHours = int(raHours)
                     raMinutes = int(raMinutes)
                     raSeconds = float(raSeconds)
-- 
2.43.0


From d68d828f5c2b4aae433bd0d6c31ca1f6d88e700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:00 +0000
Subject: [PATCH 45/71] fix: report a beam-dipole stand that the station does
 not have

---
 lsl/common/sdf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index c105a7c..767607b 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1032,10 +1032,13 @@ class DRX(Observation):
             if self._parent is not None:
                 station = self._parent.station
                 
+            dpStand = None
             for ant in station.antennas:
                 if ant.stand.id == stand:
                     dpStand = (ant.digitizer+1)/2
-                    
+            if dpStand is None:
+                raise ValueError(f"Stand number {stand} not found at the station")
+                
             self.beamDipole = [dpStand, beam_gain, dipole_gain, pol.upper()]
             
     def estimate_bytes(self):
@@ -1356,10 +1359,13 @@ class Stepped(Observation):
             if self._parent is not None:
                 station = self._parent.station
                 
+            dpStand = None
             for ant in station.antennas:
                 if ant.stand.id == stand:
                     dpStand = (ant.digitizer+1)/2
-                    
+            if dpStand is None:
+                raise ValueError(f"Stand number {stand} not found at the station")
+                
             self.beamDipole = [dpStand, beam_gain, dipole_gain, pol.upper()]
             
     def estimate_bytes(self):
-- 
2.43.0


From f29d31e2e20621b139e1cb3380ee227839341319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:00 +0000
Subject: [PATCH 46/71] fix: report why a lock file cannot be opened

---
 lsl/misc/file_lock.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/misc/file_lock.py b/lsl/misc/file_lock.py
index 394372e..94ff2ba 100644
--- a/lsl/misc/file_lock.py
+++ b/lsl/misc/file_lock.py
@@ -49,10 +49,10 @@ class FileLock(object):
         
         ident = current_thread().ident
         while not self._locked:
+            # Open the lock file
+            fh = open(self._lockname, 'a+')
             try:
-                # Open the lock file and try to read the thread ID of who owns
-                # it
-                fh = open(self._lockname, 'a+')
+                # Try to read the thread ID of who owns it
                 try:
                     owner_ident = int(fh.read(), 10)
                 except ValueError:
-- 
2.43.0


From 93d5c4db08a95569f48871dcb92a88381df014e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:00 +0000
Subject: [PATCH 47/71] fix: the half-sample mode of equal values is that value

---
 lsl/statistics/robust.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index b399e52..a03b3a6 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -178,6 +178,7 @@ def mode(inputData, axis=None, dtype=None):
                 else:
                     return data[1]
             else:
+                j = 0
                 wMin = data[-1] - data[0]
                 N = data.size // 2 + data.size % 2 
                 for i in range(0, N):
-- 
2.43.0


From f5e862c9d7ee3ec4959033ec239733fb7548dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:00 +0000
Subject: [PATCH 48/71] fix: report a missing NEC output file when it is not to
 be re-created

---
 lsl/sim/necutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lsl/sim/necutils.py b/lsl/sim/necutils.py
index 94577cb..fd3c48c 100644
--- a/lsl/sim/necutils.py
+++ b/lsl/sim/necutils.py
@@ -238,6 +238,7 @@ class NECPattern:
         except:
             warnings.warn(colorfy("{{%yellow NEC .out file not found!  Running NEC}}"), RuntimeWarning)
             fh = None
+            filefreq = None
             
         if fh is None or not close_to(filefreq, freq):
             if rerun:
-- 
2.43.0


From c40de4abc56996dee481bcaea2f5328351ac6a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:00 +0000
Subject: [PATCH 49/71] fix: a file without readable TBX frames has no channels

---
 lsl/reader/tbx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lsl/reader/tbx.py b/lsl/reader/tbx.py
index ea2664f..8047a82 100644
--- a/lsl/reader/tbx.py
+++ b/lsl/reader/tbx.py
@@ -303,6 +303,7 @@ def get_channel_count(filehandle):
     nFrames = get_frames_per_obs(filehandle)
     
     # Find out how many channels are in each frame
+    channel_count = 0
     with FilePositionSaver(filehandle):
         for i in range(2500):
             try:
-- 
2.43.0


From 34167d4fc6c5034c55a075a346eaf72568d3a32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:19 +0000
Subject: [PATCH 50/71] fix: correlated data files have a string form

---
 lsl/imaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 7fad128..d3b5031 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -139,7 +139,7 @@ class CorrelatedDataBase(object):
         self.filename = filename
         
     def __str__(self):
-        return f"{self.__name__} @ {self.filename}"
+        return f"{type(self).__name__} @ {self.filename}"
         
     def __enter__(self):
         return self
-- 
2.43.0


From e54784a8defc5a76a4f72a8c31084af88a8a62b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:19 +0000
Subject: [PATCH 51/71] fix: ImgWPlus can make an image from data that
 build_gridded_image did not put there

---
 lsl/imaging/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index d3b5031..5da2323 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1382,6 +1382,7 @@ class ImgWPlus(aipy.img.ImgW):
     _mjd = None
     _phase_center = None
     _antennaarray = None
+    kern_corr = 1.0
     
     def __iadd__(self, uv, bm=None):
         if isinstance(uv, ImgWPlus):
-- 
2.43.0


From e296f3bfa80ea9af0f74529695f21f17635f10e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:53 +0000
Subject: [PATCH 52/71] fix: setting the antennas of a station does not sort
 the caller's list

---
 lsl/common/stations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 580cb22..0a401d6 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -127,7 +127,7 @@ class LWAStationBase(object):
         for i,antenna in enumerate(antennas):
             if not isinstance(antenna, Antenna):
                 raise TypeError(f"Expected index {i} to be an Antenna")
-        self._antennas = antennas
+        self._antennas = list(antennas)
         
         # Fix the sorting
         orig_sort_order = self._sort_order
-- 
2.43.0


From bf21f3b235b63f5fdc2ded40852c0e824f28f630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:53 +0000
Subject: [PATCH 53/71] fix: VisibilityData does not add to, shorten or sort
 the list it was made from

---
 lsl/imaging/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 13e428d..7ed41a4 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -412,7 +412,7 @@ class VisibilityData(object):
                     if not isinstance(d, VisibilityDataSet):
                         ### Is everybody in the list a VisibilityDataSet?
                         raise TypeError(f"Excepted element {i} to be a VisibilityDataSet object")
-                self._data = data
+                self._data = list(data)
             elif isinstance(data, VisibilityDataSet):
                 ## Do we have a single VisibilityDataSet?
                 self._data = [data,]
-- 
2.43.0


From 9847b6f0b624c41532566ce55874a122728c5f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:53 +0000
Subject: [PATCH 54/71] fix: rephasing a data set does not change the uvw array
 it was made from

---
 lsl/imaging/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 7ed41a4..cc4af66 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -272,6 +272,7 @@ class VisibilityDataSet(object):
             new_phase_center.compute(self.antennaarray)
             
         # Go!
+        self.uvw = self.uvw.copy()
         for pds in self:
             pds.data = pds.data.astype(np.complex128)
             ## Loop over baselines
-- 
2.43.0


From 44bebc8b23c919a9e2ee76f6d0b2eadea3985054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:53 +0000
Subject: [PATCH 55/71] fix: reading station settings does not change the
 dictionaries they were made from

---
 lsl/common/sdm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/sdm.py b/lsl/common/sdm.py
index 02bbbe7..cd43b97 100644
--- a/lsl/common/sdm.py
+++ b/lsl/common/sdm.py
@@ -121,12 +121,12 @@ class StationSettings(object):
         if report is None:
             self.report = {'ASP': -1, 'NDP': -1, 'DR1': -1, 'DR2': -1, 'DR3': -1, 'DR4': -1, 'DR5': -1, 'SHL': -1, 'MCS': -1}
         else:
-            self.report = report
+            self.report = dict(report)
             
         if update is None:
             self.update = {'ASP': -1, 'NDP': -1, 'DR1': -1, 'DR2': -1, 'DR3': -1, 'DR4': -1, 'DR5': -1, 'SHL': -1, 'MCS': -1}
         else:
-            self.update = update
+            self.update = dict(update)
             
         if fee_power is None:
             self.fee_power = [0 for n in range(ME_MAX_NSTD)]
-- 
2.43.0


From 37b309ba1552e13d3faee6f6924c19b113a5c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:35 +0000
Subject: [PATCH 56/71] fix: stands, antennas, FEEs, cables and ARX boards that
 are equal have the same hash

---
 lsl/common/stations.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 0a401d6..7d57ab6 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -485,7 +485,7 @@ class Antenna(object):
         return (Antenna, (self.id, self.arx, self.board, self.digitizer, self.input, self.stand, self.pol, self.theta, self.phi, self.fee, self.fee_port, self.cable, self.status))
         
     def __hash__(self):
-        return hash(self.__reduce__()[1])
+        return hash(self.id)
         
     def __eq__(self, other):
         if isinstance(other, Antenna):
@@ -581,7 +581,7 @@ class Stand(object):
         return (Stand, (self.id, self.x, self.y, self.z))
         
     def __hash__(self):
-        return hash(self.__reduce__()[1])
+        return hash(self.id)
         
     def __getitem__(self, key):
         if key == 0:
@@ -685,7 +685,7 @@ class FEE(object):
         return (FEE, (self.id, self.id_number, self.gain1, self.gain2, self.status))
         
     def __hash__(self):
-        return hash(self.__reduce__()[1])
+        return hash(self.id)
         
     def __eq__(self, other):
         if isinstance(other, FEE):
@@ -767,7 +767,7 @@ class Cable(object):
         return (Cable, (self.id, self.length, self.vf, self.dd, self.a0, self.a1, self.ref_freq, self.stretch))
         
     def __hash__(self):
-        return hash(self.__reduce__()[1])
+        return hash(self.id)
         
     def __eq__(self, other):
         if isinstance(other, Cable):
@@ -906,7 +906,7 @@ class ARX(object):
         return (ARX, (self.id, self.channel, self.asp_channel, self.input, self.output))
         
     def __hash__(self):
-        return hash(self.__reduce__()[1])
+        return hash((self.id, self.channel))
         
     def __eq__(self, other):
         if isinstance(other, ARX):
-- 
2.43.0


From 9bba1f958119fa78b882c1d2d39ad13296c9a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:35 +0000
Subject: [PATCH 57/71] fix: a copied or pickled cable keeps its clock offset
 and ASP attenuation

---
 lsl/common/stations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 7d57ab6..30a8d97 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -764,7 +764,8 @@ class Cable(object):
         return tw_fill(_build_repr(n, a), subsequent_indent='    ')
         
     def __reduce__(self):
-        return (Cable, (self.id, self.length, self.vf, self.dd, self.a0, self.a1, self.ref_freq, self.stretch))
+        return (Cable, (self.id, self.length, self.vf, self.dd, self.a0, self.a1, self.ref_freq, self.stretch),
+                {'clock_offset': self.clock_offset, 'asp_atten_db': self.asp_atten_db})
         
     def __hash__(self):
         return hash(self.id)
-- 
2.43.0


From 9b6cbb4f2a6b9448b76d2b8cb6fe248d30ecb7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:35 +0000
Subject: [PATCH 58/71] fix: a copied or pickled station keeps its minimum
 beamformer delay

---
 lsl/common/stations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 30a8d97..317c9f9 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -244,7 +244,9 @@ class LWAStation(ephem.Observer, LWAStationBase):
         return tw_fill(_build_repr(n, a), subsequent_indent='    ')
         
     def __reduce__(self):
-        return (LWAStation, (self.name, self.lat*180/np.pi, self.long*180/np.pi, self.elev, self.id, tuple(self.antennas), self.interface))
+        return (LWAStation, (self.name, self.lat*180/np.pi, self.long*180/np.pi, self.elev, self.id, tuple(self.antennas), self.interface),
+                {'beamformer_min_delay': self.beamformer_min_delay,
+                 'beamformer_min_delay_samples': self.beamformer_min_delay_samples})
         
     def __hash__(self):
         return hash(self.__reduce__()[1])
-- 
2.43.0


From 012d1010d9b6bdbb86d0e4e5ecddc1e42ca83c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:44 +0000
Subject: [PATCH 59/71] fix: copied and pickled positions keep their proper
 motion, distance and astropy object

---
 lsl/astro.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 847f3cb..255b91e 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -806,7 +806,7 @@ class hrz_posn(object):
         hrz_posn object pickle reduce method.
         """
         
-        return (hrz_posn, (self.az, self.alt))
+        return (hrz_posn, (self.az, self.alt), dict(self.__dict__))
         
     def __getitem__(self, key):
         """
@@ -1139,7 +1139,7 @@ class equ_posn(object):
         equ_posn object pickle reduce method.
         """
             
-        return (equ_posn, (self.ra,self.dec))
+        return (equ_posn, (self.ra,self.dec), dict(self.__dict__))
 
 
 class gal_posn(object):
@@ -1284,7 +1284,7 @@ class gal_posn(object):
         gal_posn object pickle reduce method.
         """
         
-        return (gal_posn, (self.l, self.b))
+        return (gal_posn, (self.l, self.b), dict(self.__dict__))
         
     def __getitem__(self, key):
         """
@@ -1590,7 +1590,7 @@ class ecl_posn(object):
         ecl_posn object pickle reduce method.
         """
         
-        return (ecl_posn, (self.lng, self.lat))
+        return (ecl_posn, (self.lng, self.lat), dict(self.__dict__))
         
     def __getitem__(self, key):
         """
@@ -3301,7 +3301,7 @@ class geo_posn(object):
         geo_posn object pickle reduce method.
         """
         
-        return (geo_posn, (self.lng, self.lat, self.elv))
+        return (geo_posn, (self.lng, self.lat, self.elv), dict(self.__dict__))
         
     def __getitem__(self, key):
         """
-- 
2.43.0


From a6261b8bfc0f709e89fd7183b6ef55c8e3b7bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:01 +0000
Subject: [PATCH 60/71] fix: reading an SDF or IDF, the settings of one
 observation or scan do not carry over to the next

---
 lsl/common/idf.py | 4 +++-
 lsl/common/sdf.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 72a468d..668f3a4 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1269,9 +1269,10 @@ def parse_idf(filename):
     project.project_office.runs = []
     project.project_office.scans = [[],]
     
-    obs_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0], 'start': '', 'duration': '', 'mode': '', 
+    obs_defaults = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0], 'start': '', 'duration': '', 'mode': '', 
                 'freq1': 0, 'freq2': 0, 'filter': 0, 'comments': None, 'nAlt': 0, 'gain': -1, 
                 'aspFlt': -1}
+    obs_temp = copy.deepcopy(obs_defaults)
     alt_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0]}
     alt_temps = []
     
@@ -1390,6 +1391,7 @@ def parse_idf(filename):
             if keyword == 'SCAN_ID':
                 if obs_temp['id'] != 0:
                     project.runs[0].scans.append( _parse_create_scan_object(obs_temp, alt_temps=alt_temps) )
+                    obs_temp = copy.deepcopy(obs_defaults)
                     alt_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0]}
                     alt_temps = []
                 obs_temp['id'] = int(value)
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 767607b..ae006e0 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2151,12 +2151,13 @@ def parse_sdf(filename):
     project.project_office.sessions = []
     project.project_office.observations = [[],]
     
-    obs_temp = {'id': 0, 'name': '', 'target': '', 'ra': 0.0, 'dec': 0.0, 'start': '', 'duration': '', 'mode': '', 
+    obs_defaults = {'id': 0, 'name': '', 'target': '', 'ra': 0.0, 'dec': 0.0, 'start': '', 'duration': '', 'mode': '', 
                 'beamDipole': None, 'freq1': 0, 'freq2': 0, 'filter': 0, 'HighDR': False, 'comments': None, 
                 'stpRADec': True, 'tbtSamples': 0, 'gain': -1, 
                 'obsFEE': [[-1,-1] for n in range(LWA_MAX_NSTD)], 
                 'aspFlt': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT1': [-1 for n in range(LWA_MAX_NSTD)], 
                 'aspAT2': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT3': [-1 for n in range(LWA_MAX_NSTD)]}
+    obs_temp = copy.deepcopy(obs_defaults)
     beam_temp = {'id': 0, 'c1': 0.0, 'c2': 0.0, 'duration': 0, 'freq1': 0, 'freq2': 0, 'HighDR': False, 'delays': None, 'gains': None}
     beam_temps = []
     
@@ -2295,6 +2296,7 @@ def parse_sdf(filename):
             if keyword == 'OBS_ID':
                 if obs_temp['id'] != 0:
                     project.sessions[0].observations.append( _parse_create_obs_object(obs_temp, beam_temps=beam_temps) )
+                    obs_temp = copy.deepcopy(obs_defaults)
                     beam_temp = {'id': 0, 'c1': 0.0, 'c2': 0.0, 'duration': 0, 'freq1': 0, 'freq2': 0, 'HighDR': False, 'delays': None, 'gains': None}
                     beam_temps = []
                 obs_temp['id'] = int(value)
-- 
2.43.0


From fbec2bd8d4272e57d7205ed7322e8a2ac7a04646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:01 +0000
Subject: [PATCH 61/71] fix: reading an SDF, the delays and gains of one step
 do not carry over to the next

---
 lsl/common/sdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index ae006e0..6724706 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2445,6 +2445,9 @@ def parse_sdf(filename):
                     if beam_temps[-1]['id'] != ids[0]:
                         beam_temps.append( copy.deepcopy(beam_temps[-1]) )
                         beam_temps[-1]['id'] = ids[0]
+                    beam_temps[-1]['HighDR'] = False
+                    beam_temps[-1]['delays'] = None
+                    beam_temps[-1]['gains'] = None
                     
                     if value in ('HIGH_DR', '2'):
                         beam_temps[-1]['HighDR'] = True
-- 
2.43.0


From d16c5b3af5f28bb81fd4cdc9fc1b85ce5e6bb84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:01 +0000
Subject: [PATCH 62/71] fix: reading an IDF, the proper motion of one alternate
 phase center does not carry over to the next

---
 lsl/common/idf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 668f3a4..1bc4e1b 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1457,7 +1457,7 @@ def parse_idf(filename):
                     alt_temps[-1]['target'] = value
                 else:
                     if alt_temps[-1]['id'] != ids[0]:
-                        alt_temps.append( copy.deepcopy(alt_temps[-1]) )
+                        alt_temps.append( copy.deepcopy(alt_temp) )
                         alt_temps[-1]['id'] = ids[0]
                     alt_temps[-1]['target'] = value
                 continue
-- 
2.43.0


From 3994d0c42fb13f3b0ac0611603a79cba1bb6b35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:01 +0000
Subject: [PATCH 63/71] fix: reading an SDF, a session flag of 0 is off

---
 lsl/common/sdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 6724706..1b4f444 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2258,16 +2258,16 @@ def parse_sdf(filename):
                 project.sessions[0].update_mib[component] = int(value)
                 continue
             if keyword == 'SESSION_LOG_SCH':
-                project.sessions[0].include_mcssch_log = bool(value)
+                project.sessions[0].include_mcssch_log = bool(int(value))
                 continue
             if keyword == 'SESSION_LOG_EXE':
-                project.sessions[0].include_mcsexe_log = bool(value)
+                project.sessions[0].include_mcsexe_log = bool(int(value))
                 continue
             if keyword == 'SESSION_INC_SMIB':
-                project.sessions[0].include_station_smib = bool(value)
+                project.sessions[0].include_station_smib = bool(int(value))
                 continue
             if keyword == 'SESSION_INC_DES':
-                project.sessions[0].include_station_design = bool(value)
+                project.sessions[0].include_station_design = bool(int(value))
                 continue
             if keyword == 'SESSION_DRX_BEAM':
                 project.sessions[0].drx_beam = int(value)
-- 
2.43.0


From 24f6a85fa6966ed50675d5e4dec042fd84f844c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:01 +0000
Subject: [PATCH 64/71] fix: an SDF keeps a front end power setting that is
 given for one polarization only

---
 lsl/common/sdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 1b4f444..8fd5f1e 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -442,8 +442,9 @@ class Project(object):
             ## FEE power settings
             if all(j == obs.fee_power[0] for j in obs.fee_power):
                 ### All the same
-                if obs.fee_power[0][0] != -1 and obs.fee_power[0][1] != -1:
+                if obs.fee_power[0][0] != -1:
                     output += "OBS_FEE[%i][1]  %i\n" % (0, obs.fee_power[0][0])
+                if obs.fee_power[0][1] != -1:
                     output += "OBS_FEE[%i][2]  %i\n" % (0, obs.fee_power[0][1])
             else:
                 ### Some different
-- 
2.43.0


From ae30f38a81da89ac1ee864db082958e1840b9f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:37 +0000
Subject: [PATCH 65/71] fix: a window function that returns too few values is
 reported instead of read past its end

---
 lsl/correlator/core.cpp   | 4 ++++
 lsl/correlator/spec.cpp   | 4 ++++
 lsl/correlator/stokes.cpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index 08154e9..1bc5bd2 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -420,6 +420,10 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_RuntimeError, "Cannot cast window values to 1-D double");
             goto fail;
         }
+        if( PyArray_DIM(windowData, 0) < (1+isReal)*nChan ) {
+            PyErr_Format(PyExc_RuntimeError, "window function returned too few values");
+            goto fail;
+        }
     }
     
     // Compute the integer sample offset and the fractional sample delay for each stand
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index c4a5cec..2f4f7ee 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -297,6 +297,10 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_RuntimeError, "Cannot cast window values to 1-D double");
             goto fail;
         }
+        if( PyArray_DIM(windowData, 0) < (1+isReal)*nChan ) {
+            PyErr_Format(PyExc_RuntimeError, "window function returned too few values");
+            goto fail;
+        }
     }
     
     // Find out how large the output array needs to be and initialize it
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 636290f..5366644 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -378,6 +378,10 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_RuntimeError, "Cannot cast window values to 1-D double");
             goto fail;
         }
+        if( PyArray_DIM(windowData, 0) < (1+isReal)*nChan ) {
+            PyErr_Format(PyExc_RuntimeError, "window function returned too few values");
+            goto fail;
+        }
     }
     
     // Find out how large the output array needs to be and initialize it
-- 
2.43.0


From 5fa465b379ed4402b4f903bbc7e33b5446ed7838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:22 +0000
Subject: [PATCH 66/71] fix: swapping the halves of a spectrum with an odd
 channel count stays inside the row

---
 lsl/correlator/spec.cpp   | 2 +-
 lsl/correlator/stokes.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 2f4f7ee..2b09d40 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -224,7 +224,7 @@ void compute_spec_complex(long nStand,
             
             // Shift FFTs
             memcpy(temp2, psd + nChan*i, sizeof(OutType)*(nChan/2+nChan%2));
-            memmove(psd + nChan*i, psd + nChan*i+nChan/2+nChan%2, sizeof(OutType)*nChan/2);
+            memmove(psd + nChan*i, psd + nChan*i+nChan/2+nChan%2, sizeof(OutType)*(nChan/2));
             memcpy(psd + nChan*i+nChan/2, temp2, sizeof(OutType)*(nChan/2+nChan%2));
             
             // Scale FFTs
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 5366644..48e528f 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -282,7 +282,7 @@ void compute_stokes_complex(long nStand,
             for(j=0; j<4; j++) {
                 // Shift FFTs
                 memcpy(temp2, (psd + j*nChan*nStand + nChan*i), sizeof(OutType)*(nChan/2+nChan%2));
-                memmove((psd + j*nChan*nStand + nChan*i), (psd + j*nChan*nStand + nChan*i)+nChan/2+nChan%2, sizeof(OutType)*nChan/2);
+                memmove((psd + j*nChan*nStand + nChan*i), (psd + j*nChan*nStand + nChan*i)+nChan/2+nChan%2, sizeof(OutType)*(nChan/2));
                 memcpy((psd + j*nChan*nStand + nChan*i)+nChan/2, temp2, sizeof(OutType)*(nChan/2+nChan%2));
                 
                 // Scale FFTs
-- 
2.43.0


From 9281c6fb98fbde983c6c318d340dc8a8d754233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:22 +0000
Subject: [PATCH 67/71] fix: complex 8-bit data is only taken with a last
 dimension of two and the same shape in both inputs

---
 lsl/correlator/core.cpp   | 26 ++++++++++++++++++++++----
 lsl/correlator/spec.cpp   |  4 ++--
 lsl/correlator/stokes.cpp | 16 ++++++++++++----
 3 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index 1bc5bd2..993c5ec 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -401,7 +401,7 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     nStand = (long) PyArray_DIM(data, 0);
     nSamps = (long) PyArray_DIM(data, 1);
     isReal = 1 - PyArray_LSL_ISCOMPLEX(data, 2);
-    if( PyArray_NDIM(data) == 3 && PyArray_TYPE(data) != NPY_INT8 ) {
+    if( PyArray_NDIM(data) == 3 && (PyArray_TYPE(data) != NPY_INT8 || PyArray_DIM(data, 2) != 2) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signals array as a 2-D array");
         goto fail;
     }
@@ -619,7 +619,7 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     nStand = (long) PyArray_DIM(data, 0);
     nSamps = (long) PyArray_DIM(data, 1);
     isReal = 1 - PyArray_LSL_ISCOMPLEX(data, 2);
-    if( PyArray_NDIM(data) == 3 && PyArray_TYPE(data) != NPY_INT8 ) {
+    if( PyArray_NDIM(data) == 3 && (PyArray_TYPE(data) != NPY_INT8 || PyArray_DIM(data, 2) != 2) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signals array as a 2-D array");
         goto fail;
     }
@@ -940,7 +940,16 @@ static PyObject *XEngine2(PyObject *self, PyObject *args) {
     nBL = (nStand+1)*nStand/2;
 
     // Validate the other input arrays against signals1
-    if( PyArray_DIM(data2, 0) != nStand || PyArray_DIM(data2, 1) != nChan || PyArray_DIM(data2, 2) != nFFT ) {
+    if( PyArray_NDIM(data1) == 4 && (PyArray_TYPE(data1) != NPY_INT8 || PyArray_DIM(data1, 3) != 2) ) {
+        PyErr_Format(PyExc_RuntimeError, "Cannot cast input signals1 array as a 3-D array");
+        goto fail;
+    }
+    if( PyArray_NDIM(data2) == 4 && (PyArray_TYPE(data2) != NPY_INT8 || PyArray_DIM(data2, 3) != 2) ) {
+        PyErr_Format(PyExc_RuntimeError, "Cannot cast input signals2 array as a 3-D array");
+        goto fail;
+    }
+    if( PyArray_NDIM(data2) != PyArray_NDIM(data1)
+            || PyArray_DIM(data2, 0) != nStand || PyArray_DIM(data2, 1) != nChan || PyArray_DIM(data2, 2) != nFFT ) {
         PyErr_Format(PyExc_RuntimeError, "signals1 and signals2 have different dimensions");
         goto fail;
     }
@@ -1066,7 +1075,16 @@ static PyObject *XEngine3(PyObject *self, PyObject *args) {
     nBL = (nStand+1)*nStand/2;
 
     // Validate the other input arrays against signalsX
-    if( PyArray_DIM(dataY, 0) != nStand || PyArray_DIM(dataY, 1) != nChan || PyArray_DIM(dataY, 2) != nFFT ) {
+    if( PyArray_NDIM(dataX) == 4 && (PyArray_TYPE(dataX) != NPY_INT8 || PyArray_DIM(dataX, 3) != 2) ) {
+        PyErr_Format(PyExc_RuntimeError, "Cannot cast input signalsX array as a 3-D array");
+        goto fail;
+    }
+    if( PyArray_NDIM(dataY) == 4 && (PyArray_TYPE(dataY) != NPY_INT8 || PyArray_DIM(dataY, 3) != 2) ) {
+        PyErr_Format(PyExc_RuntimeError, "Cannot cast input signalsY array as a 3-D array");
+        goto fail;
+    }
+    if( PyArray_NDIM(dataY) != PyArray_NDIM(dataX)
+            || PyArray_DIM(dataY, 0) != nStand || PyArray_DIM(dataY, 1) != nChan || PyArray_DIM(dataY, 2) != nFFT ) {
         PyErr_Format(PyExc_RuntimeError, "signalsX and signalsY have different dimensions");
         goto fail;
     }
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 2b09d40..34184ce 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -278,7 +278,7 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     nStand = (long) PyArray_DIM(data, 0);
     nSamps = (long) PyArray_DIM(data, 1);
     isReal = 1 - PyArray_LSL_ISCOMPLEX(data, 2);
-    if( PyArray_NDIM(data) == 3 && PyArray_TYPE(data) != NPY_INT8 ) {
+    if( PyArray_NDIM(data) == 3 && (PyArray_TYPE(data) != NPY_INT8 || PyArray_DIM(data, 2) != 2) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signals array as a 2-D array");
         goto fail;
     }
@@ -417,7 +417,7 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     nStand = (long) PyArray_DIM(data, 0);
     nSamps = (long) PyArray_DIM(data, 1);
     isReal = 1 - PyArray_LSL_ISCOMPLEX(data, 2);
-    if( PyArray_NDIM(data) == 3 && PyArray_TYPE(data) != NPY_INT8 ) {
+    if( PyArray_NDIM(data) == 3 && (PyArray_TYPE(data) != NPY_INT8 || PyArray_DIM(data, 2) != 2) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signals array as a 2-D array");
         goto fail;
     }
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 48e528f..d67e558 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -345,16 +345,20 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     nStand = (long) PyArray_DIM(dataX, 0);
     nSamps = (long) PyArray_DIM(dataX, 1);
     isReal = 1 - PyArray_LSL_ISCOMPLEX(dataX, 2);
-    if( PyArray_NDIM(dataX) == 3 && PyArray_TYPE(dataX) != NPY_INT8 ) {
+    if( PyArray_NDIM(dataX) == 3 && (PyArray_TYPE(dataX) != NPY_INT8 || PyArray_DIM(dataX, 2) != 2) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signalsX array as a 2-D array");
         goto fail;
     }
-    if( PyArray_NDIM(dataY) == 3 && PyArray_TYPE(dataY) != NPY_INT8 ) {
+    if( PyArray_NDIM(dataY) == 3 && (PyArray_TYPE(dataY) != NPY_INT8 || PyArray_DIM(dataY, 2) != 2) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signalsY array as a 2-D array");
         goto fail;
     }
     
     // Make sure the dimensions of X and Y agree
+    if( PyArray_NDIM(dataY) != PyArray_NDIM(dataX) ) {
+        PyErr_Format(PyExc_RuntimeError, "X and Y signals have different dimensionalities");
+        goto fail;
+    }
     if( PyArray_DIM(dataY, 0) != nStand ) {
         PyErr_Format(PyExc_RuntimeError, "X and Y signals have different stand counts");
         goto fail;
@@ -512,16 +516,20 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     nStand = (long) PyArray_DIM(dataX, 0);
     nSamps = (long) PyArray_DIM(dataX, 1);
     isReal = 1 - PyArray_LSL_ISCOMPLEX(dataX, 2);
-    if( PyArray_NDIM(dataX) == 3 && PyArray_TYPE(dataX) != NPY_INT8 ) {
+    if( PyArray_NDIM(dataX) == 3 && (PyArray_TYPE(dataX) != NPY_INT8 || PyArray_DIM(dataX, 2) != 2) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signalsX array as a 2-D array");
         goto fail;
     }
-    if( PyArray_NDIM(dataY) == 3 && PyArray_TYPE(dataY) != NPY_INT8 ) {
+    if( PyArray_NDIM(dataY) == 3 && (PyArray_TYPE(dataY) != NPY_INT8 || PyArray_DIM(dataY, 2) != 2) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signalsY array as a 2-D array");
         goto fail;
     }
     
     // Make sure the dimensions of X and Y agree
+    if( PyArray_NDIM(dataY) != PyArray_NDIM(dataX) ) {
+        PyErr_Format(PyExc_RuntimeError, "X and Y signals have different dimensionalities");
+        goto fail;
+    }
     if( PyArray_DIM(dataY, 0) != nStand ) {
         PyErr_Format(PyExc_RuntimeError, "X and Y signals have different stand counts");
         goto fail;
-- 
2.43.0


From f23ba6a4b743e83ce1593c4c49f261126723030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:12 +0000
Subject: [PATCH 68/71] fix: the number of transforms is the number that fit
 when the overlap does not divide the transform length

---
 lsl/correlator/common.hpp | 13 +++++++++++++
 lsl/correlator/core.cpp   | 12 ++++++++++--
 lsl/correlator/spec.cpp   | 12 ++++++++++--
 lsl/correlator/stokes.cpp | 12 ++++++++++--
 4 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/lsl/correlator/common.hpp b/lsl/correlator/common.hpp
index ef0f395..3efe91a 100644
--- a/lsl/correlator/common.hpp
+++ b/lsl/correlator/common.hpp
@@ -70,6 +70,19 @@ inline void read_wisdom(char *filename, PyObject *m) {
 #define PyArray_SAFE_DATA(arr) (arr != NULL ? PyArray_DATA(arr) : NULL)
 
 
+/*
+  Number of transforms of length `len` that fit completely into `nSamps` samples
+  when the j-th one starts at sample len*j/overlap
+*/
+
+inline long transform_count(long nSamps, long len, long overlap) {
+    if( nSamps < len ) {
+        return 0;
+    }
+    return ((nSamps - len + 1)*overlap - 1)/len + 1;
+}
+
+
 /*
   Sinc function for use by the polyphase filter bank
 */
diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index 993c5ec..e0fb845 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -361,6 +361,10 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
         Py_XDECREF(windowFunc);
         windowFunc = window;
     }
+    if( nChan < 1 || Overlap < 1 ) {
+        PyErr_Format(PyExc_RuntimeError, "The channel count and the overlap must be positive");
+        goto fail;
+    }
 
     // Bring the data into C and make it usable
     data = (PyArrayObject *) PyArray_ContiguousFromObject(signals, 
@@ -438,7 +442,7 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = transform_count(nSamps - fifoMax, (1+isReal)*nChan, Overlap);
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
@@ -579,6 +583,10 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
         Py_XDECREF(windowFunc);
         windowFunc = window;
     }
+    if( nChan < 1 || Overlap < 1 ) {
+        PyErr_Format(PyExc_RuntimeError, "The channel count and the overlap must be positive");
+        goto fail;
+    }
 
     // Bring the data into C and make it usable
     data = (PyArrayObject *) PyArray_ContiguousFromObject(signals, 
@@ -643,7 +651,7 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = transform_count(nSamps - fifoMax, (1+isReal)*nChan, Overlap);
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 34184ce..1ee26cd 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -264,6 +264,10 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
         Py_XDECREF(windowFunc);
         windowFunc = window;
     }
+    if( nChan < 1 || Overlap < 1 ) {
+        PyErr_Format(PyExc_RuntimeError, "The channel count and the overlap must be positive");
+        goto fail;
+    }
     
     // Bring the data into C and make it usable
     data = (PyArrayObject *) PyArray_ContiguousFromObject(signals, 
@@ -304,7 +308,7 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = transform_count(nSamps, (1+isReal)*nChan, Overlap);
     npy_intp dims[2];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
@@ -403,6 +407,10 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
         Py_XDECREF(windowFunc);
         windowFunc = window;
     }
+    if( nChan < 1 || Overlap < 1 ) {
+        PyErr_Format(PyExc_RuntimeError, "The channel count and the overlap must be positive");
+        goto fail;
+    }
     
     // Bring the data into C and make it usable
     data = (PyArrayObject *) PyArray_ContiguousFromObject(signals, 
@@ -430,7 +438,7 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = transform_count(nSamps, (1+isReal)*nChan, Overlap);
     npy_intp dims[2];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index d67e558..c47e52e 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -324,6 +324,10 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
         Py_XDECREF(windowFunc);
         windowFunc = window;
     }
+    if( nChan < 1 || Overlap < 1 ) {
+        PyErr_Format(PyExc_RuntimeError, "The channel count and the overlap must be positive");
+        goto fail;
+    }
     
     // Bring the data into C and make it usable
     dataX = (PyArrayObject *) PyArray_ContiguousFromObject(signalsX, 
@@ -389,7 +393,7 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = transform_count(nSamps, (1+isReal)*nChan, Overlap);
     npy_intp dims[3];
     dims[0] = (npy_intp) 4;
     dims[1] = (npy_intp) nStand;
@@ -495,6 +499,10 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
         Py_XDECREF(windowFunc);
         windowFunc = window;
     }
+    if( nChan < 1 || Overlap < 1 ) {
+        PyErr_Format(PyExc_RuntimeError, "The channel count and the overlap must be positive");
+        goto fail;
+    }
     
     // Bring the data into C and make it usable
     dataX = (PyArrayObject *) PyArray_ContiguousFromObject(signalsX, 
@@ -547,7 +555,7 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = transform_count(nSamps, (1+isReal)*nChan, Overlap);
     npy_intp dims[3];
     dims[0] = (npy_intp) 4;
     dims[1] = (npy_intp) nStand;
-- 
2.43.0


From dfdcf6dedb3a85fe80be5c8d86033c2124cead17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:45 +0000
Subject: [PATCH 69/71] fix: simulated visibilities reject channel ranges and
 antennas that are not in the array

---
 lsl/sim/simfast.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lsl/sim/simfast.cpp b/lsl/sim/simfast.cpp
index aa5bb51..ec12c0d 100644
--- a/lsl/sim/simfast.cpp
+++ b/lsl/sim/simfast.cpp
@@ -301,6 +301,10 @@ static PyObject *FastVis(PyObject *self, PyObject *args, PyObject *kwds) {
     } else {
         chanMax += 1;
     }
+    if( chanMin < 0 || chanMax > nFreq ) {
+        PyErr_Format(PyExc_RuntimeError, "Channel range is not contained in the frequency array");
+        goto fail;
+    }
     /*
     printf("Found nAnt: %li\n      nBL: %li\n      nFreq: %li\n      nSrc: %li\n", nAnt, nBL, nFreq, nSrc);
     printf("Channel Range: %li to %li\n", chanMin, chanMax);
@@ -388,8 +392,14 @@ static PyObject *FastVis(PyObject *self, PyObject *args, PyObject *kwds) {
                 Py_DECREF(temp2);
                 goto fail;
             }
-            *(bll + 2*i + j) = (int) PyLong_AsLong(temp3);
+            long int ant = PyLong_AsLong(temp3);
             Py_DECREF(temp3);
+            if( ant < 0 || ant >= nAnt ) {
+                PyErr_Format(PyExc_RuntimeError, "Baseline refers to an antenna that is not in the array");
+                Py_DECREF(temp2);
+                goto fail;
+            }
+            *(bll + 2*i + j) = (int) ant;
         }
         
         Py_DECREF(temp2);
-- 
2.43.0


From b18244abb55cd0d1c57eb626ec927b7a52aa6e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:22 +0000
Subject: [PATCH 70/71] fix: the gridder always closes its last w plane and
 stays inside its tables and grid

---
 lsl/imaging/gridder.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 1c10d3d..efff8f6 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -100,21 +100,23 @@ int compute_planes(int nVis,
     long i;
     double csw, psw;
     
+    if( nVis < 1 ) {
+        return 0;
+    }
+    
     *(planeStart + nPlanes) = 0;
     psw = signed_sqrt( *(w+0) );
     for(i=1; i<nVis; i++) {
         csw = signed_sqrt( *(w+i) );
-        if( csw >= psw + wRes) {
+        if( csw >= psw + wRes && nPlanes < MAX_W_PLANES-1 ) {
             *(planeStop + nPlanes) = i;
             nPlanes += 1;
             *(planeStart + nPlanes) = i;
             psw = csw;
         }
     }
-    if( *(planeStop + nPlanes - 1) < nVis) {
-        *(planeStop + nPlanes) = nVis;
-        nPlanes++;
-    }
+    *(planeStop + nPlanes) = nVis;
+    nPlanes++;
     
     /*
     for(i=0; i<nPlanes; i++) {
@@ -264,6 +266,11 @@ void compute_gridding(long nVis,
                     cj += nPixSide;
                 }
                 
+                // Skip what falls outside of the grid
+                if( !(ci >= 0.0 && ci <= nPixSide && cj >= 0.0 && cj <= nPixSide) ) {
+                    continue;
+                }
+                
                 for(m=-GRID_KERNEL_SIZE/2; m<GRID_KERNEL_SIZE/2+1; m++) {
                     pi = (long) round(ci) + m;
                     gi = (long) ((ci - pi)*GRID_KERNEL_OVERSAMPLE);
@@ -413,6 +420,10 @@ static PyObject *WProjection(PyObject *self, PyObject *args, PyObject *kwds) {
     // Compute the size of the uv plane
     long nPixSide;
     nPixSide = round(uvSize / uvRes);
+    if( nPixSide < GRID_KERNEL_SIZE ) {
+        PyErr_Format(PyExc_RuntimeError, "The uv plane is smaller than the gridding kernel");
+        goto fail;
+    }
     
     // Create the output arrays
     npy_intp dims[2];
-- 
2.43.0


From ea4e4c50006e89fc010480e4c24ed60427b045b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:51 +0000
Subject: [PATCH 71/71] fix: the beamformer only takes complex 8-bit data with
 a last dimension of two

---
 lsl/misc/beamformer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lsl/misc/beamformer.cpp b/lsl/misc/beamformer.cpp
index 95b9027..33cb03d 100644
--- a/lsl/misc/beamformer.cpp
+++ b/lsl/misc/beamformer.cpp
@@ -219,6 +219,10 @@ static PyObject *BEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Check data dimensions
+    if( PyArray_NDIM(data) == 4 && (PyArray_TYPE(data) != NPY_INT8 || PyArray_DIM(data, 3) != 2) ) {
+        PyErr_Format(PyExc_RuntimeError, "Cannot cast input signals array as a 3-D array");
+        goto fail;
+    }
     if(PyArray_DIM(cdata, 0) != PyArray_DIM(data, 0)) {
         PyErr_Format(PyExc_RuntimeError, "coeff and signals have different stand counts");
         goto fail;
-- 
2.43.0

