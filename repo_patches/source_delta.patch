From fdddf1b1ba486e2f18f42912874f34abf991a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 01/18] fix: isolation forest depends on seed, not on worker
 count or thread timing

Each tree gets its own random engine (it was created once per thread), its own
sample (it accumulated over trees) and its own slot in the forest (the order of
insertion, thus of summation, followed thread timing), and the workers' ranges
of trees no longer overlap or leave gaps.
---
 .../isolation_forest/IsolationForest.cpp      | 26 +++++++++----------
 .../isolation_forest/IsolationForest.hpp      |  4 +--
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 576d94b..6fc348a 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -94,7 +94,7 @@ IsolationForest::IsolationForest(PyArrayObject *num_data,
       nObs(PyArray_DIM(num_data, 1)) {
   this->num_data = num_data;
   this->char_data = char_data;
-  this->trees.reserve(forestSize);
+  this->trees.resize(forestSize);
   this->anomalyScores.resize(this->nObs);
   // this->randomGen = std::mt19937_64(randomSeed);
   this->uniformDist =
@@ -145,9 +145,8 @@ double IsolationForest::pathLength(size_t const &ob,
   }
 }
 
-std::thread IsolationForest::grow(const unsigned int thread_id,
-                                  const unsigned int jobs) {
-  return std::thread([this, thread_id, jobs] {
+std::thread IsolationForest::grow(const size_t first_tree, const size_t jobs) {
+  return std::thread([this, first_tree, jobs] {
     // Make a vector from 0 to (nObs-1) representing the indices of observations
     std::vector<size_t> obs(this->nObs);
     std::iota(obs.begin(), obs.end(), 0);
@@ -156,19 +155,20 @@ std::thread IsolationForest::grow(const unsigned int thread_id,
     auto random_offset =
         this->nObs %
         (this->randomSeed > 0 ? this->randomSeed : 1 - this->randomSeed);
-    for (size_t i = thread_id * jobs; i < thread_id * jobs + jobs; i++) {
+    for (size_t i = first_tree; i < first_tree + jobs; i++) {
       // Sample `treeSize` observations without replacement
       // Random engine for the i-th sampling and tree construction
       // The samples chosen and tree grown is thus determined by the number of
       // trees and random seed only, unaffected by the worker threads used
-      static thread_local auto randomGen = std::mt19937_64(i + random_offset);
+      auto randomGen = std::mt19937_64(i + random_offset);
+      sample.clear();
       std::sample(obs.begin(), obs.end(), std::back_inserter(sample),
                   this->treeSize, randomGen);
       auto tree = std::make_unique<IsolationTree>();
       growTree(sample, tree->root, 0, randomGen);
-      this->mylock.lock();
-      this->trees.push_back(std::move(tree));
-      this->mylock.unlock();
+      // no need to lock because the i-th tree is grown in one thread, and its
+      // place in the forest does not depend on when it is finished
+      this->trees[i] = std::move(tree);
     }
   });
 };
@@ -181,10 +181,10 @@ void IsolationForest::grow() {
   Py_BEGIN_ALLOW_THREADS
 
       for (size_t i = 0; i < this->workers; i++) {
-    auto jobs =
-        i == 0 ? this->forestSize - jobs_per_processor * (this->workers - 1)
-               : jobs_per_processor;
-    auto t = this->grow(i, jobs);
+    auto first_tree = i * jobs_per_processor;
+    auto jobs = i == this->workers - 1 ? this->forestSize - first_tree
+                                       : jobs_per_processor;
+    auto t = this->grow(first_tree, jobs);
     ts.push_back(std::move(t));
   }
 
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index e7c2ffd..3b884c1 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -3,7 +3,6 @@
 
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
 #include <memory>
-#include <mutex>
 #include <random>
 #include <thread>
 #include <vector>
@@ -52,7 +51,6 @@ class IsolationForest {
   const size_t n_num_attrs, n_char_attrs, nObs;
   const unsigned int workers = std::thread::hardware_concurrency();
   std::vector<std::unique_ptr<IsolationTree>> trees;
-  std::mutex mylock;
 
   /* methods */
   inline double averagePathLength(size_t const &nObs);
@@ -61,7 +59,7 @@ class IsolationForest {
   void growTree(std::vector<size_t> &sample,
                 std::unique_ptr<IsolationTree::Node> &node, int const height,
                 std::mt19937_64 randomGen);
-  std::thread grow(const unsigned int thread_id, const unsigned int jobs);
+  std::thread grow(const size_t first_tree, const size_t jobs);
   std::thread calAnomalyScores(const size_t &start_ob, const size_t &n);
   double anomalyScore(size_t const &ob);
 
-- 
2.43.0


From f683362783e20200dfc9562d62579ffb49108664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 02/18] fix: isolation forest sends missing values down the
 branch they were grown in

A missing value is smaller than any value when a tree is grown, but was sent to
the right of every split, or right of a missing split value, when it is scored.
---
 src/frds/algorithms/isolation_forest/IsolationForest.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 6fc348a..8e6425e 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -123,7 +123,9 @@ double IsolationForest::pathLength(size_t const &ob,
   if (node->splitAttribute < this->n_num_attrs) {
     DataType val =
         *(DataType *)PyArray_GETPTR2(this->num_data, node->splitAttribute, ob);
-    if (val < node->splitValue) {
+    // Same rule as in growTree: NAN is "smaller" than any value
+    if (isnan(node->splitValue) ? isnan(val)
+                                : isnan(val) || val < node->splitValue) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else {
       return this->pathLength(ob, node->rnode, length + 1);
-- 
2.43.0


From 35730b5d3626de406a7ffae21ba43651b815d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 03/18] fix: isolation forest reads text past the end of its
 element

Texts as long as the longest one in the table are not NUL-terminated, so that
they were compared together with their neighbours' and what lies past the table.
---
 .../isolation_forest/IsolationForest.cpp      | 21 +++++++++++++------
 .../isolation_forest/IsolationForest.hpp      |  1 +
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 8e6425e..ddcaa99 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstring>
 #include <iterator>
 #include <numeric>
 
@@ -57,16 +58,16 @@ void IsolationForest::growTree(std::vector<size_t> &sample,
     // The datatype of the attribute is string
     CharDataType val = (CharDataType)PyArray_GETPTR2(
         this->char_data, attr - this->n_num_attrs, sample[dist(randomGen)]);
-    const auto val_len = strlen(val);
+    const auto val_len = this->textLength(val);
     for (auto &i : sample) {
       auto obsVal = (CharDataType)PyArray_GETPTR2(this->char_data,
                                                   attr - this->n_num_attrs, i);
-      const auto obsVal_len = strlen(obsVal);
+      const auto obsVal_len = this->textLength(obsVal);
       if (obsVal_len < val_len) {
         lobs.push_back(i);
       } else if (obsVal_len > val_len) {
         robs.push_back(i);
-      } else if (strcmp(obsVal, val) < 0) {
+      } else if (memcmp(obsVal, val, val_len) < 0) {
         lobs.push_back(i);
       } else {
         robs.push_back(i);
@@ -106,6 +107,14 @@ inline double IsolationForest::averagePathLength(size_t const &nObs) {
   return 2 * (log(n - 1) + EULER_GAMMA) - (2 * (n - 1) / n);
 }
 
+// The text of a numpy bytes element ends where its trailing NULs start. There is
+// no NUL after a text that takes up the whole element.
+inline size_t IsolationForest::textLength(const char *text) {
+  size_t length = PyArray_ITEMSIZE(this->char_data);
+  while (length > 0 && text[length - 1] == '\0') length--;
+  return length;
+}
+
 double IsolationForest::anomalyScore(size_t const &ob) {
   double avg = 0;
   for (auto &tree : this->trees) avg += this->pathLength(ob, tree->root);
@@ -133,13 +142,13 @@ double IsolationForest::pathLength(size_t const &ob,
   } else {
     CharDataType val = (CharDataType)PyArray_GETPTR2(
         this->char_data, node->splitAttribute - this->n_num_attrs, ob);
-    const auto val_len = strlen(val);
-    const auto splitVal_len = strlen(node->splitChar);
+    const auto val_len = this->textLength(val);
+    const auto splitVal_len = this->textLength(node->splitChar);
     if (val_len < splitVal_len) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else if (val_len > splitVal_len) {
       return this->pathLength(ob, node->rnode, length + 1);
-    } else if (strcmp(val, node->splitChar) < 0) {
+    } else if (memcmp(val, node->splitChar, val_len) < 0) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else {
       return this->pathLength(ob, node->rnode, length + 1);
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index 3b884c1..4d92a1a 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -54,6 +54,7 @@ class IsolationForest {
 
   /* methods */
   inline double averagePathLength(size_t const &nObs);
+  inline size_t textLength(const char *text);
   double pathLength(size_t const &ob,
                     std::unique_ptr<IsolationTree::Node> &node, int length = 0);
   void growTree(std::vector<size_t> &sample,
-- 
2.43.0


From 2b39f768ba638b98f35a625d7fcc7338a1453197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 04/18] fix: isolation forest ends the process when memory,
 threads or columns run out

A thread that could not start, memory that ran out in any thread, or a table
without a column to split on ended the process (or read past the table); they
now raise once every thread has ended. Also runs on a machine whose number of
processors is unknown, and no longer leaks a float per score.
---
 .../isolation_forest/IsolationForest.cpp      | 29 +++++++++++++++++--
 .../isolation_forest/IsolationForest.hpp      |  9 ++++--
 .../isolation_forest/iforest_module.cpp       | 24 +++++++++++++--
 3 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index ddcaa99..400553d 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -156,8 +156,10 @@ double IsolationForest::pathLength(size_t const &ob,
   }
 }
 
-std::thread IsolationForest::grow(const size_t first_tree, const size_t jobs) {
-  return std::thread([this, first_tree, jobs] {
+std::thread IsolationForest::grow(const size_t first_tree, const size_t jobs,
+                                  std::exception_ptr &error) {
+  return std::thread([this, first_tree, jobs, &error] {
+   try {
     // Make a vector from 0 to (nObs-1) representing the indices of observations
     std::vector<size_t> obs(this->nObs);
     std::iota(obs.begin(), obs.end(), 0);
@@ -181,28 +183,40 @@ std::thread IsolationForest::grow(const size_t first_tree, const size_t jobs) {
       // place in the forest does not depend on when it is finished
       this->trees[i] = std::move(tree);
     }
+   } catch (...) {
+    error = std::current_exception();
+   }
   });
 };
 
 void IsolationForest::grow() {
   const auto jobs_per_processor = this->forestSize / this->workers;
+  std::vector<std::exception_ptr> errors(this->workers + 1);
   std::vector<std::thread> ts;
   ts.reserve(this->workers);
 
   Py_BEGIN_ALLOW_THREADS
 
+      try {
       for (size_t i = 0; i < this->workers; i++) {
     auto first_tree = i * jobs_per_processor;
     auto jobs = i == this->workers - 1 ? this->forestSize - first_tree
                                        : jobs_per_processor;
-    auto t = this->grow(first_tree, jobs);
+    auto t = this->grow(first_tree, jobs, errors[i]);
     ts.push_back(std::move(t));
   }
+  } catch (...) {
+    errors.back() = std::current_exception();
+  }
 
   for (auto &t : ts) {
     if (t.joinable()) t.join();
   }
   Py_END_ALLOW_THREADS
+
+  for (auto &error : errors) {
+    if (error) std::rethrow_exception(error);
+  }
 }
 
 std::thread IsolationForest::calAnomalyScores(const size_t &start_ob,
@@ -218,11 +232,13 @@ std::thread IsolationForest::calAnomalyScores(const size_t &start_ob,
 
 void IsolationForest::calculateAnomalyScores() {
   const auto jobs_per_processor = this->nObs / this->workers;
+  std::vector<std::exception_ptr> errors(this->workers + 1);
   std::vector<std::thread> ts;
   ts.reserve(this->workers);
 
   Py_BEGIN_ALLOW_THREADS
 
+      try {
       for (size_t i = 0; i < this->workers; i++) {
     auto jobs = i == this->workers - 1 ? this->nObs - jobs_per_processor * i
                                        : jobs_per_processor;
@@ -234,9 +250,16 @@ void IsolationForest::calculateAnomalyScores() {
       ts.push_back(this->calAnomalyScores(this->nObs - remain, remain));
     }
   }
+  } catch (...) {
+    errors.back() = std::current_exception();
+  }
 
   for (auto &t : ts) {
     if (t.joinable()) t.join();
   }
   Py_END_ALLOW_THREADS
+
+  for (auto &error : errors) {
+    if (error) std::rethrow_exception(error);
+  }
 }
\ No newline at end of file
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index 4d92a1a..4860d18 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -2,6 +2,8 @@
 #define FRDS_ALGO_ISOLATION_FOREST_H
 
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
+#include <algorithm>
+#include <exception>
 #include <memory>
 #include <random>
 #include <thread>
@@ -49,7 +51,9 @@ class IsolationForest {
   std::uniform_int_distribution<size_t> uniformDist;
   const size_t treeSize, forestSize, randomSeed, maxTreeHeight;
   const size_t n_num_attrs, n_char_attrs, nObs;
-  const unsigned int workers = std::thread::hardware_concurrency();
+  // 0 when the number of processors is not known
+  const unsigned int workers =
+      std::max(1u, std::thread::hardware_concurrency());
   std::vector<std::unique_ptr<IsolationTree>> trees;
 
   /* methods */
@@ -60,7 +64,8 @@ class IsolationForest {
   void growTree(std::vector<size_t> &sample,
                 std::unique_ptr<IsolationTree::Node> &node, int const height,
                 std::mt19937_64 randomGen);
-  std::thread grow(const size_t first_tree, const size_t jobs);
+  std::thread grow(const size_t first_tree, const size_t jobs,
+                   std::exception_ptr &error);
   std::thread calAnomalyScores(const size_t &start_ob, const size_t &n);
   double anomalyScore(size_t const &ob);
 
diff --git a/src/frds/algorithms/isolation_forest/iforest_module.cpp b/src/frds/algorithms/isolation_forest/iforest_module.cpp
index a044a4a..1608cc4 100644
--- a/src/frds/algorithms/isolation_forest/iforest_module.cpp
+++ b/src/frds/algorithms/isolation_forest/iforest_module.cpp
@@ -5,6 +5,9 @@
 #endif
 #include "IsolationForest.cpp"
 
+#include <new>
+#include <stdexcept>
+
 #ifndef NPY_NO_DEPRECATED_API
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
 #endif
@@ -24,7 +27,10 @@ static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
   if (num_arr == NULL) return NULL;
   char_arr = (PyArrayObject *)PyArray_FROM_OTF(char_data, NPY_STRING,
                                                NPY_ARRAY_IN_ARRAY);
-  if (char_arr == NULL) return NULL;
+  if (char_arr == NULL) {
+    Py_DECREF(num_arr);
+    return NULL;
+  }
 
 #if NPY_API_VERSION >= 0x0000000c
   outArr = (PyArrayObject *)PyArray_FROM_OTF(out, NPY_DOUBLE,
@@ -43,6 +49,10 @@ static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
   // number of obervations
   auto nObs = PyArray_DIM(num_arr, 1);
 
+  try {
+  if (PyArray_DIM(num_arr, 0) + PyArray_DIM(char_arr, 0) == 0)
+    throw std::invalid_argument("no numeric or text column to grow trees on");
+
   auto iforest =
       IsolationForest(num_arr, char_arr, treeSize, forestSize, randomSeed);
 
@@ -51,14 +61,22 @@ static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
 
   // write the ascores to the output array
   for (npy_intp i = 0; i < nObs; i++) {
-    PyArray_SETITEM(outArr, (char *)PyArray_GETPTR1(outArr, i),
-                    PyFloat_FromDouble(iforest.anomalyScores[i]));
+    *(double *)PyArray_GETPTR1(outArr, i) = iforest.anomalyScores[i];
+  }
+
+  } catch (const std::bad_alloc &) {
+    PyErr_NoMemory();
+  } catch (const std::invalid_argument &e) {
+    PyErr_SetString(PyExc_ValueError, e.what());
+  } catch (const std::exception &e) {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
   }
 
   Py_DECREF(num_arr);
   Py_DECREF(char_arr);
   Py_DECREF(outArr);
 
+  if (PyErr_Occurred()) return NULL;
   Py_INCREF(Py_None);
   return Py_None;
 };
-- 
2.43.0


From 70fe16d241bba24666334c42cb279fdfd347274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 05/18] fix: running out of memory in the native helpers ends
 the process

A C++ exception left the extension functions, and failures to iterate over the
parameters or to allocate the result went unnoticed. They raise MemoryError now.
---
 src/frds/algorithms/utils/utils_module.cpp | 33 ++++++++++++++++++++--
 src/frds/measures/measures_module.cpp      |  6 ++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/frds/algorithms/utils/utils_module.cpp b/src/frds/algorithms/utils/utils_module.cpp
index dba85ae..3ee9908 100644
--- a/src/frds/algorithms/utils/utils_module.cpp
+++ b/src/frds/algorithms/utils/utils_module.cpp
@@ -7,6 +7,8 @@
 #include "garch.hpp"
 #include "mgarch.hpp"
 
+#include <new>
+
 #ifndef NPY_NO_DEPRECATED_API
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
 #endif
@@ -84,12 +86,18 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
   // Extract parameters
   std::vector<double> params;
   PyObject *iter = PyObject_GetIter(params_obj);
+  if (iter == NULL) {
+    return NULL;
+  }
   PyObject *item;
   while ((item = PyIter_Next(iter))) {
     params.push_back(PyFloat_AsDouble(item));
     Py_DECREF(item);
   }
   Py_DECREF(iter);
+  if (PyErr_Occurred()) {
+    return NULL;
+  }
 
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
@@ -131,12 +139,18 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
   // Extract parameters
   std::vector<double> params;
   PyObject *iter = PyObject_GetIter(params_obj);
+  if (iter == NULL) {
+    return NULL;
+  }
   PyObject *item;
   while ((item = PyIter_Next(iter))) {
     params.push_back(PyFloat_AsDouble(item));
     Py_DECREF(item);
   }
   Py_DECREF(iter);
+  if (PyErr_Occurred()) {
+    return NULL;
+  }
 
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
@@ -175,11 +189,24 @@ static PyObject *dcc_conditional_correlations_wrapper(PyObject *self,
   npy_intp dims[1] = {static_cast<npy_intp>(rho.size())};
   PyArrayObject *py_rho =
       (PyArrayObject *)PyArray_SimpleNew(1, dims, NPY_DOUBLE);
+  if (py_rho == NULL) {
+    return NULL;
+  }
   std::copy(rho.begin(), rho.end(), (double *)PyArray_DATA(py_rho));
 
   return (PyObject *)py_rho;
 }
 
+// A C++ exception must not reach the Python interpreter
+template <PyObject *(*wrapper)(PyObject *, PyObject *)>
+static PyObject *no_throw(PyObject *self, PyObject *args) {
+  try {
+    return wrapper(self, args);
+  } catch (const std::bad_alloc &) {
+    return PyErr_NoMemory();
+  }
+}
+
 // Method table
 static PyMethodDef methods[] = {
     {"ewma", ewma_wrapper, METH_VARARGS, "Calculate EWMA"},
@@ -187,13 +214,13 @@ static PyMethodDef methods[] = {
     {"bounds_check", bounds_check_wrapper, METH_VARARGS,
      "Adjust the conditional variance based on its bounds"},
 
-    {"compute_garch_variance", compute_garch_variance_wrapper, METH_VARARGS,
+    {"compute_garch_variance", no_throw<compute_garch_variance_wrapper>, METH_VARARGS,
      "Computes the variances conditional on given parameters"},
 
-    {"compute_gjrgarch_variance", compute_gjrgarch_variance_wrapper,
+    {"compute_gjrgarch_variance", no_throw<compute_gjrgarch_variance_wrapper>,
      METH_VARARGS, "Computes the variances conditional on given parameters"},
 
-    {"dcc_conditional_correlation", dcc_conditional_correlations_wrapper,
+    {"dcc_conditional_correlation", no_throw<dcc_conditional_correlations_wrapper>,
      METH_VARARGS,
      "Computes the DCC conditional correlation based on given parameters"},
 
diff --git a/src/frds/measures/measures_module.cpp b/src/frds/measures/measures_module.cpp
index 6356f96..053f721 100644
--- a/src/frds/measures/measures_module.cpp
+++ b/src/frds/measures/measures_module.cpp
@@ -5,6 +5,8 @@
 #endif
 #include "lrmes.hpp"
 
+#include <new>
+
 #ifndef NPY_NO_DEPRECATED_API
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
 #endif
@@ -36,10 +38,14 @@ static PyObject *lrmes_simulation_wrapper(PyObject *self, PyObject *args) {
 
   double firmret;
   bool systemic_event;
+  try {
   std::tie(firmret, systemic_event) =
       simulation(innovation, C, firm_var, mkt_var, firm_resid, mkt_resid, a, b,
                  rho, Q_bar, mu_i, omega_i, alpha_i, gamma_i, beta_i, mu_m,
                  omega_m, alpha_m, gamma_m, beta_m);
+  } catch (const std::bad_alloc &) {
+    return PyErr_NoMemory();
+  }
 
   return Py_BuildValue("db", firmret, systemic_event);
 }
-- 
2.43.0


From 11156ac7efdd2d4221e7cf51f4648fa710a89b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 06/18] fix: GARCH estimates of strided or non-double returns
 read the wrong memory

The native helpers take the data of an array as contiguous doubles; a zero-mean
model of every other return, say, was estimated on neighbouring values.
---
 src/frds/algorithms/_garch.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 9857305..3af6ee1 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -189,7 +189,12 @@ class GARCHModel:
             np.ndarray: conditional variance
         """
         if USE_CPP_EXTENSION:
-            return ext.compute_garch_variance(params, resids, backcast, var_bounds)
+            return ext.compute_garch_variance(
+                params,
+                np.ascontiguousarray(resids, dtype=np.float64),
+                backcast,
+                np.ascontiguousarray(var_bounds, dtype=np.float64),
+            )
         omega, alpha, beta = params
         sigma2 = np.zeros_like(resids)
         sigma2[0] = omega + (alpha + beta) * backcast
@@ -281,7 +286,9 @@ class GARCHModel:
             float: adjusted conditional variance
         """
         if USE_CPP_EXTENSION:
-            return ext.bounds_check(sigma2, var_bounds)
+            return ext.bounds_check(
+                sigma2, np.ascontiguousarray(var_bounds, dtype=np.float64)
+            )
         lower, upper = var_bounds[0], var_bounds[1]
         sigma2 = max(lower, sigma2)
         if sigma2 > upper:
@@ -323,7 +330,9 @@ class GARCHModel:
             np.ndarray: Array containing the conditional variance estimates.
         """
         if USE_CPP_EXTENSION:
-            return ext.ewma(resids, initial_value, lam)
+            return ext.ewma(
+                np.ascontiguousarray(resids, dtype=np.float64), initial_value, lam
+            )
         T = len(resids)
         variance = np.empty(T)
         variance[0] = initial_value  # Set the initial value
@@ -424,7 +433,12 @@ class GJRGARCHModel(GARCHModel):
             np.ndarray: conditional variance
         """
         if USE_CPP_EXTENSION:
-            return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
+            return ext.compute_gjrgarch_variance(
+                params,
+                np.ascontiguousarray(resids, dtype=np.float64),
+                backcast,
+                np.ascontiguousarray(var_bounds, dtype=np.float64),
+            )
         # fmt: off
         omega, alpha, gamma, beta = params
         sigma2 = np.zeros_like(resids)
-- 
2.43.0


From 9426a1215a4531f2b3d9f853e0fe2d094ec95c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 07/18] fix: GARCH models without the extension give other
 estimates than with it

The fallback centred and scaled the standardized residuals, and turned a variance
that is not a number into its lower bound; the extension does neither.
---
 src/frds/algorithms/_garch.py  | 2 +-
 src/frds/algorithms/_mgarch.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 3af6ee1..7653fe4 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -290,7 +290,7 @@ class GARCHModel:
                 sigma2, np.ascontiguousarray(var_bounds, dtype=np.float64)
             )
         lower, upper = var_bounds[0], var_bounds[1]
-        sigma2 = max(lower, sigma2)
+        sigma2 = max(sigma2, lower)  # stays NaN, as in the C++ extension
         if sigma2 > upper:
             if not np.isinf(sigma2):
                 sigma2 = upper + np.log(sigma2 / upper)
diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index c2c8a14..6159678 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -385,9 +385,11 @@ class GARCHModel_DCC(GARCHModel_CCC):
         # z1 and z2 are standardized residuals
         z1 = resids1 / np.sqrt(sigma2_1)
         z2 = resids2 / np.sqrt(sigma2_2)
-        Q_bar = np.corrcoef(z1, z2)
-        q_11_bar, q_12_bar, q_22_bar = Q_bar[0, 0], Q_bar[0, 1], Q_bar[1, 1]
         T = len(z1)
+        # As in the C++ extension, z1 and z2 are taken to have zero means
+        q_11_bar = np.cumsum(z1 * z1)[-1] / T
+        q_12_bar = np.cumsum(z1 * z2)[-1] / T
+        q_22_bar = np.cumsum(z2 * z2)[-1] / T
         q11 = np.empty_like(z1)
         q12 = np.empty_like(z1)
         q22 = np.empty_like(z1)
-- 
2.43.0


From 0c7e2caea178976dfbf9bea7c7c59226a2048878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 08/18] fix: fitting an estimated GARCH model again returns
 None or estimates it anew

GARCHModel.fit() returned nothing the second time. GJRGARCHModel.fit() estimated
again, as each evaluation of the DCC likelihood and LRMES made it do: besides the
cost, a later failure left an estimated model with another model's variances.
---
 src/frds/algorithms/_garch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 7653fe4..8b880dd 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -56,7 +56,7 @@ class GARCHModel:
         """
         # No repeated estimation?
         if self.estimation_success:
-            return
+            return self.parameters
 
         starting_vals = self.preparation()
 
@@ -368,6 +368,10 @@ class GJRGARCHModel(GARCHModel):
         Returns:
             List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
         """
+        # No repeated estimation
+        if self.estimation_success:
+            return self.parameters
+
         starting_vals = self.preparation()
 
         bounds = [
-- 
2.43.0


From 2531a4615c31df71e6bf8574c04db37181f297f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 09/18] fix: GARCH models report success before, or without, a
 consistent estimate

The success flag was set first, so that an interrupt left an estimated model
without parameters or residuals; the variances were those of the optimizer's last
evaluation rather than of the estimates; and the multivariate models went on with
whatever memory held as residuals when a univariate one had failed.
---
 src/frds/algorithms/_garch.py  | 13 +++++++++----
 src/frds/algorithms/_mgarch.py |  8 ++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 8b880dd..8387206 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -42,8 +42,9 @@ class GARCHModel:
         self.estimation_success = False
         self.loglikelihood_final = np.nan
         self.parameters = type(self).Parameters()
-        self.resids = np.empty_like(self.returns)
-        self.sigma2 = np.empty_like(self.returns)
+        # Not a number before estimation
+        self.resids = np.full_like(self.returns, np.nan)
+        self.sigma2 = np.full_like(self.returns, np.nan)
         self.backcast_value = np.nan
         self.var_bounds: np.ndarray = None
         self.zero_mean = zero_mean
@@ -92,12 +93,14 @@ class GARCHModel:
                 constraints={"type": "ineq", "fun": persistence_smaller_than_one},
             )
             if opt.success:
-                self.estimation_success = True
+                # The optimizer's last evaluation need not be at the estimates
+                self.loglikelihood_model(opt.x, self.backcast_value, self.var_bounds, self.zero_mean)
                 if self.zero_mean:
                     self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
                 else:
                     self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
                 self.resids = self.returns - self.parameters.mu
+                self.estimation_success = True
 
         return self.parameters
 
@@ -405,7 +408,8 @@ class GJRGARCHModel(GARCHModel):
                 constraints={"type": "ineq", "fun": persistence_smaller_than_one},
             )
             if opt.success:
-                self.estimation_success = True
+                # The optimizer's last evaluation need not be at the estimates
+                self.loglikelihood_model(opt.x, self.backcast_value, self.var_bounds, self.zero_mean)
                 if self.zero_mean:
                     self.parameters = type(self).Parameters(
                         0.0, *list(opt.x), loglikelihood=-opt.fun
@@ -415,6 +419,7 @@ class GJRGARCHModel(GARCHModel):
                         *list(opt.x), loglikelihood=-opt.fun
                     )
                 self.resids = self.returns - self.parameters.mu
+                self.estimation_success = True
 
         return self.parameters
 
diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index 6159678..9ceac76 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -65,6 +65,8 @@ class GARCHModel_CCC:
         m1, m2 = self.model1, self.model2
         m1.fit()
         m2.fit()
+        if not (m1.estimation_success and m2.estimation_success):
+            return self.parameters
         z1 = m1.resids / np.sqrt(m1.sigma2)
         z2 = m2.resids / np.sqrt(m2.sigma2)
         rho = np.corrcoef(z1, z2)[1, 0]
@@ -116,8 +118,8 @@ class GARCHModel_CCC:
                 ],
             )
             if opt.success:
-                self.estimation_success = True
                 self.parameters = type(self).Parameters(*list(opt.x, ), loglikelihood=-opt.fun)
+                self.estimation_success = True
         return self.parameters
 
     def loglikelihood_model(
@@ -257,6 +259,8 @@ class GARCHModel_DCC(GARCHModel_CCC):
         m1, m2 = self.model1, self.model2
         m1.fit()
         m2.fit()
+        if not (m1.estimation_success and m2.estimation_success):
+            return self.parameters
         a, b = self.starting_values()
         m1_params = list(asdict(m1.parameters).values())[:-1]
         m2_params = list(asdict(m2.parameters).values())[:-1]
@@ -291,11 +295,11 @@ class GARCHModel_DCC(GARCHModel_CCC):
                 ],
             )
             if opt.success:
-                self.estimation_success = True
                 a, b = list(opt.x)
                 self.parameters.a = a
                 self.parameters.b = b
                 self.parameters.loglikelihood=-opt.fun
+                self.estimation_success = True
         return self.parameters
 
     def starting_values(self) -> Tuple[float, float]:
-- 
2.43.0


From f31964da8009dbbba7b88f3e3ef275320fbf78d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 10/18] fix: concurrent estimations leave the process's warning
 filters altered

Filters saved by one thread while another had changed them were restored last.
GARCH models now take turns; PIN, which silences floating-point errors, does so in
its own thread.
---
 src/frds/algorithms/_garch.py                         | 9 +++++++--
 src/frds/algorithms/_mgarch.py                        | 5 +++--
 src/frds/measures/_probability_of_informed_trading.py | 8 +-------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 8387206..0670649 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -1,5 +1,6 @@
 import warnings
 import itertools
+import threading
 from typing import List
 from dataclasses import dataclass
 import numpy as np
@@ -11,6 +12,10 @@ try:
 except ImportError:
     USE_CPP_EXTENSION = False
 
+# Warning filters are shared by all threads, so that only one thread at a time can
+# change and restore them
+warnings_lock = threading.RLock()
+
 
 class GARCHModel:
     """:doc:`/algorithms/garch` model with constant mean and Normal noise
@@ -78,7 +83,7 @@ class GARCHModel:
 
         # MLE via minimizing the negative log-likelihood
         # fmt: off
-        with warnings.catch_warnings():
+        with warnings_lock, warnings.catch_warnings():
             warnings.filterwarnings(
                 "ignore",
                 "Values in x were outside bounds during a minimize step",
@@ -393,7 +398,7 @@ class GJRGARCHModel(GARCHModel):
             return 1.0 - (alpha + beta + gamma / 2)
 
         # MLE via minimizing the negative log-likelihood
-        with warnings.catch_warnings():
+        with warnings_lock, warnings.catch_warnings():
             warnings.filterwarnings(
                 "ignore",
                 "Values in x were outside bounds during a minimize step",
diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index 9ceac76..bce9901 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -6,6 +6,7 @@ import numpy as np
 from scipy.optimize import minimize, OptimizeResult
 
 from frds.algorithms import GARCHModel, GJRGARCHModel
+from frds.algorithms._garch import warnings_lock
 
 USE_CPP_EXTENSION = True
 
@@ -100,7 +101,7 @@ class GARCHModel_CCC:
             return 1.0 - (alpha2 + beta2)
 
         # fmt: off
-        with warnings.catch_warnings():
+        with warnings_lock, warnings.catch_warnings():
             warnings.filterwarnings(
                 "ignore",
                 "Values in x were outside bounds during a minimize step",
@@ -278,7 +279,7 @@ class GARCHModel_DCC(GARCHModel_CCC):
             return 1.0 - (a + b)
 
         # fmt: off
-        with warnings.catch_warnings():
+        with warnings_lock, warnings.catch_warnings():
             warnings.filterwarnings(
                 "ignore",
                 "Values in x were outside bounds during a minimize step",
diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index b7e804b..d51730f 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -1,4 +1,3 @@
-import warnings
 from typing import Generator
 from itertools import product
 from dataclasses import dataclass
@@ -79,12 +78,7 @@ class PIN:
             func = self.loglikelihood_LK2011
 
         # fmt: off
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore",
-                "",
-                RuntimeWarning,
-            )
+        with np.errstate(all="ignore"):
             for starting_vals in self.init_params_grid_search():
                 # alpha, delta, eB, eS, mu
                 opt: OptimizeResult = minimize(
-- 
2.43.0


From 98439b03aacc1d1a40b0ef4e25b66e1d0721fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 11/18] fix: PIN reports success for an estimate it has dropped
 or not finished

The success flag was never reset, so that a failed second estimation kept it, and
an interrupted grid search left the best candidate so far as the estimate.
---
 .../measures/_probability_of_informed_trading.py    | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index d51730f..8258f39 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -72,6 +72,8 @@ class PIN:
 
         # Reset params
         self.parameters = type(self).Parameters()
+        self.estimation_success = False
+        best = type(self).Parameters()
         if method == "EHO2010":
             func = self.loglikelihood_EHO2010
         elif method == "LK2011":
@@ -88,12 +90,13 @@ class PIN:
                     bounds=bounds,
                 )
                 if opt.success:
-                    loglikelihood = self.parameters.loglikelihood
+                    loglikelihood = best.loglikelihood
                     if np.isnan(loglikelihood) or (-opt.fun<np.inf and -opt.fun > loglikelihood):
-                        self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
-                        self.parameters.calculate_pin()
-                        self.parameters.method = method
-                        self.estimation_success = True
+                        best = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
+                        best.calculate_pin()
+                        best.method = method
+        self.parameters = best
+        self.estimation_success = best.method == method
         return self.parameters
 
     def init_params_grid_search(self) -> Generator[tuple, None, None]:
-- 
2.43.0


From 0b92c059175b4a09464860d6ae7fba28a6bdfc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 12/18] fix: distress insurance premium raises or is not a
 number on some random seeds

A loss near the maximum fell outside the intervals (IndexError), and no loss above
the threshold gave 0/0 rather than a premium of 0.
---
 src/frds/measures/_distress_insurance_premium.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 37dea74..98b4471 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -62,12 +62,12 @@ class DistressInsurancePremium:
             loss_given_default[i:] = lgd
             # fmt: on
 
-        # Maximum losses are N. Divide this into N*100 intervals.
+        # Maximum losses are N. Divide this into N*100 intervals, from 0 to N.
         # Find the probability distribution of total losses in the default case
         intervals = 100
         loss_given_default *= intervals
 
-        prob_losses = np.zeros(n_banks * intervals)
+        prob_losses = np.zeros(n_banks * intervals + 1)
         for i in range(n_banks):
             for j in range(n_simulations):
                 # Multiply losses_given_default(i,j) by intervals to find the right slot
@@ -82,8 +82,12 @@ class DistressInsurancePremium:
         # Find the probability that the losses are great than 0.15 the total liabilities i.e. > 0.15*N
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
 
+        # No loss that great in any simulation
+        if prob_great_losses == 0:
+            return 0.0
+
         exp_losses = np.dot(
-            np.array(range(pct_threshold * n_banks, intervals * n_banks)),
+            np.array(range(pct_threshold * n_banks, intervals * n_banks + 1)),
             prob_losses[pct_threshold * n_banks :],
         ) / (100 * prob_great_losses)
 
-- 
2.43.0


From ae44f532e3dcf079db967d7223e27c34e37e96b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 13/18] fix: the modified Merton model imports a module that no
 longer exists

---
 src/frds/measures/modified_merton/find_face_value_indiv.py | 2 +-
 src/frds/measures/modified_merton/merton_solution.py       | 2 +-
 src/frds/measures/modified_merton/mod_merton_simulation.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/modified_merton/find_face_value_indiv.py b/src/frds/measures/modified_merton/find_face_value_indiv.py
index 19de9fa..670d313 100644
--- a/src/frds/measures/modified_merton/find_face_value_indiv.py
+++ b/src/frds/measures/modified_merton/find_face_value_indiv.py
@@ -1,5 +1,5 @@
 import numpy as np
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 
 
 def find_face_value_indiv(
diff --git a/src/frds/measures/modified_merton/merton_solution.py b/src/frds/measures/modified_merton/merton_solution.py
index d844421..fc1d910 100644
--- a/src/frds/measures/modified_merton/merton_solution.py
+++ b/src/frds/measures/modified_merton/merton_solution.py
@@ -3,7 +3,7 @@ from scipy.optimize import fsolve
 from scipy.stats import norm
 from typing import Tuple
 
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 
 
 def merton_solution(
diff --git a/src/frds/measures/modified_merton/mod_merton_simulation.py b/src/frds/measures/modified_merton/mod_merton_simulation.py
index 07c3835..1cc1622 100644
--- a/src/frds/measures/modified_merton/mod_merton_simulation.py
+++ b/src/frds/measures/modified_merton/mod_merton_simulation.py
@@ -7,7 +7,7 @@ from scipy.stats import norm
 
 import matplotlib.pyplot as plt
 
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 from frds.measures.modified_merton.merton_solution import merton_solution
 from frds.measures.modified_merton.mod_merton_computation import mod_merton_computation
 from frds.measures.modified_merton.mod_merton_create_lookup import (
-- 
2.43.0


From 1c17b592b8325ace5043652c94ed3a170874ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 14/18] fix: the modified Merton simulation resets the
 process's warning filters

---
 .../modified_merton/mod_merton_simulation.py  | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/frds/measures/modified_merton/mod_merton_simulation.py b/src/frds/measures/modified_merton/mod_merton_simulation.py
index 1cc1622..4da4c6f 100644
--- a/src/frds/measures/modified_merton/mod_merton_simulation.py
+++ b/src/frds/measures/modified_merton/mod_merton_simulation.py
@@ -7,6 +7,7 @@ from scipy.stats import norm
 
 import matplotlib.pyplot as plt
 
+from frds.algorithms._garch import warnings_lock
 from frds.measures import blsprice
 from frds.measures.modified_merton.merton_solution import merton_solution
 from frds.measures.modified_merton.mod_merton_computation import mod_merton_computation
@@ -119,28 +120,27 @@ def simulate(Nsim=10000, direc=None):
     fs1 = []
     bookF1 = []
 
-    warnings.filterwarnings("ignore", category=RuntimeWarning)
+    with warnings_lock, warnings.catch_warnings():
+        warnings.simplefilter("ignore", category=RuntimeWarning)
 
-    # Merton model fit to equity value and volatility from our model
-    for k in range(K):
-        initb = (Et[k] + D * np.exp(-r * H), sigEt[k] / 2)
+        # Merton model fit to equity value and volatility from our model
+        for k in range(K):
+            initb = (Et[k] + D * np.exp(-r * H), sigEt[k] / 2)
 
-        bout = fsolve(lambda b: merton_solution(b, Et[k], D, r, y, H, sigEt[k]), initb)
+            bout = fsolve(lambda b: merton_solution(b, Et[k], D, r, y, H, sigEt[k]), initb)
 
-        A = bout[0]
-        s = max(bout[1], 0.0001)
+            A = bout[0]
+            s = max(bout[1], 0.0001)
 
-        mertdd[k] = (np.log(A) - np.log(D) + (r - y - s**2 / 2) * H) / (
-            s * np.sqrt(H)
-        )
-        mertdef[k] = norm.cdf(-mertdd[k])
-        C, P = blsprice(A, D, r, H, s, y)
-        mertGG[k] = g * P
-        mertsp[k] = (1 / H) * np.log((D * np.exp(-r * H)) / ((D * np.exp(-r * H)) - P))
-        mertA[k] = A
-        merts[k] = s
-
-    warnings.filterwarnings("default")
+            mertdd[k] = (np.log(A) - np.log(D) + (r - y - s**2 / 2) * H) / (
+                s * np.sqrt(H)
+            )
+            mertdef[k] = norm.cdf(-mertdd[k])
+            C, P = blsprice(A, D, r, H, s, y)
+            mertGG[k] = g * P
+            mertsp[k] = (1 / H) * np.log((D * np.exp(-r * H)) / ((D * np.exp(-r * H)) - P))
+            mertA[k] = A
+            merts[k] = s
 
     mktCR = Et / (Et + Bt)
     sp = (1 / H) * np.log((D * np.exp(-r * H)) / Bt)
-- 
2.43.0


From df7e93828b926f87c3d8b5475e04e209d9333811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 15/18] fix: the single-cohort solution changes its caller's
 parameters

---
 src/frds/measures/modified_merton/mod_single_cohort_solution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/measures/modified_merton/mod_single_cohort_solution.py b/src/frds/measures/modified_merton/mod_single_cohort_solution.py
index e7c5ee3..e9b701f 100644
--- a/src/frds/measures/modified_merton/mod_single_cohort_solution.py
+++ b/src/frds/measures/modified_merton/mod_single_cohort_solution.py
@@ -5,6 +5,7 @@ from frds.measures.modified_merton.mod_single_cohort_computation import (
 
 def mod_single_cohort_solution(b, param, N, Nsim2, E, sigE):
     fs = b[0]
+    param = [*param]  # the caller's stays as it is
     param[2] = b[1]
 
     # fmt: off
-- 
2.43.0


From a2ac9ee89186a931c54aaf8e0461199df8787caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 16/18] fix: GARCH fallbacks truncate variances of integer
 residuals

The Python versions kept the number type of the residuals, the C++ versions
always use doubles.
---
 src/frds/algorithms/_garch.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 0670649..b6fd8fc 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -196,13 +196,10 @@ class GARCHModel:
         Returns:
             np.ndarray: conditional variance
         """
+        resids = np.ascontiguousarray(resids, dtype=np.float64)
+        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
         if USE_CPP_EXTENSION:
-            return ext.compute_garch_variance(
-                params,
-                np.ascontiguousarray(resids, dtype=np.float64),
-                backcast,
-                np.ascontiguousarray(var_bounds, dtype=np.float64),
-            )
+            return ext.compute_garch_variance(params, resids, backcast, var_bounds)
         omega, alpha, beta = params
         sigma2 = np.zeros_like(resids)
         sigma2[0] = omega + (alpha + beta) * backcast
@@ -293,10 +290,9 @@ class GARCHModel:
         Returns:
             float: adjusted conditional variance
         """
+        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
         if USE_CPP_EXTENSION:
-            return ext.bounds_check(
-                sigma2, np.ascontiguousarray(var_bounds, dtype=np.float64)
-            )
+            return ext.bounds_check(sigma2, var_bounds)
         lower, upper = var_bounds[0], var_bounds[1]
         sigma2 = max(sigma2, lower)  # stays NaN, as in the C++ extension
         if sigma2 > upper:
@@ -337,10 +333,9 @@ class GARCHModel:
         Returns:
             np.ndarray: Array containing the conditional variance estimates.
         """
+        resids = np.ascontiguousarray(resids, dtype=np.float64)
         if USE_CPP_EXTENSION:
-            return ext.ewma(
-                np.ascontiguousarray(resids, dtype=np.float64), initial_value, lam
-            )
+            return ext.ewma(resids, initial_value, lam)
         T = len(resids)
         variance = np.empty(T)
         variance[0] = initial_value  # Set the initial value
@@ -446,13 +441,10 @@ class GJRGARCHModel(GARCHModel):
         Returns:
             np.ndarray: conditional variance
         """
+        resids = np.ascontiguousarray(resids, dtype=np.float64)
+        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
         if USE_CPP_EXTENSION:
-            return ext.compute_gjrgarch_variance(
-                params,
-                np.ascontiguousarray(resids, dtype=np.float64),
-                backcast,
-                np.ascontiguousarray(var_bounds, dtype=np.float64),
-            )
+            return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
         # fmt: off
         omega, alpha, gamma, beta = params
         sigma2 = np.zeros_like(resids)
-- 
2.43.0


From c8da524179d9266593141f19efd7fb70a943c797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 17/18] fix: aggregate SRISK of a single firm raises with the
 C++ extension

The extension's LRMES is a Python float, which has no clip method.
---
 src/frds/measures/_srisk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/_srisk.py b/src/frds/measures/_srisk.py
index b709b6c..2819e02 100644
--- a/src/frds/measures/_srisk.py
+++ b/src/frds/measures/_srisk.py
@@ -94,4 +94,4 @@ class SRISK:
         if not aggregate_srisk:
             return srisk
         else:
-            return np.sum(srisk.clip(min=0.0))
+            return np.sum(np.maximum(srisk, 0.0))
-- 
2.43.0


From df9258a9ee6318363732739669ac3551947fdac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 18/18] fix: native variances of too few parameters read past
 their end

The estimation's starting values lack the variance parameters for constant returns.
---
 src/frds/algorithms/utils/utils_module.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/frds/algorithms/utils/utils_module.cpp b/src/frds/algorithms/utils/utils_module.cpp
index 3ee9908..533d0ef 100644
--- a/src/frds/algorithms/utils/utils_module.cpp
+++ b/src/frds/algorithms/utils/utils_module.cpp
@@ -98,6 +98,10 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
   if (PyErr_Occurred()) {
     return NULL;
   }
+  if (params.size() != 3) {
+    PyErr_SetString(PyExc_ValueError, "Expected 3 parameters");
+    return NULL;
+  }
 
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
@@ -151,6 +155,10 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
   if (PyErr_Occurred()) {
     return NULL;
   }
+  if (params.size() != 4) {
+    PyErr_SetString(PyExc_ValueError, "Expected 4 parameters");
+    return NULL;
+  }
 
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
-- 
2.43.0

