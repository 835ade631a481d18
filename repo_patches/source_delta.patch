From f316f68e9a2796de4bd01b28b401f128a0a89a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 01/54] fix: polynomial coefficient arrays leak and dangle on
 assignment, failure and exceptions

---
 spffl/base/owned_array.h         | 44 ++++++++++++++++++++++++++++++++
 spffl/polynomials/f2n_poly_t.cpp | 42 ++++++++++++------------------
 spffl/polynomials/f2n_poly_t.h   |  3 ++-
 spffl/polynomials/fp_poly_t.cpp  | 42 ++++++++++++------------------
 spffl/polynomials/fp_poly_t.h    |  3 ++-
 spffl/polynomials/fpn_poly_t.cpp | 42 ++++++++++++------------------
 spffl/polynomials/fpn_poly_t.h   |  3 ++-
 spffl/polynomials/q_poly_t.cpp   | 42 ++++++++++++------------------
 spffl/polynomials/q_poly_t.h     |  3 ++-
 9 files changed, 120 insertions(+), 104 deletions(-)
 create mode 100644 spffl/base/owned_array.h

diff --git a/spffl/base/owned_array.h b/spffl/base/owned_array.h
new file mode 100644
index 0000000..e778394
--- /dev/null
+++ b/spffl/base/owned_array.h
@@ -0,0 +1,44 @@
+// ================================================================
+// Copyright (c) 2004, 2023 John Kerl.
+// kerl.john.r@gmail.com
+// Please see LICENSE.txt.
+// ================================================================
+
+// Sole owner of an array obtained from new[]: frees it when it is replaced or
+// goes out of scope, including when an exception is passing through.
+
+#ifndef OWNED_ARRAY_H
+#define OWNED_ARRAY_H
+
+namespace spffl::base {
+
+template <typename element_t> class owned_array_t {
+private:
+  element_t *elements;
+
+public:
+  owned_array_t(void) : elements(nullptr) {}
+  explicit owned_array_t(element_t *that) : elements(that) {}
+  owned_array_t(const owned_array_t &)            = delete;
+  owned_array_t &operator=(const owned_array_t &) = delete;
+  ~owned_array_t(void) { delete[] this->elements; }
+
+  // Takes ownership.
+  owned_array_t &operator=(element_t *that) {
+    delete[] this->elements;
+    this->elements = that;
+    return *this;
+  }
+
+  void swap(owned_array_t &that) {
+    element_t *temp = this->elements;
+    this->elements  = that.elements;
+    that.elements   = temp;
+  }
+
+  operator element_t *(void) const { return this->elements; }
+};
+
+} // namespace spffl::base
+
+#endif // OWNED_ARRAY_H
diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index f4bf107..7a477b5 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -9,6 +9,7 @@
 #include "spffl/base/spffl_exception.h"
 #include "spffl/base/tokenize.h"
 #include <string.h>
+#include <vector>
 
 namespace spffl::polynomials {
 
@@ -113,8 +114,6 @@ f2n_poly_t::f2n_poly_t(const f2n_poly_t &that) {
 
 // ----------------------------------------------------------------
 f2n_poly_t::~f2n_poly_t(void) {
-  delete[] this->coeffs;
-  this->coeffs = 0;
   this->degree = -1;
 }
 
@@ -136,14 +135,13 @@ int f2n_poly_t::get_characteristic(void) const { return 2; }
 
 // ----------------------------------------------------------------
 f2n_poly_t &f2n_poly_t::operator=(const f2n_poly_t &that) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
-  this->degree = that.degree;
-  this->coeffs = new f2_polymod_t[this->degree + 1];
+  spffl::base::owned_array_t<f2_polymod_t> fresh(
+      new f2_polymod_t[that.degree + 1]);
   for (int i = 0; i <= that.degree; i++) {
-    this->coeffs[i] = that.coeffs[i];
+    fresh[i] = that.coeffs[i];
   }
+  this->coeffs.swap(fresh);
+  this->degree = that.degree;
   return *this;
 }
 
@@ -615,7 +613,8 @@ void f2n_poly_t::set_coeff(int pos, const f2_polymod_t &c) {
 
   f2_polymod_t zero(0, this->coeffs[0].get_modulus());
   if (pos > this->degree) {
-    f2_polymod_t *temp = new f2_polymod_t[pos + 1];
+    spffl::base::owned_array_t<f2_polymod_t> temp(
+        new f2_polymod_t[pos + 1]);
     for (int i = 0; i <= this->degree; i++) {
       temp[i] = this->coeffs[i];
     }
@@ -624,8 +623,7 @@ void f2n_poly_t::set_coeff(int pos, const f2_polymod_t &c) {
     }
     temp[pos] = c;
 
-    delete[] this->coeffs;
-    this->coeffs = temp;
+    this->coeffs.swap(temp);
     this->degree = pos;
     if (c == zero) {
       this->recompute_degree();
@@ -882,10 +880,6 @@ std::istringstream &operator>>(std::istringstream &iss, f2n_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
-
   int num_colons = 0;
   for (const char *q = string.c_str(); *q; q++) {
     if (*q == ':') {
@@ -894,9 +888,9 @@ bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
   }
 
   // TODO: more use of std::string methods
-  char *dup   = strdup(string.c_str());
-  char **argv = new char *[num_colons + 1];
-  int argc    = spffl::base::tokenize(dup, ":", argv, num_colons + 1);
+  std::string dup(string);
+  std::vector<char *> argv(num_colons + 1);
+  int argc    = spffl::base::tokenize(dup.data(), ":", argv.data(), num_colons + 1);
   if (argc < 1) {
     // Needs an error message, but this coding error is
     // unlikely since we already counted colons.
@@ -921,8 +915,6 @@ bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
       this->coeffs[ci] = f2_polymod_t(r, m);
     }
   }
-  delete[] argv;
-  free(dup);
 
   this->recompute_degree();
   return true;
@@ -935,14 +927,14 @@ void f2n_poly_t::promote(void) {
     ss << "f2n_poly_t::promote: null data.\n";
     throw spffl::exception_t(ss.str());
   }
-  f2_polymod_t *ocoeffs = this->coeffs;
-  this->coeffs          = new f2_polymod_t[this->degree + 2];
+  spffl::base::owned_array_t<f2_polymod_t> ncoeffs(
+      new f2_polymod_t[this->degree + 2]);
   for (int i = 0; i <= this->degree; i++) {
-    this->coeffs[i + 1] = ocoeffs[i];
+    ncoeffs[i + 1] = this->coeffs[i];
   }
-  this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
+  ncoeffs[0] = ncoeffs[1] - ncoeffs[1];
+  this->coeffs.swap(ncoeffs);
   this->degree++;
-  delete[] ocoeffs;
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/f2n_poly_t.h b/spffl/polynomials/f2n_poly_t.h
index cc48a24..06cefe8 100644
--- a/spffl/polynomials/f2n_poly_t.h
+++ b/spffl/polynomials/f2n_poly_t.h
@@ -9,6 +9,7 @@
 #ifndef F2NPOLY_T_H
 #define F2NPOLY_T_H
 
+#include "spffl/base/owned_array.h"
 #include "spffl/polynomials/f2_polymod_t.h"
 #include <iomanip>
 #include <iostream>
@@ -98,7 +99,7 @@ public:
   void promote_and_add(const f2_polymod_t &c0);
 
 private:
-  f2_polymod_t *coeffs;
+  spffl::base::owned_array_t<f2_polymod_t> coeffs;
   int degree;
 
   bool cmp(int cmp, const f2n_poly_t &that) const;
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 2225c4e..6dfc3aa 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -9,6 +9,7 @@
 #include "spffl/base/spffl_exception.h"
 #include "spffl/base/tokenize.h"
 #include <string.h>
+#include <vector>
 
 namespace spffl::polynomials {
 
@@ -108,8 +109,6 @@ fp_poly_t::fp_poly_t(const fp_poly_t &that) {
 
 // ----------------------------------------------------------------
 fp_poly_t::~fp_poly_t(void) {
-  delete[] this->coeffs;
-  this->coeffs = 0;
   this->degree = -1;
 }
 
@@ -126,14 +125,13 @@ int fp_poly_t::get_characteristic(void) const {
 
 // ----------------------------------------------------------------
 fp_poly_t &fp_poly_t::operator=(const fp_poly_t &that) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
-  this->degree = that.degree;
-  this->coeffs = new spffl::intmath::intmod_t[this->degree + 1];
+  spffl::base::owned_array_t<spffl::intmath::intmod_t> fresh(
+      new spffl::intmath::intmod_t[that.degree + 1]);
   for (int i = 0; i <= that.degree; i++) {
-    this->coeffs[i] = that.coeffs[i];
+    fresh[i] = that.coeffs[i];
   }
+  this->coeffs.swap(fresh);
+  this->degree = that.degree;
   return *this;
 }
 
@@ -598,7 +596,8 @@ void fp_poly_t::set_coeff(int pos, const spffl::intmath::intmod_t &c) {
 
   spffl::intmath::intmod_t zero(0, this->coeffs[0].get_modulus());
   if (pos > this->degree) {
-    spffl::intmath::intmod_t *temp = new spffl::intmath::intmod_t[pos + 1];
+    spffl::base::owned_array_t<spffl::intmath::intmod_t> temp(
+        new spffl::intmath::intmod_t[pos + 1]);
     for (int i = 0; i <= this->degree; i++) {
       temp[i] = this->coeffs[i];
     }
@@ -607,8 +606,7 @@ void fp_poly_t::set_coeff(int pos, const spffl::intmath::intmod_t &c) {
     }
     temp[pos] = c;
 
-    delete[] this->coeffs;
-    this->coeffs = temp;
+    this->coeffs.swap(temp);
     this->degree = pos;
     if (c == zero) {
       this->recompute_degree();
@@ -821,10 +819,6 @@ std::istream &operator>>(std::istream &is, fp_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool fp_poly_t::from_string(const std::string &string, int p) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
-
   int num_commas = 0;
   for (const char *q = string.c_str(); *q; q++) {
     if (*q == ',') {
@@ -851,9 +845,9 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
       this->coeffs[ci] = spffl::intmath::intmod_t(ascii_digit - '0', p);
     }
   } else {
-    char *dup   = strdup(string.c_str());
-    char **argv = new char *[num_commas + 1];
-    int argc    = spffl::base::tokenize(dup, ",", argv, num_commas + 1);
+    std::string dup(string);
+    std::vector<char *> argv(num_commas + 1);
+    int argc    = spffl::base::tokenize(dup.data(), ",", argv.data(), num_commas + 1);
     if (argc < 1) {
       // Needs an error message, but this coding error is
       // unlikely since we already counted commas.
@@ -878,8 +872,6 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
         this->coeffs[ci] = spffl::intmath::intmod_t(r, p);
       }
     }
-    delete[] argv;
-    free(dup);
   }
 
   this->recompute_degree();
@@ -893,14 +885,14 @@ void fp_poly_t::promote(void) {
     ss << "fp_poly_t::promote: null data.\n";
     throw spffl::exception_t(ss.str());
   }
-  spffl::intmath::intmod_t *ocoeffs = this->coeffs;
-  this->coeffs = new spffl::intmath::intmod_t[this->degree + 2];
+  spffl::base::owned_array_t<spffl::intmath::intmod_t> ncoeffs(
+      new spffl::intmath::intmod_t[this->degree + 2]);
   for (int i = 0; i <= this->degree; i++) {
-    this->coeffs[i + 1] = ocoeffs[i];
+    ncoeffs[i + 1] = this->coeffs[i];
   }
-  this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
+  ncoeffs[0] = ncoeffs[1] - ncoeffs[1];
+  this->coeffs.swap(ncoeffs);
   this->degree++;
-  delete[] ocoeffs;
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/fp_poly_t.h b/spffl/polynomials/fp_poly_t.h
index 3376415..27f2cef 100644
--- a/spffl/polynomials/fp_poly_t.h
+++ b/spffl/polynomials/fp_poly_t.h
@@ -9,6 +9,7 @@
 #ifndef FPPOLY_T_H
 #define FPPOLY_T_H
 
+#include "spffl/base/owned_array.h"
 #include "spffl/intmath/intmod_t.h"
 #include <iomanip>
 #include <iostream>
@@ -95,7 +96,7 @@ public:
   void promote_and_add(spffl::intmath::intmod_t c0);
 
 private:
-  spffl::intmath::intmod_t *coeffs;
+  spffl::base::owned_array_t<spffl::intmath::intmod_t> coeffs;
   int degree;
 
   bool cmp(int cmp, const fp_poly_t &that) const;
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 968c3db..a420341 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -10,6 +10,7 @@
 #include "spffl/base/tokenize.h"
 
 #include <string.h>
+#include <vector>
 
 namespace spffl::polynomials {
 
@@ -70,8 +71,6 @@ fpn_poly_t::fpn_poly_t(const fpn_poly_t &that) {
 
 // ----------------------------------------------------------------
 fpn_poly_t::~fpn_poly_t(void) {
-  delete[] this->coeffs;
-  this->coeffs = 0;
   this->degree = -1;
 }
 
@@ -96,14 +95,13 @@ int fpn_poly_t::get_characteristic(void) const {
 
 // ----------------------------------------------------------------
 fpn_poly_t &fpn_poly_t::operator=(const fpn_poly_t &that) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
-  this->degree = that.degree;
-  this->coeffs = new fp_polymod_t[this->degree + 1];
+  spffl::base::owned_array_t<fp_polymod_t> fresh(
+      new fp_polymod_t[that.degree + 1]);
   for (int i = 0; i <= that.degree; i++) {
-    this->coeffs[i] = that.coeffs[i];
+    fresh[i] = that.coeffs[i];
   }
+  this->coeffs.swap(fresh);
+  this->degree = that.degree;
   return *this;
 }
 
@@ -578,7 +576,8 @@ void fpn_poly_t::set_coeff(int pos, const fp_polymod_t &c) {
 
   fp_polymod_t zero = this->coeffs[0].prime_subfield_element(0);
   if (pos > this->degree) {
-    fp_polymod_t *temp = new fp_polymod_t[pos + 1];
+    spffl::base::owned_array_t<fp_polymod_t> temp(
+        new fp_polymod_t[pos + 1]);
     for (int i = 0; i <= this->degree; i++) {
       temp[i] = this->coeffs[i];
     }
@@ -587,8 +586,7 @@ void fpn_poly_t::set_coeff(int pos, const fp_polymod_t &c) {
     }
     temp[pos] = c;
 
-    delete[] this->coeffs;
-    this->coeffs = temp;
+    this->coeffs.swap(temp);
     this->degree = pos;
     if (c == zero) {
       this->recompute_degree();
@@ -795,10 +793,6 @@ std::istream &operator>>(std::istream &is, fpn_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
-
   int num_colons = 0;
   for (const char *q = string.c_str(); *q; q++) {
     if (*q == ':') {
@@ -807,9 +801,9 @@ bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
   }
 
   // TODO: more use of std::string methods
-  char *dup   = strdup(string.c_str());
-  char **argv = new char *[num_colons + 1];
-  int argc    = spffl::base::tokenize(dup, ":", argv, num_colons + 1);
+  std::string dup(string);
+  std::vector<char *> argv(num_colons + 1);
+  int argc    = spffl::base::tokenize(dup.data(), ":", argv.data(), num_colons + 1);
   if (argc < 1) {
     // Needs an error message, but this coding error is
     // unlikely since we already counted colons.
@@ -834,8 +828,6 @@ bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
       this->coeffs[ci] = fp_polymod_t(r, m);
     }
   }
-  delete[] argv;
-  free(dup);
 
   this->recompute_degree();
   return true;
@@ -848,14 +840,14 @@ void fpn_poly_t::promote(void) {
     ss << "fpn_poly_t::promote: null data.\n";
     throw spffl::exception_t(ss.str());
   }
-  fp_polymod_t *ocoeffs = this->coeffs;
-  this->coeffs          = new fp_polymod_t[this->degree + 2];
+  spffl::base::owned_array_t<fp_polymod_t> ncoeffs(
+      new fp_polymod_t[this->degree + 2]);
   for (int i = 0; i <= this->degree; i++) {
-    this->coeffs[i + 1] = ocoeffs[i];
+    ncoeffs[i + 1] = this->coeffs[i];
   }
-  this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
+  ncoeffs[0] = ncoeffs[1] - ncoeffs[1];
+  this->coeffs.swap(ncoeffs);
   this->degree++;
-  delete[] ocoeffs;
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/fpn_poly_t.h b/spffl/polynomials/fpn_poly_t.h
index b960286..079905c 100644
--- a/spffl/polynomials/fpn_poly_t.h
+++ b/spffl/polynomials/fpn_poly_t.h
@@ -9,6 +9,7 @@
 #ifndef FPNPOLY_T_H
 #define FPNPOLY_T_H
 
+#include "spffl/base/owned_array.h"
 #include "spffl/polynomials/fp_polymod_t.h"
 #include <iomanip>
 #include <iostream>
@@ -92,7 +93,7 @@ public:
   void promote_and_add(const fp_polymod_t &c0);
 
 private:
-  fp_polymod_t *coeffs;
+  spffl::base::owned_array_t<fp_polymod_t> coeffs;
   int degree;
 
   bool cmp(int cmp, const fpn_poly_t &that) const;
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index c39c7b8..f10cd50 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -11,6 +11,7 @@
 #include "spffl/intmath/intrat_t.h"
 #include <stdlib.h>
 #include <string.h>
+#include <vector>
 
 namespace spffl::polynomials {
 
@@ -72,21 +73,18 @@ q_poly_t::q_poly_t(const q_poly_t &that) {
 
 // ----------------------------------------------------------------
 q_poly_t::~q_poly_t(void) {
-  delete[] this->coeffs;
-  this->coeffs = 0;
   this->degree = -1;
 }
 
 // ----------------------------------------------------------------
 q_poly_t &q_poly_t::operator=(const q_poly_t &that) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
-  this->degree = that.degree;
-  this->coeffs = new spffl::intmath::intrat_t[this->degree + 1];
+  spffl::base::owned_array_t<spffl::intmath::intrat_t> fresh(
+      new spffl::intmath::intrat_t[that.degree + 1]);
   for (int i = 0; i <= that.degree; i++) {
-    this->coeffs[i] = that.coeffs[i];
+    fresh[i] = that.coeffs[i];
   }
+  this->coeffs.swap(fresh);
+  this->degree = that.degree;
   return *this;
 }
 
@@ -512,7 +510,8 @@ void q_poly_t::set_coeff(int pos, spffl::intmath::intrat_t c) {
 
   spffl::intmath::intrat_t zero(0);
   if (pos > this->degree) {
-    spffl::intmath::intrat_t *temp = new spffl::intmath::intrat_t[pos + 1];
+    spffl::base::owned_array_t<spffl::intmath::intrat_t> temp(
+        new spffl::intmath::intrat_t[pos + 1]);
     for (int i = 0; i <= this->degree; i++) {
       temp[i] = this->coeffs[i];
     }
@@ -521,8 +520,7 @@ void q_poly_t::set_coeff(int pos, spffl::intmath::intrat_t c) {
     }
     temp[pos] = c;
 
-    delete[] this->coeffs;
-    this->coeffs = temp;
+    this->coeffs.swap(temp);
     this->degree = pos;
     if (c == zero) {
       this->recompute_degree();
@@ -712,10 +710,6 @@ std::istream &operator>>(std::istream &is, q_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool q_poly_t::from_string(const std::string &string) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
-
   int num_commas = 0;
   for (const char *q = string.c_str(); *q; q++) {
     if (*q == ',') {
@@ -742,9 +736,9 @@ bool q_poly_t::from_string(const std::string &string) {
       this->coeffs[ci] = spffl::intmath::intrat_t(ascii_digit - '0');
     }
   } else {
-    char *dup   = strdup(string.c_str());
-    char **argv = new char *[num_commas + 1];
-    int argc    = spffl::base::tokenize(dup, ",", argv, num_commas + 1);
+    std::string dup(string);
+    std::vector<char *> argv(num_commas + 1);
+    int argc    = spffl::base::tokenize(dup.data(), ",", argv.data(), num_commas + 1);
     if (argc < 1) {
       // Needs an error message, but this coding error is
       // unlikely since we already counted commas.
@@ -769,8 +763,6 @@ bool q_poly_t::from_string(const std::string &string) {
         this->coeffs[ci] = spffl::intmath::intrat_t(r);
       }
     }
-    delete[] argv;
-    free(dup);
   }
 
   this->recompute_degree();
@@ -784,14 +776,14 @@ void q_poly_t::promote(void) {
     ss << "q_poly_t::promote: null data.\n";
     throw spffl::exception_t(ss.str());
   }
-  spffl::intmath::intrat_t *ocoeffs = this->coeffs;
-  this->coeffs = new spffl::intmath::intrat_t[this->degree + 2];
+  spffl::base::owned_array_t<spffl::intmath::intrat_t> ncoeffs(
+      new spffl::intmath::intrat_t[this->degree + 2]);
   for (int i = 0; i <= this->degree; i++) {
-    this->coeffs[i + 1] = ocoeffs[i];
+    ncoeffs[i + 1] = this->coeffs[i];
   }
-  this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
+  ncoeffs[0] = ncoeffs[1] - ncoeffs[1];
+  this->coeffs.swap(ncoeffs);
   this->degree++;
-  delete[] ocoeffs;
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/q_poly_t.h b/spffl/polynomials/q_poly_t.h
index 6abbc3b..9c83012 100644
--- a/spffl/polynomials/q_poly_t.h
+++ b/spffl/polynomials/q_poly_t.h
@@ -11,6 +11,7 @@
 #ifndef QPOLY_T_H
 #define QPOLY_T_H
 
+#include "spffl/base/owned_array.h"
 #include "spffl/intmath/intrat_t.h"
 #include <iomanip>
 #include <iostream>
@@ -85,7 +86,7 @@ public:
   void promote_and_add(spffl::intmath::intrat_t c0);
 
 private:
-  spffl::intmath::intrat_t *coeffs;
+  spffl::base::owned_array_t<spffl::intmath::intrat_t> coeffs;
   int degree;
 
   bool cmp(int cmp, const q_poly_t &that) const;
-- 
2.43.0


From e1872509d038482418d96f9ace592119e4bfae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 02/54] fix: negating a polynomial of positive degree writes
 past its coefficient array

---
 spffl/polynomials/f2n_poly_t.cpp | 1 +
 spffl/polynomials/fp_poly_t.cpp  | 1 +
 spffl/polynomials/fpn_poly_t.cpp | 1 +
 spffl/polynomials/q_poly_t.cpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 7a477b5..690c9bc 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -220,6 +220,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2_polymod_t &a) const {
 // ----------------------------------------------------------------
 f2n_poly_t f2n_poly_t::operator-(void) const {
   f2n_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new f2_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 6dfc3aa..9068a52 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -194,6 +194,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
 // ----------------------------------------------------------------
 fp_poly_t fp_poly_t::operator-(void) const {
   fp_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index a420341..820f2ea 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -164,6 +164,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
 // ----------------------------------------------------------------
 fpn_poly_t fpn_poly_t::operator-(void) const {
   fpn_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new fp_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index f10cd50..73bd433 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -163,6 +163,7 @@ q_poly_t q_poly_t::operator-(const spffl::intmath::intrat_t &a) const {
 // ----------------------------------------------------------------
 q_poly_t q_poly_t::operator-(void) const {
   q_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
-- 
2.43.0


From 4e799b7da01f6324d84795a5dd88f53e3131479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:28 +0000
Subject: [PATCH 03/54] fix: assigning a longer bit vector to a shorter one
 overruns the heap

---
 spffl/bits/bit_vector_t.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 42d568d..1873a7d 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -98,15 +98,14 @@ bit_vector_t::~bit_vector_t(void) {
 
 // ----------------------------------------------------------------
 bit_vector_t &bit_vector_t::operator=(const bit_vector_t &that) {
-  this->num_bits  = that.num_bits;
-  this->num_words = that.num_words;
-  if (this->words == 0) {
-    this->words = new uint64_t[that.num_words];
-  } else if (this->num_words < that.num_words) {
+  if ((this->words == 0) || (this->num_words < that.num_words)) {
+    uint64_t *fresh = new uint64_t[that.num_words];
     delete[] this->words;
-    this->words = new uint64_t[that.num_words];
+    this->words = fresh;
   }
-  memcpy(this->words, that.words, that.num_words * sizeof(uint64_t));
+  this->num_bits  = that.num_bits;
+  this->num_words = that.num_words;
+  memmove(this->words, that.words, that.num_words * sizeof(uint64_t));
   return *this;
 }
 
-- 
2.43.0


From d29319e02f53fe2c74eb432c0c99085dfb57d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:28 +0000
Subject: [PATCH 04/54] fix: bit-vector comparison ignores the last word; fill
 leaves stray bits in it

---
 spffl/bits/bit_vector_t.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 1873a7d..4114d07 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -336,7 +336,7 @@ bool bit_vector_t::operator==(const bit_vector_t &that) const {
   if (this->num_bits != that.num_bits) {
     return false;
   }
-  for (int i = 0; i < this->num_words - 1; i++) {
+  for (int i = 0; i < this->num_words; i++) {
     if (this->words[i] != that.words[i]) {
       return false;
     }
@@ -355,7 +355,11 @@ bool bit_vector_t::operator==(const bit_t &scalar) const {
   if (scalar == bit_t(1)) {
     fill = ~fill;
   }
-  for (int i = 0; i < this->num_words - 1; i++) {
+  for (int i = 0; i < this->num_words; i++) {
+    if ((i == this->num_words - 1) && (this->num_bits & WORD_MASK)) {
+      // Unused bits at the end of the last word are always zero.
+      fill <<= BITS_PER_WORD - (this->num_bits & WORD_MASK);
+    }
     if (this->words[i] != fill) {
       return false;
     }
@@ -411,9 +415,7 @@ void bit_vector_t::trim(void) {
   if (num_dribble_bits == 0) {
     return;
   }
-  this->words[this->num_words - 1] &=
-      ((1 << (BITS_PER_WORD - num_dribble_bits)) - 1)
-      << (BITS_PER_WORD - this->num_bits);
+  this->words[this->num_words - 1] &= ~(uint64_t)0 << num_dribble_bits;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From a35f83e053da99cd6a55fbabf1d4be2941f5ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:28 +0000
Subject: [PATCH 05/54] fix: bit-vector reader rejects long lines and trailing
 blanks, and dangles when memory runs out

---
 spffl/bits/bit_vector_t.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 4114d07..ff88ba8 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -147,8 +147,8 @@ std::ostream &operator<<(std::ostream &os, const bit_vector_t &v) {
 // ----------------------------------------------------------------
 std::istream &operator>>(std::istream &is, bit_vector_t &v) {
   // Read a line and use istringstream >>.
-  char line[2048];
-  is.getline(line, sizeof(line));
+  std::string line;
+  std::getline(is, line);
   std::istringstream iss(line, std::ios_base::in);
   iss >> v;
   if (iss.fail()) {
@@ -164,18 +164,20 @@ std::istringstream &operator>>(std::istringstream &iss, bit_vector_t &v) {
   int alloc_size      = init_size;
   int bit;
 
-  if (v.words) {
-    delete[] v.words;
-  }
-  v.words     = new uint64_t[alloc_size];
+  uint64_t *fresh = new uint64_t[alloc_size];
+  delete[] v.words;
+  v.words     = fresh;
   v.num_words = 0;
   v.num_bits  = 0;
   for (int i = 0; i < alloc_size; i++) {
     v.words[i] = 0;
   }
   while (1) {
-    if (iss.eof()) {
-      break;
+    if (v.num_bits > 0) {
+      // Blanks after the last element don't announce another element.
+      if (iss.eof() || (iss >> std::ws).eof()) {
+        break;
+      }
     }
     if (v.num_words >= alloc_size) {
       alloc_size += more_size;
-- 
2.43.0


From 974d6fc17965d42a6a945a44c94e46101ca451fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:28 +0000
Subject: [PATCH 06/54] fix: += and -= on bit vectors of different lengths read
 out of bounds

---
 spffl/bits/bit_vector_t.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index ff88ba8..82ba1eb 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -306,12 +306,14 @@ bit_t bit_vector_t::dot(const bit_vector_t &that) {
 
 // ----------------------------------------------------------------
 bit_vector_t bit_vector_t::operator+=(const bit_vector_t &that) {
+  this->check_equal_lengths(that);
   for (int i = 0; i < this->num_words; i++) {
     this->words[i] ^= that.words[i];
   }
   return *this;
 }
 bit_vector_t bit_vector_t::operator-=(const bit_vector_t &that) {
+  this->check_equal_lengths(that);
   for (int i = 0; i < this->num_words; i++) {
     this->words[i] ^= that.words[i];
   }
-- 
2.43.0


From b515e8da3653ebdbcd75965fea84da5121590161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:24 +0000
Subject: [PATCH 07/54] fix: bit-matrix rows leak or dangle when memory runs
 out

---
 spffl/bits/bit_matrix_t.cpp | 11 ++---------
 spffl/bits/bit_matrix_t.h   |  3 ++-
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 74e9d4a..d4aa434 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -141,13 +141,9 @@ bit_matrix_t &bit_matrix_t::operator=(const bit_matrix_t &that) {
   if ((this->num_rows == that.num_rows) && (this->num_cols == that.num_cols)) {
     // Storage is fine as is.
   } else {
-    this->mfree();
+    this->rows     = new bit_vector_t[that.num_rows];
     this->num_rows = that.num_rows;
     this->num_cols = that.num_cols;
-    this->rows     = new bit_vector_t[that.num_rows];
-    for (i = 0; i < that.num_rows; i++) {
-      this->rows[i] = bit_vector_t(that.num_cols);
-    }
   }
 
   for (i = 0; i < that.num_rows; i++) {
@@ -961,15 +957,12 @@ int bit_matrix_t::get_num_cols(void) const { return this->num_cols; }
 
 // ----------------------------------------------------------------
 void bit_matrix_t::mfree(void) {
-  if (this->rows != 0) {
-    delete[] this->rows;
-  }
   this->nullify();
 }
 
 // ----------------------------------------------------------------
 void bit_matrix_t::nullify(void) {
-  this->rows     = 0;
+  this->rows     = nullptr;
   this->num_rows = 0;
   this->num_cols = 0;
 }
diff --git a/spffl/bits/bit_matrix_t.h b/spffl/bits/bit_matrix_t.h
index 9419181..0f98e83 100644
--- a/spffl/bits/bit_matrix_t.h
+++ b/spffl/bits/bit_matrix_t.h
@@ -7,6 +7,7 @@
 #ifndef BIT_MATRIX_T_H
 #define BIT_MATRIX_T_H
 
+#include "spffl/base/owned_array.h"
 #include "spffl/bits/bit_vector_t.h"
 #include <cstdint>
 #include <iostream>
@@ -103,7 +104,7 @@ public:
 
   // ----------------------------------------------------------------
 private:
-  bit_vector_t *rows;
+  spffl::base::owned_array_t<bit_vector_t> rows;
   int num_rows;
   int num_cols;
 
-- 
2.43.0


From 23fc57ce23492b8be489ef6179ae5eb8361b2e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:24 +0000
Subject: [PATCH 08/54] fix: row reduction and kernels of bit matrices leak
 their work arrays

---
 spffl/bits/bit_matrix_t.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index d4aa434..6cc9658 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -639,7 +639,7 @@ void bit_matrix_t::swap(int arow, int brow) {
 
 void bit_matrix_t::row_reduce_below_with_scalar(bit_t &s) {
   int top_row, left_column, row;
-  uint64_t **ptrs = this->expose();
+  spffl::base::owned_array_t<uint64_t *> ptrs(this->expose());
   uint64_t *temp;
 
   s = 1;
@@ -763,8 +763,9 @@ bool bit_matrix_t::get_kernel_basis(bit_matrix_t &rbas) const {
 
   bit_matrix_t basis(bit_t(0), dimker, rr.num_cols);
 
-  unsigned char *free_flags = new unsigned char[this->num_cols];
-  int *free_indices         = new int[this->num_cols];
+  spffl::base::owned_array_t<unsigned char> free_flags(
+      new unsigned char[this->num_cols]);
+  spffl::base::owned_array_t<int> free_indices(new int[this->num_cols]);
   int nfree                 = 0; // == dimker but I'll compute it anyway
   int dep_pos;
 
@@ -821,9 +822,6 @@ bool bit_matrix_t::get_kernel_basis(bit_matrix_t &rbas) const {
     }
   }
 
-  delete[] free_flags;
-  delete[] free_indices;
-
   rbas = basis;
   return true;
 }
-- 
2.43.0


From 1499836581e077afb027148d35850eca0e79b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:24 +0000
Subject: [PATCH 09/54] fix: bit-matrix reader drops an unterminated last row,
 keeps old rows, leaks, and takes a read error for the end

---
 spffl/bits/bit_matrix_t.cpp | 56 ++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 6cc9658..b2ec6c0 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -191,46 +191,50 @@ std::ostream &operator<<(std::ostream &os, const bit_matrix_t &m) {
 
 // ----------------------------------------------------------------
 std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
-  char line[8192];
+  std::string line;
   const int init_num_rows = 40;
   const int more_num_rows = 40;
   int alloc_num_rows      = init_num_rows;
-  m.rows                  = new bit_vector_t[init_num_rows];
+  int num_rows            = 0;
+  spffl::base::owned_array_t<bit_vector_t> rows(
+      new bit_vector_t[init_num_rows]);
 
   while (1) {
     if (is.eof()) {
       break;
     }
 
-    if (m.num_rows >= alloc_num_rows) {
+    if (num_rows >= alloc_num_rows) {
       alloc_num_rows += more_num_rows;
-      bit_vector_t *ptemp = new bit_vector_t[alloc_num_rows];
-      for (int i = 0; i < m.num_rows; i++) {
-        ptemp[i] = m.rows[i];
+      spffl::base::owned_array_t<bit_vector_t> temp(
+          new bit_vector_t[alloc_num_rows]);
+      for (int i = 0; i < num_rows; i++) {
+        temp[i] = rows[i];
       }
-      delete[] m.rows;
-      m.rows = ptemp;
+      rows.swap(temp);
     }
 
-    // Read a line of text.
-    is.getline(line, sizeof(line));
-    if (is.eof()) {
-      is.clear();
-      break;
+    // Read a line of text.  The last one needn't end in a carriage return.
+    std::getline(is, line);
+    if (is.bad()) {
+      return is;
     } else if (is.fail()) {
+      if (is.eof() && (num_rows > 0)) {
+        is.clear(std::ios::eofbit);
+      }
       break;
     }
 
     // Allow comments.
-    char *phash = strstr(line, "#");
-    if (phash) {
-      *phash = 0;
+    size_t hash = line.find('#');
+    if (hash != std::string::npos) {
+      line.erase(hash);
     }
 
     // Allow multiple matrices in the same stream, delimited by
     // carriage returns.
-    if (spffl::base::is_whitespace_line(line)) {
-      if (m.num_rows == 0) {
+    if (spffl::base::is_whitespace_line(line.data())) {
+      if (num_rows == 0) {
         continue;
       } else {
         break;
@@ -240,7 +244,7 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
     // Use bit_vector_t istringstream >> to scan the line of text
     // as a row vector.
     std::istringstream iss(line, std::ios_base::in);
-    iss >> m.rows[m.num_rows];
+    iss >> rows[num_rows];
     if (iss.fail()) {
       is.setstate(std::ios::failbit);
       std::stringstream ss;
@@ -248,14 +252,14 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
       return is;
     }
 
-    m.num_rows++;
+    num_rows++;
   }
 
-  if (is.peek() == EOF) {
+  if (is.good() && (is.peek() == EOF)) {
     is.setstate(std::ios::eofbit);
   }
 
-  if (m.num_rows == 0) {
+  if (num_rows == 0) {
     is.setstate(std::ios::badbit);
     std::stringstream ss;
     ss << "bit_matrix_t >>:  zero-row matrix.\n";
@@ -264,8 +268,8 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
 
   int min_cols = 0x7fffffff;
   int max_cols = 0;
-  for (int i = 0; i < m.num_rows; i++) {
-    int cur_cols = m.rows[i].get_num_elements();
+  for (int i = 0; i < num_rows; i++) {
+    int cur_cols = rows[i].get_num_elements();
     if (cur_cols > max_cols) {
       max_cols = cur_cols;
     }
@@ -276,10 +280,12 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
   if (min_cols != max_cols) {
     is.setstate(std::ios::badbit);
     std::stringstream ss;
-    ss << "bit_matrix_t >>:  ragged input.  # rows = " << m.num_rows
+    ss << "bit_matrix_t >>:  ragged input.  # rows = " << num_rows
        << " min # cols = " << min_cols << " max # cols = " << max_cols << ".\n";
     return is;
   }
+  m.rows.swap(rows);
+  m.num_rows = num_rows;
   m.num_cols = max_cols;
 
   return is;
-- 
2.43.0


From 9682fdd50b7335e93fb12b4e255c9c7f327ed3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:24 +0000
Subject: [PATCH 10/54] fix: pasting bit matrices that are not square, or whose
 rows change word count

---
 spffl/bits/bit_matrix_t.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index b2ec6c0..90d421d 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -868,11 +868,11 @@ bit_matrix_t bit_matrix_t::paste(bit_matrix_t &that) const {
   int i, j;
 
   for (i = 0; i < this->num_rows; i++) {
-    rv.rows[i] = this->rows[i];
-  }
-  for (i = 0; i < this->num_rows; i++) {
+    for (j = 0; j < this->num_cols; j++) {
+      rv.rows[i].set(j, this->rows[i].get(j));
+    }
     for (j = 0; j < that.num_cols; j++) {
-      rv.rows[i].set(this->num_rows + j, that.rows[i].get(j));
+      rv.rows[i].set(this->num_cols + j, that.rows[i].get(j));
     }
   }
 
-- 
2.43.0


From bed2063d52b9e03bb0973bd165ef8815df3a52dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:29 +0000
Subject: [PATCH 11/54] fix: vectors overrun the heap when assigned a longer
 one; reader dangles, leaks and rejects long lines and trailing blanks

---
 spffl/containers/tvector.h | 78 ++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 46 deletions(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 7e309e3..5ea470f 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -7,6 +7,7 @@
 #ifndef TVECTOR_H
 #define TVECTOR_H
 
+#include "spffl/base/owned_array.h"
 #include "spffl/base/spffl_exception.h"
 #include <fstream>
 #include <iostream>
@@ -40,7 +41,6 @@ public:
   // ----------------------------------------------------------------
   tvector(void) {
     this->num_elements = 0;
-    this->elements     = 0;
   }
 
   // ----------------------------------------------------------------
@@ -83,10 +83,6 @@ public:
 
   // ----------------------------------------------------------------
   ~tvector(void) {
-    if (this->elements != 0) {
-      delete[] this->elements;
-      this->elements = 0;
-    }
     this->num_elements = 0;
   }
 
@@ -95,13 +91,10 @@ public:
 
   // ----------------------------------------------------------------
   tvector<element_type> &operator=(const tvector<element_type> &that) {
-    this->num_elements = that.num_elements;
-    if (this->elements == 0) {
-      this->elements = new element_type[that.num_elements];
-    } else if (this->num_elements < that.num_elements) {
-      delete[] this->elements;
+    if ((this->elements == 0) || (this->num_elements < that.num_elements)) {
       this->elements = new element_type[that.num_elements];
     }
+    this->num_elements = that.num_elements;
     for (int i = 0; i < that.num_elements; i++) {
       this->elements[i] = that.elements[i];
     }
@@ -115,8 +108,8 @@ public:
         this->elements[i] = scalar;
       }
     } else {
-      this->num_elements = 1;
       this->elements     = new element_type[1];
+      this->num_elements = 1;
       this->elements[0]  = scalar;
     }
     return *this;
@@ -138,18 +131,16 @@ public:
   // elements, e.g. "1 2 3".  The bracket_in() method, by contrast, expects
   // whitespace-delimited elements, surrounded by brackets:  e.g. "[1 2 3]".
   bool bracket_in(char *string) {
-    char *copy = strdup(string);
+    std::string copy(string);
 
-    char *pleft = strchr(copy, '[');
+    char *pleft = strchr(copy.data(), '[');
     if (pleft == 0) {
-      free(copy);
       return false;
     }
     pleft++;
 
     char *pright = strrchr(pleft, ']');
     if (pright == 0) {
-      free(copy);
       return false;
     }
     *pright = 0;
@@ -157,11 +148,9 @@ public:
     std::istringstream iss(pleft, std::ios_base::in);
     iss >> *this;
     if (iss.fail()) {
-      free(copy);
       return false;
     }
 
-    free(copy);
     return true;
   }
 
@@ -204,11 +193,8 @@ public:
   // For this method, the vector may have the default constructor.
   // The "zero" argument is used to set the modulus for parameterized types.
   bool load_from_file(char *file_name, const element_type &zero) {
-    if (this->elements) {
-      delete[] this->elements;
-    }
-    this->num_elements = 1;
     this->elements     = new element_type[1];
+    this->num_elements = 1;
     this->elements[0]  = zero;
     return this->load_from_file(file_name);
   }
@@ -478,9 +464,7 @@ public:
     if (this->num_elements != that.num_elements) {
       (void)check_equal_lengths(that);
     }
-    element_type *temp = this->elements;
-    this->elements     = that.elements;
-    that.elements      = temp;
+    this->elements.swap(that.elements);
   }
 
   // ----------------------------------------------------------------
@@ -513,7 +497,7 @@ public:
 
 private:
   // ================================================================
-  element_type *elements;
+  spffl::base::owned_array_t<element_type> elements;
   int num_elements;
 };
 
@@ -536,8 +520,8 @@ static std::ostream &operator<<(
 template <class element_type>
 static std::istream &operator>>(std::istream &is, tvector<element_type> &v) {
   // Read a line and use istringstream >>.
-  char line[2048];
-  is.getline(line, sizeof(line));
+  std::string line;
+  std::getline(is, line);
   std::istringstream iss(line, std::ios_base::in);
   iss >> v;
   if (iss.fail()) {
@@ -567,41 +551,43 @@ static std::istringstream &operator>>(
   }
 
   element_type zero = v.elements[0] - v.elements[0];
-  if (v.elements) {
-    delete[] v.elements;
-  }
-  v.elements     = 0;
-  v.num_elements = 0;
-
-  v.elements = new element_type[alloc_size];
+  spffl::base::owned_array_t<element_type> elements(
+      new element_type[alloc_size]);
+  int num_elements = 0;
   while (1) {
-    if (iss.eof()) {
-      break;
+    // Blanks after the last element don't announce another element.
+    if (num_elements > 0) {
+      if (iss.eof() || (iss >> std::ws).eof()) {
+        break;
+      }
     }
 
     // xxx append method w/ optional #growth arg
-    if (v.num_elements >= alloc_size) {
+    if (num_elements >= alloc_size) {
       alloc_size += more_size;
-      element_type *ptemp = new element_type[alloc_size];
-      for (int i = 0; i < v.num_elements; i++) {
-        ptemp[i] = v.elements[i];
+      spffl::base::owned_array_t<element_type> temp(
+          new element_type[alloc_size]);
+      for (int i = 0; i < num_elements; i++) {
+        temp[i] = elements[i];
       }
-      delete[] v.elements;
-      v.elements = ptemp;
+      elements.swap(temp);
     }
-    v.elements[v.num_elements] = zero; // E.g. set modulus.
-    iss >> v.elements[v.num_elements];
+    elements[num_elements] = zero; // E.g. set modulus.
+    iss >> elements[num_elements];
     if (iss.fail()) {
       std::stringstream ss;
       ss << "tvector istringstream >>: scan failure"
-         << " at vector element " << v.num_elements << ".\n";
+         << " at vector element " << num_elements << ".\n";
       ss << "String: <<" << iss.str() << ">>\n";
       ss << "Position: " << iss.tellg() << "\n";
       return iss;
     }
-    v.num_elements++;
+    num_elements++;
   }
 
+  // On failure the vector is left as it was, with its modulus.
+  v.elements.swap(elements);
+  v.num_elements = num_elements;
   return iss;
 }
 
-- 
2.43.0


From 40e949f38aa00af5b492f4c4a275030f207ce474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:29 +0000
Subject: [PATCH 12/54] fix: matrix rows and work arrays leak or dangle when
 memory runs out

---
 spffl/containers/tmatrix.h | 39 ++++++++++----------------------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index c30ea2f..e4a044c 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -8,6 +8,7 @@
 #define TMATRIX_H
 
 #include "spffl/base/line_scan.h"
+#include "spffl/base/owned_array.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/base/tokenize.h"
 #include "spffl/containers/tvector.h"
@@ -149,13 +150,7 @@ public:
   // For this method, the matrix may have the default constructor.
   // The "zero" argument is used to set the modulus for parameterized types.
   bool load_from_file(char *file_name, element_type zero) {
-    this->mfree();
-
-    this->num_rows   = 1;
-    this->num_cols   = 1;
-    this->rows       = new tvector<element_type>[1];
-    this->rows[0]    = tvector<element_type>(1);
-    this->rows[0][0] = zero;
+    *this = tmatrix<element_type>(zero, 1, 1);
 
     return this->load_from_file(file_name);
   }
@@ -325,11 +320,7 @@ public:
         }
       }
     } else {
-      this->num_rows   = 1;
-      this->num_cols   = 1;
-      this->rows       = new tvector<element_type>[1];
-      this->rows[0]    = tvector<element_type>(1);
-      this->rows[0][0] = scalar;
+      *this = tmatrix<element_type>(scalar, 1, 1);
     }
     return *this;
   }
@@ -342,13 +333,9 @@ public:
         (this->num_cols == that.num_cols)) {
       // Storage is fine as is.
     } else {
-      this->mfree();
+      this->rows     = new tvector<element_type>[that.num_rows];
       this->num_rows = that.num_rows;
       this->num_cols = that.num_cols;
-      this->rows     = new tvector<element_type>[that.num_rows];
-      for (i = 0; i < that.num_rows; i++) {
-        this->rows[i] = tvector<element_type>(that.num_cols);
-      }
     }
 
     for (i = 0; i < that.num_rows; i++) {
@@ -912,7 +899,7 @@ public:
       s = zero;
       return; // Zero matrix; already done.
     }
-    element_type **ptrs = this->expose();
+    spffl::base::owned_array_t<element_type *> ptrs(this->expose());
     element_type *temp;
 
     minus_one = zero - one;
@@ -971,7 +958,6 @@ public:
       left_column++;
       top_row++;
     }
-    delete[] ptrs;
   }
 
   // ----------------------------------------------------------------
@@ -1087,8 +1073,9 @@ public:
       }
     }
 
-    unsigned char *free_flags = new unsigned char[this->num_cols];
-    int *free_indices         = new int[this->num_cols];
+    spffl::base::owned_array_t<unsigned char> free_flags(
+        new unsigned char[this->num_cols]);
+    spffl::base::owned_array_t<int> free_indices(new int[this->num_cols]);
     int nfree                 = 0; // == dimker but I'll compute it anyway
     int dep_pos               = 0;
 
@@ -1162,9 +1149,6 @@ public:
     std::cout << "\n";
 #endif // KERBAS_DEBUG
 
-    delete[] free_flags;
-    delete[] free_indices;
-
     rbas = basis;
     return true;
   }
@@ -1632,21 +1616,18 @@ public:
 
   // ================================================================
 private:
-  tvector<element_type> *rows;
+  spffl::base::owned_array_t<tvector<element_type>> rows;
   int num_rows;
   int num_cols;
 
   // ----------------------------------------------------------------
   void mfree(void) {
-    if (this->rows != 0) {
-      delete[] this->rows;
-    }
     this->nullify();
   }
 
   // ----------------------------------------------------------------
   void nullify(void) {
-    this->rows     = 0;
+    this->rows     = nullptr;
     this->num_rows = 0;
     this->num_cols = 0;
   }
-- 
2.43.0


From 780ff408c06779148bb09130923daf63ffcda594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:29 +0000
Subject: [PATCH 13/54] fix: matrix reader drops an unterminated last row,
 overruns its line buffer, loses its modulus, and takes a read error for the
 end

---
 spffl/containers/tmatrix.h | 87 +++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 48 deletions(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index e4a044c..eaa9814 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1625,6 +1625,13 @@ private:
     this->nullify();
   }
 
+  // ----------------------------------------------------------------
+  void swap_contents(tmatrix<element_type> &that) {
+    this->rows.swap(that.rows);
+    std::swap(this->num_rows, that.num_rows);
+    std::swap(this->num_cols, that.num_cols);
+  }
+
   // ----------------------------------------------------------------
   void nullify(void) {
     this->rows     = nullptr;
@@ -1669,73 +1676,59 @@ static std::ostream &operator<<(
 // element (yuk).
 template <typename element_type>
 static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
-  const int tmx_buf_size = 65536;
-  char *line             = new char[tmx_buf_size];
-  char *pline            = line;
+  std::string line;
 
-  // Make sure the matrix already contains an element.  Remember it,
-  // then free the old matrix contents.
+  // Make sure the matrix already contains an element.  Remember it.
   if (!m.rows || (m.num_rows < 1) || (m.num_cols < 1)) {
     is.setstate(std::ios::badbit);
     std::stringstream ss;
     ss << "tmatrix >>:  must already have one element.\n";
-    delete[] line;
     return is;
   }
   element_type zero = m.rows[0][0] - m.rows[0][0];
-  m.mfree();
+  tmatrix<element_type> fresh;
 
   const int init_num_rows = 10;
   const int more_num_rows = 10;
   int alloc_num_rows      = init_num_rows;
-  m.rows                  = new tvector<element_type>[init_num_rows];
+  fresh.rows              = new tvector<element_type>[init_num_rows];
 
   while (1) {
     if (is.eof()) {
       break;
     }
 
-    if (m.num_rows >= alloc_num_rows) {
+    if (fresh.num_rows >= alloc_num_rows) {
       alloc_num_rows += more_num_rows;
-      tvector<element_type> *ptemp = new tvector<element_type>[alloc_num_rows];
-      for (int i = 0; i < m.num_rows; i++) {
-        ptemp[i] = m.rows[i];
+      spffl::base::owned_array_t<tvector<element_type>> temp(
+          new tvector<element_type>[alloc_num_rows]);
+      for (int i = 0; i < fresh.num_rows; i++) {
+        temp[i] = fresh.rows[i];
       }
-      delete[] m.rows;
-      m.rows = ptemp;
+      fresh.rows.swap(temp);
     }
 
-    // Read a line of text.
-    is.getline(pline, tmx_buf_size);
-    if (is.eof()) {
-      is.clear();
-      break;
+    // Read a line of text.  The last one needn't end in a carriage return.
+    std::getline(is, line);
+    if (is.bad()) {
+      return is;
     } else if (is.fail()) {
+      if (is.eof() && (fresh.num_rows > 0)) {
+        is.clear(std::ios::eofbit);
+      }
       break;
     }
 
     // Allow comments.
-    char *phash = strstr(pline, "#");
-    if (phash) {
-      *phash = 0;
-    }
-
-    // Strip leading whitespace.
-    while (isspace(pline[0])) {
-      pline++;
-    }
-
-    // Strip trailing whitespace.
-    int len = strlen(pline);
-    while ((len > 0) && isspace(pline[len - 1])) {
-      pline[len - 1] = 0;
-      len--;
+    size_t hash = line.find('#');
+    if (hash != std::string::npos) {
+      line.erase(hash);
     }
 
     // Allow multiple matrices in the same stream, delimited by
     // carriage returns.
-    if (spffl::base::is_whitespace_line(pline)) {
-      if (m.num_rows == 0) {
+    if (spffl::base::is_whitespace_line(line.data())) {
+      if (fresh.num_rows == 0) {
         continue;
       } else {
         break;
@@ -1743,43 +1736,41 @@ static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
     }
 
     // E.g. set modulus.
-    m.rows[m.num_rows] = zero;
+    fresh.rows[fresh.num_rows] = zero;
 
     // Use tvector istringstream >> to scan the line of text as a
     // row vector.
-    std::istringstream iss(pline, std::ios_base::in);
-    iss >> m.rows[m.num_rows];
+    std::istringstream iss(line, std::ios_base::in);
+    iss >> fresh.rows[fresh.num_rows];
     if (iss.fail()) {
       is.setstate(std::ios::failbit);
       std::stringstream ss;
-      ss << "tmatrix scan failure: \"" << pline << "\"\n";
-      delete[] line;
+      ss << "tmatrix scan failure: \"" << line << "\"\n";
       return is;
     }
 
-    m.num_rows++;
+    fresh.num_rows++;
   }
 
-  if (is.peek() == EOF) {
+  if (is.good() && (is.peek() == EOF)) {
     is.setstate(std::ios::eofbit);
   }
 
-  if (m.num_rows == 0) {
+  if (fresh.num_rows == 0) {
     is.setstate(std::ios::badbit);
     std::stringstream ss;
     ss << "tmatrix >>:  zero-row matrix.\n";
-    delete[] line;
     return is;
   }
 
   // Sets num_cols too.
-  if (!m.check_ragged()) {
+  if (!fresh.check_ragged()) {
     is.setstate(std::ios::badbit);
-    delete[] line;
     return is;
   }
 
-  delete[] line;
+  // On failure the matrix is left as it was, with its modulus.
+  m.swap_contents(fresh);
   return is;
 }
 
-- 
2.43.0


From 7f05fdf47dc914a330033725c431f4c0754d1042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:29 +0000
Subject: [PATCH 14/54] fix: bracketed matrix reader leaks and loses the matrix
 on failure

---
 spffl/containers/tmatrix.h | 63 +++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 38 deletions(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index eaa9814..43caca2 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -177,22 +177,20 @@ public:
   // is treated as an n x 1 matrix (column vector).
 
   bool bracket_in(char *string) {
-    // Make sure the matrix already contains an element.  Remember it,
-    // then free the old matrix contents.
+    // Make sure the matrix already contains an element.  Remember it.
     if (!this->rows || (this->num_rows < 1) || (this->num_cols < 1)) {
       std::stringstream ss;
       ss << "tmatrix::bracket_in:  must already have one element.\n";
       return false;
     }
     element_type zero = this->rows[0][0] - this->rows[0][0];
-    this->mfree();
+    tmatrix<element_type> fresh;
 
-    char *copy       = strdup(string);
-    char *pouterleft = strchr(copy, '[');
+    std::string copy(string);
+    char *pouterleft = strchr(copy.data(), '[');
     if (pouterleft == 0) {
       std::stringstream ss;
       ss << "tmatrix::bracket_in:  couldn't find leading left bracket.\n";
-      free(copy);
       return false;
     }
     char *pinnerstart = pouterleft + 1;
@@ -204,42 +202,32 @@ public:
     if (pouterright == 0) {
       std::stringstream ss;
       ss << "tmatrix::bracket_in:  couldn't find trailing right bracket.\n";
-      free(copy);
       return false;
     }
     *pouterright = 0;
 
     if (strchr(pinnerstart, '[')) {
       // There are nested brackets.
-      this->num_rows = spffl::base::count_tokens(pinnerstart, "[");
-      this->rows     = new tvector<element_type>[this->num_rows];
-      char **stringv = new char *[this->num_rows];
-      (void)spffl::base::tokenize(pinnerstart, "[", stringv, this->num_rows);
+      fresh.num_rows = spffl::base::count_tokens(pinnerstart, "[");
+      fresh.rows     = new tvector<element_type>[fresh.num_rows];
+      spffl::base::owned_array_t<char *> stringv(new char *[fresh.num_rows]);
+      (void)spffl::base::tokenize(pinnerstart, "[", stringv, fresh.num_rows);
 
-      for (int i = 0; i < this->num_rows; i++) {
-        char *rowcopy = new char[strlen(stringv[i]) + 2];
-        strcpy(rowcopy, "[");
-        strcat(rowcopy, stringv[i]);
-        this->rows[i] = zero;
-        if (!this->rows[i].bracket_in(rowcopy)) {
+      for (int i = 0; i < fresh.num_rows; i++) {
+        std::string rowcopy = std::string("[") + stringv[i];
+        fresh.rows[i] = zero;
+        if (!fresh.rows[i].bracket_in(rowcopy.data())) {
           std::stringstream ss;
           ss << "tmatrix::bracket_in:  couldn't read row " << i << ".\n";
-          delete[] rowcopy;
-          delete[] stringv;
-          free(copy);
           return false;
         }
-        delete[] rowcopy;
       }
 
-      // Sets this->num_cols.
-      if (!this->check_ragged()) {
+      // Sets fresh.num_cols.
+      if (!fresh.check_ragged()) {
         // Error message already printed out.
-        delete[] stringv;
-        free(copy);
         return false;
       }
-      delete[] stringv;
     } else {
       // There are no nested brackets; scan as column vector.
       tvector<element_type> column(zero, 1);
@@ -247,27 +235,26 @@ public:
       std::istringstream iss(pinnerstart, std::ios_base::in);
       iss >> column;
       if (iss.fail()) {
-        free(copy);
         return false;
       }
 
-      this->num_rows = column.get_num_elements();
-      this->num_cols = 1;
+      fresh.num_rows = column.get_num_elements();
+      fresh.num_cols = 1;
 
       // Non-void ctor to array new now violates ANSI standard.
-      // this->rows = new tvector<element_type>[this->num_rows](zero, 1);
-      // for (int i = 0; i < this->num_rows; i++)
-      // this->rows[i][0] = column[i];
-      this->rows = new tvector<element_type>[this->num_rows];
-      for (int i = 0; i < this->num_rows; i++) {
-        this->rows[i] = temp;
+      // fresh.rows = new tvector<element_type>[fresh.num_rows](zero, 1);
+      // for (int i = 0; i < fresh.num_rows; i++)
+      // fresh.rows[i][0] = column[i];
+      fresh.rows = new tvector<element_type>[fresh.num_rows];
+      for (int i = 0; i < fresh.num_rows; i++) {
+        fresh.rows[i] = temp;
       }
-      for (int i = 0; i < this->num_rows; i++) {
-        this->rows[i][0] = column[i];
+      for (int i = 0; i < fresh.num_rows; i++) {
+        fresh.rows[i][0] = column[i];
       }
     }
 
-    free(copy);
+    this->swap_contents(fresh);
     return true;
   }
 
-- 
2.43.0


From cdcdf33b82149fe3d1ecfa3a472bdc17eb843e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:29 +0000
Subject: [PATCH 15/54] fix: storing a matrix reports success when the last
 write or the close fails

---
 spffl/containers/tmatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 43caca2..7a67912 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -261,8 +261,8 @@ public:
   // ----------------------------------------------------------------
   bool store_to_file(char *file_name) const {
     if ((strcmp(file_name, "-") == 0) || (strcmp(file_name, "@") == 0)) {
-      std::cout << *this;
-      return true;
+      std::cout << *this << std::flush;
+      return !std::cout.fail();
     }
 
     std::ofstream ofs;
@@ -283,7 +283,7 @@ public:
       return false;
     }
     ofs.close();
-    return true;
+    return !ofs.fail();
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From 042d242567050f777e3c4fd01e97948699173f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:29 +0000
Subject: [PATCH 16/54] fix: stack assignment returns nothing; stacks dangle
 when memory runs out

---
 spffl/containers/tstack.h | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/spffl/containers/tstack.h b/spffl/containers/tstack.h
index f0a0804..f333b3b 100644
--- a/spffl/containers/tstack.h
+++ b/spffl/containers/tstack.h
@@ -7,6 +7,7 @@
 #ifndef TSTACK_H
 #define TSTACK_H
 
+#include "spffl/base/owned_array.h"
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -36,37 +37,36 @@ public:
 
   // ----------------------------------------------------------------
   ~tstack(void) {
-    if (this->elements != 0) {
-      delete[] this->elements;
-      this->elements = 0;
-    }
     this->num_allocated = 0;
     this->freeidx       = 0;
   }
 
   // ----------------------------------------------------------------
   tstack<element_type> &operator=(const tstack<element_type> &that) {
-    if (this->elements != 0) {
-      delete[] this->elements;
+    spffl::base::owned_array_t<element_type> fresh(
+        new element_type[that.num_allocated]);
+    for (int i = 0; i < that.freeidx; i++) {
+      fresh[i] = that.elements[i];
     }
+    this->elements.swap(fresh);
     this->num_allocated = that.num_allocated;
     this->freeidx       = that.freeidx;
-    this->elements      = new element_type[that.num_allocated];
-    for (int i = 0; i < that.freeidx; i++) {
-      this->elements[i] = that.elements[i];
-    }
+    return *this;
   }
 
   // ----------------------------------------------------------------
   void push(const element_type &re) {
     if (this->freeidx >= this->num_allocated) {
-      element_type *temp = this->elements;
-      this->num_allocated += TSTACK_INCR_SIZE;
-      this->elements = new element_type[this->num_allocated];
+      spffl::base::owned_array_t<element_type> temp(
+          new element_type[this->num_allocated + TSTACK_INCR_SIZE]);
       for (int i = 0; i < this->freeidx; i++) {
-        this->elements[i] = temp[i];
+        temp[i] = this->elements[i];
       }
-      delete[] temp;
+      temp[this->freeidx] = re; // Might be one of our own elements.
+      this->elements.swap(temp);
+      this->num_allocated += TSTACK_INCR_SIZE;
+      this->freeidx++;
+      return;
     }
     this->elements[this->freeidx] = re;
     this->freeidx++;
@@ -75,8 +75,8 @@ public:
   // ----------------------------------------------------------------
   bool pop(element_type &re) {
     if (this->freeidx > 0) {
+      re = this->elements[freeidx - 1];
       this->freeidx--;
-      re = this->elements[freeidx];
       return true;
     } else {
       return false;
@@ -85,7 +85,7 @@ public:
 
   // ================================================================
 private:
-  element_type *elements;
+  spffl::base::owned_array_t<element_type> elements;
   int num_allocated;
   int freeidx;
 };
-- 
2.43.0


From 36138dc57cee7bfade1f3cb9e4961a2a2ddaa173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:53 +0000
Subject: [PATCH 17/54] fix: factor-list assignment returns nothing and breaks
 on itself; factor lists leak or dangle when memory runs out

---
 spffl/containers/tfacinfo.h | 59 ++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index a766a45..2e6c20f 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -7,6 +7,7 @@
 #ifndef TFACINFO_H
 #define TFACINFO_H
 
+#include "spffl/base/owned_array.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/containers/tvector.h"
 #include <fstream>
@@ -30,7 +31,8 @@ private:
   struct factor_and_count_t {
     element_type factor;
     int count;
-  } *pfactors_and_counts;
+  };
+  spffl::base::owned_array_t<factor_and_count_t> pfactors_and_counts;
   int num_distinct;
   int num_allocated;
 
@@ -64,28 +66,23 @@ public:
 
   // ----------------------------------------------------------------
   tfacinfo<element_type> &operator=(const tfacinfo<element_type> &that) {
-    if (this->pfactors_and_counts) {
-      delete[] this->pfactors_and_counts;
+    if (this == &that) {
+      return *this;
     }
 
-    this->num_distinct        = that.num_distinct;
-    this->num_allocated       = that.num_distinct;
-    this->pfactors_and_counts = new factor_and_count_t[that.num_distinct];
-    for (int i = 0; i < that.num_distinct; i++) {
-      this->pfactors_and_counts[i] = that.pfactors_and_counts[i];
-    }
-    this->have_unit = that.have_unit;
-    this->unit      = that.unit;
+    tfacinfo<element_type> temp(that);
+    this->unit          = temp.unit;
+    this->have_unit     = temp.have_unit;
+    this->num_distinct  = temp.num_distinct;
+    this->num_allocated = temp.num_allocated;
+    this->pfactors_and_counts.swap(temp.pfactors_and_counts);
+    return *this;
   }
 
   // ----------------------------------------------------------------
   ~tfacinfo(void) {
-    if (this->pfactors_and_counts) {
-      delete[] this->pfactors_and_counts;
-    }
     this->num_distinct        = 0;
     this->num_allocated       = 0;
-    this->pfactors_and_counts = 0;
     this->have_unit           = 0;
   }
 
@@ -224,24 +221,26 @@ public:
       return;
     }
 
-    // Need to resize the array?
-    if (this->num_distinct >= this->num_allocated) {
-      factor_and_count_t *temp = this->pfactors_and_counts;
-      this->num_allocated += TFACINFO_INCR_LENGTH;
-      this->pfactors_and_counts = new factor_and_count_t[this->num_allocated];
-      for (int i = 0; i < this->num_distinct; i++) {
-        this->pfactors_and_counts[i] = temp[i];
-      }
-    }
-
     // Insert a new factor.  The find() method has returned the correct
-    // insertion point.
-    for (int i = this->num_distinct; i > idx; i--) {
-      this->pfactors_and_counts[i] = this->pfactors_and_counts[i - 1];
+    // insertion point.  The new list is built aside, so that the old one is
+    // intact if copying an element fails.
+    int new_num_allocated = this->num_allocated;
+    if (this->num_distinct >= new_num_allocated) {
+      new_num_allocated = this->num_distinct + TFACINFO_INCR_LENGTH;
+    }
+    spffl::base::owned_array_t<factor_and_count_t> temp(
+        new factor_and_count_t[new_num_allocated]);
+    for (int i = 0; i < idx; i++) {
+      temp[i] = this->pfactors_and_counts[i];
+    }
+    temp[idx].factor = e;
+    temp[idx].count  = count;
+    for (int i = idx; i < this->num_distinct; i++) {
+      temp[i + 1] = this->pfactors_and_counts[i];
     }
 
-    this->pfactors_and_counts[idx].factor = e;
-    this->pfactors_and_counts[idx].count  = count;
+    this->pfactors_and_counts.swap(temp);
+    this->num_allocated = new_num_allocated;
     this->num_distinct++;
   }
 
-- 
2.43.0


From 4cd97df39b762e576ab0095384d3cd9be538142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:24 +0000
Subject: [PATCH 18/54] fix: a read error on standard input is taken for the
 end of the matrix; matrix-order commands ignore a failed read

---
 cli/spiff/f2_handlers.cpp         | 5 ++++-
 cli/spiff/f2_polymod_handlers.cpp | 5 ++++-
 cli/spiff/fp_handlers.cpp         | 5 ++++-
 cli/spiff/fp_polymod_handlers.cpp | 5 ++++-
 spffl/bits/bit_matrix_t.cpp       | 4 +++-
 spffl/containers/tmatrix.h        | 4 +++-
 spffl/containers/tvector.h        | 4 +++-
 7 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/cli/spiff/f2_handlers.cpp b/cli/spiff/f2_handlers.cpp
index 0d5ed80..1a00f62 100644
--- a/cli/spiff/f2_handlers.cpp
+++ b/cli/spiff/f2_handlers.cpp
@@ -87,7 +87,10 @@ int f2_mat_ord_main(int argc, char **argv, usage_t *pusage) {
   spffl::bits::bit_t one(1);
 
   A = zero;
-  std::cin >> A;
+  if (!A.load_from_file((char *)"-")) {
+    std::cerr << argv[0] << ": couldn't read matrix from standard input.\n";
+    return 1;
+  }
   spffl::bits::bit_t d = A.det();
 
   if (d == zero) {
diff --git a/cli/spiff/f2_polymod_handlers.cpp b/cli/spiff/f2_polymod_handlers.cpp
index 8ca3f67..2223d3c 100644
--- a/cli/spiff/f2_polymod_handlers.cpp
+++ b/cli/spiff/f2_polymod_handlers.cpp
@@ -584,7 +584,10 @@ int f2_pm_mat_ord_main(int argc, char **argv, usage_t *pusage) {
   spffl::polynomials::f2_polymod_t one(spffl::polynomials::f2_poly_t(1), m);
 
   A = zero;
-  std::cin >> A;
+  if (!A.load_from_file((char *)"-")) {
+    std::cerr << argv[0] << ": couldn't read matrix from standard input.\n";
+    return 1;
+  }
   spffl::polynomials::f2_polymod_t d = A.det();
 
   if (d == zero) {
diff --git a/cli/spiff/fp_handlers.cpp b/cli/spiff/fp_handlers.cpp
index 9172113..29e941e 100644
--- a/cli/spiff/fp_handlers.cpp
+++ b/cli/spiff/fp_handlers.cpp
@@ -472,7 +472,10 @@ int fp_mat_ord_main(int argc, char **argv, usage_t *pusage) {
   spffl::intmath::intmod_t one(1, p);
 
   A = zero;
-  std::cin >> A;
+  if (!A.load_from_file((char *)"-")) {
+    std::cerr << argv[0] << ": couldn't read matrix from standard input.\n";
+    return 1;
+  }
   spffl::intmath::intmod_t d = A.det();
 
   if (d == zero) {
diff --git a/cli/spiff/fp_polymod_handlers.cpp b/cli/spiff/fp_polymod_handlers.cpp
index 3e775ba..4129a6d 100644
--- a/cli/spiff/fp_polymod_handlers.cpp
+++ b/cli/spiff/fp_polymod_handlers.cpp
@@ -268,7 +268,10 @@ int fp_pm_mat_ord_main(int argc, char **argv, usage_t *pusage) {
 
   tmatrix<spffl::polynomials::fp_polymod_t> A;
   A = zero;
-  std::cin >> A;
+  if (!A.load_from_file((char *)"-")) {
+    std::cerr << argv[0] << ": couldn't read matrix from standard input.\n";
+    return 1;
+  }
   spffl::polynomials::fp_polymod_t d = A.det();
 
   if (d == zero) {
diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 90d421d..c81f7e0 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -7,6 +7,7 @@
 #include "spffl/bits/bit_matrix_t.h"
 #include "spffl/base/line_scan.h"
 #include "spffl/base/spffl_exception.h"
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
@@ -85,7 +86,8 @@ bit_matrix_t::~bit_matrix_t(void) { this->mfree(); }
 bool bit_matrix_t::load_from_file(char *file_name) {
   if ((strcmp(file_name, "-") == 0) || (strcmp(file_name, "@") == 0)) {
     std::cin >> *this;
-    if (std::cin.fail()) {
+    // Standard input shows a read error as an end of file, except here.
+    if (std::cin.fail() || ferror(stdin)) {
       return false;
     } else {
       return true;
diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 7a67912..31615ff 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -14,6 +14,7 @@
 #include "spffl/containers/tvector.h"
 #include "spffl/intmath/int_gcd.h"
 #include <iostream>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -117,7 +118,8 @@ public:
   bool load_from_file(char *file_name) {
     if ((strcmp(file_name, "-") == 0) || (strcmp(file_name, "@") == 0)) {
       std::cin >> *this;
-      if (std::cin.fail()) {
+      // Standard input shows a read error as an end of file, except here.
+      if (std::cin.fail() || ferror(stdin)) {
         return false;
       } else {
         return true;
diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 5ea470f..13c9677 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -12,6 +12,7 @@
 #include <fstream>
 #include <iostream>
 #include <sstream>
+#include <stdio.h>
 #include <string.h>
 template <class element_type> class tvector;
 template <class element_type> class tmatrix;
@@ -160,7 +161,8 @@ public:
   bool load_from_file(char *file_name) {
     if ((strcmp(file_name, "-") == 0) || (strcmp(file_name, "@") == 0)) {
       std::cin >> *this;
-      if (std::cin.fail()) {
+      // Standard input shows a read error as an end of file, except here.
+      if (std::cin.fail() || ferror(stdin)) {
         return false;
       } else {
         return true;
-- 
2.43.0


From f8afb868dfa4725d5bffab0253a8aa9be841ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:57 +0000
Subject: [PATCH 19/54] fix: spiff exits with status 0 whatever happened,
 including after errors and when its output was lost

---
 cli/spiff/spiff_main.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/cli/spiff/spiff_main.cpp b/cli/spiff/spiff_main.cpp
index ff535cd..066c047 100644
--- a/cli/spiff/spiff_main.cpp
+++ b/cli/spiff/spiff_main.cpp
@@ -24,7 +24,10 @@
 #include "spffl/base/spffl_exception.h"
 #include "spffl/cli_parser/cmd_interp.h"
 
+#include <exception>
 #include <iostream>
+#include <stdio.h>
+#include <string.h>
 #include <string>
 #include <vector>
 
@@ -292,7 +295,7 @@ static int try_main(int argc, char **argv) {
         std::cout << "  " << it2->name << "\n";
       }
     }
-    exit(0);
+    return 0;
   }
 
   for (auto it = lookup_groups.begin(); it != lookup_groups.end(); it++) {
@@ -309,10 +312,19 @@ static int try_main(int argc, char **argv) {
 }
 
 int main(int argc, char **argv) {
+  char *exename = argv[0];
+  int rv        = 1;
   try {
-    try_main(argc, argv);
-  } catch (spffl::exception_t e) {
+    rv = try_main(argc, argv);
+  } catch (const std::exception &e) {
     std::cerr << e.what() << "\n";
   }
-  return 0;
+
+  // What was printed counts only once it has been written.
+  std::cout.flush();
+  if (std::cout.fail() || fflush(stdout) != 0 || ferror(stdout)) {
+    std::cerr << exename << ": couldn't write standard output.\n";
+    rv = 1;
+  }
+  return rv;
 }
-- 
2.43.0


From a957658f4dd40834252b2c5c88ee18421c51a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:23 +0000
Subject: [PATCH 20/54] fix: braced sub-commands: long lines split in two,
 shell characters interpreted, failures and read errors ignored

---
 spffl/cli_parser/cmd_interp.cpp | 108 +++++++++++++++++---------------
 1 file changed, 59 insertions(+), 49 deletions(-)

diff --git a/spffl/cli_parser/cmd_interp.cpp b/spffl/cli_parser/cmd_interp.cpp
index 942882b..78d8508 100644
--- a/spffl/cli_parser/cmd_interp.cpp
+++ b/spffl/cli_parser/cmd_interp.cpp
@@ -1,11 +1,9 @@
 #include "spffl/base/spffl_exception.h"
 #include "spffl/base/tokenize.h"
 #include <iostream>
-#include <stdio.h> // For perror
-#include <stdlib.h>
+#include <stdio.h>
 #include <string.h>
-#include <sys/types.h>
-#include <unistd.h>
+#include <string>
 
 namespace spffl::cli_parser {
 
@@ -63,74 +61,82 @@ static void find_matching_right_bracket(
 }
 
 // ----------------------------------------------------------------
-// The caller must free the return value.
-static char *flatten(char *exename, int argc, char **argv) {
-  int len = strlen(exename) + 1;
-  for (int argi = 0; argi < argc; argi++) {
-    len += strlen(argv[argi]) + 1;
-  }
-  char *rv = (char *)malloc(len);
-  if (rv == 0) {
-    std::stringstream ss;
-    ss << "malloc(" << len << ") failed.\n";
-    throw spffl::exception_t(ss.str());
+// Quotes a command-line argument so that the shell passes it on as it is.
+static void append_quoted(std::string &cmd, const char *arg) {
+  cmd += '\'';
+  for (const char *p = arg; *p; p++) {
+    if (*p == '\'') {
+      cmd += "'\\''";
+    } else {
+      cmd += *p;
+    }
   }
-  strcpy(rv, exename);
+  cmd += '\'';
+}
+
+// ----------------------------------------------------------------
+static std::string flatten(char *exename, int argc, char **argv) {
+  std::string rv;
+  append_quoted(rv, exename);
   for (int argi = 0; argi < argc; argi++) {
-    strcat(rv, " ");
-    strcat(rv, argv[argi]);
+    rv += ' ';
+    append_quoted(rv, argv[argi]);
   }
   return rv;
 }
 
 // ----------------------------------------------------------------
-static void replace(
-    char *exename, int argcin, char **argvin, int &argcout, char **&argvout) {
-  char *flat_cmd = flatten(exename, argcin, argvin);
-
-  FILE *pipe = popen(flat_cmd, "r");
+// Runs the command and returns all of its output.
+static std::string run(const std::string &flat_cmd) {
+  FILE *pipe = popen(flat_cmd.c_str(), "r");
   if (pipe == 0) {
     std::stringstream ss;
     ss << "Failed popen \"" << flat_cmd << "\".\n";
     throw spffl::exception_t(ss.str());
   }
 
-  char line[4096];
-  int totlen = 0;
-  char *buf  = 0;
-  while (fgets(line, sizeof(line), pipe)) {
-    int curlen = strlen(line);
-    if (line[curlen - 1] == '\n') {
-      line[curlen - 1] = 0;
-      curlen--;
-    }
-    if (buf == 0) {
-      buf = (char *)malloc(curlen + 1);
-      strcpy(buf, line);
-      totlen = curlen + 1;
-    } else {
-      buf = (char *)realloc(buf, totlen + curlen + 2);
-      strcat(buf, " ");
-      strcat(buf, line);
-      totlen += curlen + 2;
+  std::string output;
+  bool read_error = false;
+  try {
+    char chunk[4096];
+    size_t len;
+    while ((len = fread(chunk, 1, sizeof(chunk), pipe)) > 0) {
+      output.append(chunk, len);
     }
+    read_error = ferror(pipe);
+  } catch (...) {
+    pclose(pipe);
+    throw;
   }
-  pclose(pipe);
 
-  if (buf == 0) {
-      buf = strdup("");
+  int status = pclose(pipe);
+  if (read_error || status != 0) {
+    std::stringstream ss;
+    ss << "Failed command \"" << flat_cmd << "\".\n";
+    throw spffl::exception_t(ss.str());
   }
+  return output;
+}
+
+// ----------------------------------------------------------------
+static void replace(
+    char *exename, int argcin, char **argvin, int &argcout, char **&argvout) {
+  const char *seps   = " \t\n";
+  std::string output = run(flatten(exename, argcin, argvin));
 
-  argcout = spffl::base::count_tokens(buf, " \t");
-  argvout = (char **)malloc(argcout * sizeof(char *));
+  // The words live as long as the program does, as its arguments do.
+  char *buf = new char[output.length() + 1];
+  strcpy(buf, output.c_str());
 
-  int check = spffl::base::tokenize(buf, " \t", argvout, argcout);
+  argcout = spffl::base::count_tokens(buf, seps);
+  argvout = new char *[argcout];
+
+  int check = spffl::base::tokenize(buf, seps, argvout, argcout);
   if (check != argcout) {
     std::stringstream ss;
     ss << "Coding error in replace.\n";
     throw spffl::exception_t(ss.str());
   }
-  // buf is not freed since argvout points into it.
 }
 
 // ----------------------------------------------------------------
@@ -170,7 +176,7 @@ static void cmd_interpolate_once(
   replace(exename, righti - lefti - 1, &argv[lefti + 1], argcout, argvout);
 
   int newargc    = lefti + argcout + argc - righti - 1;
-  char **newargv = (char **)malloc(newargc * sizeof(char *));
+  char **newargv = new char *[newargc + 1];
   int si, di = 0;
   for (si = 0; si < lefti; si++, di++) {
     newargv[di] = argv[si];
@@ -182,6 +188,10 @@ static void cmd_interpolate_once(
     newargv[di] = argv[si];
   }
 
+  newargv[newargc] = 0;
+
+  delete[] argvout;
+
   argc         = newargc;
   argv         = newargv;
   interpolated = 1;
-- 
2.43.0


From 0971284562a7acdb14656cc4af26e4ff9eb5a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 21/54] fix: short, interrupted and failed reads of the random
 device yield words it did not supply

---
 spffl/random/int_random.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/spffl/random/int_random.cpp b/spffl/random/int_random.cpp
index 8774925..bcf540f 100644
--- a/spffl/random/int_random.cpp
+++ b/spffl/random/int_random.cpp
@@ -7,6 +7,7 @@
 #include "spffl/random/int_random.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/bitrand/psdes.h"
+#include <errno.h>
 #include <fcntl.h>
 #include <iostream>
 #include <sys/stat.h>
@@ -35,6 +36,7 @@ int get_random_int(void) {
   static int fd = -1;
   static int buf[BUFSZ];
   static int bufpos = 0;
+  static int buflen = 0;
   int rv;
   if (fd == -1) {
     fd = open("/dev/urandom", O_RDONLY);
@@ -45,18 +47,29 @@ int get_random_int(void) {
     }
   }
 
-  if (bufpos == 0) {
-    if (read(fd, buf, BUFSZ * sizeof(int)) < 0) {
-      std::stringstream ss;
-      ss << "Couldn't read /dev/urandom.\n";
-      throw spffl::exception_t(ss.str());
-    }
+  if (bufpos >= buflen) {
+    // The device may deliver less than was asked for.  Read on until there are
+    // whole words.
+    size_t numbytes = 0;
+    bufpos          = 0;
+    buflen          = 0;
+    do {
+      ssize_t numread =
+          read(fd, (char *)buf + numbytes, sizeof(buf) - numbytes);
+      if (numread < 0 && errno == EINTR) {
+        continue;
+      }
+      if (numread <= 0) {
+        std::stringstream ss;
+        ss << "Couldn't read /dev/urandom.\n";
+        throw spffl::exception_t(ss.str());
+      }
+      numbytes += numread;
+    } while (numbytes % sizeof(int) != 0 || numbytes == 0);
+    buflen = numbytes / sizeof(int);
   }
   rv = buf[bufpos];
   bufpos++;
-  if (bufpos >= BUFSZ) {
-    bufpos = 0;
-  }
   return rv;
 }
 #else
-- 
2.43.0


From 0ce95ce6a3e590efda0ff87ab453b4120f6d330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 22/54] fix: discrete logarithms leak their tables when they
 fail

---
 spffl/units/f2_polymod_units.cpp  | 7 +++----
 spffl/units/f2n_polymod_units.cpp | 7 +++----
 spffl/units/fp_units.cpp          | 7 +++----
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/spffl/units/f2_polymod_units.cpp b/spffl/units/f2_polymod_units.cpp
index a7ffc99..918ab9b 100644
--- a/spffl/units/f2_polymod_units.cpp
+++ b/spffl/units/f2_polymod_units.cpp
@@ -5,6 +5,7 @@
 // ================================================================
 
 #include "spffl/units/f2_polymod_units.h"
+#include "spffl/base/owned_array.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/containers/tfacinfo.h"
 #include "spffl/containers/tvector.h"
@@ -230,8 +231,8 @@ int f2_polymod_log( // Log base g of a.
   // xxx check gcd(g, m)
   // xxx check gcd(g, a)
 
-  poly_and_index_t *agni = new poly_and_index_t[k];
-  poly_and_index_t *gkj  = new poly_and_index_t[k];
+  spffl::base::owned_array_t<poly_and_index_t> agni(new poly_and_index_t[k]);
+  spffl::base::owned_array_t<poly_and_index_t> gkj(new poly_and_index_t[k]);
 
   spffl::polynomials::f2_polymod_t ginv;
   if (!g.recip(ginv)) {
@@ -279,8 +280,6 @@ int f2_polymod_log( // Log base g of a.
     throw spffl::exception_t(ss.str());
   }
 
-  delete[] agni;
-  delete[] gkj;
   return rv;
 }
 
diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index a48abaf..f830a11 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -5,6 +5,7 @@
 // ================================================================
 
 #include "spffl/units/f2n_polymod_units.h"
+#include "spffl/base/owned_array.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/containers/tfacinfo.h"
 #include "spffl/containers/tvector.h"
@@ -132,8 +133,8 @@ int f2n_polymod_log( // Log base g of a.
   // xxx check gcd(g, m)
   // xxx check gcd(g, a)
 
-  poly_and_index_t *agni = new poly_and_index_t[k];
-  poly_and_index_t *gkj  = new poly_and_index_t[k];
+  spffl::base::owned_array_t<poly_and_index_t> agni(new poly_and_index_t[k]);
+  spffl::base::owned_array_t<poly_and_index_t> gkj(new poly_and_index_t[k]);
 
   spffl::polynomials::f2n_polymod_t ginv;
   if (!g.recip(ginv)) {
@@ -194,8 +195,6 @@ int f2n_polymod_log( // Log base g of a.
     throw spffl::exception_t(ss.str());
   }
 
-  delete[] agni;
-  delete[] gkj;
   return rv;
 }
 
diff --git a/spffl/units/fp_units.cpp b/spffl/units/fp_units.cpp
index b1c5fd6..7cec24a 100644
--- a/spffl/units/fp_units.cpp
+++ b/spffl/units/fp_units.cpp
@@ -5,6 +5,7 @@
 // ================================================================
 
 #include "spffl/units/fp_units.h"
+#include "spffl/base/owned_array.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/containers/tfacinfo.h"
 #include "spffl/containers/tvector.h"
@@ -111,8 +112,8 @@ int fp_log( // Log base g of a.
   // xxx check gcd(g, p)
   // xxx check gcd(g, a)
 
-  poly_and_index_t *agni = new poly_and_index_t[k];
-  poly_and_index_t *gkj  = new poly_and_index_t[k];
+  spffl::base::owned_array_t<poly_and_index_t> agni(new poly_and_index_t[k]);
+  spffl::base::owned_array_t<poly_and_index_t> gkj(new poly_and_index_t[k]);
 
   spffl::intmath::intmod_t ginv;
   if (!g.recip(ginv)) {
@@ -160,8 +161,6 @@ int fp_log( // Log base g of a.
     throw spffl::exception_t(ss.str());
   }
 
-  delete[] agni;
-  delete[] gkj;
   return rv % spffl::intmath::int_totient(p);
 }
 
-- 
2.43.0


From 308ed15bec0c296b4b45b580455e1dcfe5b3d9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:39 +0000
Subject: [PATCH 23/54] fix: modular inverses and cyclotomic polynomials race
 on tables shared by all threads

---
 spffl/intmath/intmod_t.cpp        |  5 ++--
 spffl/q_cyclotomic/cyclo_poly.cpp | 47 +++++++++++++++++++++----------
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 4ca4b6c..bd8e267 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -346,8 +346,9 @@ bool intmod_t::recip(intmod_t &rinv) const {
     }
   }
 
-  static int mlast = 2;
-  static int phi   = 1;
+  // Each thread remembers its own.
+  static thread_local int mlast = 2;
+  static thread_local int phi   = 1;
   if (this->modulus != mlast) { // Cache
     mlast = this->modulus;
     phi   = int_totient(this->modulus);
diff --git a/spffl/q_cyclotomic/cyclo_poly.cpp b/spffl/q_cyclotomic/cyclo_poly.cpp
index 6207643..c80f651 100644
--- a/spffl/q_cyclotomic/cyclo_poly.cpp
+++ b/spffl/q_cyclotomic/cyclo_poly.cpp
@@ -6,6 +6,7 @@
 // E.g.  Phi_8(x) = (x^8 - 1) / (Phi_1(x) * Phi_2(x) * Phi_4(x)).
 
 #include <iostream>
+#include <mutex>
 #include <string>
 
 #include "spffl/base/spffl_exception.h"
@@ -17,6 +18,32 @@ namespace spffl::q_cyclotomic {
 #define CYCLO_MEMO_MAX 16
 static int memo_flags[CYCLO_MEMO_MAX + 1] = {0};
 static spffl::polynomials::q_poly_t memo_data[CYCLO_MEMO_MAX + 1];
+static std::mutex memo_mutex; // Guards the above.
+
+// ----------------------------------------------------------------
+static bool memo_get(int n, spffl::polynomials::q_poly_t &rv) {
+  if (n > CYCLO_MEMO_MAX) {
+    return false;
+  }
+  std::lock_guard<std::mutex> guard(memo_mutex);
+  if (!memo_flags[n]) {
+    return false;
+  }
+  rv = memo_data[n];
+  return true;
+}
+
+// ----------------------------------------------------------------
+static void memo_put(int n, const spffl::polynomials::q_poly_t &rv) {
+  if (n > CYCLO_MEMO_MAX) {
+    return;
+  }
+  std::lock_guard<std::mutex> guard(memo_mutex);
+  if (!memo_flags[n]) {
+    memo_data[n]  = rv;
+    memo_flags[n] = 1;
+  }
+}
 
 // ----------------------------------------------------------------
 spffl::polynomials::q_poly_t get_cyclo_qpoly(int n) {
@@ -32,16 +59,13 @@ spffl::polynomials::q_poly_t get_cyclo_qpoly(int n) {
     throw spffl::exception_t(ss.str());
   }
 
-  if ((n <= CYCLO_MEMO_MAX) && (memo_flags[n])) {
-    return memo_data[n];
+  if (memo_get(n, rv)) {
+    return rv;
   }
 
   if (n == 1) {
     rv = spffl::polynomials::q_poly_t(1, -1);
-    if (n <= CYCLO_MEMO_MAX) {
-      memo_data[n]  = rv;
-      memo_flags[n] = 1;
-    }
+    memo_put(n, rv);
     return rv;
   }
 
@@ -54,11 +78,7 @@ spffl::polynomials::q_poly_t get_cyclo_qpoly(int n) {
       continue;
     }
 
-    if ((d <= CYCLO_MEMO_MAX) && (memo_flags[d])) {
-      dth = memo_data[d];
-    } else {
-      dth = get_cyclo_qpoly(d);
-    }
+    dth = get_cyclo_qpoly(d);
 
     rv.quot_and_rem(dth, rv, rem);
     if (rem != zero) {
@@ -68,10 +88,7 @@ spffl::polynomials::q_poly_t get_cyclo_qpoly(int n) {
     }
   }
 
-  if (n <= CYCLO_MEMO_MAX) {
-    memo_data[n]  = rv;
-    memo_flags[n] = 1;
-  }
+  memo_put(n, rv);
 
   return rv;
 }
-- 
2.43.0


From 6b130f97b2fd96c635d90a7d1d62559623ee8f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:20 +0000
Subject: [PATCH 24/54] fix: setting a coefficient of degree 31 or more of an
 F2 polynomial changes others

---
 spffl/polynomials/f2_poly_t.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index f428664..22f282a 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -778,9 +778,9 @@ void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
   }
   this->check_neg_pos(pos);
   if (b.get_residue()) {
-    this->parts[which_part] |= (1 << which_bit);
+    this->parts[which_part] |= (F2_POLY_LSB << which_bit);
   } else {
-    this->parts[which_part] &= ~(1 << which_bit);
+    this->parts[which_part] &= ~(F2_POLY_LSB << which_bit);
     this->trim_parts();
   }
 }
-- 
2.43.0


From f7a7de41f53bbd0246e3f959868316c4391bb120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:21 +0000
Subject: [PATCH 25/54] fix: multiplying a zero F2 polynomial got as a product
 writes past the end of the result

---
 spffl/polynomials/f2_poly_t.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index 22f282a..90a3234 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -153,6 +153,8 @@ f2_poly_t f2_poly_t::operator*(const f2_poly_t &that) const {
     }
     ashift._promote_1();
   }
+  // A zero factor leaves words beyond those of the degree.
+  out.trim_parts();
   return out;
 }
 
-- 
2.43.0


From 1c6624097ab10f6214667b5e92ca9bc45197de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:21 +0000
Subject: [PATCH 26/54] fix: printing a long F2 polynomial leaves the stream's
 fill character changed

---
 spffl/polynomials/f2_poly_t.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index 90a3234..2139b10 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -525,6 +525,7 @@ std::ostream &operator<<(std::ostream &os, const f2_poly_t &poly) {
     throw spffl::exception_t(ss.str());
   }
   std::ios_base::fmtflags svflags = os.flags();
+  char svfill                     = os.fill();
   os.flags(std::ios_base::hex);
   int i;
   int leader_pos = 0;
@@ -544,12 +545,14 @@ std::ostream &operator<<(std::ostream &os, const f2_poly_t &poly) {
       os << poly.parts[i];
     }
   }
+  os.fill(svfill);
   os.flags(svflags);
   return os;
 }
 // ----------------------------------------------------------------
 void f2_poly_t::debug_print(std::ostream &os) {
   std::ios_base::fmtflags svflags = os.flags();
+  char svfill                     = os.fill();
   os.flags(std::ios_base::hex);
   for (int i = this->parts.size() - 1; i >= 0; i--) {
     os << std::setw(F2_POLY_NYBBLES_PER_PART) << std::setfill('0');
@@ -558,6 +561,7 @@ void f2_poly_t::debug_print(std::ostream &os) {
       os << '_';
     }
   }
+  os.fill(svfill);
   os.flags(svflags);
 }
 // ----------------------------------------------------------------
-- 
2.43.0


From f7a49d7053754a06a4332436d80d3cb4133e626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:21 +0000
Subject: [PATCH 27/54] fix: reading a negative residue leaves it negative, so
 it compares unequal to itself

---
 spffl/intmath/intmod_t.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index bd8e267..919274c 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -86,8 +86,10 @@ std::istream &operator>>(std::istream &is, intmod_t &a) {
   }
 
   a.check_modulus();
-  is >> a.residue;
-  a.residue %= a.modulus;
+  int r;
+  if (is >> r) {
+    a = intmod_t(r, a.modulus);
+  }
   return is;
 }
 
-- 
2.43.0


From 79d024d78d74026a87e6f13d3cce4587ea1d44af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 28/54] fix: z_op killed by a signal, without a message, when
 dividing by zero

---
 spffl/cli_parser/cmd_line_ops.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index 0ba4e79..4f7a179 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -21,8 +21,10 @@
 #include "spffl/base/spffl_exception.h"
 #include "spffl/containers/tstack.h"
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string.h>
+#include <type_traits>
 
 namespace spffl::cli_parser {
 
@@ -241,6 +243,23 @@ static void lexan(lex_ctx_t<element_type> &rlex_ctx) {
   rlex_ctx.argi++;
 }
 
+// ----------------------------------------------------------------
+// The other types' own division operators throw; the built-in one traps.
+template <class element_type>
+static void check_division(const element_type &a, const element_type &b) {
+  if constexpr (std::is_integral_v<element_type>) {
+    std::stringstream ss;
+    if (b == 0) {
+      ss << "Division by zero.\n";
+      throw spffl::exception_t(ss.str());
+    }
+    if (b == -1 && a == std::numeric_limits<element_type>::min()) {
+      ss << "Can't divide MIN_INT by -1.\n";
+      throw spffl::exception_t(ss.str());
+    }
+  }
+}
+
 // ----------------------------------------------------------------
 template <class element_type>
 element_type clo_exp(
@@ -272,6 +291,7 @@ element_type clo_exp(
       ss << "Can't handle MIN_INT.\n";
       throw spffl::exception_t(ss.str());
     }
+    check_division(one, x);
     xp = one / x;
     e  = -e;
   }
@@ -388,9 +408,11 @@ static void emit(
     c.type_val = a.type_val * b.type_val;
     break;
   case L_DIV:
+    check_division(a.type_val, b.type_val);
     c.type_val = a.type_val / b.type_val;
     break;
   case L_MOD:
+    check_division(a.type_val, b.type_val);
     c.type_val = a.type_val % b.type_val;
     break;
 
-- 
2.43.0


From 69bc5d234da4d2b22bfe4c4fb521d9a3df23cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:56 +0000
Subject: [PATCH 29/54] fix: destroying a polymod or an F2 polyrat allocates
 memory, so exhaustion there ends the program

---
 spffl/polynomials/f2n_polymod_t.cpp | 6 +-----
 spffl/polynomials/fp_polymod_t.cpp  | 6 +-----
 spffl/polynomials/fpn_polymod_t.cpp | 6 +-----
 spffl/rationals/f2_polyrat_t.cpp    | 5 +----
 4 files changed, 4 insertions(+), 19 deletions(-)

diff --git a/spffl/polynomials/f2n_polymod_t.cpp b/spffl/polynomials/f2n_polymod_t.cpp
index 9ae3b5f..7cacab9 100644
--- a/spffl/polynomials/f2n_polymod_t.cpp
+++ b/spffl/polynomials/f2n_polymod_t.cpp
@@ -33,11 +33,7 @@ f2n_polymod_t::f2n_polymod_t(void) {
 }
 
 // ----------------------------------------------------------------
-f2n_polymod_t::~f2n_polymod_t(void) {
-  f2n_poly_t invalid;
-  this->residue = invalid;
-  this->modulus = invalid;
-}
+f2n_polymod_t::~f2n_polymod_t(void) {}
 
 // ----------------------------------------------------------------
 f2n_polymod_t f2n_polymod_t::prime_subfield_element(int v) const {
diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index eb90b3f..85fe4f7 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -33,11 +33,7 @@ fp_polymod_t::fp_polymod_t(void) {
 }
 
 // ----------------------------------------------------------------
-fp_polymod_t::~fp_polymod_t(void) {
-  fp_poly_t invalid;
-  this->residue = invalid;
-  this->modulus = invalid;
-}
+fp_polymod_t::~fp_polymod_t(void) {}
 
 // ----------------------------------------------------------------
 fp_polymod_t fp_polymod_t::prime_subfield_element(int v) const {
diff --git a/spffl/polynomials/fpn_polymod_t.cpp b/spffl/polynomials/fpn_polymod_t.cpp
index cac4515..b69fc43 100644
--- a/spffl/polynomials/fpn_polymod_t.cpp
+++ b/spffl/polynomials/fpn_polymod_t.cpp
@@ -33,11 +33,7 @@ fpn_polymod_t::fpn_polymod_t(void) {
 }
 
 // ----------------------------------------------------------------
-fpn_polymod_t::~fpn_polymod_t(void) {
-  fpn_poly_t invalid;
-  this->residue = invalid;
-  this->modulus = invalid;
-}
+fpn_polymod_t::~fpn_polymod_t(void) {}
 
 // ----------------------------------------------------------------
 fpn_polymod_t fpn_polymod_t::prime_subfield_element(int v) const {
diff --git a/spffl/rationals/f2_polyrat_t.cpp b/spffl/rationals/f2_polyrat_t.cpp
index e3c2da0..4140137 100644
--- a/spffl/rationals/f2_polyrat_t.cpp
+++ b/spffl/rationals/f2_polyrat_t.cpp
@@ -47,10 +47,7 @@ f2_polyrat_t::f2_polyrat_t(void) {
 }
 
 // ----------------------------------------------------------------
-f2_polyrat_t::~f2_polyrat_t(void) {
-  this->numer = 0;
-  this->denom = 1;
-}
+f2_polyrat_t::~f2_polyrat_t(void) {}
 
 // ----------------------------------------------------------------
 f2_polyrat_t f2_polyrat_t::prime_subfield_element(int v) const {
-- 
2.43.0


From f2e99b4a0a57f0d5644c873d51ecc85db9deb349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:56 +0000
Subject: [PATCH 30/54] fix: three different classes named
 spffl::units::_poly_and_index_t, so the logarithms free one another's tables
 wrongly

---
 spffl/units/f2_polymod_units.cpp  | 2 ++
 spffl/units/f2n_polymod_units.cpp | 2 ++
 spffl/units/fp_units.cpp          | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/spffl/units/f2_polymod_units.cpp b/spffl/units/f2_polymod_units.cpp
index 918ab9b..ed48d76 100644
--- a/spffl/units/f2_polymod_units.cpp
+++ b/spffl/units/f2_polymod_units.cpp
@@ -204,10 +204,12 @@ spffl::polynomials::f2_poly_t f2_poly_random_prim(int degree, int need_irr) {
 //
 // This cuts the naive search (which is O(n)) down to a search of O(sqrt(n)).
 
+namespace {
 typedef struct _poly_and_index_t {
   spffl::polynomials::f2_polymod_t elt;
   int idx;
 } poly_and_index_t;
+} // namespace
 
 static int poly_and_index_qcmp(const void *pv1, const void *pv2) {
   const poly_and_index_t *p1 = (const poly_and_index_t *)pv1;
diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index f830a11..1132b74 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -99,10 +99,12 @@ bool f2n_polymod_find_generator(const spffl::polynomials::f2n_poly_t &m,
 //
 // This cuts the naive search (which is O(n)) down to a search of O(sqrt(n)).
 
+namespace {
 typedef struct _poly_and_index_t {
   spffl::polynomials::f2n_polymod_t elt;
   int idx;
 } poly_and_index_t;
+} // namespace
 
 static int poly_and_index_qcmp(const void *pv1, const void *pv2) {
   const poly_and_index_t *p1 = (const poly_and_index_t *)pv1;
diff --git a/spffl/units/fp_units.cpp b/spffl/units/fp_units.cpp
index 7cec24a..65d1c60 100644
--- a/spffl/units/fp_units.cpp
+++ b/spffl/units/fp_units.cpp
@@ -86,10 +86,12 @@ bool fp_find_generator(int p, spffl::intmath::intmod_t &rg) {
 //
 // This cuts the naive search (which is O(n)) down to a search of O(sqrt(n)).
 
+namespace {
 typedef struct _poly_and_index_t {
   spffl::intmath::intmod_t elt;
   int idx;
 } poly_and_index_t;
+} // namespace
 
 static int poly_and_index_qcmp(const void *pv1, const void *pv2) {
   const poly_and_index_t *p1 = (const poly_and_index_t *)pv1;
-- 
2.43.0


From e30f10bf1a407beef26aa3b663b2d7f63d96f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:56 +0000
Subject: [PATCH 31/54] fix: pasting matrices that are not square writes to the
 wrong columns, or past the row

---
 spffl/containers/tmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 31615ff..5f81e47 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1289,7 +1289,7 @@ public:
     }
     for (i = 0; i < this->num_rows; i++) {
       for (j = 0; j < that.num_cols; j++) {
-        rv.rows[i][this->num_rows + j] = that.rows[i][j];
+        rv.rows[i][this->num_cols + j] = that.rows[i][j];
       }
     }
 
-- 
2.43.0


From ab73a673c6067144e1a789fd172cb7471527dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 32/54] fix: integer extended gcd and lcm divide by zero when
 an argument is zero

---
 spffl/intmath/int_gcd.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index 56017f8..0238546 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -51,6 +51,12 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
   c      = a;
   d      = b;
 
+  if (b == 0) { // a is the gcd; there is nothing to divide by.
+    m = 1;
+    n = 0;
+    return a;
+  }
+
   while (1) {
 
     // Divide
@@ -81,7 +87,12 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
 }
 
 // ----------------------------------------------------------------
-int int_lcm(int a, int b) { return (a * b) / int_gcd(a, b); }
+int int_lcm(int a, int b) {
+  if (a == 0 || b == 0) {
+    return 0;
+  }
+  return (a * b) / int_gcd(a, b);
+}
 
 // ----------------------------------------------------------------
 int gcd(const int a, const int b) { return int_gcd(a, b); }
-- 
2.43.0


From 69f666fe2a22ea7a07fbeccb1efa1973201e21bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 33/54] fix: fp_orbit with modulus zero divides by zero

---
 cli/spiff/fp_handlers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/spiff/fp_handlers.cpp b/cli/spiff/fp_handlers.cpp
index 29e941e..71daa8f 100644
--- a/cli/spiff/fp_handlers.cpp
+++ b/cli/spiff/fp_handlers.cpp
@@ -275,6 +275,10 @@ int fp_orbit_main(int argc, char **argv, usage_t *pusage) {
       pusage(argv[0]);
     }
   }
+  if (p < 1) {
+    std::cerr << "fp_orbit_main: p must be positive.\n";
+    exit(1);
+  }
   if (gcd(a, p) != 1) {
     std::cerr << "fp_orbit_main: a must be coprime to p.\n";
     exit(1);
-- 
2.43.0


From 91c16c5a306e031a67664b6d2875698a83764d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 34/54] fix: find_gen commands that find no generator say
 nothing on standard error

---
 cli/spiff/f2_polymod_handlers.cpp  | 1 +
 cli/spiff/f2n_polymod_handlers.cpp | 1 +
 cli/spiff/fp_handlers.cpp          | 1 +
 3 files changed, 3 insertions(+)

diff --git a/cli/spiff/f2_polymod_handlers.cpp b/cli/spiff/f2_polymod_handlers.cpp
index 2223d3c..72443ab 100644
--- a/cli/spiff/f2_polymod_handlers.cpp
+++ b/cli/spiff/f2_polymod_handlers.cpp
@@ -249,6 +249,7 @@ int f2_pm_find_gen_main(int argc, char **argv, usage_t *pusage) {
       std::cout << g << std::endl;
     } else {
       std::cout << "Generator not found.\n";
+      std::cerr << argv[0] << ": generator not found.\n";
       rv = 1;
     }
   }
diff --git a/cli/spiff/f2n_polymod_handlers.cpp b/cli/spiff/f2n_polymod_handlers.cpp
index 753f510..1687530 100644
--- a/cli/spiff/f2n_polymod_handlers.cpp
+++ b/cli/spiff/f2n_polymod_handlers.cpp
@@ -253,6 +253,7 @@ int f2n_pm_find_gen_main(int argc, char **argv, usage_t *pusage) {
       std::cout << g << "\n";
     } else {
       std::cout << "Generator not found.\n";
+      std::cerr << argv[0] << ": generator not found.\n";
       rv = 1;
     }
   }
diff --git a/cli/spiff/fp_handlers.cpp b/cli/spiff/fp_handlers.cpp
index 71daa8f..09b9e10 100644
--- a/cli/spiff/fp_handlers.cpp
+++ b/cli/spiff/fp_handlers.cpp
@@ -332,6 +332,7 @@ int fp_find_gen_main(int argc, char **argv, usage_t *pusage) {
       std::cout << g << "\n";
     } else {
       std::cout << "Generator not found.\n";
+      std::cerr << argv[0] << ": generator not found.\n";
       rv = 1;
     }
   }
-- 
2.43.0


From 3b1328231b7aadbe8849b8f089644344225acf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 35/54] fix: listing polynomials of negative degree never ends

---
 spffl/list/list_elements.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spffl/list/list_elements.cpp b/spffl/list/list_elements.cpp
index 4830aec..24130a6 100644
--- a/spffl/list/list_elements.cpp
+++ b/spffl/list/list_elements.cpp
@@ -17,6 +17,11 @@ namespace spffl::list {
 
 // ----------------------------------------------------------------
 tvector<spffl::polynomials::f2_poly_t> f2_poly_list(int deg) {
+  if (deg < 0) {
+    std::stringstream ss;
+    ss << "f2_poly_list:  degree must be non-negative; got " << deg << ".\n";
+    throw spffl::exception_t(ss.str());
+  }
   int nel = 1 << deg;
   tvector<spffl::polynomials::f2_poly_t> rv(nel);
 
@@ -60,6 +65,11 @@ tvector<spffl::polynomials::f2n_poly_t> f2n_poly_list(
 
 // ----------------------------------------------------------------
 tvector<spffl::polynomials::fp_poly_t> fp_poly_list(int p, int deg) {
+  if (deg < 0) {
+    std::stringstream ss;
+    ss << "fp_poly_list:  degree must be non-negative; got " << deg << ".\n";
+    throw spffl::exception_t(ss.str());
+  }
   int nel = (p - 1) * spffl::intmath::int_power(p, deg);
   tvector<spffl::polynomials::fp_poly_t> rv(nel);
 
-- 
2.43.0


From bf7e8189158132e0c241acd9db73ee06538ac790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 36/54] fix: minimal and characteristic polynomials modulo a
 repeated factor never end

---
 spffl/linalg/min_char_polys.cpp | 63 ++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/spffl/linalg/min_char_polys.cpp b/spffl/linalg/min_char_polys.cpp
index 8981895..2057fc2 100644
--- a/spffl/linalg/min_char_polys.cpp
+++ b/spffl/linalg/min_char_polys.cpp
@@ -13,44 +13,51 @@
 namespace spffl::linalg {
 
 // ----------------------------------------------------------------
-int f2_polymod_frobenius_length(spffl::polynomials::f2_polymod_t a) {
-  int rv                              = 0;
-  spffl::polynomials::f2_polymod_t ap = a;
-
-  do {
+// The number of steps until a comes back.  It need not come back when the
+// modulus has a repeated factor; then the steps run into some other cycle.
+template <typename element_t, typename step_t>
+static int steps_until_back(const element_t &a, step_t step) {
+  int rv         = 0;
+  element_t ap   = a;
+  element_t mark = a;
+  int next_mark  = 1;
+
+  while (1) {
     rv++;
-    ap = ap * ap;
-  } while (ap != a);
+    ap = step(ap);
+    if (ap == a) {
+      return rv;
+    }
+    if (ap == mark) {
+      std::stringstream ss;
+      ss << "Element " << a << " is not a Frobenius power of itself.\n";
+      throw spffl::exception_t(ss.str());
+    }
+    if (rv == next_mark) {
+      mark = ap;
+      next_mark *= 2;
+    }
+  }
+}
 
-  return rv;
+// ----------------------------------------------------------------
+int f2_polymod_frobenius_length(spffl::polynomials::f2_polymod_t a) {
+  return steps_until_back(
+      a, [](spffl::polynomials::f2_polymod_t ap) { return ap * ap; });
 }
 
 // ----------------------------------------------------------------
 int f2npm_froblen(spffl::polynomials::f2n_polymod_t a) {
-  int rv = 0;
-  int q  = 1 << a.get_residue().get_coeff(0).get_modulus().find_degree();
-  spffl::polynomials::f2n_polymod_t ap = a;
-
-  do {
-    rv++;
-    ap = ap.exp(q);
-  } while (ap != a);
-
-  return rv;
+  int q = 1 << a.get_residue().get_coeff(0).get_modulus().find_degree();
+  return steps_until_back(
+      a, [q](spffl::polynomials::f2n_polymod_t ap) { return ap.exp(q); });
 }
 
 // ----------------------------------------------------------------
 int fp_polymod_frobenius_length(spffl::polynomials::fp_polymod_t a) {
-  int rv                              = 0;
-  int p                               = a.get_characteristic();
-  spffl::polynomials::fp_polymod_t ap = a;
-
-  do {
-    rv++;
-    ap = ap.exp(p);
-  } while (ap != a);
-
-  return rv;
+  int p = a.get_characteristic();
+  return steps_until_back(
+      a, [p](spffl::polynomials::fp_polymod_t ap) { return ap.exp(p); });
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From cc8c45825adf90db4f415c0d181d44df9567b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:59 +0000
Subject: [PATCH 37/54] fix: rational readers accept text that is not a number,
 or never end

---
 spffl/intmath/intrat_t.cpp        | 23 +++++++++++++----------
 spffl/rationals/f2_polyrat_t.cpp  | 23 +++++++++++++----------
 spffl/rationals/f2n_polyrat_t.cpp | 23 +++++++++++++----------
 spffl/rationals/fp_polyrat_t.cpp  | 23 +++++++++++++----------
 4 files changed, 52 insertions(+), 40 deletions(-)

diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index 14bd838..251d849 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -189,15 +189,16 @@ std::istream &operator>>(std::istream &is, intrat_t &a) {
   }
 
   is >> a.numer;
-  if (is.eof()) {
-    a.denom = 1;
+  if (is.fail()) {
+    return is;
   }
-  if (is.peek() == '/') {
+  if (!is.eof() && (is.peek() == '/')) {
     (void)is.get();
     is >> a.denom;
+    if (is.fail()) {
+      return is;
+    }
   } else {
-    // Clear failure code from not having found the '/'.
-    is.clear();
     a.denom = 1;
   }
   a.simplify();
@@ -222,14 +223,16 @@ std::istringstream &operator>>(std::istringstream &iss, intrat_t &a) {
   }
 
   iss >> a.numer;
-  if (iss.eof()) {
-    a.denom = 1;
-  } else if (iss.peek() == '/') {
+  if (iss.fail()) {
+    return iss;
+  }
+  if (!iss.eof() && (iss.peek() == '/')) {
     (void)iss.get();
     iss >> a.denom;
+    if (iss.fail()) {
+      return iss;
+    }
   } else {
-    // Clear failure code from not having found the '/'.
-    iss.clear();
     a.denom = 1;
   }
   a.simplify();
diff --git a/spffl/rationals/f2_polyrat_t.cpp b/spffl/rationals/f2_polyrat_t.cpp
index 4140137..8d915e1 100644
--- a/spffl/rationals/f2_polyrat_t.cpp
+++ b/spffl/rationals/f2_polyrat_t.cpp
@@ -201,15 +201,16 @@ std::istream &operator>>(std::istream &is, f2_polyrat_t &a) {
   }
 
   is >> a.numer;
-  if (is.eof()) {
-    a.denom = 1;
+  if (is.fail()) {
+    return is;
   }
-  if (is.peek() == '/') {
+  if (!is.eof() && (is.peek() == '/')) {
     (void)is.get();
     is >> a.denom;
+    if (is.fail()) {
+      return is;
+    }
   } else {
-    // Clear failure code from not having found the '/'.
-    is.clear();
     a.denom = 1;
   }
   a.simplify();
@@ -234,14 +235,16 @@ std::istringstream &operator>>(std::istringstream &iss, f2_polyrat_t &a) {
   }
 
   iss >> a.numer;
-  if (iss.eof()) {
-    a.denom = 1;
-  } else if (iss.peek() == '/') {
+  if (iss.fail()) {
+    return iss;
+  }
+  if (!iss.eof() && (iss.peek() == '/')) {
     (void)iss.get();
     iss >> a.denom;
+    if (iss.fail()) {
+      return iss;
+    }
   } else {
-    // Clear failure code from not having found the '/'.
-    iss.clear();
     a.denom = 1;
   }
   a.simplify();
diff --git a/spffl/rationals/f2n_polyrat_t.cpp b/spffl/rationals/f2n_polyrat_t.cpp
index c81e816..eb5ad86 100644
--- a/spffl/rationals/f2n_polyrat_t.cpp
+++ b/spffl/rationals/f2n_polyrat_t.cpp
@@ -200,15 +200,16 @@ std::istream &operator>>(std::istream &is, f2n_polyrat_t &a) {
   }
 
   is >> a.numer;
-  if (is.eof()) {
-    a.denom = a.numer.prime_subfield_element(1);
+  if (is.fail()) {
+    return is;
   }
-  if (is.peek() == '/') {
+  if (!is.eof() && (is.peek() == '/')) {
     (void)is.get();
     is >> a.denom;
+    if (is.fail()) {
+      return is;
+    }
   } else {
-    // Clear failure code from not having found the '/'.
-    is.clear();
     a.denom = a.numer.prime_subfield_element(1);
   }
   a.simplify();
@@ -233,14 +234,16 @@ std::istringstream &operator>>(std::istringstream &iss, f2n_polyrat_t &a) {
   }
 
   iss >> a.numer;
-  if (iss.eof()) {
-    a.denom = a.numer.prime_subfield_element(1);
-  } else if (iss.peek() == '/') {
+  if (iss.fail()) {
+    return iss;
+  }
+  if (!iss.eof() && (iss.peek() == '/')) {
     (void)iss.get();
     iss >> a.denom;
+    if (iss.fail()) {
+      return iss;
+    }
   } else {
-    // Clear failure code from not having found the '/'.
-    iss.clear();
     a.denom = a.numer.prime_subfield_element(1);
   }
   a.simplify();
diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index 7878e52..7db2fec 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -200,15 +200,16 @@ std::istream &operator>>(std::istream &is, fp_polyrat_t &a) {
   }
 
   is >> a.numer;
-  if (is.eof()) {
-    a.denom = a.numer.prime_subfield_element(1);
+  if (is.fail()) {
+    return is;
   }
-  if (is.peek() == '/') {
+  if (!is.eof() && (is.peek() == '/')) {
     (void)is.get();
     is >> a.denom;
+    if (is.fail()) {
+      return is;
+    }
   } else {
-    // Clear failure code from not having found the '/'.
-    is.clear();
     a.denom = a.numer.prime_subfield_element(1);
   }
   a.simplify();
@@ -233,14 +234,16 @@ std::istringstream &operator>>(std::istringstream &iss, fp_polyrat_t &a) {
   }
 
   iss >> a.numer;
-  if (iss.eof()) {
-    a.denom = a.numer.prime_subfield_element(1);
-  } else if (iss.peek() == '/') {
+  if (iss.fail()) {
+    return iss;
+  }
+  if (!iss.eof() && (iss.peek() == '/')) {
     (void)iss.get();
     iss >> a.denom;
+    if (iss.fail()) {
+      return iss;
+    }
   } else {
-    // Clear failure code from not having found the '/'.
-    iss.clear();
     a.denom = a.numer.prime_subfield_element(1);
   }
   a.simplify();
-- 
2.43.0


From d74cd79d4116c340ed58b44b11833013451ffcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:00 +0000
Subject: [PATCH 38/54] fix: polynomial readers take byte 0xff for the end of
 the data

---
 spffl/polynomials/fp_poly_t.cpp | 4 ++--
 spffl/polynomials/q_poly_t.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 9068a52..ef770f0 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -777,7 +777,7 @@ std::ostream &operator<<(std::ostream &os, const fp_poly_t &poly) {
 std::istream &operator>>(std::istream &is, fp_poly_t &poly) {
   int p = poly.get_characteristic();
   std::stringstream ss;
-  char c;
+  int c;
 
   // Skip over whitespace.
   c = is.peek();
@@ -798,7 +798,7 @@ std::istream &operator>>(std::istream &is, fp_poly_t &poly) {
 
   while (isdigit(c) || (c == ',')) {
     c = is.get();
-    ss << c;
+    ss << (char)c;
     c = is.peek();
     if (c == EOF) {
       is.setstate(std::ios::eofbit);
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 73bd433..f66fef5 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -668,7 +668,7 @@ std::ostream &operator<<(std::ostream &os, const q_poly_t &poly) {
 // ----------------------------------------------------------------
 std::istream &operator>>(std::istream &is, q_poly_t &poly) {
   std::stringstream ss;
-  char c;
+  int c;
 
   // Skip over whitespace.
   c = is.peek();
@@ -689,7 +689,7 @@ std::istream &operator>>(std::istream &is, q_poly_t &poly) {
 
   while (isdigit(c) || (c == ',')) {
     c = is.get();
-    ss << c;
+    ss << (char)c;
     c = is.peek();
     if (c == EOF) {
       is.setstate(std::ios::eofbit);
-- 
2.43.0


From 9ca9c57432e5ae2768348a15b860b38c4cbf2337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:50 +0000
Subject: [PATCH 39/54] fix: reading a polynomial over F_2^n from a stream
 never ends

---
 spffl/polynomials/f2n_poly_t.cpp | 42 ++++++++------------------------
 1 file changed, 10 insertions(+), 32 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 690c9bc..cffe712 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -806,44 +806,22 @@ std::istream &operator>>(std::istream &is, f2n_poly_t &poly) {
   f2_poly_t m = poly.coeffs[0].get_modulus();
   poly        = f2n_poly_t(f2_polymod_t(0, m));
 
-  if (m <= 10) {
-    char c;
-    is >> c;
-    if (is.fail()) {
-      std::stringstream ss;
-      ss << "f2n_poly_t: scan failure.\n";
-      return is;
-    }
-    if (!isdigit(c)) {
-      std::stringstream ss;
-      ss << "f2n_poly_t: non-numeric input '" << c << "'\n";
-      return is;
-    }
-    r              = c - '0';
-    poly.coeffs[0] = f2_polymod_t(r, m);
-
-    while (isdigit(is.peek())) {
-      r = c - '0';
-      poly.promote_and_add(f2_polymod_t(r, m));
-    }
-  } else {
+  is >> r;
+  if (is.fail()) {
+    std::stringstream ss;
+    ss << "f2n_poly_t: scan failure.\n";
+    return is;
+  }
+  poly.coeffs[0] = f2_polymod_t(r, m);
+  while (!is.eof() && (is.peek() == ':')) {
+    (void)is.get();
     is >> r;
     if (is.fail()) {
       std::stringstream ss;
       ss << "f2n_poly_t: scan failure.\n";
       return is;
     }
-    poly.coeffs[0] = f2_polymod_t(r, m);
-    while (is.peek() == ':') {
-      (void)is.get();
-      is >> r;
-      if (is.fail()) {
-        std::stringstream ss;
-        ss << "f2n_poly_t: scan failure.\n";
-        return is;
-      }
-      poly.promote_and_add(f2_polymod_t(r, m));
-    }
+    poly.promote_and_add(f2_polymod_t(r, m));
   }
   poly.recompute_degree();
   return is;
-- 
2.43.0


From 2d4f26b9dce6148b5e1e67d0c80823818dfeb46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:50 +0000
Subject: [PATCH 40/54] fix: a row starting with a null character ends the
 matrix silently

---
 spffl/base/line_scan.cpp    | 10 ++++++++++
 spffl/base/line_scan.h      |  5 +++++
 spffl/bits/bit_matrix_t.cpp |  2 +-
 spffl/containers/tmatrix.h  |  2 +-
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/spffl/base/line_scan.cpp b/spffl/base/line_scan.cpp
index b8c6805..e5c3081 100644
--- a/spffl/base/line_scan.cpp
+++ b/spffl/base/line_scan.cpp
@@ -32,4 +32,14 @@ bool is_whitespace_line(char *line) {
   return true;
 }
 
+// ----------------------------------------------------------------
+bool is_whitespace_line(const std::string &line) {
+  for (unsigned char c : line) {
+    if (!isspace(c)) {
+      return false;
+    }
+  }
+  return true;
+}
+
 } // namespace spffl::base
diff --git a/spffl/base/line_scan.h b/spffl/base/line_scan.h
index 520a308..fe0535d 100644
--- a/spffl/base/line_scan.h
+++ b/spffl/base/line_scan.h
@@ -7,6 +7,8 @@
 #ifndef LINESCAN_H
 #define LINESCAN_H
 
+#include <string>
+
 namespace spffl::base {
 
 // Removes trailing CR, if any.  (The name "chomp" comes from Perl.)
@@ -14,6 +16,9 @@ void chomp(char *line);
 
 bool is_whitespace_line(char *line);
 
+// Also looks past any null characters.
+bool is_whitespace_line(const std::string &line);
+
 } // namespace spffl::base
 
 #endif // LINESCAN_H
diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index c81f7e0..313ac57 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -235,7 +235,7 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
 
     // Allow multiple matrices in the same stream, delimited by
     // carriage returns.
-    if (spffl::base::is_whitespace_line(line.data())) {
+    if (spffl::base::is_whitespace_line(line)) {
       if (num_rows == 0) {
         continue;
       } else {
diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 5f81e47..6068fb7 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1716,7 +1716,7 @@ static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
 
     // Allow multiple matrices in the same stream, delimited by
     // carriage returns.
-    if (spffl::base::is_whitespace_line(line.data())) {
+    if (spffl::base::is_whitespace_line(line)) {
       if (fresh.num_rows == 0) {
         continue;
       } else {
-- 
2.43.0


From 084ada693907fcaeb8f4a37ee9cd642e1097218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:36 +0000
Subject: [PATCH 41/54] fix: polynomials on lines ending in CR LF cannot be
 read one after another

---
 spffl/polynomials/f2_poly_t.cpp | 4 ++--
 spffl/polynomials/fp_poly_t.cpp | 2 +-
 spffl/polynomials/q_poly_t.cpp  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index 2139b10..36168fc 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -571,7 +571,7 @@ std::istream &operator>>(std::istream &is, f2_poly_t &poly) {
   int num_nybbles = 0;
   // Skip over whitespace.
   c = is.peek();
-  while ((c == ' ') || (c == '\t') || (c == '\n')) {
+  while (isspace(c)) {
     is.ignore(1, c);
     if (is.eof()) {
       break;
@@ -615,7 +615,7 @@ std::istringstream &operator>>(std::istringstream &iss, f2_poly_t &poly) {
     iss.setstate(std::ios::failbit);
     return iss;
   }
-  while ((c == ' ') || (c == '\t') || (c == '\n')) {
+  while (isspace(c)) {
     iss.ignore(1, c);
     c = iss.peek();
   }
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index ef770f0..4b99352 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -786,7 +786,7 @@ std::istream &operator>>(std::istream &is, fp_poly_t &poly) {
     is.setstate(std::ios::failbit);
     return is;
   }
-  while ((c == ' ') || (c == '\t') || (c == '\n')) {
+  while (isspace(c)) {
     is.ignore(1, c);
     c = is.peek();
   }
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index f66fef5..62a7b6a 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -677,7 +677,7 @@ std::istream &operator>>(std::istream &is, q_poly_t &poly) {
     is.setstate(std::ios::failbit);
     return is;
   }
-  while ((c == ' ') || (c == '\t') || (c == '\n')) {
+  while (isspace(c)) {
     is.ignore(1, c);
     c = is.peek();
   }
-- 
2.43.0


From 56dc65d0b4f5b0b72b44866a5e18992a18cc5ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:43 +0000
Subject: [PATCH 42/54] fix: fp_polymod_t times intmod_t scales the residue,
 not the modulus

---
 spffl/polynomials/fp_polymod_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index 85fe4f7..4d5b35e 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -105,7 +105,7 @@ fp_polymod_t fp_polymod_t::operator*(int a) const {
 // ----------------------------------------------------------------
 fp_polymod_t fp_polymod_t::operator*(spffl::intmath::intmod_t a) const {
   fp_polymod_t rv(*this);
-  rv.modulus *= a;
+  rv.residue *= a;
   return rv;
 }
 
-- 
2.43.0


From 016a49e45251dd5d76545f3aab84e4aba77532c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:43 +0000
Subject: [PATCH 43/54] fix: f2_poly_t set_bit and set_coeff refuse a negative
 position before resizing

---
 spffl/polynomials/f2_poly_t.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index 36168fc..0e4f4a6 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -764,15 +764,16 @@ void f2_poly_t::dprint(std::ostream &os, int reqdeg) const {
 
 // ----------------------------------------------------------------
 void f2_poly_t::set_bit(int pos) {
+  this->check_neg_pos(pos);
   int which_part = pos >> F2_POLY_PART_LOG;
   int which_bit  = pos & F2_POLY_PART_MASK;
   if (which_part >= this->parts.size()) {
     this->extend_parts(which_part + 1);
   }
-  this->check_neg_pos(pos);
   this->parts[which_part] |= (F2_POLY_LSB << which_bit);
 }
 void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
+  this->check_neg_pos(pos);
   int which_part = pos >> F2_POLY_PART_LOG;
   int which_bit  = pos & F2_POLY_PART_MASK;
   if (which_part >= this->parts.size()) {
@@ -782,7 +783,6 @@ void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
       return;
     }
   }
-  this->check_neg_pos(pos);
   if (b.get_residue()) {
     this->parts[which_part] |= (F2_POLY_LSB << which_bit);
   } else {
-- 
2.43.0


From 3798cb598f5559c8bfaa4c0642fee9a49ec280fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:56 +0000
Subject: [PATCH 44/54] fix: tvector scaled by one of its own elements scales
 every element by it

---
 spffl/containers/tvector.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 13c9677..48e1ccf 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -361,14 +361,16 @@ public:
     return *this;
   }
   tvector<element_type> operator*=(const element_type &e) {
+    const element_type scalar = e; // Might be one of our own elements.
     for (int i = 0; i < this->num_elements; i++) {
-      this->elements[i] *= e;
+      this->elements[i] *= scalar;
     }
     return *this;
   }
   void mult_by(const element_type &e) {
+    const element_type scalar = e; // Might be one of our own elements.
     for (int i = 0; i < this->num_elements; i++) {
-      this->elements[i] *= e;
+      this->elements[i] *= scalar;
     }
   }
   tvector<element_type> operator*=(const tvector<element_type> &that) {
@@ -379,8 +381,9 @@ public:
     return *this;
   }
   tvector<element_type> operator/=(const element_type &e) {
+    const element_type scalar = e; // Might be one of our own elements.
     for (int i = 0; i < this->num_elements; i++) {
-      this->elements[i] /= e;
+      this->elements[i] /= scalar;
     }
     return *this;
   }
-- 
2.43.0


From f72f2430cc49b0547db7a8c67176375ae9017cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:56 +0000
Subject: [PATCH 45/54] fix: bit_t assigned an int keeps only its low bit

---
 spffl/bits/bit_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_t.h b/spffl/bits/bit_t.h
index f13f82e..f8efa0a 100644
--- a/spffl/bits/bit_t.h
+++ b/spffl/bits/bit_t.h
@@ -38,7 +38,7 @@ public:
   }
 
   bit_t &operator=(int e) {
-    this->residue = e;
+    this->residue = e & 1;
     return *this;
   }
 
-- 
2.43.0


From 81f5fbcfbf200e411238ebbd0c86e3609207a155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:23 +0000
Subject: [PATCH 46/54] fix: eliminating a matrix over a ring without inverses
 divides by zero

z_mat_op det, inv, rr, rank and the like were killed by a signal, without a
message, when a pivot was neither 1 nor -1 and another row needed clearing.
---
 spffl/containers/tmatrix.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 6068fb7..be00a3f 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -927,6 +927,13 @@ public:
       if (top_row_lead != zero) {
         // Normalize this row.
         element_type inv = one / top_row_lead;
+        if (inv * top_row_lead != one) {
+          // E.g. integers, where elimination would divide by zero later on.
+          std::stringstream ss;
+          ss << "tmatrix row reduction:  pivot " << top_row_lead
+             << " is not invertible.\n";
+          throw spffl::exception_t(ss.str());
+        }
         this->rows[top_row].mult_by(inv);
         s *= top_row_lead;
 
-- 
2.43.0


From c995632286f83746e93d3650e51e25bffd549998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:51 +0000
Subject: [PATCH 47/54] fix: fp_pm_mat_op and fp_pm_vecop have a usage function
 to report bad arguments with

---
 cli/spiff/fp_polymod_handlers.cpp | 10 ++++++++++
 cli/spiff/fp_polymod_handlers.h   |  2 ++
 cli/spiff/spiff_main.cpp          |  4 ++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cli/spiff/fp_polymod_handlers.cpp b/cli/spiff/fp_polymod_handlers.cpp
index 4129a6d..fca9571 100644
--- a/cli/spiff/fp_polymod_handlers.cpp
+++ b/cli/spiff/fp_polymod_handlers.cpp
@@ -201,6 +201,11 @@ int fp_pm_tbl_main(int argc, char **argv, usage_t *pusage) {
   return 0;
 }
 
+void fp_pm_mat_op_usage(char *argv0) {
+  std::cerr << "Usage: " << argv0 << " {p} {m} {goes here}\n";
+  exit(1);
+}
+
 int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage) {
   int p;
   spffl::polynomials::fp_poly_t m;
@@ -221,6 +226,11 @@ int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage) {
   return 0;
 }
 
+void fp_pm_vecop_usage(char *argv0) {
+  std::cerr << "Usage: " << argv0 << " {p} {m} {goes here}\n";
+  exit(1);
+}
+
 int fp_pm_vecop_main(int argc, char **argv, usage_t *pusage) {
   int p;
   spffl::polynomials::fp_poly_t m;
diff --git a/cli/spiff/fp_polymod_handlers.h b/cli/spiff/fp_polymod_handlers.h
index 4e3133e..06898f8 100644
--- a/cli/spiff/fp_polymod_handlers.h
+++ b/cli/spiff/fp_polymod_handlers.h
@@ -12,8 +12,10 @@ int fp_pm_op_main(int argc, char **argv, usage_t *pusage);
 void fp_pm_tbl_usage(char *argv0);
 int fp_pm_tbl_main(int argc, char **argv, usage_t *pusage);
 
+void fp_pm_mat_op_usage(char *argv0);
 int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage);
 
+void fp_pm_vecop_usage(char *argv0);
 int fp_pm_vecop_main(int argc, char **argv, usage_t *pusage);
 
 void fp_pm_mat_ord_usage(char *argv0);
diff --git a/cli/spiff/spiff_main.cpp b/cli/spiff/spiff_main.cpp
index 066c047..d7abd03 100644
--- a/cli/spiff/spiff_main.cpp
+++ b/cli/spiff/spiff_main.cpp
@@ -197,8 +197,8 @@ std::vector<lookup_t> fp_pm_lookups {
   {"fp_pm_ch_pol",     fp_pm_ch_pol_main,     fp_pm_ch_pol_usage},
   {"fp_pm_min_pol",    fp_pm_min_pol_main,    fp_pm_min_pol_usage},
   {"fp_pm_random",     fp_pm_random_main,     fp_pm_random_usage},
-  {"fp_pm_mat_op",     fp_pm_mat_op_main,     nullptr/*fppmmatop_usage*/},
-  {"fp_pm_vecop",      fp_pm_vecop_main,      nullptr/*fppmvecop_usage*/},
+  {"fp_pm_mat_op",     fp_pm_mat_op_main,     fp_pm_mat_op_usage},
+  {"fp_pm_vecop",      fp_pm_vecop_main,      fp_pm_vecop_usage},
   {"fp_pm_mat_ord",    fp_pm_mat_ord_main,    fp_pm_mat_ord_usage},
   {"fp_pm_mat_random", fp_pm_mat_random_main, fp_pm_mat_random_usage},
 };
-- 
2.43.0


From 5c9293cdf751d5a9aa5c22096af5650d98ce2adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:57 +0000
Subject: [PATCH 48/54] fix: fp_poly_t and q_poly_t read an empty string as an
 error, not as a polynomial of degree -1

---
 spffl/polynomials/fp_poly_t.cpp | 3 +++
 spffl/polynomials/q_poly_t.cpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 4b99352..625cc00 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -831,6 +831,9 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
     // Allow comma-free input as long as all residues are
     // single-digit.
     int len      = string.length();
+    if (len < 1) {
+      return false;
+    }
     this->degree = len - 1;
     this->coeffs = new spffl::intmath::intmod_t[this->degree + 1];
     int si, ci;
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 62a7b6a..c15a33f 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -722,6 +722,9 @@ bool q_poly_t::from_string(const std::string &string) {
     // Allow comma-free input as long as all residues are
     // single-digit.
     int len      = string.length();
+    if (len < 1) {
+      return false;
+    }
     this->degree = len - 1;
     this->coeffs = new spffl::intmath::intrat_t[this->degree + 1];
     int si, ci;
-- 
2.43.0


From 2035fa6de4ed6cd55b24fb9f54100246dc130ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:39 +0000
Subject: [PATCH 49/54] fix: logarithms modulo a polynomial over F_2^n search
 the whole unit group

---
 spffl/units/f2n_polymod_units.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index 1132b74..517aa5a 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -127,7 +127,9 @@ int f2n_polymod_log( // Log base g of a.
   int rv                           = -1;
   spffl::polynomials::f2n_poly_t m = g.get_modulus();
   std::cout << "m = " << m << "\n";
-  int n = 1 << m.find_degree();
+  // The elements are polynomials of lower degree over F_2^(field degree).
+  int n = 1 << (m.find_degree() *
+                m.get_coeff(0).get_modulus().find_degree());
   std::cout << "n = " << n << "\n";
   unsigned k = (unsigned)spffl::intmath::int_sqrt_ceil(n);
   std::cout << "k = " << k << "\n";
-- 
2.43.0


From 88c2ccfa4832e096c6ed43c33f868b55b22f178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:52 +0000
Subject: [PATCH 50/54] fix: intmod_t products and sums overflowed int for
 moduli above 46340

---
 spffl/intmath/intmod_t.cpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 919274c..ae27717 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -11,6 +11,12 @@
 
 namespace spffl::intmath {
 
+// Sums and products of residues needn't fit into an int, even though the
+// residues do.
+static int reduce(long long value, int modulus) {
+  return (int)(value % modulus);
+}
+
 // ----------------------------------------------------------------
 intmod_t intmod_t::prime_subfield_element(int v) const {
   int p = this->get_modulus();
@@ -52,10 +58,10 @@ intmod_t intmod_t::exp(int e) const {
 
   while (e != 0) {
     if (e & 1) {
-      rv.residue = (rv.residue * xp) % this->modulus;
+      rv.residue = reduce((long long)rv.residue * xp, this->modulus);
     }
     e  = (unsigned)e >> 1;
-    xp = (xp * xp) % this->modulus;
+    xp = reduce((long long)xp * xp, this->modulus);
   }
 
   return rv;
@@ -262,14 +268,16 @@ intmod_t &intmod_t::operator=(const intmod_t &that) {
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator+(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->residue + that.residue, this->modulus);
+  intmod_t rv(
+      reduce((long long)this->residue + that.residue, this->modulus), this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator-(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->modulus + this->residue - that.residue, this->modulus);
+  intmod_t rv(
+      reduce((long long)this->residue - that.residue, this->modulus), this->modulus);
   return rv;
 }
 
@@ -283,25 +291,32 @@ intmod_t intmod_t::operator-(void) const {
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator*(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->residue * that.residue, this->modulus);
+  intmod_t rv(
+      reduce((long long)this->residue * that.residue, this->modulus), this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator+(int a) const {
-  intmod_t rv(this->residue + a, this->modulus);
+  this->check_modulus();
+  intmod_t rv(
+      reduce((long long)this->residue + a, this->modulus), this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator-(int a) const {
-  intmod_t rv(this->modulus + this->residue - a, this->modulus);
+  this->check_modulus();
+  intmod_t rv(
+      reduce((long long)this->residue - a, this->modulus), this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator*(int a) const {
-  intmod_t rv(this->residue * a, this->modulus);
+  this->check_modulus();
+  intmod_t rv(
+      reduce((long long)this->residue * a, this->modulus), this->modulus);
   return rv;
 }
 
@@ -357,7 +372,7 @@ bool intmod_t::recip(intmod_t &rinv) const {
   }
 
   intmod_t rv = this->exp(phi - 1);
-  int check   = (this->residue * rv.residue) % this->modulus;
+  int check   = reduce((long long)this->residue * rv.residue, this->modulus);
   if (check != 1) {
     return false;
   } else {
-- 
2.43.0


From 8d02c071a204aef503e66c3a2a630e5c8f961dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:54 +0000
Subject: [PATCH 51/54] fix: quotients of polynomials over F_p and F_2^n
 differing by a unit compared unequal

---
 spffl/rationals/f2n_polyrat_t.cpp | 7 +++++++
 spffl/rationals/fp_polyrat_t.cpp  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/spffl/rationals/f2n_polyrat_t.cpp b/spffl/rationals/f2n_polyrat_t.cpp
index eb5ad86..ce82e58 100644
--- a/spffl/rationals/f2n_polyrat_t.cpp
+++ b/spffl/rationals/f2n_polyrat_t.cpp
@@ -356,6 +356,7 @@ spffl::polynomials::f2n_poly_t f2n_polyrat_t::get_denominator(void) const {
 // ----------------------------------------------------------------
 // * Check denominator != 0
 // * Divide numerator and denominator by their GCD
+// * Make the denominator monic, so that equal values have equal parts
 
 void f2n_polyrat_t::simplify(void) {
   spffl::polynomials::f2n_poly_t g;
@@ -367,6 +368,12 @@ void f2n_polyrat_t::simplify(void) {
   g = this->numer.gcd(this->denom);
   this->numer /= g;
   this->denom /= g;
+
+  // The GCD is determined only up to a unit:  make the denominator monic.
+  spffl::polynomials::f2_polymod_t lead =
+      this->denom.get_coeff(this->denom.find_degree());
+  this->numer /= lead;
+  this->denom /= lead;
 }
 
 } // namespace spffl::rationals
diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index 7db2fec..c7ccf63 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -353,6 +353,7 @@ spffl::polynomials::fp_poly_t fp_polyrat_t::get_denominator(void) const {
 // ----------------------------------------------------------------
 // * Check denominator != 0
 // * Divide numerator and denominator by their GCD
+// * Make the denominator monic, so that equal values have equal parts
 
 void fp_polyrat_t::simplify(void) {
   spffl::polynomials::fp_poly_t g;
@@ -364,6 +365,12 @@ void fp_polyrat_t::simplify(void) {
   g = this->numer.gcd(this->denom);
   this->numer /= g;
   this->denom /= g;
+
+  // The GCD is determined only up to a unit:  make the denominator monic.
+  spffl::intmath::intmod_t lead =
+      this->denom.get_coeff(this->denom.find_degree());
+  this->numer /= lead;
+  this->denom /= lead;
 }
 
 } // namespace spffl::rationals
-- 
2.43.0


From 70454fd38770b64e03eccb02b4db90a0fb2c59a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:37 +0000
Subject: [PATCH 52/54] fix: the p-th root of a polynomial over F_p^n divided
 by zero

fpn_poly_t::pth_root built its result from a default-constructed polynomial,
whose modulus is zero, and left the coefficients' own roots out.
---
 spffl/polynomials/fpn_poly_t.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 820f2ea..4360cb2 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -515,19 +515,19 @@ fpn_poly_t fpn_poly_t::deriv(void) const {
 // Relies on the fact that f(x^p) = f^p(x) in Fp[x].
 
 bool fpn_poly_t::pth_root(fpn_poly_t &rroot) const {
-  fp_poly_t m       = this->coeffs[0].get_modulus();
+  int n             = this->coeffs[0].get_modulus().find_degree();
   fp_polymod_t zero = this->coeffs[0].prime_subfield_element(0);
   int si, di, j;
-  fpn_poly_t out;
+  fpn_poly_t out(zero);
   int p = this->get_characteristic();
 
-  out.set_coeff(this->degree, zero);
-  for (di = this->degree - 1; di >= 0; di--) {
-    out.coeffs[di] = zero;
-  }
-
   for (si = 0, di = 0; si <= this->degree; si += p, di++) {
-    out.coeffs[di] = this->coeffs[si];
+    // The inverse of the Frobenius map on F_{p^n} is its (n-1)st power.
+    fp_polymod_t root = this->coeffs[si];
+    for (j = 1; j < n; j++) {
+      root = root.exp(p);
+    }
+    out.set_coeff(di, root);
     for (j = 1; j < p; j++) {
       if (si + j > this->degree) {
         break;
@@ -538,7 +538,6 @@ bool fpn_poly_t::pth_root(fpn_poly_t &rroot) const {
     }
   }
 
-  out.recompute_degree();
   rroot = out;
   return true;
 }
-- 
2.43.0


From 23761f801b852e899f5cb60fa0685739ed27713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:10 +0000
Subject: [PATCH 53/54] fix: a command's operands were taken as far as they
 scanned, and the rest ignored

'spiff z_op 1+2' printed 1 and exited with status zero.
---
 spffl/cli_parser/cmd_line_matrix_ops.h | 2 +-
 spffl/cli_parser/cmd_line_ops.h        | 2 +-
 spffl/cli_parser/cmd_line_vector_ops.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spffl/cli_parser/cmd_line_matrix_ops.h b/spffl/cli_parser/cmd_line_matrix_ops.h
index 782fc9f..186970a 100644
--- a/spffl/cli_parser/cmd_line_matrix_ops.h
+++ b/spffl/cli_parser/cmd_line_matrix_ops.h
@@ -272,7 +272,7 @@ static void matlexan(mat_lex_ctx_t<element_type> &rlex_ctx) {
         }
       }
     }
-    if (iss.fail()) {
+    if (iss.fail() || (rlex_ctx.in_pow_rhs && iss.peek() != EOF)) {
       std::stringstream ss;
       ss << "Scan failure at \"" << s << "\".\n";
       throw spffl::exception_t(ss.str());
diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index 4f7a179..4b22773 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -234,7 +234,7 @@ static void lexan(lex_ctx_t<element_type> &rlex_ctx) {
       rlex_ctx.atom.is_int   = false;
       iss >> rlex_ctx.atom.type_val;
     }
-    if (iss.fail()) {
+    if (iss.fail() || iss.peek() != EOF) {
       std::stringstream ss;
       ss << "Scan failure at \"" << s << "\".\n";
       throw spffl::exception_t(ss.str());
diff --git a/spffl/cli_parser/cmd_line_vector_ops.h b/spffl/cli_parser/cmd_line_vector_ops.h
index 2f8b896..b48ae14 100644
--- a/spffl/cli_parser/cmd_line_vector_ops.h
+++ b/spffl/cli_parser/cmd_line_vector_ops.h
@@ -218,7 +218,7 @@ static void veclexan(vec_lex_ctx_t<element_type> &rlex_ctx) {
 #endif
       }
     }
-    if (iss.fail()) {
+    if (iss.fail() || (rlex_ctx.in_pow_rhs && iss.peek() != EOF)) {
       std::stringstream ss;
       ss << "Scan failure at \"" << s << "\".\n";
       throw spffl::exception_t(ss.str());
-- 
2.43.0


From f3ee25ffbefbe98838d5ed58eeda7a759b824a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:22 +0000
Subject: [PATCH 54/54] fix: bit_matrix_t::outer wrote into an empty matrix

---
 spffl/bits/bit_matrix_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 313ac57..1c55e6d 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -503,7 +503,7 @@ bit_matrix_t &bit_matrix_t::operator*=(const bit_matrix_t &that) {
 bit_matrix_t bit_matrix_t::outer(const bit_vector_t &u, const bit_vector_t &v) {
   int m = u.get_num_elements();
   int n = v.get_num_elements();
-  bit_matrix_t rv;
+  bit_matrix_t rv(m, n);
   for (int i = 0; i < m; i++) {
     for (int j = 0; j < n; j++) {
       rv[i].set(j, u.get(i) * v.get(j));
-- 
2.43.0

