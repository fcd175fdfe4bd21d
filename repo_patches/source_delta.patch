From e97864d5e6bbbe154f1fdb14611f5241987cd247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 01/28] fix: range keeps its bounds when assigned or resized to
 itself

---
 src/lib/range.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/range.cpp b/src/lib/range.cpp
index f495daa..0d0fc33 100644
--- a/src/lib/range.cpp
+++ b/src/lib/range.cpp
@@ -73,6 +73,13 @@ range::includes(const qk::range & rng) const
 void
 range::setup(const int num_dims, const int *lower, const int *upper)
 {
+    // The bounds may belong to this very range (self assignment), so keep them before clearing
+    std::vector<int> new_lower, new_upper;
+    if(num_dims > 0){
+        new_lower.assign(lower, lower + num_dims);
+        new_upper.assign(upper, upper + num_dims);
+    }
+
     // initialize
     _num_dims = num_dims;
     _lower.clear();
@@ -86,8 +93,8 @@ range::setup(const int num_dims, const int *lower, const int *upper)
         _upper.resize(_num_dims,0);
         _stride.resize(_num_dims,0);
         for(int i = 0; i < _num_dims; ++i){
-            _lower[i] = lower[i];
-            _upper[i] = upper[i];
+            _lower[i] = new_lower[i];
+            _upper[i] = new_upper[i];
         }
         _stride[_num_dims-1] = 1;
         for(int i = _num_dims-2; i >= 0; --i){
-- 
2.43.0


From a204c605f2bc6f122ab650da931aecbf7f522f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 02/28] fix: range stream operator returns the stream

---
 src/lib/range.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/range.h b/src/lib/range.h
index 2c58532..9892c5a 100644
--- a/src/lib/range.h
+++ b/src/lib/range.h
@@ -61,6 +61,7 @@ public:
             }
         }
         os<<"]";
+        return os;
     }
 
 protected:
-- 
2.43.0


From d64c285e4239d66514ad550c0572d2b35554d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 03/28] fix: an indexer over an empty range has no points

---
 src/lib/indexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/indexer.cpp b/src/lib/indexer.cpp
index d3253f7..0b80130 100644
--- a/src/lib/indexer.cpp
+++ b/src/lib/indexer.cpp
@@ -25,6 +25,10 @@ indexer::indexer(const qk::range & sub_range, const qk::range & sup_range) :
 
     if (_num_dims > 0) {
         _exists = this->includes(_sub_range);
+        for(int i = 0; _exists and i < _num_dims; i++){
+            // There is nothing to iterate over in an empty range
+            _exists = _sub_range.length(i) > 0;
+        }
         if(_exists){
             for(int i = 0; i < _num_dims; i++){
                 _index[i] = sub_range.lower(i);
-- 
2.43.0


From 7ddcdbb90b965ae59d1e9b238740f131fede1cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 04/28] fix: indexer rejects the dimension one past its last

---
 src/lib/indexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/indexer.cpp b/src/lib/indexer.cpp
index 0b80130..159b275 100644
--- a/src/lib/indexer.cpp
+++ b/src/lib/indexer.cpp
@@ -50,7 +50,7 @@ const int &
 indexer::operator[](const int & dim) const
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::operator[] : Dimension out of range.");
     }
 #endif
@@ -60,7 +60,7 @@ indexer::operator[](const int & dim) const
 int indexer::index(const int dim) const
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::index : Dimension out of range.");
     }
 #endif
@@ -91,7 +91,7 @@ indexer::operator++()
 void indexer::increment(const int dim)
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::increment : Dimension out of range.");
     }
 #endif
@@ -102,7 +102,7 @@ void indexer::increment(const int dim)
 void indexer::decrement(const int dim)
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::decrement : Dimension out of range.");
     }
 #endif
-- 
2.43.0


From d0dea7a835d35013137358681b0ee930ca9fd6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 05/28] fix: whole-array pull passes source and destination
 range in order

---
 src/lib/indexer_interface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/indexer_interface.h b/src/lib/indexer_interface.h
index d847a64..ddde4d4 100644
--- a/src/lib/indexer_interface.h
+++ b/src/lib/indexer_interface.h
@@ -55,7 +55,7 @@ public:
 
     void pull(const indexer_interface<T> & interface)
     {
-        pull(interface, this->range(), interface.range());
+        pull(interface, interface.range(), this->range());
     }
 
     void fill(const T & value)
-- 
2.43.0


From c280cd510bd6a7a52bf82a14f70d1d36e4ebe15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 06/28] fix: copying an array copies its contents

---
 src/lib/indexer_interface.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/indexer_interface.h b/src/lib/indexer_interface.h
index ddde4d4..a6b3a7e 100644
--- a/src/lib/indexer_interface.h
+++ b/src/lib/indexer_interface.h
@@ -21,6 +21,7 @@ public:
     indexer_interface(const indexer_interface & interface)
     {
         resize(interface.range());
+        _data = interface._data;
     }
 
     virtual ~indexer_interface()
-- 
2.43.0


From 873594ed74573e3dcb015513f332f01c26190040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 07/28] fix: sub-range copies reject ranges outside the arrays
 and accept empty ones

---
 src/data/functions.h        | 9 ++++-----
 src/lib/indexer_interface.h | 3 +++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/data/functions.h b/src/data/functions.h
index 37fc657..7697c04 100644
--- a/src/data/functions.h
+++ b/src/data/functions.h
@@ -21,20 +21,19 @@ namespace data
         if(from_range.volume() != to_range.volume()){
             throw qk::exception("qk::data::copy_to : Array mismatch.");
         }
+        if(!from_chunk.includes(from_range) or !to_chunk.includes(to_range)){
+            throw qk::exception("qk::data::copy_to : Requested range extends outside of chunk bounds.");
+        }
 
         qk::indexer from_idx = from_chunk.indexer(from_range);
         qk::indexer to_idx = to_chunk.indexer(to_range);
 
-        while(true){
+        while(to_idx.exists()){
 
             to_chunk[to_idx] = from_chunk[from_idx];
 
             to_idx.next();
             from_idx.next();
-
-            if(!to_idx.exists()){
-                break;
-            }
         }
     }
 
diff --git a/src/lib/indexer_interface.h b/src/lib/indexer_interface.h
index a6b3a7e..de25405 100644
--- a/src/lib/indexer_interface.h
+++ b/src/lib/indexer_interface.h
@@ -43,6 +43,9 @@ public:
         if (from_range.volume() != to_range.volume()) {
             throw qk::exception("qk::indexer_interface::pull : Volume mismatch.");
         }
+        if (!interface.includes(from_range) or !includes(to_range)) {
+            throw qk::exception("qk::indexer_interface::pull : Requested range extends outside of interface bounds.");
+        }
 
         // TODO: this needs to be sped up
         qk::indexer src_indexer = interface.indexer(from_range);
-- 
2.43.0


From 729f16f29df596a7a5fae003cc3aaf68fe0d6467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 08/28] fix: range_set sub-ranges past the end are empty, not
 inverted

---
 src/lib/range_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/range_set.cpp b/src/lib/range_set.cpp
index fe618f7..e56a4ef 100644
--- a/src/lib/range_set.cpp
+++ b/src/lib/range_set.cpp
@@ -30,7 +30,7 @@ range_set::setup(const qk::range &superRange, const int *numSubdivisions)
 
     int subRangeSizePerDivision[_num_dims];
     for(int i = 0; i < _num_dims; i++){
-        subRangeSizePerDivision[i] = int(std::ceil(float(superRange.length(i)) / float(numSubdivisions[i])));
+        subRangeSizePerDivision[i] = int(std::ceil(double(superRange.length(i)) / double(numSubdivisions[i])));
     }
 
     int lowers[_num_dims];
@@ -38,7 +38,7 @@ range_set::setup(const qk::range &superRange, const int *numSubdivisions)
 
     for(qk::indexer indexer = this->indexer(); indexer.exists(); indexer.next()){
         for(int i = 0; i < _num_dims; i++){
-            lowers[i] = _superRange.lower(i) + indexer[i] * subRangeSizePerDivision[i];
+            lowers[i] = std::min(_superRange.lower(i) + indexer[i] * subRangeSizePerDivision[i], _superRange.upper(i));
             uppers[i] = std::min(lowers[i] + subRangeSizePerDivision[i], _superRange.upper(i));
         }
 
-- 
2.43.0


From dcecfa90717ec661ea6cfcf38ffd016ce7ff5866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 09/28] fix: exception message outlives what() and is replaced
 on assignment

---
 src/lib/exception.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib/exception.h b/src/lib/exception.h
index 295c9b6..f8d9b5e 100644
--- a/src/lib/exception.h
+++ b/src/lib/exception.h
@@ -4,6 +4,7 @@
 // STL includes
 #include <exception>
 #include <sstream>
+#include <string>
 
 namespace qk
 {
@@ -19,17 +20,17 @@ public:
 
     exception(const std::string error)
     {
-        _what << error;
+        _what = error;
     }
 
     exception(const std::exception & other)
     {
-        _what << std::string(other.what());
+        _what = other.what();
     }
 
     exception(const qk::exception & other)
     {
-        _what << other._what.str();
+        _what = other._what;
     }
 
     virtual ~exception() throw()
@@ -40,32 +41,31 @@ public:
 
     const char* what() const noexcept
     {
-        return _what.str().c_str();
+        return _what.c_str();
     }
 
     exception& operator=(const qk::exception & other)
     {
-        this->_what.clear();
-        *this << std::string(other.what());
+        this->_what = other._what;
         return *this;
     }
 
     friend std::ostream& operator<<(std::ostream& os, const qk::exception& qke)
     {
-        os << qke._what.str();
+        os << qke._what;
         return os;
     }
 
     exception &
     operator<<(const std::string & s)
     {
-        _what << s;
+        _what += s;
         return *this;
     }
 
 protected:
 
-    std::stringstream _what;
+    std::string _what;
 };
 
 }
-- 
2.43.0


From 2c01d8b1f9161dde7a927891e0760e6ef8f7ac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 10/28] fix: basis ordering compares point counts only for
 equal names

---
 src/basis/basis.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/basis/basis.h b/src/basis/basis.h
index 639920c..be42501 100644
--- a/src/basis/basis.h
+++ b/src/basis/basis.h
@@ -47,6 +47,8 @@ public:
         // Test if they have the same name
         if (a._name < b._name) {
             return true;
+        } else if (a._name > b._name) {
+            return false;
         }
 
         return a._num_points < b._num_points;
-- 
2.43.0


From b26905ff56265d481a8151405e733122a4095573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 11/28] fix: requesting an unknown input variable throws

---
 src/variable/variable_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 3be3c21..566326c 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -35,7 +35,7 @@ variable_manager::output_variable(const qk::variable::variable_id & var)
        add_variable(var);
        itr = _variables.find(var);
        if (itr == _variables.end()) {
-           qk::exception("qk::variable::variable_manager::output_variable : Couldn't allocate variable.");
+           throw qk::exception("qk::variable::variable_manager::output_variable : Couldn't allocate variable.");
        }
     }
     return *(itr->second);
@@ -46,7 +46,7 @@ variable_manager::input_variable(const qk::variable::variable_id & var) const
 {
     const auto & itr = _variables.find(var);
     if (itr == _variables.end()) {
-       qk::exception("qk::variable::variable_manager::input_variable : Variable '"+var.name()+"' does not exist.");
+       throw qk::exception("qk::variable::variable_manager::input_variable : Variable '"+var.name()+"' does not exist.");
     }
     return *(itr->second);
 }
-- 
2.43.0


From 5c3afc93b2843d64b217613ef97c4e4d3f311ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 12/28] fix: variable manager starts with defined time and time
 step

---
 src/variable/variable_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 566326c..eeb17ba 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -13,7 +13,9 @@ namespace variable
 {
 
 variable_manager::variable_manager(const qk::grid::grid & grid) :
-        _grid(grid)
+        _grid(grid),
+        _dt(0.),
+        _time(0.)
 {
 
 }
-- 
2.43.0


From a4b76789c4a558300de559b216b11ee325f594b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 13/28] fix: free-slip wall reverses only the wall-normal
 momentum

---
 src/solver/bc_free_slip.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/bc_free_slip.cpp b/src/solver/bc_free_slip.cpp
index 7292f03..cdf51a3 100644
--- a/src/solver/bc_free_slip.cpp
+++ b/src/solver/bc_free_slip.cpp
@@ -66,14 +66,14 @@ bc_free_slip::solve(qk::variable::variable_manager & variable_manager, const int
                 // Lower boundary
                 {
                     qk::range efield_rng(lower_external_range);
-                    efield_rng.set(lower_external_range.num_dims()-1, 1,4);
+                    efield_rng.set(lower_external_range.num_dims()-1, 1+i,2+i);
                     chunk.multiply_by_scalar(efield_rng, -1.);
                 }
 
                 // Upper boundary
                 {
                     qk::range efield_rng(upper_external_range);
-                    efield_rng.set(upper_external_range.num_dims()-1, 1,4);
+                    efield_rng.set(upper_external_range.num_dims()-1, 1+i,2+i);
                     chunk.multiply_by_scalar(efield_rng, -1.);
                 }
             }
-- 
2.43.0


From 59c15ae41d7ea5bc3ce8eac8428f73c7c6cc7123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 14/28] fix: conducting wall leaves the magnetic field's x
 component alone

---
 src/solver/bc_conducting_wall.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/bc_conducting_wall.cpp b/src/solver/bc_conducting_wall.cpp
index 7ce71ef..d14b842 100644
--- a/src/solver/bc_conducting_wall.cpp
+++ b/src/solver/bc_conducting_wall.cpp
@@ -66,14 +66,14 @@ bc_conducting_wall::solve(qk::variable::variable_manager & variable_manager, con
                 // Lower boundary
                 {
                     qk::range efield_rng(lower_external_range);
-                    efield_rng.set(lower_external_range.num_dims()-1, 0,4);
+                    efield_rng.set(lower_external_range.num_dims()-1, 0,3);
                     chunk.multiply_by_scalar(efield_rng, -1.);
                 }
 
                 // Upper boundary
                 {
                     qk::range efield_rng(upper_external_range);
-                    efield_rng.set(upper_external_range.num_dims()-1, 0,4);
+                    efield_rng.set(upper_external_range.num_dims()-1, 0,3);
                     chunk.multiply_by_scalar(efield_rng, -1.);
                 }
             }
-- 
2.43.0


From 5b35893eda38d9e31c461d8bb4d37913e76990dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 15/28] fix: distinct include guards so that all boundary
 headers can be used together

---
 src/solver/bc_free_slip.h     | 6 +++---
 src/solver/bc_no_slip.h       | 6 +++---
 src/solver/ssprk2_advection.h | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/solver/bc_free_slip.h b/src/solver/bc_free_slip.h
index e18224c..91f7b8f 100644
--- a/src/solver/bc_free_slip.h
+++ b/src/solver/bc_free_slip.h
@@ -1,5 +1,5 @@
-#ifndef _qk_solver_bc_copy_out_H
-#define _qk_solver_bc_copy_out_H
+#ifndef _qk_solver_bc_free_slip_H
+#define _qk_solver_bc_free_slip_H
 
 // QK includes
 #include "solver/solver.h"
@@ -36,4 +36,4 @@ protected:
 }
 }
 
-#endif // _qk_solver_bc_copy_out_H
+#endif // _qk_solver_bc_free_slip_H
diff --git a/src/solver/bc_no_slip.h b/src/solver/bc_no_slip.h
index e2a9cb9..d0800f6 100644
--- a/src/solver/bc_no_slip.h
+++ b/src/solver/bc_no_slip.h
@@ -1,5 +1,5 @@
-#ifndef _qk_solver_bc_copy_out_H
-#define _qk_solver_bc_copy_out_H
+#ifndef _qk_solver_bc_no_slip_H
+#define _qk_solver_bc_no_slip_H
 
 // QK includes
 #include "solver/solver.h"
@@ -36,4 +36,4 @@ protected:
 }
 }
 
-#endif // _qk_solver_bc_copy_out_H
+#endif // _qk_solver_bc_no_slip_H
diff --git a/src/solver/ssprk2_advection.h b/src/solver/ssprk2_advection.h
index 968d0df..49bb227 100644
--- a/src/solver/ssprk2_advection.h
+++ b/src/solver/ssprk2_advection.h
@@ -1,5 +1,5 @@
-#ifndef _qk_spatial_solver_advection_H
-#define _qk_spatial_solver_advection_H
+#ifndef _qk_solver_ssprk2_advection_H
+#define _qk_solver_ssprk2_advection_H
 
 // QK includes
 #include "solver/solver.h"
@@ -47,4 +47,4 @@ protected:
 }
 }
 
-#endif // _qk_spatial_solver_advection_H
+#endif // _qk_solver_ssprk2_advection_H
-- 
2.43.0


From 744251d37e3303b914e08b91e9fd0bd90262c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 16/28] fix: structured biasing keeps fractional widths and
 exponents

---
 src/grid/structured.cpp | 6 +++---
 src/grid/structured.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grid/structured.cpp b/src/grid/structured.cpp
index eb6a532..b0fb7bd 100644
--- a/src/grid/structured.cpp
+++ b/src/grid/structured.cpp
@@ -41,7 +41,7 @@ structured::~structured()
 }
 
 void
-structured::bias_array(double * dxs, const int size, const int pow)
+structured::bias_array(double * dxs, const int size, const double pow)
 {
     // Thi
     double xs[size+1];
@@ -62,7 +62,7 @@ structured::apply_bias_symmetric(const int dim, const double pow)
         throw qk::exception("qk::grid::structured::apply_bias_symmetric : Requested dimension out of range.");
     }
 #endif
-    const int L = width(dim)/2.;
+    const double L = width(dim)/2.;
     const int N = length(dim);
 
     if(N %2 == 1){
@@ -89,7 +89,7 @@ structured::apply_bias_linear(const int dim, const double pow)
         throw qk::exception("qk::grid::structured::apply_bias_linear : Requested dimension out of range.");
     }
 #endif
-    const int L = width(dim);
+    const double L = width(dim);
     const int N = length(dim);
     double n_dxs[N];
     bias_array(n_dxs,N,pow);
diff --git a/src/grid/structured.h b/src/grid/structured.h
index 6450af6..26d9400 100644
--- a/src/grid/structured.h
+++ b/src/grid/structured.h
@@ -32,7 +32,7 @@ public:
 
 protected:
 
-    void bias_array(double * dxs, const int size, const int pow);
+    void bias_array(double * dxs, const int size, const double pow);
     void recalculate_xcs(const int dim);
 
     std::vector<std::vector<double> > _dxs;
-- 
2.43.0


From f6f69e998d5dd505fd871306c49f18269fc981dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 17/28] fix: structured grid accessors count cells from the
 grid's lower bound

---
 src/grid/structured.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/structured.cpp b/src/grid/structured.cpp
index b0fb7bd..e2e57f8 100644
--- a/src/grid/structured.cpp
+++ b/src/grid/structured.cpp
@@ -113,7 +113,7 @@ structured::centroid(const int dim, const int index) const
         throw qk::exception("qk::grid::structured::centroid : Requested index out of range.");
     }
 #endif
-    return _xcs[dim][index];
+    return _xcs[dim][index - lower(dim)];
 }
 
 double
@@ -127,7 +127,7 @@ structured::dx(const int dim, const int index) const
         throw qk::exception("qk::grid::structured::dx : Requested index out of range.");
     }
 #endif
-    return _dxs[dim][index];
+    return _dxs[dim][index - lower(dim)];
 }
 
 void
-- 
2.43.0


From 59ce21ede59ddbee3200fa12d582d6886e9b8e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 18/28] fix: VTK origin is the lower corner of the grid

---
 src/grid/rectilinear.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grid/rectilinear.cpp b/src/grid/rectilinear.cpp
index 126e13f..8882f8b 100644
--- a/src/grid/rectilinear.cpp
+++ b/src/grid/rectilinear.cpp
@@ -47,9 +47,9 @@ rectilinear::write_vtk(std::ofstream & file, const qk::basis::basis & basis) con
         if(_num_dims > 2){nz = length(2)+1;}
 
         double cx=0, cy=0, cz=0;
-        if(_num_dims > 0){cx = _startxs[0] + _widths[0] / 2.;}
-        if(_num_dims > 1){cy = _startxs[1] + _widths[1] / 2.;}
-        if(_num_dims > 2){cz = _startxs[2] + _widths[2] / 2.;}
+        if(_num_dims > 0){cx = _startxs[0];}
+        if(_num_dims > 1){cy = _startxs[1];}
+        if(_num_dims > 2){cz = _startxs[2];}
 
         double sx=0, sy=0, sz=0;
         if(_num_dims > 0){sx = _dxs[0];}
-- 
2.43.0


From b6af313e9f9b5471f10cb5af78277b809f3595f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 19/28] fix: initial conditions treat missing coordinates as
 zero

---
 src/solver/brio_wu_shock_tube.cpp      | 2 +-
 src/solver/electromagnetic_wave_1D.cpp | 2 +-
 src/solver/gaussian.cpp                | 2 +-
 src/solver/magnetic_pulse.cpp          | 2 +-
 src/solver/radial_shock_tube.cpp       | 2 +-
 src/solver/shock_tube.cpp              | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/solver/brio_wu_shock_tube.cpp b/src/solver/brio_wu_shock_tube.cpp
index f2e3cd3..ad54d1d 100644
--- a/src/solver/brio_wu_shock_tube.cpp
+++ b/src/solver/brio_wu_shock_tube.cpp
@@ -39,7 +39,7 @@ void brio_wu_shock_tube::solve(qk::variable::variable_manager & variable_manager
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     const double P_mult = 1. / (_gamma - 1.);
 
     for (qk::indexer data_idx = electron_var.indexer(); data_idx.exists(); data_idx.next()) {
diff --git a/src/solver/electromagnetic_wave_1D.cpp b/src/solver/electromagnetic_wave_1D.cpp
index 8d68a0b..9da7935 100644
--- a/src/solver/electromagnetic_wave_1D.cpp
+++ b/src/solver/electromagnetic_wave_1D.cpp
@@ -17,7 +17,7 @@ void electromagnetic_wave_1D::solve(qk::variable::variable_manager & variable_ma
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     double * __restrict__ f;
 
     for (const qk::variable::variable_id var_id : _output_variable_ids) {
diff --git a/src/solver/gaussian.cpp b/src/solver/gaussian.cpp
index d16c2a9..18a9ae0 100644
--- a/src/solver/gaussian.cpp
+++ b/src/solver/gaussian.cpp
@@ -38,7 +38,7 @@ gaussian::solve(qk::variable::variable_manager & variable_manager, const int tag
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     double w[3];
 
     for(int i = 0; i < _output_variable_ids.size(); i++){
diff --git a/src/solver/magnetic_pulse.cpp b/src/solver/magnetic_pulse.cpp
index 05cb095..090a534 100644
--- a/src/solver/magnetic_pulse.cpp
+++ b/src/solver/magnetic_pulse.cpp
@@ -17,7 +17,7 @@ void magnetic_pulse::solve(qk::variable::variable_manager & variable_manager, co
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     const double Bz = _amplitude;
 
     for (int i = 0; i < _output_variable_ids.size(); i++) {
diff --git a/src/solver/radial_shock_tube.cpp b/src/solver/radial_shock_tube.cpp
index 53e3784..144fe0c 100644
--- a/src/solver/radial_shock_tube.cpp
+++ b/src/solver/radial_shock_tube.cpp
@@ -32,7 +32,7 @@ void radial_shock_tube::solve(qk::variable::variable_manager & variable_manager,
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     const double R2 = _radius*_radius;
     const double rho0 = 1.;
     const double e0 = 1. / (_gamma-1.);
diff --git a/src/solver/shock_tube.cpp b/src/solver/shock_tube.cpp
index 01bcbf7..c4d697d 100644
--- a/src/solver/shock_tube.cpp
+++ b/src/solver/shock_tube.cpp
@@ -31,7 +31,7 @@ void shock_tube::solve(qk::variable::variable_manager & variable_manager, const
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     const double rho0 = 1.;
     const double e0 = 1. / (_gamma-1.);
     double * __restrict__ q;
-- 
2.43.0


From 52ab24b65fa70e6116fc675e77d2e9caec0e3b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 20/28] fix: radial shock tube measures the radius along z

---
 src/solver/radial_shock_tube.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/radial_shock_tube.cpp b/src/solver/radial_shock_tube.cpp
index 144fe0c..cbc0e0f 100644
--- a/src/solver/radial_shock_tube.cpp
+++ b/src/solver/radial_shock_tube.cpp
@@ -54,7 +54,7 @@ void radial_shock_tube::solve(qk::variable::variable_manager & variable_manager,
 
                 double r2 = (x[0]-_center[0])*(x[0]-_center[0]);
                 r2 += (x[1]-_center[1])*(x[1]-_center[1]);
-                r2 += (x[2]-_center[2])*(x[1]-_center[2]);
+                r2 += (x[2]-_center[2])*(x[2]-_center[2]);
 
                 const double rho = (r2 < R2) ? rho0 : rho0 * _rho_jump;
                 const double e = (r2 < R2) ? e0 : e0 * _P_jump;
-- 
2.43.0


From 66dccea8b386cb5da7eeb5191602f54653bb69e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 21/28] fix: Brio-Wu transverse field has the configured
 strength for every gamma

---
 src/solver/brio_wu_shock_tube.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/brio_wu_shock_tube.cpp b/src/solver/brio_wu_shock_tube.cpp
index ad54d1d..f96e71c 100644
--- a/src/solver/brio_wu_shock_tube.cpp
+++ b/src/solver/brio_wu_shock_tube.cpp
@@ -79,7 +79,7 @@ void brio_wu_shock_tube::solve(qk::variable::variable_manager & variable_manager
         for (qk::indexer idx = field.indexer(By_range); idx.exists(); idx.next()) {
             grid.xc(idx, x);
 
-            const double By = _By * ((x[0] < 0.) ? 1. : -1.) * P_mult;
+            const double By = _By * ((x[0] < 0.) ? 1. : -1.);
             field[idx] = By;
         }
 
-- 
2.43.0


From 4814718de1afaf670ff0caebd3c8817a202b2b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 22/28] fix: advection's threaded flux loop updates shared
 cells atomically

---
 src/solver/ssprk2_advection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/ssprk2_advection.cpp b/src/solver/ssprk2_advection.cpp
index 82fbcba..d0d46f5 100644
--- a/src/solver/ssprk2_advection.cpp
+++ b/src/solver/ssprk2_advection.cpp
@@ -60,7 +60,9 @@ void advection_iterate(const int start,
 //                printf("(% e, % e, % e) : phi % e, Flux % e\n", vn, vc, vp, phi, dflux);
 //            }
 
+#pragma omp atomic
         b[i - downstream_stride] -= dflux; // 1 add : 1 FLO
+#pragma omp atomic
         b[i] += dflux; // 1 add : 1FLO
 
     }
-- 
2.43.0


From 83e22af953eb7f26b964dc0c9874cda7b3b55abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 23/28] fix: face basis is unchanged when its setup is rejected

---
 src/basis/face_basis.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/basis/face_basis.cpp b/src/basis/face_basis.cpp
index a9ff0e3..4fc8cf1 100644
--- a/src/basis/face_basis.cpp
+++ b/src/basis/face_basis.cpp
@@ -23,14 +23,14 @@ face_basis::~face_basis()
 
 void face_basis::setup(const int num_dims, const int num_points_per_dim)
 {
-    _num_dims = num_dims;
-    _num_points_per_dim = num_points_per_dim;
-    _num_points = _num_dims * _num_points_per_dim;
-
     if (num_points_per_dim != 1) {
         throw qk::exception("qk::basis::face_basis::setup : Not yet setup for multiple points per dimensions.");
     }
 
+    _num_dims = num_dims;
+    _num_points_per_dim = num_points_per_dim;
+    _num_points = _num_dims * _num_points_per_dim;
+
     _normalized_face_points.push_back(0.);
     _normalized_quadrature_weights.push_back(1.);
 
-- 
2.43.0


From 2edb1557aaf527435e3fe36a490662a7d9f882a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 24/28] fix: print reads its variables and does not create
 unknown ones

---
 src/solver/print.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/print.cpp b/src/solver/print.cpp
index 9d1d8e8..da5052d 100644
--- a/src/solver/print.cpp
+++ b/src/solver/print.cpp
@@ -17,7 +17,7 @@ void print::solve(qk::variable::variable_manager & variable_manager, const int t
     std::ostream & os = std::cout;
 
     for(const qk::variable::variable_id & var_id : _input_variable_ids){
-        const qk::variable::variable & var = variable_manager.output_variable(var_id);
+        const qk::variable::variable & var = variable_manager.input_variable(var_id);
 
         os << "Printing Variable '"<<var.name()<<"'\n";
 
-- 
2.43.0


From 4e9d2bdf734dae8d95208170660a7c2baa1509b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 25/28] fix: GEM initial condition rejects a wrong number of
 output variables

---
 src/solver/gem_challenge.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/gem_challenge.cpp b/src/solver/gem_challenge.cpp
index 8a74c48..e8da458 100644
--- a/src/solver/gem_challenge.cpp
+++ b/src/solver/gem_challenge.cpp
@@ -26,6 +26,10 @@ gem_challenge::~gem_challenge()
 void gem_challenge::solve(qk::variable::variable_manager & variable_manager, const int tag) const
 {
 
+    if (_output_variable_ids.size() != 3) {
+        throw qk::exception("qk::solver::gem_challenge::solve : Must have three output variables (electrons, ions, field).");
+    }
+
     double * __restrict__ e;
     double * __restrict__ i;
     double * __restrict__ f;
-- 
2.43.0


From 34a25483e843c9df1120f4cd8cd8aff8baa9c816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 26/28] fix: current source changes nothing when one of its
 fluids does not exist

---
 src/solver/current_source.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solver/current_source.cpp b/src/solver/current_source.cpp
index 49f75ad..c4f90a6 100644
--- a/src/solver/current_source.cpp
+++ b/src/solver/current_source.cpp
@@ -85,6 +85,11 @@ void current_source::solve(qk::variable::variable_manager & variable_manager, co
         throw qk::exception("qk::solver::current_source::solve : Output must contain one variable (rhs).");
     }
 
+    // Make sure that all inputs exist before anything is changed
+    for(const qk::variable::variable_id & fluid_id : _input_variable_ids){
+        variable_manager.input_variable(fluid_id);
+    }
+
     qk::variable::variable & rhs = variable_manager.output_variable(_output_variable_ids[0]);
 
     for(int i = 0; i < _multipliers.size(); ++i){
-- 
2.43.0


From 60171ef30e71631103acef76f6e15f242f63ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:28 +0000
Subject: [PATCH 27/28] fix: swap rejects pairs of different size before
 exchanging anything

---
 src/solver/swap.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/solver/swap.cpp b/src/solver/swap.cpp
index b9adae3..7368c90 100644
--- a/src/solver/swap.cpp
+++ b/src/solver/swap.cpp
@@ -30,6 +30,16 @@ swap::solve(qk::variable::variable_manager & variable_manager, const int tag) co
         throw qk::exception("qk::solver::swap::solve : Must have even number of output variables.");
     }
 
+    // Make sure that all pairs can be exchanged before anything is changed
+    for(int i = 0; i < _output_variable_ids.size()/2; i++){
+        const qk::variable::variable_id & a_id = _output_variable_ids[2*i];
+        const qk::variable::variable_id & b_id = _output_variable_ids[2*i+1];
+
+        if(a_id.component_names().size() != b_id.component_names().size() or a_id.basis().num_points() != b_id.basis().num_points()){
+            throw qk::exception("qk::solver::swap::solve : Variables '"+a_id.name()+"' and '"+b_id.name()+"' differ in size.");
+        }
+    }
+
     for(int i = 0; i < _output_variable_ids.size()/2; i++){
 
         qk::variable::variable & a = variable_manager.output_variable(_output_variable_ids[2*i]);
-- 
2.43.0


From 5049ac3a33dfe07ab35732f6ee09b608160c5a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:23 +0000
Subject: [PATCH 28/28] fix: HLL flux of colliding supersonic streams

With u_l-c_l > 0 and u_r+c_r < 0 both one-sided fluxes were added up, and
equal signal speeds divided by zero. Take the speeds in ascending order.
---
 src/solver/euler.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/solver/euler.cpp b/src/solver/euler.cpp
index 02384e7..c9545b8 100644
--- a/src/solver/euler.cpp
+++ b/src/solver/euler.cpp
@@ -97,9 +97,9 @@ void solve_HLL_mp(const double gamma,
                 const double unl = ql[dim + 1] / ql[0];
                 const double unr = qr[dim + 1] / qr[0];
 
-                // Calculate maximum left and right speeds
-                const double sll = unl - vsl;
-                const double srr = unr + vsr;
+                // Calculate left and right speeds, in ascending order (colliding supersonic streams)
+                const double sll = std::min(unl - vsl, unr + vsr);
+                const double srr = std::max(unl - vsl, unr + vsr);
 
                 // Calculate left flux
                 fl[0] = ql[dim + 1];
@@ -125,7 +125,7 @@ void solve_HLL_mp(const double gamma,
                 // Use flux multipliers to define the actual flux
                 for (int j = 0; j < 5; ++j) {
                     // This is the HLL flux for when the fluid is subsonic
-                    F[j] = (srr * fl[j] - sll * fr[j] + sll * srr * (qr[j] - ql[j])) / (srr - sll);
+                    F[j] = srr > sll ? (srr * fl[j] - sll * fr[j] + sll * srr * (qr[j] - ql[j])) / (srr - sll) : 0.5 * (fl[j] + fr[j]);
 
                     // This is the full flux calculation with the flux multipliers
                     F[j] = fhll_mult * F[j] + fl_mult * fl[j] + fr_mult * fr[j];
@@ -166,9 +166,9 @@ void solve_HLL_mp(const double gamma,
                 const double unl = ql[dim + 1] / ql[0];
                 const double unr = qr[dim + 1] / qr[0];
 
-                // Calculate maximum left and right speeds
-                const double sll = unl - vsl;
-                const double srr = unr + vsr;
+                // Calculate left and right speeds, in ascending order (colliding supersonic streams)
+                const double sll = std::min(unl - vsl, unr + vsr);
+                const double srr = std::max(unl - vsl, unr + vsr);
 
                 // Calculate left flux
                 fl[0] = ql[dim + 1];
@@ -194,7 +194,7 @@ void solve_HLL_mp(const double gamma,
                 // Use flux multipliers to define the actual flux
                 for (int j = 0; j < 5; ++j) {
                     // This is the HLL flux for when the fluid is subsonic
-                    F[j] = (srr * fl[j] - sll * fr[j] + sll * srr * (qr[j] - ql[j])) / (srr - sll);
+                    F[j] = srr > sll ? (srr * fl[j] - sll * fr[j] + sll * srr * (qr[j] - ql[j])) / (srr - sll) : 0.5 * (fl[j] + fr[j]);
 
                     // This is the full flux calculation with the flux multipliers
                     F[j] = fhll_mult * F[j] + fl_mult * fl[j] + fr_mult * fr[j];
-- 
2.43.0

