From 64e51622b7c52e271fe7376896a6994aacb71ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 01/36] fix: assigning or resizing a range from itself no
 longer zeroes its bounds

---
 src/lib/range.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/range.cpp b/src/lib/range.cpp
index f495daa..f498960 100644
--- a/src/lib/range.cpp
+++ b/src/lib/range.cpp
@@ -73,6 +73,10 @@ range::includes(const qk::range & rng) const
 void
 range::setup(const int num_dims, const int *lower, const int *upper)
 {
+    // The bounds may point into this range (e.g. self assignment), so take a copy before clearing
+    const std::vector<int> new_lower(lower, lower + num_dims);
+    const std::vector<int> new_upper(upper, upper + num_dims);
+
     // initialize
     _num_dims = num_dims;
     _lower.clear();
@@ -86,8 +90,8 @@ range::setup(const int num_dims, const int *lower, const int *upper)
         _upper.resize(_num_dims,0);
         _stride.resize(_num_dims,0);
         for(int i = 0; i < _num_dims; ++i){
-            _lower[i] = lower[i];
-            _upper[i] = upper[i];
+            _lower[i] = new_lower[i];
+            _upper[i] = new_upper[i];
         }
         _stride[_num_dims-1] = 1;
         for(int i = _num_dims-2; i >= 0; --i){
-- 
2.43.0


From b76c2d24b8a02ddec0a107a3532effcea9a9a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 02/36] fix: return the stream from operator<< for ranges

---
 src/lib/range.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/range.h b/src/lib/range.h
index 2c58532..9892c5a 100644
--- a/src/lib/range.h
+++ b/src/lib/range.h
@@ -61,6 +61,7 @@ public:
             }
         }
         os<<"]";
+        return os;
     }
 
 protected:
-- 
2.43.0


From ddc82390cedff25a0eede487fb5babbfea3d665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 03/36] fix: an indexer over an empty sub-range does not exist

---
 src/lib/indexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/indexer.cpp b/src/lib/indexer.cpp
index d3253f7..38663dd 100644
--- a/src/lib/indexer.cpp
+++ b/src/lib/indexer.cpp
@@ -24,7 +24,7 @@ indexer::indexer(const qk::range & sub_range, const qk::range & sup_range) :
     _index.resize(_num_dims,0);
 
     if (_num_dims > 0) {
-        _exists = this->includes(_sub_range);
+        _exists = this->includes(_sub_range) and _sub_range.volume() > 0;
         if(_exists){
             for(int i = 0; i < _num_dims; i++){
                 _index[i] = sub_range.lower(i);
-- 
2.43.0


From 925c099e191e79500e44515ea4000f36e50d5f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 04/36] fix: range checks of the indexer reject dim == num_dims

---
 src/lib/indexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/indexer.cpp b/src/lib/indexer.cpp
index 38663dd..4284e81 100644
--- a/src/lib/indexer.cpp
+++ b/src/lib/indexer.cpp
@@ -46,7 +46,7 @@ const int &
 indexer::operator[](const int & dim) const
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::operator[] : Dimension out of range.");
     }
 #endif
@@ -56,7 +56,7 @@ indexer::operator[](const int & dim) const
 int indexer::index(const int dim) const
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::index : Dimension out of range.");
     }
 #endif
@@ -87,7 +87,7 @@ indexer::operator++()
 void indexer::increment(const int dim)
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::increment : Dimension out of range.");
     }
 #endif
@@ -98,7 +98,7 @@ void indexer::increment(const int dim)
 void indexer::decrement(const int dim)
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::decrement : Dimension out of range.");
     }
 #endif
-- 
2.43.0


From 8ec00236a1738dcec537c066ad1bec1f33a8bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 05/36] fix: whole-container pull reads the source range and
 writes the own range

---
 src/lib/indexer_interface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/indexer_interface.h b/src/lib/indexer_interface.h
index d847a64..ddde4d4 100644
--- a/src/lib/indexer_interface.h
+++ b/src/lib/indexer_interface.h
@@ -55,7 +55,7 @@ public:
 
     void pull(const indexer_interface<T> & interface)
     {
-        pull(interface, this->range(), interface.range());
+        pull(interface, interface.range(), this->range());
     }
 
     void fill(const T & value)
-- 
2.43.0


From 7a8660258bf56dbfe3e5c245bba7ecbee60e461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 06/36] fix: copy constructing an indexer interface copies its
 contents

---
 src/lib/indexer_interface.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/indexer_interface.h b/src/lib/indexer_interface.h
index ddde4d4..a6b3a7e 100644
--- a/src/lib/indexer_interface.h
+++ b/src/lib/indexer_interface.h
@@ -21,6 +21,7 @@ public:
     indexer_interface(const indexer_interface & interface)
     {
         resize(interface.range());
+        _data = interface._data;
     }
 
     virtual ~indexer_interface()
-- 
2.43.0


From c29b9851c53877c73d0395af6723426b2e0dbd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 07/36] fix: pull and copy_to refuse out-of-bounds ranges and
 copy nothing for empty ones

---
 src/data/functions.h        | 9 ++++-----
 src/lib/indexer_interface.h | 3 +++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/data/functions.h b/src/data/functions.h
index 37fc657..7697c04 100644
--- a/src/data/functions.h
+++ b/src/data/functions.h
@@ -21,20 +21,19 @@ namespace data
         if(from_range.volume() != to_range.volume()){
             throw qk::exception("qk::data::copy_to : Array mismatch.");
         }
+        if(!from_chunk.includes(from_range) or !to_chunk.includes(to_range)){
+            throw qk::exception("qk::data::copy_to : Requested range extends outside of chunk bounds.");
+        }
 
         qk::indexer from_idx = from_chunk.indexer(from_range);
         qk::indexer to_idx = to_chunk.indexer(to_range);
 
-        while(true){
+        while(to_idx.exists()){
 
             to_chunk[to_idx] = from_chunk[from_idx];
 
             to_idx.next();
             from_idx.next();
-
-            if(!to_idx.exists()){
-                break;
-            }
         }
     }
 
diff --git a/src/lib/indexer_interface.h b/src/lib/indexer_interface.h
index a6b3a7e..de25405 100644
--- a/src/lib/indexer_interface.h
+++ b/src/lib/indexer_interface.h
@@ -43,6 +43,9 @@ public:
         if (from_range.volume() != to_range.volume()) {
             throw qk::exception("qk::indexer_interface::pull : Volume mismatch.");
         }
+        if (!interface.includes(from_range) or !includes(to_range)) {
+            throw qk::exception("qk::indexer_interface::pull : Requested range extends outside of interface bounds.");
+        }
 
         // TODO: this needs to be sped up
         qk::indexer src_indexer = interface.indexer(from_range);
-- 
2.43.0


From 20a132bd60f095d2dee6808908874592cf446227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 08/36] fix: surplus subdivisions of a range set are empty and
 sizes are exact

---
 src/lib/range_set.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/range_set.cpp b/src/lib/range_set.cpp
index fe618f7..e6d6580 100644
--- a/src/lib/range_set.cpp
+++ b/src/lib/range_set.cpp
@@ -1,7 +1,7 @@
 #include "range_set.h"
 
 // STL includes
-#include <cmath>
+#include <algorithm>
 
 namespace qk
 {
@@ -30,7 +30,7 @@ range_set::setup(const qk::range &superRange, const int *numSubdivisions)
 
     int subRangeSizePerDivision[_num_dims];
     for(int i = 0; i < _num_dims; i++){
-        subRangeSizePerDivision[i] = int(std::ceil(float(superRange.length(i)) / float(numSubdivisions[i])));
+        subRangeSizePerDivision[i] = (superRange.length(i) + numSubdivisions[i] - 1) / numSubdivisions[i];
     }
 
     int lowers[_num_dims];
@@ -38,7 +38,7 @@ range_set::setup(const qk::range &superRange, const int *numSubdivisions)
 
     for(qk::indexer indexer = this->indexer(); indexer.exists(); indexer.next()){
         for(int i = 0; i < _num_dims; i++){
-            lowers[i] = _superRange.lower(i) + indexer[i] * subRangeSizePerDivision[i];
+            lowers[i] = std::min(_superRange.lower(i) + indexer[i] * subRangeSizePerDivision[i], _superRange.upper(i));
             uppers[i] = std::min(lowers[i] + subRangeSizePerDivision[i], _superRange.upper(i));
         }
 
-- 
2.43.0


From b8ec35e296177c3724031c8c28849ff0f5e6db7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 09/36] fix: basis ordering is a strict weak ordering

---
 src/basis/basis.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/basis/basis.h b/src/basis/basis.h
index 639920c..be42501 100644
--- a/src/basis/basis.h
+++ b/src/basis/basis.h
@@ -47,6 +47,8 @@ public:
         // Test if they have the same name
         if (a._name < b._name) {
             return true;
+        } else if (a._name > b._name) {
+            return false;
         }
 
         return a._num_points < b._num_points;
-- 
2.43.0


From d3179689b5344bdd798d3c674a4f67539cc8d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 10/36] fix: requesting an unknown input variable throws

---
 src/variable/variable_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 3be3c21..566326c 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -35,7 +35,7 @@ variable_manager::output_variable(const qk::variable::variable_id & var)
        add_variable(var);
        itr = _variables.find(var);
        if (itr == _variables.end()) {
-           qk::exception("qk::variable::variable_manager::output_variable : Couldn't allocate variable.");
+           throw qk::exception("qk::variable::variable_manager::output_variable : Couldn't allocate variable.");
        }
     }
     return *(itr->second);
@@ -46,7 +46,7 @@ variable_manager::input_variable(const qk::variable::variable_id & var) const
 {
     const auto & itr = _variables.find(var);
     if (itr == _variables.end()) {
-       qk::exception("qk::variable::variable_manager::input_variable : Variable '"+var.name()+"' does not exist.");
+       throw qk::exception("qk::variable::variable_manager::input_variable : Variable '"+var.name()+"' does not exist.");
     }
     return *(itr->second);
 }
-- 
2.43.0


From 25b321983b6bc4ff09aa75654fe96537ca8dccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 11/36] fix: exception text outlives what() and is replaced by
 assignment

---
 src/lib/exception.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib/exception.h b/src/lib/exception.h
index 295c9b6..e413f39 100644
--- a/src/lib/exception.h
+++ b/src/lib/exception.h
@@ -3,6 +3,7 @@
 
 // STL includes
 #include <exception>
+#include <string>
 #include <sstream>
 
 namespace qk
@@ -19,17 +20,17 @@ public:
 
     exception(const std::string error)
     {
-        _what << error;
+        _what = error;
     }
 
     exception(const std::exception & other)
     {
-        _what << std::string(other.what());
+        _what = other.what();
     }
 
     exception(const qk::exception & other)
     {
-        _what << other._what.str();
+        _what = other._what;
     }
 
     virtual ~exception() throw()
@@ -40,32 +41,31 @@ public:
 
     const char* what() const noexcept
     {
-        return _what.str().c_str();
+        return _what.c_str();
     }
 
     exception& operator=(const qk::exception & other)
     {
-        this->_what.clear();
-        *this << std::string(other.what());
+        this->_what = other._what;
         return *this;
     }
 
     friend std::ostream& operator<<(std::ostream& os, const qk::exception& qke)
     {
-        os << qke._what.str();
+        os << qke._what;
         return os;
     }
 
     exception &
     operator<<(const std::string & s)
     {
-        _what << s;
+        _what += s;
         return *this;
     }
 
 protected:
 
-    std::stringstream _what;
+    std::string _what;
 };
 
 }
-- 
2.43.0


From a6cc922de0524269112ba1b0b4955e0da5408add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 12/36] fix: VTK origin is the first grid point, not the domain
 centre

---
 src/grid/rectilinear.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grid/rectilinear.cpp b/src/grid/rectilinear.cpp
index 126e13f..8882f8b 100644
--- a/src/grid/rectilinear.cpp
+++ b/src/grid/rectilinear.cpp
@@ -47,9 +47,9 @@ rectilinear::write_vtk(std::ofstream & file, const qk::basis::basis & basis) con
         if(_num_dims > 2){nz = length(2)+1;}
 
         double cx=0, cy=0, cz=0;
-        if(_num_dims > 0){cx = _startxs[0] + _widths[0] / 2.;}
-        if(_num_dims > 1){cy = _startxs[1] + _widths[1] / 2.;}
-        if(_num_dims > 2){cz = _startxs[2] + _widths[2] / 2.;}
+        if(_num_dims > 0){cx = _startxs[0];}
+        if(_num_dims > 1){cy = _startxs[1];}
+        if(_num_dims > 2){cz = _startxs[2];}
 
         double sx=0, sy=0, sz=0;
         if(_num_dims > 0){sx = _dxs[0];}
-- 
2.43.0


From c740b38991be314b2181d3d3a5c7b31d5e2845e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 13/36] fix: grids whose index range does not start at zero
 begin at the domain start

---
 src/grid/rectilinear.cpp | 4 ++--
 src/grid/structured.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grid/rectilinear.cpp b/src/grid/rectilinear.cpp
index 8882f8b..17bf108 100644
--- a/src/grid/rectilinear.cpp
+++ b/src/grid/rectilinear.cpp
@@ -72,7 +72,7 @@ void
 rectilinear::xc(const qk::indexer & idx, double * x) const
 {
     for(int i=0;i<this->num_dims();i++){
-        x[i] = _startxs[i] + (idx.index(i)+0.5)*_dxs[i];
+        x[i] = _startxs[i] + (idx.index(i)-lower(i)+0.5)*_dxs[i];
     }
 }
 
@@ -87,7 +87,7 @@ rectilinear::centroid(const int dim, const int index) const
         throw qk::exception("qk::grid::rectilinear::centroid : Requested index out of range.");
     }
 #endif
-    return _startxs[dim] + (index+0.5)*_dxs[dim];
+    return _startxs[dim] + (index-lower(dim)+0.5)*_dxs[dim];
 }
 
 double
diff --git a/src/grid/structured.cpp b/src/grid/structured.cpp
index eb6a532..9aac1b3 100644
--- a/src/grid/structured.cpp
+++ b/src/grid/structured.cpp
@@ -113,7 +113,7 @@ structured::centroid(const int dim, const int index) const
         throw qk::exception("qk::grid::structured::centroid : Requested index out of range.");
     }
 #endif
-    return _xcs[dim][index];
+    return _xcs[dim][index-lower(dim)];
 }
 
 double
@@ -127,7 +127,7 @@ structured::dx(const int dim, const int index) const
         throw qk::exception("qk::grid::structured::dx : Requested index out of range.");
     }
 #endif
-    return _dxs[dim][index];
+    return _dxs[dim][index-lower(dim)];
 }
 
 void
-- 
2.43.0


From 4776bdad479796d10d6a50bab66d34f39002d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 14/36] fix: biasing a structured grid keeps fractional widths
 and powers

---
 src/grid/structured.cpp | 8 ++++----
 src/grid/structured.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grid/structured.cpp b/src/grid/structured.cpp
index 9aac1b3..34946c9 100644
--- a/src/grid/structured.cpp
+++ b/src/grid/structured.cpp
@@ -41,13 +41,13 @@ structured::~structured()
 }
 
 void
-structured::bias_array(double * dxs, const int size, const int pow)
+structured::bias_array(double * dxs, const int size, const double pow)
 {
     // Thi
     double xs[size+1];
     xs[0] = 0.;
     const double dV = 1.0 / double(size);
-    const double invPow = 1. / double(pow);
+    const double invPow = 1. / pow;
     for(int i = 0; i < size; i++){
         xs[i+1]=std::pow(std::pow(xs[i],pow) + dV, invPow);
         dxs[i] = xs[i+1]-xs[i];
@@ -62,7 +62,7 @@ structured::apply_bias_symmetric(const int dim, const double pow)
         throw qk::exception("qk::grid::structured::apply_bias_symmetric : Requested dimension out of range.");
     }
 #endif
-    const int L = width(dim)/2.;
+    const double L = width(dim)/2.;
     const int N = length(dim);
 
     if(N %2 == 1){
@@ -89,7 +89,7 @@ structured::apply_bias_linear(const int dim, const double pow)
         throw qk::exception("qk::grid::structured::apply_bias_linear : Requested dimension out of range.");
     }
 #endif
-    const int L = width(dim);
+    const double L = width(dim);
     const int N = length(dim);
     double n_dxs[N];
     bias_array(n_dxs,N,pow);
diff --git a/src/grid/structured.h b/src/grid/structured.h
index 6450af6..26d9400 100644
--- a/src/grid/structured.h
+++ b/src/grid/structured.h
@@ -32,7 +32,7 @@ public:
 
 protected:
 
-    void bias_array(double * dxs, const int size, const int pow);
+    void bias_array(double * dxs, const int size, const double pow);
     void recalculate_xcs(const int dim);
 
     std::vector<std::vector<double> > _dxs;
-- 
2.43.0


From ad4d49e66ac1fd1d3abc94d5d9475d8d28faf927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 15/36] fix: initial conditions treat coordinates of absent
 dimensions as zero

---
 src/solver/gaussian.cpp          | 2 +-
 src/solver/magnetic_pulse.cpp    | 2 +-
 src/solver/radial_shock_tube.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/gaussian.cpp b/src/solver/gaussian.cpp
index d16c2a9..18a9ae0 100644
--- a/src/solver/gaussian.cpp
+++ b/src/solver/gaussian.cpp
@@ -38,7 +38,7 @@ gaussian::solve(qk::variable::variable_manager & variable_manager, const int tag
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     double w[3];
 
     for(int i = 0; i < _output_variable_ids.size(); i++){
diff --git a/src/solver/magnetic_pulse.cpp b/src/solver/magnetic_pulse.cpp
index 05cb095..090a534 100644
--- a/src/solver/magnetic_pulse.cpp
+++ b/src/solver/magnetic_pulse.cpp
@@ -17,7 +17,7 @@ void magnetic_pulse::solve(qk::variable::variable_manager & variable_manager, co
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     const double Bz = _amplitude;
 
     for (int i = 0; i < _output_variable_ids.size(); i++) {
diff --git a/src/solver/radial_shock_tube.cpp b/src/solver/radial_shock_tube.cpp
index 53e3784..144fe0c 100644
--- a/src/solver/radial_shock_tube.cpp
+++ b/src/solver/radial_shock_tube.cpp
@@ -32,7 +32,7 @@ void radial_shock_tube::solve(qk::variable::variable_manager & variable_manager,
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     const double R2 = _radius*_radius;
     const double rho0 = 1.;
     const double e0 = 1. / (_gamma-1.);
-- 
2.43.0


From a71f18205b9f2d2880006fe69204ead4b37e04bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 16/36] fix: radial shock tube measures the true radius and has
 a default centre

---
 src/solver/radial_shock_tube.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/radial_shock_tube.cpp b/src/solver/radial_shock_tube.cpp
index 144fe0c..4e9bb88 100644
--- a/src/solver/radial_shock_tube.cpp
+++ b/src/solver/radial_shock_tube.cpp
@@ -13,6 +13,7 @@ namespace solver
 {
 
 radial_shock_tube::radial_shock_tube():
+    _center(3,0.),
     _radius(0.125),
     _rho_jump(0.125),
     _P_jump(0.1),
@@ -54,7 +55,7 @@ void radial_shock_tube::solve(qk::variable::variable_manager & variable_manager,
 
                 double r2 = (x[0]-_center[0])*(x[0]-_center[0]);
                 r2 += (x[1]-_center[1])*(x[1]-_center[1]);
-                r2 += (x[2]-_center[2])*(x[1]-_center[2]);
+                r2 += (x[2]-_center[2])*(x[2]-_center[2]);
 
                 const double rho = (r2 < R2) ? rho0 : rho0 * _rho_jump;
                 const double e = (r2 < R2) ? e0 : e0 * _P_jump;
-- 
2.43.0


From e131b609d452e588a1aa6c4fa99eba14f46e42d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 17/36] fix: two-fluid shock tube does not scale By by
 1/(gamma-1)

---
 src/solver/brio_wu_shock_tube.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/brio_wu_shock_tube.cpp b/src/solver/brio_wu_shock_tube.cpp
index f2e3cd3..d1a76f5 100644
--- a/src/solver/brio_wu_shock_tube.cpp
+++ b/src/solver/brio_wu_shock_tube.cpp
@@ -79,7 +79,7 @@ void brio_wu_shock_tube::solve(qk::variable::variable_manager & variable_manager
         for (qk::indexer idx = field.indexer(By_range); idx.exists(); idx.next()) {
             grid.xc(idx, x);
 
-            const double By = _By * ((x[0] < 0.) ? 1. : -1.) * P_mult;
+            const double By = _By * ((x[0] < 0.) ? 1. : -1.);
             field[idx] = By;
         }
 
-- 
2.43.0


From eaa36bfd1431110d2fb6bfcb40dd244e9802133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 18/36] fix: free-slip wall reverses only the normal momentum

---
 src/solver/bc_free_slip.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/bc_free_slip.cpp b/src/solver/bc_free_slip.cpp
index 7292f03..cdf51a3 100644
--- a/src/solver/bc_free_slip.cpp
+++ b/src/solver/bc_free_slip.cpp
@@ -66,14 +66,14 @@ bc_free_slip::solve(qk::variable::variable_manager & variable_manager, const int
                 // Lower boundary
                 {
                     qk::range efield_rng(lower_external_range);
-                    efield_rng.set(lower_external_range.num_dims()-1, 1,4);
+                    efield_rng.set(lower_external_range.num_dims()-1, 1+i,2+i);
                     chunk.multiply_by_scalar(efield_rng, -1.);
                 }
 
                 // Upper boundary
                 {
                     qk::range efield_rng(upper_external_range);
-                    efield_rng.set(upper_external_range.num_dims()-1, 1,4);
+                    efield_rng.set(upper_external_range.num_dims()-1, 1+i,2+i);
                     chunk.multiply_by_scalar(efield_rng, -1.);
                 }
             }
-- 
2.43.0


From 1cf768f1665fba6d9d07c2f89f29c6b85f3bfadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 19/36] fix: conducting wall reverses the magnetic component
 normal to the wall

---
 src/solver/bc_conducting_wall.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/solver/bc_conducting_wall.cpp b/src/solver/bc_conducting_wall.cpp
index 7ce71ef..4deb0e0 100644
--- a/src/solver/bc_conducting_wall.cpp
+++ b/src/solver/bc_conducting_wall.cpp
@@ -66,14 +66,22 @@ bc_conducting_wall::solve(qk::variable::variable_manager & variable_manager, con
                 // Lower boundary
                 {
                     qk::range efield_rng(lower_external_range);
-                    efield_rng.set(lower_external_range.num_dims()-1, 0,4);
+                    efield_rng.set(lower_external_range.num_dims()-1, 0,3);
+                    chunk.multiply_by_scalar(efield_rng, -1.);
+
+                    // ... and the normal magnetic field
+                    efield_rng.set(lower_external_range.num_dims()-1, 3+i,4+i);
                     chunk.multiply_by_scalar(efield_rng, -1.);
                 }
 
                 // Upper boundary
                 {
                     qk::range efield_rng(upper_external_range);
-                    efield_rng.set(upper_external_range.num_dims()-1, 0,4);
+                    efield_rng.set(upper_external_range.num_dims()-1, 0,3);
+                    chunk.multiply_by_scalar(efield_rng, -1.);
+
+                    // ... and the normal magnetic field
+                    efield_rng.set(upper_external_range.num_dims()-1, 3+i,4+i);
                     chunk.multiply_by_scalar(efield_rng, -1.);
                 }
             }
-- 
2.43.0


From 42d01d8772268ee9b1217e3f7341c7dd5fad66f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 20/36] fix: give every solver header its own include guard

---
 src/solver/bc_free_slip.h     | 6 +++---
 src/solver/bc_no_slip.h       | 6 +++---
 src/solver/ssprk2_advection.h | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/solver/bc_free_slip.h b/src/solver/bc_free_slip.h
index e18224c..91f7b8f 100644
--- a/src/solver/bc_free_slip.h
+++ b/src/solver/bc_free_slip.h
@@ -1,5 +1,5 @@
-#ifndef _qk_solver_bc_copy_out_H
-#define _qk_solver_bc_copy_out_H
+#ifndef _qk_solver_bc_free_slip_H
+#define _qk_solver_bc_free_slip_H
 
 // QK includes
 #include "solver/solver.h"
@@ -36,4 +36,4 @@ protected:
 }
 }
 
-#endif // _qk_solver_bc_copy_out_H
+#endif // _qk_solver_bc_free_slip_H
diff --git a/src/solver/bc_no_slip.h b/src/solver/bc_no_slip.h
index e2a9cb9..d0800f6 100644
--- a/src/solver/bc_no_slip.h
+++ b/src/solver/bc_no_slip.h
@@ -1,5 +1,5 @@
-#ifndef _qk_solver_bc_copy_out_H
-#define _qk_solver_bc_copy_out_H
+#ifndef _qk_solver_bc_no_slip_H
+#define _qk_solver_bc_no_slip_H
 
 // QK includes
 #include "solver/solver.h"
@@ -36,4 +36,4 @@ protected:
 }
 }
 
-#endif // _qk_solver_bc_copy_out_H
+#endif // _qk_solver_bc_no_slip_H
diff --git a/src/solver/ssprk2_advection.h b/src/solver/ssprk2_advection.h
index 968d0df..49bb227 100644
--- a/src/solver/ssprk2_advection.h
+++ b/src/solver/ssprk2_advection.h
@@ -1,5 +1,5 @@
-#ifndef _qk_spatial_solver_advection_H
-#define _qk_spatial_solver_advection_H
+#ifndef _qk_solver_ssprk2_advection_H
+#define _qk_solver_ssprk2_advection_H
 
 // QK includes
 #include "solver/solver.h"
@@ -47,4 +47,4 @@ protected:
 }
 }
 
-#endif // _qk_spatial_solver_advection_H
+#endif // _qk_solver_ssprk2_advection_H
-- 
2.43.0


From d0805a2db6b70186c326c48d1bdb36f0ed262c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:04 +0000
Subject: [PATCH 21/36] fix: write_vtk reports an export that could not be
 written completely

---
 src/variable/variable_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 566326c..9db3dcf 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -105,6 +105,9 @@ void variable_manager::write_vtk(const std::string & prefix,
         }
 
         file.close();
+        if(!file){
+            throw qk::exception("qk::variable::variable_manager::write_VTK : File '" + filename + "' could not be written completely.");
+        }
     }
 
 }
-- 
2.43.0


From 9e1ba73f89a4680e667338ae2480a03fce16d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:04 +0000
Subject: [PATCH 22/36] fix: initialise time and dt of the variable manager

---
 src/variable/variable_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 9db3dcf..03120d3 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -13,7 +13,9 @@ namespace variable
 {
 
 variable_manager::variable_manager(const qk::grid::grid & grid) :
-        _grid(grid)
+        _grid(grid),
+        _dt(0.),
+        _time(0.)
 {
 
 }
-- 
2.43.0


From 8d59dd4deda812de608948ba645fd313033bf9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:04 +0000
Subject: [PATCH 23/36] fix: advection fluxes are applied without races between
 OpenMP threads

---
 src/solver/ssprk2_advection.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/solver/ssprk2_advection.cpp b/src/solver/ssprk2_advection.cpp
index 82fbcba..851b364 100644
--- a/src/solver/ssprk2_advection.cpp
+++ b/src/solver/ssprk2_advection.cpp
@@ -1,6 +1,8 @@
 #include "ssprk2_advection.h"
 
 // STL include
+#include <algorithm>
+#include <vector>
 #include <sstream>
 #include <fstream>
 #include <cmath>
@@ -38,6 +40,10 @@ void advection_iterate(const int start,
     const double * __restrict__ a = n;        //(const double *) __builtin_assume_aligned((const void *) n, 32);
     double * __restrict__ b = np;        //(double *) __builtin_assume_aligned((void *) np, 32);
 
+    // Fluxes are computed first and then applied in two sweeps, so that no two
+    // iterations of a parallel loop touch the same cell
+    std::vector<double> flux(std::max(0, end - start));
+
     // Iterate - should autovectorize
 #pragma omp parallel for
     for (int i = start; i < end; i++) {
@@ -60,9 +66,18 @@ void advection_iterate(const int start,
 //                printf("(% e, % e, % e) : phi % e, Flux % e\n", vn, vc, vp, phi, dflux);
 //            }
 
-        b[i - downstream_stride] -= dflux; // 1 add : 1 FLO
-        b[i] += dflux; // 1 add : 1FLO
+        flux[i - start] = dflux;
+
+    }
 
+#pragma omp parallel for
+    for (int i = start; i < end; i++) {
+        b[i] += flux[i - start]; // 1 add : 1FLO
+    }
+
+#pragma omp parallel for
+    for (int i = start; i < end; i++) {
+        b[i - downstream_stride] -= flux[i - start]; // 1 add : 1 FLO
     }
 }
 
-- 
2.43.0


From dd2cfdc5d4ddc474e792879c599efa7bf86f4b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:04 +0000
Subject: [PATCH 24/36] fix: do not promise 64 byte alignment of std::vector
 storage

---
 src/lib/parallelization.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/parallelization.h b/src/lib/parallelization.h
index 91a5107..796fe57 100644
--- a/src/lib/parallelization.h
+++ b/src/lib/parallelization.h
@@ -2,7 +2,7 @@
 
 #define _QK_NUM_THREADS_ 8
 
-#define _QK_DOUBLE_ALIGNMENT_ 64
-#define _QK_ASSUME_ALIGNED(ptr) (double*)__builtin_assume_aligned(ptr,_QK_DOUBLE_ALIGNMENT_)
-#define _QK_ASSUME_ALIGNED_CONST(ptr) (const double*)__builtin_assume_aligned(ptr,_QK_DOUBLE_ALIGNMENT_)
+// The data lives in std::vector<double>, which only guarantees the alignment of double
+#define _QK_ASSUME_ALIGNED(ptr) ((double*)(ptr))
+#define _QK_ASSUME_ALIGNED_CONST(ptr) ((const double*)(ptr))
 
-- 
2.43.0


From 3744621537f3e8f5533aa9ce25a4e03a7cf894d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:04 +0000
Subject: [PATCH 25/36] fix: printing an unknown variable throws instead of
 creating it

---
 src/solver/print.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/print.cpp b/src/solver/print.cpp
index 9d1d8e8..da5052d 100644
--- a/src/solver/print.cpp
+++ b/src/solver/print.cpp
@@ -17,7 +17,7 @@ void print::solve(qk::variable::variable_manager & variable_manager, const int t
     std::ostream & os = std::cout;
 
     for(const qk::variable::variable_id & var_id : _input_variable_ids){
-        const qk::variable::variable & var = variable_manager.output_variable(var_id);
+        const qk::variable::variable & var = variable_manager.input_variable(var_id);
 
         os << "Printing Variable '"<<var.name()<<"'\n";
 
-- 
2.43.0


From 955216f07c36b2cf109dbe0d9e846ae3453b1fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:04 +0000
Subject: [PATCH 26/36] fix: gem_challenge refuses a wrong number of output
 variables

---
 src/solver/gem_challenge.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/gem_challenge.cpp b/src/solver/gem_challenge.cpp
index 8a74c48..1cba84e 100644
--- a/src/solver/gem_challenge.cpp
+++ b/src/solver/gem_challenge.cpp
@@ -4,6 +4,7 @@
 #include <cmath>
 
 // QK includes
+#include "lib/exception.h"
 #include "grid/grid.h"
 #include "variable/variable.h"
 
@@ -25,6 +26,9 @@ gem_challenge::~gem_challenge()
 
 void gem_challenge::solve(qk::variable::variable_manager & variable_manager, const int tag) const
 {
+    if (_output_variable_ids.size() != 3) {
+        throw qk::exception("qk::solver::gem_challenge::solve : Output must contain three variables.");
+    }
 
     double * __restrict__ e;
     double * __restrict__ i;
-- 
2.43.0


From 3c40dc55f4c35d9fdb36930431329e6678f2f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:24 +0000
Subject: [PATCH 27/36] fix: plane wave treats coordinates of absent dimensions
 as zero

---
 src/solver/electromagnetic_wave_1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/electromagnetic_wave_1D.cpp b/src/solver/electromagnetic_wave_1D.cpp
index 8d68a0b..9da7935 100644
--- a/src/solver/electromagnetic_wave_1D.cpp
+++ b/src/solver/electromagnetic_wave_1D.cpp
@@ -17,7 +17,7 @@ void electromagnetic_wave_1D::solve(qk::variable::variable_manager & variable_ma
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     double * __restrict__ f;
 
     for (const qk::variable::variable_id var_id : _output_variable_ids) {
-- 
2.43.0


From 9f00534145ed10d70884f415b91fed114f68ec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:24 +0000
Subject: [PATCH 28/36] fix: current source with a missing fluid leaves the
 right-hand side untouched

---
 src/solver/current_source.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solver/current_source.cpp b/src/solver/current_source.cpp
index 49f75ad..e331fba 100644
--- a/src/solver/current_source.cpp
+++ b/src/solver/current_source.cpp
@@ -85,6 +85,11 @@ void current_source::solve(qk::variable::variable_manager & variable_manager, co
         throw qk::exception("qk::solver::current_source::solve : Output must contain one variable (rhs).");
     }
 
+    // Look up every fluid before changing anything, so that a missing one leaves the rhs untouched
+    for(int i = 0; i < _multipliers.size(); ++i){
+        variable_manager.input_variable(_input_variable_ids[i]);
+    }
+
     qk::variable::variable & rhs = variable_manager.output_variable(_output_variable_ids[0]);
 
     for(int i = 0; i < _multipliers.size(); ++i){
-- 
2.43.0


From ad429c8fcdec0ac49fca94aafe4f9df7e8424dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:24 +0000
Subject: [PATCH 29/36] fix: swapping variables of different extent is refused
 before any is swapped

---
 src/solver/swap.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/solver/swap.cpp b/src/solver/swap.cpp
index b9adae3..487480d 100644
--- a/src/solver/swap.cpp
+++ b/src/solver/swap.cpp
@@ -30,6 +30,20 @@ swap::solve(qk::variable::variable_manager & variable_manager, const int tag) co
         throw qk::exception("qk::solver::swap::solve : Must have even number of output variables.");
     }
 
+    // Check every pair before swapping any
+    for(int i = 0; i < _output_variable_ids.size()/2; i++){
+
+        const qk::variable::variable & a = variable_manager.output_variable(_output_variable_ids[2*i]);
+        const qk::variable::variable & b = variable_manager.output_variable(_output_variable_ids[2*i+1]);
+
+        for(qk::indexer idx = a.indexer(); idx.exists(); ++idx){
+            if(a[idx].range() != b[idx].range()){
+                throw qk::exception("qk::solver::swap::solve : Variables to swap must have the same extent.");
+            }
+        }
+
+    }
+
     for(int i = 0; i < _output_variable_ids.size()/2; i++){
 
         qk::variable::variable & a = variable_manager.output_variable(_output_variable_ids[2*i]);
-- 
2.43.0


From ec1e156a48e60e1f835d87f547a1be013ca8ee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:49 +0000
Subject: [PATCH 30/36] fix: element access by an out of range indexer is
 refused in range checking builds

---
 src/lib/indexer_interface.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/indexer_interface.h b/src/lib/indexer_interface.h
index de25405..f5fe698 100644
--- a/src/lib/indexer_interface.h
+++ b/src/lib/indexer_interface.h
@@ -102,12 +102,22 @@ public:
     const T &
     operator [](const qk::indexer & index) const
     {
+#ifdef _QK_RANGE_CHECK_
+        if(index.linear_index() >= _data.size()) {
+            throw qk::exception("qk::indexer_interface::operator[] : Indexer out of range.");
+        }
+#endif
         return _data[index.linear_index()];
     }
 
     T &
     operator [](const qk::indexer & index)
     {
+#ifdef _QK_RANGE_CHECK_
+        if(index.linear_index() >= _data.size()) {
+            throw qk::exception("qk::indexer_interface::operator[] : Indexer out of range.");
+        }
+#endif
         return _data[index.linear_index()];
     }
 
-- 
2.43.0


From a8f9316fad9ce86715880c9cd234c89879937f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:20 +0000
Subject: [PATCH 31/36] fix: cell centres of a structured grid can be looked up
 by cursor

---
 src/grid/structured.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grid/structured.h b/src/grid/structured.h
index 26d9400..3c2eb93 100644
--- a/src/grid/structured.h
+++ b/src/grid/structured.h
@@ -24,7 +24,9 @@ public:
 
     void xc(const qk::indexer & idx, double * x) const
     {
-
+        for(int i = 0; i < num_dims(); i++){
+            x[i] = centroid(i, idx.index(i));
+        }
     }
 
     double centroid(const int dim, const int index) const;
-- 
2.43.0


From 7a7e366a45bf1d7963502d10efeb379d031fd875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:32 +0000
Subject: [PATCH 32/36] fix: supersonic faces with equal wave speeds do not
 yield NaN

---
 src/solver/euler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/euler.cpp b/src/solver/euler.cpp
index 02384e7..a363fe8 100644
--- a/src/solver/euler.cpp
+++ b/src/solver/euler.cpp
@@ -128,7 +128,7 @@ void solve_HLL_mp(const double gamma,
                     F[j] = (srr * fl[j] - sll * fr[j] + sll * srr * (qr[j] - ql[j])) / (srr - sll);
 
                     // This is the full flux calculation with the flux multipliers
-                    F[j] = fhll_mult * F[j] + fl_mult * fl[j] + fr_mult * fr[j];
+                    F[j] = (fhll_mult > 0 ? F[j] : 0.) + fl_mult * fl[j] + fr_mult * fr[j];
                 }
 
             }
@@ -197,7 +197,7 @@ void solve_HLL_mp(const double gamma,
                     F[j] = (srr * fl[j] - sll * fr[j] + sll * srr * (qr[j] - ql[j])) / (srr - sll);
 
                     // This is the full flux calculation with the flux multipliers
-                    F[j] = fhll_mult * F[j] + fl_mult * fl[j] + fr_mult * fr[j];
+                    F[j] = (fhll_mult > 0 ? F[j] : 0.) + fl_mult * fl[j] + fr_mult * fr[j];
                 }
 
             }
@@ -260,7 +260,7 @@ void solve_HLL_fast(const double gamma,
             for (int j = 0; j < 5; ++j) {
                 F[j] = (srr * fl[j] - sll * fr[j] + sll * srr * (qr[j] - ql[j])) / (srr - sll);
 
-                F[j] = fhll_mult * F[j] + fl_mult * fl[j] + fr_mult * fr[j];
+                F[j] = (fhll_mult > 0 ? F[j] : 0.) + fl_mult * fl[j] + fr_mult * fr[j];
             }
         _QK_FV_UPWIND_RECON_SOLVE_END(5)
     }
-- 
2.43.0


From 004a8959db4eb38e1d6bef60a0156556b6b1c669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:28 +0000
Subject: [PATCH 33/36] fix: the slope limiter is finite and accurate for all
 finite differences

---
 src/solver/euler.cpp            | 12 ++++-------
 src/solver/maxwell.cpp          | 36 +++++++++++----------------------
 src/solver/ssprk2_advection.cpp |  5 ++---
 src/spatial_solver/functions.h  | 30 +++++++++++++++++++++++----
 4 files changed, 44 insertions(+), 39 deletions(-)

diff --git a/src/solver/euler.cpp b/src/solver/euler.cpp
index a363fe8..dfeed34 100644
--- a/src/solver/euler.cpp
+++ b/src/solver/euler.cpp
@@ -77,10 +77,8 @@ void solve_HLL_mp(const double gamma,
                     const double & qc = qn_[j];
                     const double & qp = qc_[j];
                     const double & qpp = qp_[j];
-                    const double rl = (qp - qc) / (qc - qn + 1.e-12);
-                    const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(qc - qn, qp - qc);
+                    const double phir = qk::spatial_solver::van_albada(qpp - qp, qp - qc);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
@@ -146,10 +144,8 @@ void solve_HLL_mp(const double gamma,
                     const double & qc = qc_[j];
                     const double & qp = qp_[j];
                     const double & qpp = qpp_[j];
-                    const double rl = (qp - qc) / (qc - qn + 1.e-12);
-                    const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(qc - qn, qp - qc);
+                    const double phir = qk::spatial_solver::van_albada(qpp - qp, qp - qc);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
diff --git a/src/solver/maxwell.cpp b/src/solver/maxwell.cpp
index 7468811..b3545a3 100644
--- a/src/solver/maxwell.cpp
+++ b/src/solver/maxwell.cpp
@@ -121,10 +121,8 @@ void solve_rusanov_mp(const double c,
                     const double & qc = qn_[j];
                     const double & qp = qc_[j];
                     const double & qpp = qp_[j];
-                    const double rl = (qp - qc) / (qc - qn + 1.e-12);
-                    const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(qc - qn, qp - qc);
+                    const double phir = qk::spatial_solver::van_albada(qpp - qp, qp - qc);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
@@ -149,10 +147,8 @@ void solve_rusanov_mp(const double c,
                     const double & qc = qc_[j];
                     const double & qp = qp_[j];
                     const double & qpp = qpp_[j];
-                    const double rl = (qp - qc) / (qc - qn + 1.e-12);
-                    const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(qc - qn, qp - qc);
+                    const double phir = qk::spatial_solver::van_albada(qpp - qp, qp - qc);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
@@ -199,10 +195,8 @@ void solve_rusanov_mp(const double c,
                     const double & qc = qn_[j];
                     const double & qp = qc_[j];
                     const double & qpp = qp_[j];
-                    const double rl = (qp - qc) / (qc - qn + 1.e-12);
-                    const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(qc - qn, qp - qc);
+                    const double phir = qk::spatial_solver::van_albada(qpp - qp, qp - qc);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
@@ -227,10 +221,8 @@ void solve_rusanov_mp(const double c,
                     const double & qc = qc_[j];
                     const double & qp = qp_[j];
                     const double & qpp = qpp_[j];
-                    const double rl = (qp - qc) / (qc - qn + 1.e-12);
-                    const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(qc - qn, qp - qc);
+                    const double phir = qk::spatial_solver::van_albada(qpp - qp, qp - qc);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
@@ -278,10 +270,8 @@ void solve_rusanov_mp(const double c,
                     const double & qc = qn_[j];
                     const double & qp = qc_[j];
                     const double & qpp = qp_[j];
-                    const double rl = (qp - qc) / (qc - qn + 1.e-12);
-                    const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(qc - qn, qp - qc);
+                    const double phir = qk::spatial_solver::van_albada(qpp - qp, qp - qc);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
@@ -306,10 +296,8 @@ void solve_rusanov_mp(const double c,
                     const double & qc = qc_[j];
                     const double & qp = qp_[j];
                     const double & qpp = qpp_[j];
-                    const double rl = (qp - qc) / (qc - qn + 1.e-12);
-                    const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(qc - qn, qp - qc);
+                    const double phir = qk::spatial_solver::van_albada(qpp - qp, qp - qc);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
diff --git a/src/solver/ssprk2_advection.cpp b/src/solver/ssprk2_advection.cpp
index 851b364..79da955 100644
--- a/src/solver/ssprk2_advection.cpp
+++ b/src/solver/ssprk2_advection.cpp
@@ -18,6 +18,7 @@
 #include "variable/variable_id.h"
 #include "variable/variable.h"
 #include "data/functions.h"
+#include "spatial_solver/functions.h"
 
 namespace qk
 {
@@ -54,12 +55,10 @@ void advection_iterate(const int start,
         // Right cell value
         const double vp = a[i];
 
-        const double r = (vp != vc) ? (vc - vn) / (vp - vc) : 1.0; // 2 add, 1 div : 3 FLO
-
 //        std::cout << "reading indexes (vc,vn,vp) = " << i - downstream_stride << ", " << i - 2 * downstream_stride << ", " << i << std::endl;
 
         //const double phi = std::max(0.0, std::min(2. * r, std::min(2., (2. + r) / 3.))); // 1 add, 1 mul, 1 div, 3 min/max : 4 FLO
-        const double phi = r * (r + 1.0) / (r * r + 1.0);
+        const double phi = qk::spatial_solver::van_albada(vp - vc, vc - vn);
         const double dflux = coeff * (vc + 0.25 * phi * (vp - vn)); // 2 add, 3 mul : 5 FLO
 
 //            if(phi != phi){
diff --git a/src/spatial_solver/functions.h b/src/spatial_solver/functions.h
index c7c636a..ba72748 100644
--- a/src/spatial_solver/functions.h
+++ b/src/spatial_solver/functions.h
@@ -1,3 +1,25 @@
+#ifndef _qk_spatial_solver_functions_H
+#define _qk_spatial_solver_functions_H
+
+// STL includes
+#include <cmath>
+
+namespace qk
+{
+namespace spatial_solver
+{
+
+// Van Albada limiter (r*r + r) / (r*r + 1) with r = b / a. Only ever divides by the
+// larger of the two differences, so it is finite for all finite differences.
+inline double van_albada(const double a, const double b)
+{
+    const bool steeper = std::fabs(b) > std::fabs(a);
+    const double s = steeper ? a / b : (a != 0. ? b / a : 0.);
+    return (1. + s) * (steeper ? 1. : s) / (1. + s * s);
+}
+
+}
+}
 
 #define _QK_FV_UPWIND_RECON_SOLVE_START(dim, rhs_size, q_data, rhs_data)      \
     const double d = grid.dx(dim);                              \
@@ -20,10 +42,8 @@
             const double & qc = q_REST[i + j];                  \
             const double & qp = q_REST[ip + j];                 \
             const double & qpp = q_REST[ipp + j];               \
-            const double rl = (qp - qc) / (qc - qn + 1.e-12);   \
-            const double rr = (qp - qc) / (qpp - qp + 1.e-12);  \
-            const double phil = (rl * rl + rl) / (rl * rl + 1); \
-            const double phir = (rr * rr + rr) / (rr * rr + 1); \
+            const double phil = qk::spatial_solver::van_albada(qc - qn, qp - qc);   \
+            const double phir = qk::spatial_solver::van_albada(qpp - qp, qp - qc);  \
             ql[j] = qc + 0.5 * phil * (qc - qn);                \
             qr[j] = qp + 0.5 * phir * (qp - qpp);               \
         }
@@ -34,3 +54,5 @@
         rhs_REST[ip + j] += F[j] / d;                           \
     }                                                           \
 }
+
+#endif // _qk_spatial_solver_functions_H
-- 
2.43.0


From 03c25deedf63a8bf7a5f80ee46b2b9daa3145953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:23 +0000
Subject: [PATCH 34/36] fix: variable manager lost the memory of a new variable
 when memory ran out while registering it

---
 src/variable/variable_manager.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 03120d3..b063273 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -3,6 +3,8 @@
 // STL includes
 #include <fstream>
 #include <iomanip>
+#include <memory>
+#include <utility>
 
 // QK includes
 #include "variable/variable.h"
@@ -59,7 +61,12 @@ variable_manager::add_variable(const qk::variable::variable_id & var)
     if(_variables.find(var) != _variables.end()){
         throw qk::exception("qk::variable::variable_manager::add_variable : Variable already exists.");
     }
-    _variables[var] = new qk::variable::variable(var.name(), var.component_names(), var.basis(), _grid);
+
+    // The manager only takes over a complete variable, even if memory runs out half way
+    std::unique_ptr<qk::variable::variable> created(
+        new qk::variable::variable(var.name(), var.component_names(), var.basis(), _grid));
+    _variables.insert(std::make_pair(var, created.get()));
+    created.release();
 }
 
 void variable_manager::write_vtk(const std::string & prefix,
-- 
2.43.0


From 0ed0f7e9bfcdc98ed9236f0eb8ee79c1c4a9a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:00 +0000
Subject: [PATCH 35/36] fix: clones of identifiers made in two threads could
 get the same name

---
 src/variable/variable_id.cpp | 2 +-
 src/variable/variable_id.h   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/variable/variable_id.cpp b/src/variable/variable_id.cpp
index be04d13..8f3976b 100644
--- a/src/variable/variable_id.cpp
+++ b/src/variable/variable_id.cpp
@@ -5,7 +5,7 @@ namespace qk
 namespace variable
 {
 
-int variable_id::_tag = 0;
+std::atomic<int> variable_id::_tag(0);
 
 variable_id::variable_id()
 {
diff --git a/src/variable/variable_id.h b/src/variable/variable_id.h
index 160165d..c8cf91f 100644
--- a/src/variable/variable_id.h
+++ b/src/variable/variable_id.h
@@ -2,6 +2,8 @@
 #define _qk_variable_variable_id_H
 
 // STL includes
+#include <atomic>
+#include <sstream>
 #include <string>
 #include <vector>
 
@@ -81,7 +83,7 @@ public:
 
 protected:
 
-    static int _tag;
+    static std::atomic<int> _tag;
     std::string _name;
     qk::basis::basis _basis;
     std::vector<std::string> _component_names;
-- 
2.43.0


From e766e0c005a805b8e3d32994f95e1ab1c5e1ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:23 +0000
Subject: [PATCH 36/36] fix: exported files followed the number conventions of
 the global locale

---
 src/variable/variable_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index b063273..9c87f45 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -3,6 +3,7 @@
 // STL includes
 #include <fstream>
 #include <iomanip>
+#include <locale>
 #include <memory>
 #include <utility>
 
@@ -93,6 +94,8 @@ void variable_manager::write_vtk(const std::string & prefix,
             throw qk::exception("qk::solver:advection::write_VTK : File '" + filename + "' could not be created");
         }
 
+        // The format does not follow the conventions for numbers of the user's locale
+        file.imbue(std::locale::classic());
         file << std::setprecision(16);
         file << "# vtk DataFile Version 2.0\n";
         file << "quikin output\n";
-- 
2.43.0

