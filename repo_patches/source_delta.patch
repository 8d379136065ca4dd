From dcadd18ddb42a5edb81326cb8af63035ad1c76c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 001/171] fix: keep the coordinate type when copying Points

---
 src/api/points.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index 711018a..4925a7c 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -120,7 +120,7 @@ gridpp::Points::Points(const gridpp::Points& other) {
     mLons = other.mLons;
     mElevs = other.mElevs;
     mLafs = other.mLafs;
-    mTree = KDTree(mLats, mLons, mTree.get_coordinate_type());
+    mTree = other.mTree;
 }
 CoordinateType gridpp::Points::get_coordinate_type() const {
     return mTree.get_coordinate_type();
-- 
2.43.0


From 6ef24cd932af3338c969372505e5b71cd01fb654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 002/171] fix: keep the coordinate type in Points::subset and
 get_in_domain

---
 src/api/points.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index 4925a7c..c15fa1d 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -104,7 +104,7 @@ gridpp::Points gridpp::Points::get_in_domain(const gridpp::Grid& grid) const {
         elevs.push_back(mElevs[indices[s]]);
         lafs.push_back(mLafs[indices[s]]);
     }
-    const gridpp::Points new_points(lats, lons, elevs, lafs);
+    const gridpp::Points new_points(lats, lons, elevs, lafs, get_coordinate_type());
     return new_points;
 }
 gridpp::Points& gridpp::Points::operator=(gridpp::Points other) {
@@ -146,5 +146,5 @@ gridpp::Points gridpp::Points::subset(const ivec& indices) const {
         elevs[i] = mElevs[index];
         lafs[i] = mLafs[index];
     }
-    return gridpp::Points(lats, lons, elevs, lafs);
+    return gridpp::Points(lats, lons, elevs, lafs, get_coordinate_type());
 }
-- 
2.43.0


From 75f250aa0206715d4217c5055a7aae23c428eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 003/171] fix: reject negative indices in Points::subset

---
 src/api/points.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index c15fa1d..eb2c4cd 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -136,9 +136,9 @@ gridpp::Points gridpp::Points::subset(const ivec& indices) const {
     vec lafs(N);
     for(int i = 0; i < N; i++) {
         int index = indices[i];
-        if(index >= mLats.size()) {
+        if(index < 0 || index >= mLats.size()) {
             std::stringstream ss;
-            ss << "Index " << index << " exceeds number of points " << mLats.size();
+            ss << "Index " << index << " is negative or exceeds number of points " << mLats.size();
             throw std::invalid_argument(ss.str());
         }
         lats[i] = mLats[index];
-- 
2.43.0


From 03e435b1a64fc695364d7710ebfc2d5c280b949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 004/171] fix: fill in missing elevs and lafs when creating
 Points from a KDTree

---
 src/api/points.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index eb2c4cd..cd4dc08 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -35,6 +35,15 @@ gridpp::Points::Points(KDTree tree, vec elevs, vec lafs) {
     mTree = tree;
     mLats = tree.get_lats();
     mLons = tree.get_lons();
+    int N = mLats.size();
+    if(mElevs.size() != 0 && mElevs.size() != N)
+        throw std::invalid_argument("'elevs' must either be size 0 or the same size as the tree");
+    if(mLafs.size() != 0 && mLafs.size() != N)
+        throw std::invalid_argument("'lafs' must either be size 0 or the same size as the tree");
+    if(mElevs.size() != N)
+        mElevs.resize(N, gridpp::MV);
+    if(mLafs.size() != N)
+        mLafs.resize(N, gridpp::MV);
 }
 
 int gridpp::Points::get_num_neighbours(float lat, float lon, float radius, bool include_match) const {
-- 
2.43.0


From ca8fb57d3bb83d0c8f5bc3b948940bb6512c817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 005/171] fix: use the coordinate type of the grid in
 Grid::get_box

---
 src/api/grid.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index 58b0185..eba3c1f 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -149,6 +149,7 @@ CoordinateType gridpp::Grid::get_coordinate_type() const {
 bool gridpp::Grid::get_box(float lat, float lon, int& Y1, int& X1, int& Y2, int& X2) const {
     int xdir = 1;
     int ydir = 1;
+    CoordinateType type = get_coordinate_type();
     ivec nn = get_nearest_neighbour(lat, lon);
     if(nn.size() != 2)
         return false;
@@ -194,11 +195,11 @@ bool gridpp::Grid::get_box(float lat, float lon, int& Y1, int& X1, int& Y2, int&
         else if(X == nX - 1 && xdir == 1)
             continue;
         // std::cout << "Iteration " << it << " " << ydir << " " << xdir << std::endl;
-        Point A(mLats[Y][X], mLons[Y][X]);
-        Point B(mLats[Y + ydir][X], mLons[Y + ydir][X]);
-        Point C(mLats[Y + ydir][X + xdir], mLons[Y + ydir][X + xdir]);
-        Point D(mLats[Y][X + xdir], mLons[Y][X + xdir]);
-        Point curr(lat, lon);
+        Point A(mLats[Y][X], mLons[Y][X], gridpp::MV, gridpp::MV, type);
+        Point B(mLats[Y + ydir][X], mLons[Y + ydir][X], gridpp::MV, gridpp::MV, type);
+        Point C(mLats[Y + ydir][X + xdir], mLons[Y + ydir][X + xdir], gridpp::MV, gridpp::MV, type);
+        Point D(mLats[Y][X + xdir], mLons[Y][X + xdir], gridpp::MV, gridpp::MV, type);
+        Point curr(lat, lon, gridpp::MV, gridpp::MV, type);
         // std::cout << A.lat << "," << B.lat << "," << C.lat << "," << D.lat << "," << curr.lat << std::endl;
         // std::cout << A.lon << "," << B.lon << "," << C.lon << "," << D.lon << "," << curr.lon << std::endl;
         bool inrectangle = point_in_rectangle(A, B, C, D, curr);
-- 
2.43.0


From bdbddc7ef7a794b4532135e338d0b4b00a5114a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 006/171] fix: let x be the x-coordinate (lon) in Cartesian
 Point

---
 src/api/point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/point.cpp b/src/api/point.cpp
index c632690..35bbd0b 100644
--- a/src/api/point.cpp
+++ b/src/api/point.cpp
@@ -16,8 +16,8 @@ gridpp::Point::Point(float lat, float lon, float elev, float laf, CoordinateType
         gridpp::convert_coordinates(lat, lon, type, this->x, this->y, this->z);
     }
     else {
-        this->x = lat;
-        this->y = lon;
+        this->x = lon;
+        this->y = lat;
         this->z = 0;
     }
 }
-- 
2.43.0


From 6f5b999bc265905795864fe31d9feb912c4be4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 007/171] fix: avoid NaN in calc_distance for nearly identical
 points

---
 src/api/kdtree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index fe287f8..492a0c9 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -127,6 +127,8 @@ float gridpp::KDTree::calc_distance(float lat1, float lon1, float lat2, float lo
         double ratio = cos(lat1r)*cos(lon1r)*cos(lat2r)*cos(lon2r)
                        + cos(lat1r)*sin(lon1r)*cos(lat2r)*sin(lon2r)
                        + sin(lat1r)*sin(lat2r);
+        // Rounding can bring the ratio slightly outside [-1, 1]
+        ratio = std::max(-1.0, std::min(1.0, ratio));
         double dist = acos(ratio)*radiusEarth;
         return (float) dist;
     }
-- 
2.43.0


From 9afdf1a5fa85b4b840bc8c1d3d35689433b19085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 008/171] fix: solve bilinear weights robustly when opposite
 cell sides are almost parallel

---
 src/api/bilinear.cpp | 141 ++++++++++++-------------------------------
 1 file changed, 37 insertions(+), 104 deletions(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index 6dc9202..5dcbade 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -159,110 +159,43 @@ namespace {
 
     bool calcGeneral(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float &t, float &s) {
         // std::cout << "Method general" << std::endl;
-        double a = -x0 + x2;
-        double b = -x0 + x1;
-        double c = x0 - x1 - x2 + x3;
-        double d = x - x0;
-        double e = -y0 + y2;
-        double f = -y0 + y1;
-        double g = y0 - y1 - y2 + y3;
-        double h = y - y0;
-        double alpha=gridpp::MV, beta=gridpp::MV;
-        double Y1 = y1;
-        double Y2 = y3;
-        double Y3 = y0;
-        double Y4 = y2;
-        double X1 = x1;
-        double X2 = x3;
-        double X3 = x0;
-        double X4 = x2;
-        double X31 = X3 - X1;
-        double X21 = X2 - X1;
-        double Y42 = Y4 - Y2;
-        double Y21 = Y2 - Y1;
-        double Y31 = Y3 - Y1;
-        double Y43 = Y4 - Y3;
-        double X42 = X4 - X2;
-        double X43 = X4 - X3;
-        double tol = 0.001;
-        /*
-        std::cout << "a " << a << std::endl;
-        std::cout << "b " << b << std::endl;
-        std::cout << "c " << c << std::endl;
-        std::cout << "d " << d << std::endl;
-        std::cout << "e " << e << std::endl;
-        std::cout << "f " << f << std::endl;
-        std::cout << "g " << g << std::endl;
-        std::cout << "h " << h << std::endl;
-  */
-        if(2 * c * e - 2 * a * g != 0 && 2 * c * f - 2 * b * g != 0) {
-            // Quadratic equation has two solutions
-            alpha = -(b * e - a * f + d * g - c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
-            beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
-            /*
-            std::cout << "alpha " << alpha << " beta " << beta << std::endl;
-            std::cout << "sqrt " << sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)) << std::endl;
-            std::cout << "first part " << b * e - a * f + d * g - c * h << std::endl;
-            std::cout << "second part " << b * e - a * f - d * g + c * h << std::endl;
-            */
-            if(!is_within_range(alpha))
-                alpha = -(b * e - a * f + d * g - c * h - sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
-            if(!is_within_range(beta))
-                beta  = (b * e - a * f - d * g + c * h - sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
-            if(!is_within_range(alpha) || !is_within_range(beta)) {
-            }
-            /*
-            std::cout << std::setprecision(10) << "alpha " << alpha << " beta " << beta << std::endl;
-            std::cout << std::setprecision(10) << x << std::endl;
-            std::cout << std::setprecision(10) << y << std::endl;
-            std::cout << std::setprecision(10) << x0 << std::endl;
-            std::cout << std::setprecision(10) << x1 << std::endl;
-            std::cout << std::setprecision(10) << x2 << std::endl;
-            std::cout << std::setprecision(10) << x3 << std::endl;
-            std::cout << std::setprecision(10) << y0 << std::endl;
-            std::cout << std::setprecision(10) << y1 << std::endl;
-            std::cout << std::setprecision(10) << y2 << std::endl;
-            std::cout << std::setprecision(10) << y3 << std::endl;
-  */
-            assert(is_within_range(alpha));
-            assert(is_within_range(beta));
-        }
-        else if(2 * c * f - 2 * b * g == 0) {
-            // std::cout << "Need to diagnose t" << std::endl;
-            alpha = -(b * e - a * f + d * g - c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
-            if(!is_within_range(alpha))
-                alpha = -(b * e - a * f + d * g - c * h - sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
-            float s = alpha;
-            float t;
-            if(Y3 + Y43 * s - Y1 - Y21 * s == 0) {
-                assert(X3 + X43 * s - X1 - X21 * s != 0);
-                t = (x - X1 - X21 * s) / (X3 + X43 * s - X1 - X21 * s);
-            }
-            else {
-                t = (y - Y1 - Y21 * s) / (Y3 + Y43 * s - Y1 - Y21 * s);
-            }
-            beta = 1 - t;
-            assert(is_within_range(alpha));
-            assert(is_within_range(beta));
-        }
-        else if(2 * c * e - 2 * a * g == 0) {
-            // std::cout << "Need to diagnose s" << std::endl;
-            beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
-            if(!is_within_range(beta))
-                beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
-            float t =  1 - beta;
-            float s;
-            if(Y2 + Y42 * t - Y1 - Y31 * t == 0) {
-                assert(X2 + X42 * t - X1 - X31 * t != 0);
-                s = (x - X1 - X31 * t) / (X2 + X42 * t - X1 - X31 * t);
-            }
-            else {
-                s = (y - Y1 - Y31 * t) / (Y2 + Y42 * t - Y1 - Y31 * t);
-            }
-            alpha = s;
-            assert(is_within_range(alpha));
-            assert(is_within_range(beta));
-        }
+        // Solve for (alpha, beta) in:
+        //    a * alpha + b * beta + c * alpha * beta = d
+        //    e * alpha + f * beta + g * alpha * beta = h
+        // Coordinate differences are taken in double precision
+        double X0 = x0, X1 = x1, X2 = x2, X3 = x3;
+        double Y0 = y0, Y1 = y1, Y2 = y2, Y3 = y3;
+        double a = X2 - X0;
+        double b = X1 - X0;
+        double c = X0 - X1 - X2 + X3;
+        double d = x - X0;
+        double e = Y2 - Y0;
+        double f = Y1 - Y0;
+        double g = Y0 - Y1 - Y2 + Y3;
+        double h = y - Y0;
+
+        // Eliminating beta gives qa * alpha^2 + qb * alpha + qc = 0. One or both of the pairs of
+        // opposite sides can be (almost) parallel, therefore qa can be (almost) 0. Use the form of
+        // the solution that does not suffer from cancellation in that case.
+        double qa = c * e - a * g;
+        double qb = b * e - a * f + d * g - c * h;
+        double qc = d * f - b * h;
+        double disc = qb * qb - 4 * qa * qc;
+        if(disc < 0)
+            disc = 0;
+        double q = -0.5 * (qb + (qb < 0 ? -sqrt(disc) : sqrt(disc)));
+        double alpha = q != 0 ? qc / q : 0;
+        if(!is_within_range(alpha) && qa != 0)
+            alpha = q / qa;
+
+        double denom_x = b + c * alpha;
+        double denom_y = f + g * alpha;
+        double beta;
+        if(fabs(denom_x) > fabs(denom_y))
+            beta = (d - a * alpha) / denom_x;
+        else
+            beta = (h - e * alpha) / denom_y;
+
         s = alpha;
         t = 1 - beta;
         return true;
-- 
2.43.0


From 2b95be374fcb69cfd6f30225f624156c94de3be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 009/171] fix: do not read downscaled elevs/lafs in
 full_gradient_debug when there is no gradient

---
 src/api/gradient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/gradient.cpp b/src/api/gradient.cpp
index e66c138..34065c0 100644
--- a/src/api/gradient.cpp
+++ b/src/api/gradient.cpp
@@ -321,9 +321,9 @@ vec3 gridpp::full_gradient_debug(const Grid& igrid, const Grid& ogrid, const vec
         for(int x = 0; x < nX; x++){
             //Collect output and input LAF and elevations
             float olaf = olafs[y][x];
-            float ilaf = dlafs[y][x];
+            float ilaf = dlafs.size() > 0 ? dlafs[y][x] : gridpp::MV;
             float oelev = oelevs[y][x];
-            float ielev = delevs[y][x];
+            float ielev = delevs.size() > 0 ? delevs[y][x] : gridpp::MV;
 
             //Calculate LAF and elevation difference between output and input
             float laf_diff = olaf - ilaf;
-- 
2.43.0


From 47a0a207c838d6e8e7fb04bda81d6ec60b0bdfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 010/171] fix: throw on gradients with the wrong size in
 full_gradient instead of aborting

---
 src/api/gradient.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/api/gradient.cpp b/src/api/gradient.cpp
index 34065c0..ca64637 100644
--- a/src/api/gradient.cpp
+++ b/src/api/gradient.cpp
@@ -100,14 +100,16 @@ vec3 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec3& iva
         fields.push_back(ivalues[t]);
     }
     if(elev_gradient.size() != 0) {
-        assert(gridpp::compatible_size(elev_gradient, ivalues));
+        if(!gridpp::compatible_size(igrid, elev_gradient) || elev_gradient.size() != ivalues.size())
+            throw std::invalid_argument("Elevation gradient is the wrong size");
         for(int t = 0; t < nTime; t++) {
             fields.push_back(elev_gradient[t]);
         }
         fields.push_back(igrid.get_elevs());
     }
     if(laf_gradient.size() != 0) {
-        assert(gridpp::compatible_size(laf_gradient, ivalues));
+        if(!gridpp::compatible_size(igrid, laf_gradient) || laf_gradient.size() != ivalues.size())
+            throw std::invalid_argument("Laf gradient is the wrong size");
         for(int t = 0; t < nTime; t++) {
             fields.push_back(laf_gradient[t]);
         }
@@ -183,16 +185,16 @@ vec gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec2&
     vec delev_gradient;
     vec delevs;
     if(elev_gradient.size() != 0) {
-        assert(elev_gradient.size() == ivalues.size());
-        assert(elev_gradient[0].size() == ivalues[0].size());
+        if(!gridpp::compatible_size(igrid, elev_gradient))
+            throw std::invalid_argument("Elevation gradient is the wrong size");
         delev_gradient = gridpp::downscaling(igrid, opoints, elev_gradient, downscaler);
         delevs = gridpp::downscaling(igrid, opoints, igrid.get_elevs(), downscaler);
     }
     vec dlaf_gradient;
     vec dlafs;
     if(laf_gradient.size() != 0) {
-        assert(laf_gradient.size() == ivalues.size());
-        assert(laf_gradient[0].size() == ivalues[0].size());
+        if(!gridpp::compatible_size(igrid, laf_gradient))
+            throw std::invalid_argument("Laf gradient is the wrong size");
         dlaf_gradient = gridpp::downscaling(igrid, opoints, laf_gradient, downscaler);
         dlafs = gridpp::downscaling(igrid, opoints, igrid.get_lafs(), downscaler);
     }
@@ -235,12 +237,16 @@ vec2 gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec3&
     vec2 delev_gradient;
     vec delevs;
     if(elev_gradient.size() != 0) {
+        if(elev_gradient.size() != ivalues.size())
+            throw std::invalid_argument("Elevation gradient is the wrong size");
         delev_gradient = gridpp::downscaling(igrid, opoints, elev_gradient, downscaler);
         delevs = gridpp::downscaling(igrid, opoints, igrid.get_elevs(), downscaler);
     }
     vec2 dlaf_gradient;
     vec dlafs;
     if(laf_gradient.size() != 0) {
+        if(laf_gradient.size() != ivalues.size())
+            throw std::invalid_argument("Laf gradient is the wrong size");
         dlaf_gradient = gridpp::downscaling(igrid, opoints, laf_gradient, downscaler);
         dlafs = gridpp::downscaling(igrid, opoints, igrid.get_lafs(), downscaler);
     }
-- 
2.43.0


From ae73740c5a95b214ecf5b86ab95f4b45deaf57e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 011/171] fix: return missing in smart when there are no
 neighbours within the localization distance

---
 src/api/smart.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/api/smart.cpp b/src/api/smart.cpp
index 6f5c0c9..e9faa48 100644
--- a/src/api/smart.cpp
+++ b/src/api/smart.cpp
@@ -45,7 +45,6 @@ vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, in
                 rhos.push_back(std::pair<float,int>(rho, s));
             }
             std::sort(rhos.begin(), rhos.end(), ::sort_pair_first<float,int>());
-            assert(rhos[0].first <= rhos[rhos.size()-1].first);
             float sum = 0;
             int count = 0;
             for(int s = 0; s < std::min(num, int(indices.size())); s++) {
-- 
2.43.0


From db60c0e2b9a5d8da56c92ec7e0764ba5d268336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 012/171] fix: pool neighbourhood and members in neighbourhood
 on ensembles

The statistic of the statistic of each cell was computed, which differs from
the documented statistic across the neighbourhood and all members (count, std,
variance, median, and mean when members are missing).
---
 src/api/neighbourhood.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 4d61131..9a7bdfc 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -10,10 +10,32 @@ namespace {
     vec3 vec2_to_vec3(const vec2& input);
 }
 vec2 gridpp::neighbourhood(const vec3& input, int halfwidth, gridpp::Statistic statistic) {
-    vec2 flat(input.size());
+    if(halfwidth < 0)
+        throw std::invalid_argument("Half width must be > 0");
+    if(statistic == gridpp::Quantile)
+        throw std::invalid_argument("Use neighbourhood_quantile for computing neighbourhood quantiles");
+    if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
+        return vec2();
+
     int Y = input.size();
     int X = input[0].size();
-    int E = input[0][0].size();
+    if(statistic == gridpp::Mean) {
+        // Cells can have different number of valid members
+        vec2 sum = neighbourhood(input, halfwidth, gridpp::Sum);
+        vec2 count = neighbourhood(input, halfwidth, gridpp::Count);
+        for(int y = 0; y < Y; y++) {
+            for(int x = 0; x < X; x++) {
+                if(count[y][x] > 0)
+                    sum[y][x] /= count[y][x];
+            }
+        }
+        return sum;
+    }
+    if(statistic != gridpp::Sum && statistic != gridpp::Count && statistic != gridpp::Min && statistic != gridpp::Max) {
+        // These cannot be computed from the statistic of each cell
+        return gridpp::neighbourhood_brute_force(input, halfwidth, statistic);
+    }
+    vec2 flat(input.size());
     for(int y = 0; y < Y; y++) {
         flat[y].resize(X, 0);
     }
@@ -22,6 +44,8 @@ vec2 gridpp::neighbourhood(const vec3& input, int halfwidth, gridpp::Statistic s
             flat[y][x] = gridpp::calc_statistic(input[y][x], statistic);
         }
     }
+    if(statistic == gridpp::Count)
+        return neighbourhood(flat, halfwidth, gridpp::Sum);
     vec2 results = neighbourhood(flat, halfwidth, statistic);
     return results;
 }
-- 
2.43.0


From daf693b4a47803392a607882fc42e789969e77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 013/171] fix: compute neighbourhood variance and std in a
 numerically stable way

Fields with a large mean gave wrong variances and NaN for std.
---
 src/api/neighbourhood.cpp | 52 ++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 9a7bdfc..c985073 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -233,26 +233,50 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
         }
     }
     else if(statistic == gridpp::Std || statistic == gridpp::Variance) {
-        vec2 mean = gridpp::neighbourhood(input, halfwidth, gridpp::Mean);
-        vec2 input2(nY);
+        // E[X^2] - E[X]^2 is unstable when the variance is small and the mean is large. Use VAR(X) =
+        // VAR(X - K), where K is the mean of the field, and accumulate in double precision.
+        double K = 0;
+        int num_valid = 0;
         for(int y = 0; y < nY; y++) {
-            input2[y].resize(input[y].size(), 0);
             for(int x = 0; x < nX; x++) {
-                input2[y][x] = input[y][x] * input[y][x];
+                if(gridpp::is_valid(input[y][x])) {
+                    K += input[y][x];
+                    num_valid++;
+                }
             }
         }
-        vec2 mean2 = gridpp::neighbourhood(input2, halfwidth, gridpp::Mean);
-        if(statistic == gridpp::Std) {
-            for(int y = 0; y < nY; y++) {
-                for(int x = 0; x < nX; x++) {
-                    output[y][x] = sqrt(mean2[y][x] - mean[y][x] * mean[y][x]);
-                }
+        if(num_valid > 0)
+            K /= num_valid;
+
+        // Sums over all cells below and to the left, with a leading row and column of zeros
+        dvec2 sum(nY + 1), sum2(nY + 1);
+        ivec2 counts(nY + 1);
+        for(int y = 0; y < nY + 1; y++) {
+            sum[y].resize(nX + 1, 0);
+            sum2[y].resize(nX + 1, 0);
+            counts[y].resize(nX + 1, 0);
+        }
+        for(int y = 0; y < nY; y++) {
+            for(int x = 0; x < nX; x++) {
+                bool valid = gridpp::is_valid(input[y][x]);
+                double value = valid ? input[y][x] - K : 0;
+                sum[y+1][x+1] = sum[y+1][x] + sum[y][x+1] - sum[y][x] + value;
+                sum2[y+1][x+1] = sum2[y+1][x] + sum2[y][x+1] - sum2[y][x] + value * value;
+                counts[y+1][x+1] = counts[y+1][x] + counts[y][x+1] - counts[y][x] + valid;
             }
         }
-        else {
-            for(int y = 0; y < nY; y++) {
-                for(int x = 0; x < nX; x++) {
-                    output[y][x] = mean2[y][x] - mean[y][x] * mean[y][x];
+        for(int y = 0; y < nY; y++) {
+            int y0 = std::max(0, y - halfwidth);
+            int y1 = std::min(nY - 1, y + halfwidth) + 1;
+            for(int x = 0; x < nX; x++) {
+                int x0 = std::max(0, x - halfwidth);
+                int x1 = std::min(nX - 1, x + halfwidth) + 1;
+                int count = counts[y1][x1] - counts[y0][x1] - counts[y1][x0] + counts[y0][x0];
+                if(count > 0) {
+                    double mean = (sum[y1][x1] - sum[y0][x1] - sum[y1][x0] + sum[y0][x0]) / count;
+                    double mean2 = (sum2[y1][x1] - sum2[y0][x1] - sum2[y1][x0] + sum2[y0][x0]) / count;
+                    double variance = std::max(0.0, mean2 - mean * mean);
+                    output[y][x] = statistic == gridpp::Std ? std::sqrt(variance) : variance;
                 }
             }
         }
-- 
2.43.0


From 3ddc729f20166c6101b2874913909f8217c12717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 014/171] fix: keep the quantile level private to each thread
 in neighbourhood_quantile_fast

---
 src/api/neighbourhood.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index c985073..ae2c4b4 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -410,15 +410,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec2& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
-            if(is_fixed_quantile)
-                curr_quantile = fixed_quantile;
-            else
-                curr_quantile = quantile[y][x];
+            float curr_quantile = is_fixed_quantile ? fixed_quantile : quantile[y][x];
             vec yarray(thresholds.size(), gridpp::MV);
             bool is_missing = false;
             for(int t = 0; t < thresholds.size(); t++) {
@@ -526,15 +521,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec3& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
-            if(is_fixed_quantile)
-                curr_quantile = fixed_quantile;
-            else
-                curr_quantile = quantile[y][x];
+            float curr_quantile = is_fixed_quantile ? fixed_quantile : quantile[y][x];
             vec yarray(thresholds.size(), gridpp::MV);
             bool is_missing = false;
             for(int t = 0; t < thresholds.size(); t++) {
-- 
2.43.0


From e01d1e5ee53a40c616aa8eeba43a97385d9ed0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 015/171] fix: remove counter updated by several threads in
 neighbourhood

---
 src/api/neighbourhood.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index ae2c4b4..460a52e 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -59,7 +59,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
 
     double s_time = gridpp::clock();
     bool fast = true;
-    int count_stat = 0;
     int nY = input.size();
     int nX = input[0].size();
     vec2 output(nY);
@@ -198,7 +197,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         }
                     }
                     values[i][j] = gridpp::calc_statistic(neighbourhood, statistic);
-                    count_stat += neighbourhood.size();
                 }
             }
             else {
@@ -212,7 +210,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         count++;
                     }
                     slivers[j] = gridpp::calc_statistic(sliver, statistic);
-                    count_stat += sliver.size();
                 }
                 for(int j = 0; j < nX; j++) {
                     vec curr;
@@ -221,7 +218,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         curr.push_back(slivers[jj]);
                     }
                     values[i][j] = gridpp::calc_statistic(curr, statistic);
-                    count_stat += curr.size();
                 }
             }
         }
@@ -285,7 +281,7 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
         output = gridpp::neighbourhood_brute_force(input, halfwidth, statistic);
     }
     double e_time = gridpp::clock() ;
-    // std::cout << count_stat << " " << e_time - s_time << " s" << std::endl;
+    // std::cout << e_time - s_time << " s" << std::endl;
     return output;
 }
 vec gridpp::get_neighbourhood_thresholds(const vec2& input, int num_thresholds) {
@@ -598,7 +594,6 @@ namespace {
         if(input.size() == 0 || input[0].size() == 0)
             return vec2();
 
-        int count_stat = 0;
         int nY = input.size();
         if(nY == 0)
             return vec2(0);
@@ -634,7 +629,6 @@ namespace {
                     output[y][x] = gridpp::calc_quantile(neighbourhood, quantile);
                 else
                     output[y][x] = gridpp::calc_statistic(neighbourhood, statistic);
-                count_stat += neighbourhood.size();
             }
         }
         return output;
@@ -645,7 +639,6 @@ namespace {
         if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
             return vec2();
 
-        int count_stat = 0;
         int nY = input.size();
         if(nY == 0)
             return vec2();
@@ -685,7 +678,6 @@ namespace {
                     output[i][j] = gridpp::calc_quantile(neighbourhood, quantile);
                 else
                     output[i][j] = gridpp::calc_statistic(neighbourhood, statistic);
-                count_stat += neighbourhood.size();
             }
         }
         return output;
-- 
2.43.0


From 523651fbf869ebc9e5742b1d438b114b483b6611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 016/171] fix: avoid integer overflow in neighbourhood with
 very large halfwidths

---
 src/api/neighbourhood.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 460a52e..2f72474 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -61,6 +61,8 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
     bool fast = true;
     int nY = input.size();
     int nX = input[0].size();
+    // Avoid integer overflow for very large neighbourhoods
+    halfwidth = std::min(halfwidth, std::max(nY, nX));
     vec2 output(nY);
     for(int y = 0; y < nY; y++) {
         output[y].resize(nX, gridpp::MV);
@@ -601,6 +603,8 @@ namespace {
         if(nX == 0)
             return vec2(0);
         vec2 output(nY);
+        // Avoid integer overflow for very large neighbourhoods
+        halfwidth = std::min(halfwidth, std::max(nY, nX));
         for(int y = 0; y < nY; y++) {
             output[y].resize(nX, gridpp::MV);
         }
@@ -649,6 +653,8 @@ namespace {
         if(nEns == 0)
             return vec2();
         vec2 output(nY);
+        // Avoid integer overflow for very large neighbourhoods
+        halfwidth = std::min(halfwidth, std::max(nY, nX));
         for(int y = 0; y < nY; y++) {
             output[y].resize(nX, gridpp::MV);
         }
-- 
2.43.0


From 6d8410e430b8cd076f77e11e9fc56e3cc9b03d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 017/171] fix: throw on invalid quantile or statistic in
 neighbourhood instead of aborting

---
 src/api/neighbourhood.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 2f72474..5991560 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -608,6 +608,12 @@ namespace {
         for(int y = 0; y < nY; y++) {
             output[y].resize(nX, gridpp::MV);
         }
+        // Exceptions cannot leave the parallel region, so trigger those for invalid arguments here
+        if(statistic == gridpp::Quantile)
+            gridpp::calc_quantile(vec(), quantile);
+        else
+            gridpp::calc_statistic(vec(), statistic);
+
         #pragma omp parallel for
         for(int y = 0; y < nY; y++) {
             for(int x = 0; x < nX; x++) {
@@ -658,6 +664,12 @@ namespace {
         for(int y = 0; y < nY; y++) {
             output[y].resize(nX, gridpp::MV);
         }
+        // Exceptions cannot leave the parallel region, so trigger those for invalid arguments here
+        if(statistic == gridpp::Quantile)
+            gridpp::calc_quantile(vec(), quantile);
+        else
+            gridpp::calc_statistic(vec(), statistic);
+
         #pragma omp parallel for
         for(int i = 0; i < nY; i++) {
             for(int j = 0; j < nX; j++) {
-- 
2.43.0


From 18dc4ae71b9cbe72297721d452594f40aebaa524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 018/171] fix: handle data with few unique values in
 calc_even_quantiles

An internal error was thrown when there were fewer unique values than quantiles
left (or equally many, due to rounding).
---
 src/api/util.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index 0ca5020..e242067 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -317,20 +317,14 @@ vec gridpp::calc_even_quantiles(const vec& values, int num) {
     }
 
     if(remaining_unique_values.size() > 0) {
-        int num_left = num - quantiles.size();
-        for(int i = 1; i <= num_left; i++) {
-            float f = float(i) / (num_left);
-            int index = remaining_unique_values.size() * f - 1;
-            if(index >= 0) {
-                assert(index < remaining_unique_values.size());
-                float value = remaining_unique_values[index];
-                quantiles.push_back(value);
-            }
-            else {
-                std::cout << i << " " << f << " " << index << " " << num_left << " " << remaining_unique_values.size() << std::endl;
-                std::cout << count_lower << " " << sorted.size() << " " << last_added << std::endl;
-                throw std::runtime_error("Internal error in calc_even_quantiles.");
-            }
+        // There can be fewer unique values than quantiles left
+        int num_left = std::min(num - (int) quantiles.size(), (int) remaining_unique_values.size());
+        for(long i = 1; i <= num_left; i++) {
+            int index = remaining_unique_values.size() * i / num_left - 1;
+            assert(index >= 0);
+            assert(index < remaining_unique_values.size());
+            float value = remaining_unique_values[index];
+            quantiles.push_back(value);
         }
     }
     return quantiles;
-- 
2.43.0


From e7b44239710db6dc7fdd9c55bc121edb92fd53ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 019/171] fix: do not convert missing to int in get_lower_index
 and get_upper_index

The conversion is undefined, and interpolate used the result as an index when the
x-values are missing.
---
 src/api/util.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index e242067..b1a9f87 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -331,7 +331,7 @@ vec gridpp::calc_even_quantiles(const vec& values, int num) {
 
 }
 int gridpp::get_lower_index(float iX, const vec& iValues) {
-    int index = gridpp::MV;
+    int index = -1;
     for(int i = 0; i < (int) iValues.size(); i++) {
         float currValue = iValues[i];
         if(gridpp::is_valid(currValue)) {
@@ -350,7 +350,7 @@ int gridpp::get_lower_index(float iX, const vec& iValues) {
     return index;
 }
 int gridpp::get_upper_index(float iX, const vec& iValues) {
-    int index = gridpp::MV;
+    int index = -1;
     for(int i = iValues.size()-1; i >= 0; i--) {
         float currValue = iValues[i];
         if(gridpp::is_valid(currValue)) {
@@ -384,6 +384,8 @@ float gridpp::interpolate(float x, const vec& iX, const vec& iY) {
 
     int i0   = get_lower_index(x, iX);
     int i1   = get_upper_index(x, iX);
+    if(i0 < 0 || i1 < 0)
+        return gridpp::MV;
     float x0 = iX[i0];
     float x1 = iX[i1];
     float y0 = iY[i0];
-- 
2.43.0


From d318eccdcad882bfdd988778d266f410d9a9089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 020/171] fix: recognize variance in get_statistic

---
 src/api/gridpp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/gridpp.cpp b/src/api/gridpp.cpp
index fee9882..64111b5 100644
--- a/src/api/gridpp.cpp
+++ b/src/api/gridpp.cpp
@@ -28,6 +28,9 @@ gridpp::Statistic gridpp::get_statistic(std::string name) {
     else if(name == "std") {
         type = gridpp::Std;
     }
+    else if(name == "variance") {
+        type = gridpp::Variance;
+    }
     else if(name == "sum") {
         type = gridpp::Sum;
     }
-- 
2.43.0


From 345c19c44d8b73c661610a020feaadca05220a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 021/171] fix: do not consider an empty field compatible with a
 non-empty grid

Downscaling an empty field read out of bounds.
---
 src/api/util.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index b1a9f87..832d003 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -421,10 +421,16 @@ vec gridpp::interpolate(const vec& x, const vec& iX, const vec& iY) {
     return y;
 }
 bool gridpp::compatible_size(const Grid& grid, const vec2& v) {
-    return v.size() == 0 || (grid.size()[0] == v.size() && grid.size()[1] == v[0].size());
+    if(v.size() == 0)
+        return grid.size()[0] == 0 || grid.size()[1] == 0;
+    return grid.size()[0] == v.size() && grid.size()[1] == v[0].size();
 }
 bool gridpp::compatible_size(const Grid& grid, const vec3& v) {
-    return v.size() == 0 || (v[0].size() == 0 || (grid.size()[0] == v[0].size() && grid.size()[1] == v[0][0].size()));
+    if(v.size() == 0)
+        return true;
+    if(v[0].size() == 0)
+        return grid.size()[0] == 0 || grid.size()[1] == 0;
+    return grid.size()[0] == v[0].size() && grid.size()[1] == v[0][0].size();
 }
 bool gridpp::compatible_size(const Points& points, const vec2& v) {
     return v.size() == 0 || points.size() == v[0].size();
-- 
2.43.0


From 5d8881c54fadec17fb9c95ec703ff5c886c88644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 022/171] fix: throw on invalid curves and policies in
 apply_curve instead of aborting

Also avoid reading out of bounds for empty fields.
---
 src/api/curve.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/api/curve.cpp b/src/api/curve.cpp
index 1f0ba26..0d8c0e4 100644
--- a/src/api/curve.cpp
+++ b/src/api/curve.cpp
@@ -3,6 +3,13 @@
 
 using namespace gridpp;
 
+namespace {
+    void check_policy(gridpp::Extrapolation policy) {
+        if(policy != gridpp::OneToOne && policy != gridpp::MeanSlope && policy != gridpp::NearestSlope && policy != gridpp::Zero && policy != gridpp::Unchanged)
+            throw std::invalid_argument("Unknown extrapolation policy");
+    }
+}
+
 float gridpp::apply_curve(float input, const vec& curve_ref, const vec& curve_fcst, gridpp::Extrapolation policy_below, gridpp::Extrapolation policy_above) {
     if(curve_ref.size() != curve_fcst.size())
         throw std::invalid_argument("curve_ref and curve_fcst must be the same size");
@@ -82,6 +89,10 @@ vec gridpp::apply_curve(const vec& fcst, const vec& curve_ref, const vec& curve_
     if(curve_ref.size() == 0 || curve_ref.size() == 0)
         throw std::invalid_argument("curve_ref and curve_fcst cannot have size 0");
 
+    // Exceptions cannot leave the parallel region
+    check_policy(policy_below);
+    check_policy(policy_above);
+
     int N = fcst.size();
     vec output(N, gridpp::MV);
 
@@ -116,11 +127,21 @@ vec2 gridpp::apply_curve(const vec2& fcst, const vec3& curve_ref, const vec3& cu
         throw std::invalid_argument("Fcst and curve_fcst dimension sizes mismatch");
 
     int nY = fcst.size();
-    int nX = fcst[0].size();
+    int nX = nY > 0 ? fcst[0].size() : 0;
     vec2 output(nY);
     for(int y = 0; y < nY; y++) {
         output[y].resize(nX, gridpp::MV);
     }
+    if(nY == 0 || nX == 0)
+        return output;
+
+    // Exceptions cannot leave the parallel region
+    if(curve_ref[0][0].size() == 0 || curve_fcst[0][0].size() == 0)
+        throw std::invalid_argument("curve_ref and curve_fcst cannot have size 0");
+    if(curve_ref[0][0].size() != curve_fcst[0][0].size())
+        throw std::invalid_argument("curve_ref and curve_fcst must be the same size");
+    check_policy(policy_below);
+    check_policy(policy_above);
 
     #pragma omp parallel for collapse(2)
     for(int y = 0; y < nY; y++) {
-- 
2.43.0


From 5d37031094bd652735a883a388e221f89892ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 023/171] fix: handle curves with only missing values in
 monotonize_curve

---
 src/api/curve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/curve.cpp b/src/api/curve.cpp
index 0d8c0e4..c13d78e 100644
--- a/src/api/curve.cpp
+++ b/src/api/curve.cpp
@@ -181,6 +181,10 @@ vec gridpp::monotonize_curve(vec curve_ref, vec curve_fcst, vec& output_fcst) {
         }
     }
     N = curve_ref.size();
+    if(N == 0) {
+        output_fcst.clear();
+        return vec();
+    }
     ivec new_indices;
     new_indices.reserve(N);
 
-- 
2.43.0


From e76e701e7a3bb0c91aa5636a881f4dfd6c0ecf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 024/171] fix: extract quantiles from the sorted values in
 quantile_mapping_curve

---
 src/api/quantile_mapping.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/quantile_mapping.cpp b/src/api/quantile_mapping.cpp
index a47b863..96240d0 100644
--- a/src/api/quantile_mapping.cpp
+++ b/src/api/quantile_mapping.cpp
@@ -38,8 +38,8 @@ vec gridpp::quantile_mapping_curve(const vec& ref, const vec& fcst, vec& output_
         vec output_ref(N);
         for(int i = 0; i < N; i++) {
             int index = quantiles[i] * (S - 1);
-            output_fcst[i] = fcst[index];
-            output_ref[i] = ref[index];
+            output_fcst[i] = fcst_sort[index];
+            output_ref[i] = ref_sort[index];
         }
         return output_ref;
     }
-- 
2.43.0


From 8eb5397fbb005fde74101c31d7b02d982336bb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 025/171] fix: check that ref and fcst have the same size in
 calc_score

---
 src/api/metric_optimizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index 79babd5..4ff999c 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -187,6 +187,8 @@ float gridpp::calc_score(const vec& ref, const vec& fcst, float threshold, gridp
 }
 float gridpp::calc_score(const vec& ref, const vec& fcst, float threshold, float fthreshold, gridpp::Metric metric) {
     float a = 0, b = 0, c = 0, d = 0;
+    if(ref.size() != fcst.size())
+        throw std::invalid_argument("ref and fcst not the same size");
     int N = fcst.size();
     for(int t = 0; t < N; t++) {
         if(fcst[t] > fthreshold) {
-- 
2.43.0


From 4bc6502500aea17ac1a03dd6fa450c7492c7ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 026/171] fix: leave out missing forecasts in calc_score

These were counted as forecasts below the threshold.
---
 src/api/metric_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index 4ff999c..b9b980e 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -197,7 +197,7 @@ float gridpp::calc_score(const vec& ref, const vec& fcst, float threshold, float
             else if(ref[t] <= threshold)
                 b++;
         }
-        else {
+        else if(fcst[t] <= fthreshold) {
             if(ref[t] > threshold)
                 c++;
             else if(ref[t] <= threshold)
-- 
2.43.0


From 4300e580ede5357c33301de4dbab3a09aed0f5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 027/171] fix: avoid infinite loop in get_optimal_threshold
 when there are no valid forecasts

---
 src/api/metric_optimizer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index b9b980e..1d2ced9 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -33,6 +33,8 @@ namespace {
                 min = gridpp::MV;
                 max = gridpp::MV;
                 for(int i = 0; i < N; i++) {
+                    if(!gridpp::is_valid(fcst[i]))
+                        continue;
                     if(!gridpp::is_valid(min) || fcst[i] < min) {
                         min = fcst[i];
                     }
@@ -135,7 +137,11 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
     bool remove_at_boundary = true;
     // int bits = std::numeric_limits<double>::digits;
     int bits = 32;
+    if(ref.size() != fcst.size())
+        throw std::invalid_argument("ref and fcst not the same size");
     Data data(ref, fcst, threshold, metric);
+    if(!gridpp::is_valid(data.min) || !gridpp::is_valid(data.max))
+        return gridpp::MV;
     Score_func func(data);
 
     /* Compute values at even intervals, to find where to start optimization search */
-- 
2.43.0


From d0cae16c8574b309c00ce67e409828887f8337e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 028/171] fix: throw on invalid metrics in neighbourhood_score
 instead of aborting

---
 src/api/neighbourhood_score.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/neighbourhood_score.cpp b/src/api/neighbourhood_score.cpp
index 652ab5d..aee2f17 100644
--- a/src/api/neighbourhood_score.cpp
+++ b/src/api/neighbourhood_score.cpp
@@ -13,6 +13,12 @@ vec2 gridpp::neighbourhood_score(const Grid& grid, const Points& points, const v
         throw std::invalid_argument("half_width must be greater than 0");
     }
 
+    if(fcst.size() == 0)
+        return vec2();
+
+    // Exceptions cannot leave the parallel region, so trigger those for invalid metrics here
+    gridpp::calc_score(0, 0, 0, 0, metric);
+
     int nY = fcst.size();
     int nX = fcst[0].size();
 
-- 
2.43.0


From 5fb7a1aa5892abefc2121179e27034172707c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 029/171] fix: ignore missing values in quantile_mapping_curve

Sorting missing values is undefined and gave curves that are not sorted.
---
 src/api/quantile_mapping.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/api/quantile_mapping.cpp b/src/api/quantile_mapping.cpp
index 96240d0..477c380 100644
--- a/src/api/quantile_mapping.cpp
+++ b/src/api/quantile_mapping.cpp
@@ -23,9 +23,21 @@ vec gridpp::quantile_mapping_curve(const vec& ref, const vec& fcst, vec& output_
         return ref;
     }
 
-    vec ref_sort = ref;
+    // Only use pairs where both values are valid
+    vec ref_sort;
+    vec fcst_sort;
+    ref_sort.reserve(ref.size());
+    fcst_sort.reserve(fcst.size());
+    for(int i = 0; i < ref.size(); i++) {
+        if(gridpp::is_valid(ref[i]) && gridpp::is_valid(fcst[i])) {
+            ref_sort.push_back(ref[i]);
+            fcst_sort.push_back(fcst[i]);
+        }
+    }
+    if(ref_sort.size() == 0)
+        return ref_sort;
+
     std::sort(ref_sort.begin(), ref_sort.end());
-    vec fcst_sort = fcst;
     std::sort(fcst_sort.begin(), fcst_sort.end());
     int N = quantiles.size();
     int S = fcst_sort.size();
-- 
2.43.0


From 8962db619ff0ad9407cc6e4b7ffa975424959c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 030/171] fix: check sizes and quantiles in
 local_distribution_correction

These lead to reading out of bounds.
---
 src/api/local_distribution_correction.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/api/local_distribution_correction.cpp b/src/api/local_distribution_correction.cpp
index d0fabf1..9d3aed3 100644
--- a/src/api/local_distribution_correction.cpp
+++ b/src/api/local_distribution_correction.cpp
@@ -40,6 +40,13 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
         float max_quantile,
         int min_points) {
 
+    if(!gridpp::compatible_size(bgrid, background))
+        throw std::invalid_argument("Background is not the same size as the grid");
+    if(background.size() == 0)
+        return vec2();
+    if(!(min_quantile >= 0 && min_quantile <= max_quantile && max_quantile <= 1))
+        throw std::invalid_argument("Quantiles must be between 0 and 1, and min_quantile must not exceed max_quantile");
+
     int nY = background.size();
     int nX = background[0].size();
     int nT = pobs.size();
@@ -49,9 +56,13 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
 
     if (pobs.size() != pbackground.size()) {
         std::stringstream ss;
-        ss << "pobs (" << pobs.size() << "," << pobs[0].size() << ") is not the same size as pbackground (" << pbackground.size() << "," << pbackground[0].size() << ")";
+        ss << "pobs (" << pobs.size() << " times) is not the same size as pbackground (" << pbackground.size() << " times)";
         throw std::invalid_argument(ss.str());
     }
+    for(int t = 0; t < nT; t++) {
+        if(pobs[t].size() < points.size() || pbackground[t].size() < points.size())
+            throw std::invalid_argument("There are fewer observations or background values than points");
+    }
 
     bool weighted = true;
     float alpha = 0.01;
-- 
2.43.0


From b06a0fdd576c86d9f7ec62d84cf327773e74f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 031/171] fix: use the magnitude of the separation in Cressman,
 SOAR, and TOAR correlations

---
 src/api/structure.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/structure.cpp b/src/api/structure.cpp
index 6d05272..66c7ecf 100644
--- a/src/api/structure.cpp
+++ b/src/api/structure.cpp
@@ -38,6 +38,8 @@ float gridpp::StructureFunction::cressman_rho(float dist, float length) const {
         return 1;
     if(!gridpp::is_valid(dist))
         return 0;
+    // The separation can be negative (e.g. elevation differences)
+    dist = fabs(dist);
     if(dist >= length)
         return 0;
     return (length * length - dist * dist) / (length * length + dist * dist);
@@ -49,6 +51,8 @@ float gridpp::StructureFunction::soar_rho(float dist, float length) const {
         return 1;
     if(!gridpp::is_valid(dist))
         return 0;
+    // The separation can be negative (e.g. elevation differences)
+    dist = fabs(dist);
     float v = dist / length;
     return (1 + v) * exp(-v);
 }
@@ -59,6 +63,8 @@ float gridpp::StructureFunction::toar_rho(float dist, float length) const {
         return 1;
     if(!gridpp::is_valid(dist))
         return 0;
+    // The separation can be negative (e.g. elevation differences)
+    dist = fabs(dist);
     float v = dist / length;
     return (1 + v + (v * v) / 3) * exp(-v);
 }
-- 
2.43.0


From 13525d250887371221ef4540b50a277c71015d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 032/171] fix: invert SOAR and TOAR correlations accurately so
 that hmax and min_rho are honoured

---
 include/gridpp.h      |  2 ++
 src/api/structure.cpp | 43 ++++++++++++++++++++++++++++++++++---------
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/gridpp.h b/include/gridpp.h
index eccd691..579e6bc 100644
--- a/include/gridpp.h
+++ b/include/gridpp.h
@@ -2214,6 +2214,7 @@ namespace gridpp {
             vec2 mV;
             vec2 mW;
             float m_min_rho;
+            float m_localization_scale; // Localization distance divided by h
             bool m_is_spatial;
     };
     /** TOAR structure function based on distance, elevation, and land area fraction */
@@ -2246,6 +2247,7 @@ namespace gridpp {
             vec2 mV;
             vec2 mW;
             float m_min_rho;
+            float m_localization_scale; // Localization distance divided by h
             bool m_is_spatial;
     };
     /** Powerlaw structure function based on distance, elevation, and land area fraction */
diff --git a/src/api/structure.cpp b/src/api/structure.cpp
index 66c7ecf..c25c82a 100644
--- a/src/api/structure.cpp
+++ b/src/api/structure.cpp
@@ -2,6 +2,34 @@
 
 using namespace gridpp;
 
+namespace {
+    // Find the scaled distance x >= 0 where the decreasing function rho(x) drops to min_rho
+    float inverse_rho(double (*rho)(double), float min_rho) {
+        if(min_rho >= 1)
+            return 0;
+        if(!(min_rho > 0))
+            return std::numeric_limits<float>::infinity();
+        double lower = 0;
+        double upper = 1;
+        while(rho(upper) > min_rho)
+            upper *= 2;
+        for(int i = 0; i < 60; i++) {
+            double mid = (lower + upper) / 2;
+            if(rho(mid) > min_rho)
+                lower = mid;
+            else
+                upper = mid;
+        }
+        return upper;
+    }
+    double soar(double x) {
+        return (1 + x) * exp(-x);
+    }
+    double toar(double x) {
+        return (1 + x + x * x / 3) * exp(-x);
+    }
+}
+
 const float gridpp::StructureFunction::default_min_rho = 0.0013;
 
 gridpp::StructureFunction::StructureFunction(float localization_distance) {
@@ -335,6 +363,7 @@ gridpp::SoarStructure::SoarStructure(float h, float v, float w, float hmax) :
         m_min_rho = (1 + hmax / h) * exp(-hmax / h);
     else
         m_min_rho = default_min_rho;
+    m_localization_scale = inverse_rho(soar, m_min_rho);
     vec2 h2(1);
     h2[0].push_back(h);
     vec2 v2(1);
@@ -351,6 +380,7 @@ gridpp::SoarStructure::SoarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float mi
         mH(h),
         mV(v),
         mW(w) {
+    m_localization_scale = inverse_rho(soar, m_min_rho);
     if(mH.size() == 1 && mH[0].size() == 1 && mV.size() == 1 && mV[0].size() == 1 && mW.size() == 1 && mW[0].size() == 1) {
         m_is_spatial = false;
     }
@@ -458,10 +488,7 @@ float gridpp::SoarStructure::localization_distance(const Point& p) const {
     }
 }
 float gridpp::SoarStructure::localization_distance(float h) const {
-// To find an approximate analytical solution for the inverse of the function y=(1+x)exp(-x) when y is between 0 and 1, we can follow a similar approach used in approximations for transcendental functions. 
-// valid when m_min_rho is close to 0, for instance for m_min_rho=0.0013 we get 8.53
-    float log_min_rho = log(m_min_rho);
-    return ( -log_min_rho + log( -log_min_rho)) * h;
+    return m_localization_scale * h;
 }
 //-----------------------------------------------------------------------------
 /** End SOAR */
@@ -485,6 +512,7 @@ gridpp::ToarStructure::ToarStructure(float h, float v, float w, float hmax) :
         m_min_rho = (1 + hmax / h + pow(hmax / h, 2)/3) * exp(-hmax / h);
     else
         m_min_rho = default_min_rho;
+    m_localization_scale = inverse_rho(toar, m_min_rho);
     vec2 h2(1);
     h2[0].push_back(h);
     vec2 v2(1);
@@ -501,6 +529,7 @@ gridpp::ToarStructure::ToarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float mi
         mH(h),
         mV(v),
         mW(w) {
+    m_localization_scale = inverse_rho(toar, m_min_rho);
     if(mH.size() == 1 && mH[0].size() == 1 && mV.size() == 1 && mV[0].size() == 1 && mW.size() == 1 && mW[0].size() == 1) {
         m_is_spatial = false;
     }
@@ -608,11 +637,7 @@ float gridpp::ToarStructure::localization_distance(const Point& p) const {
     }
 }
 float gridpp::ToarStructure::localization_distance(float h) const {
-// To find an approximate analytical solution for the inverse of the function y=(1+x+1/3*x^2)exp(-x) when y is between 0 and 1, we can follow a similar approach used in approximations for transcendental functions. 
-// valid when m_min_rho is close to 0, for instance for m_min_rho=0.0013 we get 9.487
-    float log_min_rho = log(m_min_rho);
-    float log_log_min_rho = log( -log(m_min_rho));
-    return ( -log_min_rho + log_log_min_rho + 0.5 * log_log_min_rho ) * h;
+    return m_localization_scale * h;
 }
 //-----------------------------------------------------------------------------
 /** End TOAR */
-- 
2.43.0


From 4bf07be79670c4d5fd95c77b2a2670f2937bad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 033/171] fix: check sizes and set the analysis variance
 without observations in optimal_interpolation_full

---
 src/api/oi.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index ffa656c..332d4df 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -41,9 +41,9 @@ vec2 gridpp::optimal_interpolation(const gridpp::Grid& bgrid,
     if(bgrid.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
-    if(background.size() != bgrid.size()[0] || background[0].size() != bgrid.size()[1]) {
+    if(!gridpp::compatible_size(bgrid, background)) {
         std::stringstream ss;
-        ss << "input field (" << background.size() << "," << background[0].size() << ") is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
+        ss << "input field is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
         throw std::invalid_argument(ss.str());
     }
     if(pobs.size() != points.size()) {
@@ -63,7 +63,7 @@ vec2 gridpp::optimal_interpolation(const gridpp::Grid& bgrid,
     }
 
     int nY = background.size();
-    int nX = background[0].size();
+    int nX = bgrid.size()[1];
 
     gridpp::Points bpoints = bgrid.to_points();
     vec background1(nY * nX);
@@ -175,6 +175,11 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         ss << "Obs variance (" << obs_variance.size() << ") and points (" << points.size() << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
+    if(pbackground.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background (" << pbackground.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
     if(bvariance_at_points.size() != points.size()) {
         std::stringstream ss;
         ss << "Background variance (" << bvariance_at_points.size() << ") and points (" << points.size() << ") size mismatch";
@@ -186,8 +191,10 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
     }
     int nY = background.size();
     int nS = points.size();
-    if(nS == 0)
+    if(nS == 0) {
+        analysis_variance = bvariance;
         return background;
+    }
 
     vec pratios(nS);
     for(int s = 0; s < nS; s++) {
@@ -359,11 +366,14 @@ vec2 gridpp::optimal_interpolation_full(const gridpp::Grid& bgrid,
     if(bgrid.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
-    if(background.size() != bgrid.size()[0] || background[0].size() != bgrid.size()[1]) {
+    if(!gridpp::compatible_size(bgrid, background)) {
         std::stringstream ss;
-        ss << "input field (" << bgrid.size()[0] << "," << bgrid.size()[1] << ") is not the same size as the grid (" << background.size() << "," << background[0].size() << ")";
+        ss << "input field is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
         throw std::invalid_argument(ss.str());
     }
+    if(!gridpp::compatible_size(bgrid, bvariance)) {
+        throw std::invalid_argument("Background variance is not the same size as the grid");
+    }
     if(obs.size() != points.size()) {
         std::stringstream ss;
         ss << "Observations (" << obs.size() << ") and points (" << points.size() << ") size mismatch";
@@ -381,7 +391,7 @@ vec2 gridpp::optimal_interpolation_full(const gridpp::Grid& bgrid,
     }
 
     int nY = background.size();
-    int nX = background[0].size();
+    int nX = bgrid.size()[1];
 
     gridpp::Points bpoints = bgrid.to_points();
     vec background1(nY * nX);
-- 
2.43.0


From 3ae038ad87fdc98fd84f5cbda662a6f71f7b34be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 034/171] fix: prevent extrapolation in optimal_interpolation
 also when the largest or smallest innovation is zero

---
 src/api/oi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index 332d4df..dfd19d3 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -326,13 +326,13 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
             float maxInc = arma::max(lObs - lY);
             float minInc = arma::min(lObs - lY);
 
-            if(maxInc > 0 && increment > maxInc) {
+            if(maxInc >= 0 && increment > maxInc) {
                increment = maxInc;
             }
             else if(maxInc < 0 && increment > 0) {
                increment = maxInc;
             }
-            else if(minInc < 0 && increment < minInc) {
+            else if(minInc <= 0 && increment < minInc) {
                increment = minInc;
             }
             else if(minInc > 0 && increment < 0) {
-- 
2.43.0


From a6aa37162ed61e2edd5470b69c49c7736f4e58c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 035/171] fix: throw on singular matrices in
 optimal_interpolation instead of aborting

---
 src/api/oi.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index dfd19d3..38c4aa3 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -225,6 +225,8 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         point_vec.push_back(points.get_point(i));
     }
 
+    bool singular = false;
+
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         if(!gridpp::is_valid(background[y])) {
@@ -319,7 +321,14 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
                 lP(i, j) = corr[j];
             }
         }
-        mattype lGSR = lG * arma::inv(lP + lR);
+        mattype lSinv;
+        if(!arma::inv(lSinv, lP + lR)) {
+            // Exceptions cannot leave the parallel region
+            #pragma omp atomic write
+            singular = true;
+            continue;
+        }
+        mattype lGSR = lG * lSinv;
         vectype dx = lGSR * (lObs - lY);
         float increment = dx[0];
         if(!allow_extrapolation) {
@@ -344,6 +353,9 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         analysis_variance[y] = bvariance[y] * (1 - a(0, 0));
     }
 
+    if(singular)
+        throw std::runtime_error("Could not invert the observation error covariance matrix. Are there several observations without error at the same location?");
+
     return output;
 }
 vec2 gridpp::optimal_interpolation_full(const gridpp::Grid& bgrid,
-- 
2.43.0


From 7c14244d89be4e045b6ee5b31861897d466724d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 036/171] fix: check sizes of background at points in
 optimal_interpolation_ensi

---
 src/api/oi_ensi.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 4766d72..ad5bd57 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -63,7 +63,7 @@ vec3 gridpp::optimal_interpolation_ensi(const gridpp::Grid& bgrid,
     }
     if(background.size() != nY || background[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input field (" << background.size() << "," << background[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
     int nE = background[0][0].size();
@@ -79,6 +79,12 @@ vec3 gridpp::optimal_interpolation_ensi(const gridpp::Grid& bgrid,
         throw std::invalid_argument(ss.str());
     }
 
+    if(pbackground.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background (" << pbackground.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
+
     // Check ensemble size is consistent
     if(nE != pbackground[0].size()) {
         std::stringstream ss;
@@ -145,7 +151,13 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
     bool diagnose = false;
 
     int nY = background.size();
+    if(nY == 0)
+        return background;
     int nEns = background[0].size();
+    for(int i = 0; i < nS; i++) {
+        if(pbackground[i].size() != nEns)
+            throw std::invalid_argument("Ensemble members in background is not the same as in the point background");
+    }
 
     // Prepare output matrix
     vec2 output = background;
-- 
2.43.0


From 26033e4689f905fff69ef44729cb9609ef84203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 037/171] fix: limit each member by its own innovations in
 optimal_interpolation_ensi

---
 src/api/oi_ensi.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index ad5bd57..4b116bf 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -532,8 +532,8 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
             if(!allow_extrapolation) {
                 // Don't allow a final increment that is larger than any increment
                 // at station points
-                float maxInc = arma::max(lObs - (lY[e] + lYhat));
-                float minInc = arma::min(lObs - (lY[e] + lYhat));
+                float maxInc = arma::max(lObs - (lY.col(e) + lYhat));
+                float minInc = arma::min(lObs - (lY.col(e) + lYhat));
                 if(y == mY) {
                     std::cout << "Increments: " << maxInc << " " << minInc << " " << currIncrement << std::endl;
                 }
@@ -546,13 +546,13 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
                 if(y == mY) {
                     std::cout << "Analysis increment: " << memberIncrement << " " << ensMean << " " << currIncrement << " " << X(e) << std::endl;
                 }
-                if(maxInc > 0 && memberIncrement > maxInc) {
+                if(maxInc >= 0 && memberIncrement > maxInc) {
                     currIncrement = maxInc + X(e);
                 }
                 else if(maxInc < 0 && memberIncrement > 0) {
                     currIncrement = 0 + X(e);
                 }
-                else if(minInc < 0 && memberIncrement < minInc) {
+                else if(minInc <= 0 && memberIncrement < minInc) {
                     currIncrement = minInc + X(e);
                 }
                 else if(minInc > 0 && memberIncrement < 0) {
-- 
2.43.0


From ea79bf7320651db74f0dbc9ff66e4239d6537c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 038/171] fix: leave out observations with missing background
 members in optimal_interpolation_ensi

---
 src/api/oi_ensi.cpp | 49 +++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 4b116bf..5847bb6 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -175,27 +175,6 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
     vec pelevs = points.get_elevs();
     vec plafs = points.get_lafs();
 
-    // Compute Y
-    vec2 gY = pbackground;
-    vec gYhat(nS);
-    for(int i = 0; i < nS; i++) {
-        float mean = gridpp::calc_statistic(gY[i], gridpp::Mean);
-        for(int e = 0; e < nEns; e++) {
-            float value = gY[i][e];
-            if(gridpp::is_valid(value) && gridpp::is_valid(mean)) {
-                gY[i][e] -= mean;
-            }
-        }
-        gYhat[i] = mean;
-    }
-
-    // Create all objects of type Point (to save time on creation later)
-    std::vector<Point> point_vec;
-    point_vec.reserve(nS);
-    for(int i = 0; i < nS; i++) {
-        point_vec.push_back(points.get_point(i));
-    }
-
     // Calculate number of valid members
     int nValidEns = 0;
     ivec validEns;
@@ -212,6 +191,32 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
         }
     }
 
+    // Compute Y. Only use members that are used in the analysis, and only use observations where all of
+    // these members have a background value
+    vec2 gY = pbackground;
+    vec gYhat(nS);
+    std::vector<bool> validY(nS, true);
+    for(int i = 0; i < nS; i++) {
+        vec values(nValidEns);
+        for(int e = 0; e < nValidEns; e++) {
+            values[e] = gY[i][validEns[e]];
+            if(!gridpp::is_valid(values[e]))
+                validY[i] = false;
+        }
+        float mean = gridpp::calc_statistic(values, gridpp::Mean);
+        for(int e = 0; e < nEns; e++) {
+            gY[i][e] -= mean;
+        }
+        gYhat[i] = mean;
+    }
+
+    // Create all objects of type Point (to save time on creation later)
+    std::vector<Point> point_vec;
+    point_vec.reserve(nS);
+    for(int i = 0; i < nS; i++) {
+        point_vec.push_back(points.get_point(i));
+    }
+
     // This causes segmentation fault when building the gridpp pypi package
     // 1) Tested removing num_condition_warning and num_real_part_warning from the parallel loop
     //    but it doesnt seem to help
@@ -244,7 +249,7 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
         vec rhos = structure.corr_background(p1, p2);
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index])) {
+            if(gridpp::is_valid(pobs[index]) && validY[index]) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
-- 
2.43.0


From 0f0d5432a69eeffc7461ea0db7640a8c32a08524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 039/171] fix: dimension station arrays by number of
 observations in optimal_interpolation_ensi_multi

---
 src/api/oi_ensi_multi.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 5339d4d..5dbfa34 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -418,8 +418,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
     if(nValidEns == 0)
         return background;
 
-    // gZ_R(nY, nValidEns): used to compute ensemble-based background correlations i) between yth gridpoint and observations ii) among observations
-    vec2 gZ_R = gridpp::init_vec2(nY, nValidEns); // useful to compute dynamical correlations
+    // gZ_R(nS, nValidEns): used to compute ensemble-based background correlations i) between yth gridpoint and observations ii) among observations
+    vec2 gZ_R = gridpp::init_vec2(nS, nValidEns); // useful to compute dynamical correlations
     for(int i = 0; i < nS; i++) {
         vec pbackgroundValid_R(nValidEns);
         for(int e = 0; e < nValidEns; e++) {
@@ -953,8 +953,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
         return background;
 
     // Compute Y
-    vec2 gY = gridpp::init_vec2(nY, nValidEns);
-    vec2 gY_corr = gridpp::init_vec2(nY, nValidEns);
+    vec2 gY = gridpp::init_vec2(nS, nValidEns);
+    vec2 gY_corr = gridpp::init_vec2(nS, nValidEns);
     vec gYhat(nS);
     float const_fact = 1 / sqrt(nValidEns-1);
     for(int i = 0; i < nS; i++) {
-- 
2.43.0


From 1508d929163bbb9a1776ee1f4833eb0c27fe18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 040/171] fix: index innovations by valid member in
 optimal_interpolation_ensi_multi

---
 src/api/oi_ensi_multi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 5dbfa34..9d8f6aa 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -554,7 +554,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
             for(int e = 0; e < nValidEns; e++) {
                 lZ_R(i, e) = gZ_R[index][e];
                 int ei = validEns[e];
-                lInnov(i, ei) = pobs[index][ei] - pbackground[index][ei];
+                lInnov(i, e) = pobs[index][ei] - pbackground[index][ei];
             }
             // compute lLoc2D
             Point p1 = point_vec[index];
@@ -803,7 +803,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
             // compute lInnov
             for(int e = 0; e < nValidEns; e++) {
                 int ei = validEns[e];
-                lInnov(i, ei) = pobs[index][ei] - pbackground[index][ei];
+                lInnov(i, e) = pobs[index][ei] - pbackground[index][ei];
             }
             // compute lCorr2D
             Point p1 = point_vec[index];
-- 
2.43.0


From ca8b03f77fcff82e6c6a555b4739aa08bee61b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 041/171] fix: limit each member by its own innovations in
 optimal_interpolation_ensi_multi

---
 src/api/oi_ensi_multi.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 9d8f6aa..33969a9 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -588,14 +588,14 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
                 float increment = dx[e];
                 float maxInc = maxIncEns[e];
                 float minInc = minIncEns[e];
-                if(maxInc > 0 && increment > maxInc) {
+                if(maxInc >= 0 && increment > maxInc) {
                    increment = maxInc;
                 }
                 else if(maxInc < 0 && increment > 0) {
 /*                   increment = maxInc; */
                    increment = 0;
                 }
-                else if(minInc < 0 && increment < minInc) {
+                else if(minInc <= 0 && increment < minInc) {
                    increment = minInc;
                 }
                 else if(minInc > 0 && increment < 0) {
@@ -831,14 +831,14 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
                 float increment = dx[e];
                 float maxInc = maxIncEns[e];
                 float minInc = minIncEns[e];
-                if(maxInc > 0 && increment > maxInc) {
+                if(maxInc >= 0 && increment > maxInc) {
                    increment = maxInc;
                 }
                 else if(maxInc < 0 && increment > 0) {
 /*                   increment = maxInc; */
                    increment = 0; 
                 }
-                else if(minInc < 0 && increment < minInc) {
+                else if(minInc <= 0 && increment < minInc) {
                    increment = minInc;
                 }
                 else if(minInc > 0 && increment < 0) {
@@ -1263,8 +1263,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
             if(!allow_extrapolation) {
                 // Don't allow a final increment that is larger than any increment
                 // at station points
-                float maxInc = arma::max(lObs - (lY[e] + lYhat));
-                float minInc = arma::min(lObs - (lY[e] + lYhat));
+                float maxInc = arma::max(lObs - (lY.col(e) + lYhat));
+                float minInc = arma::min(lObs - (lY.col(e) + lYhat));
                 if(y == mY) {
                     std::cout << "Increments: " << maxInc << " " << minInc << " " << currIncrement << std::endl;
                 }
@@ -1277,13 +1277,13 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
                 if(y == mY) {
                     std::cout << "Analysis increment: " << memberIncrement << " " << ensMean << " " << currIncrement << " " << X(e) << std::endl;
                 }
-                if(maxInc > 0 && memberIncrement > maxInc) {
+                if(maxInc >= 0 && memberIncrement > maxInc) {
                     currIncrement = maxInc + X(e);
                 }
                 else if(maxInc < 0 && memberIncrement > 0) {
                     currIncrement = 0 + X(e);
                 }
-                else if(minInc < 0 && memberIncrement < minInc) {
+                else if(minInc <= 0 && memberIncrement < minInc) {
                     currIncrement = minInc + X(e);
                 }
                 else if(minInc > 0 && memberIncrement < 0) {
-- 
2.43.0


From b1d86e5e2161245acf576b51455a630a2c24515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 042/171] fix: leave out observations that are missing for some
 members in optimal_interpolation_ensi_multi

---
 src/api/oi_ensi_multi.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 33969a9..e764c32 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -418,6 +418,15 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
     if(nValidEns == 0)
         return background;
 
+    // Only use observations that are available for all valid members
+    std::vector<bool> validObs(nS, true);
+    for(int i = 0; i < nS; i++) {
+        for(int e = 0; e < nValidEns; e++) {
+            if(!gridpp::is_valid(pobs[i][validEns[e]]))
+                validObs[i] = false;
+        }
+    }
+
     // gZ_R(nS, nValidEns): used to compute ensemble-based background correlations i) between yth gridpoint and observations ii) among observations
     vec2 gZ_R = gridpp::init_vec2(nS, nValidEns); // useful to compute dynamical correlations
     for(int i = 0; i < nS; i++) {
@@ -477,7 +486,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
         vec rhos = structure.corr_background(p1, p2); 
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index][0])) {
+            if(validObs[index]) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
@@ -708,6 +717,15 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
     if(nValidEns == 0)
         return background;
 
+    // Only use observations that are available for all valid members
+    std::vector<bool> validObs(nS, true);
+    for(int i = 0; i < nS; i++) {
+        for(int e = 0; e < nValidEns; e++) {
+            if(!gridpp::is_valid(pobs[i][validEns[e]]))
+                validObs[i] = false;
+        }
+    }
+
     // This causes segmentation fault when building the gridpp pypi package
     // 1) Tested removing num_condition_warning and num_real_part_warning from the parallel loop
     //    but it doesnt seem to help
@@ -742,7 +760,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
         vec rhos = structure.corr_background(p1, p2);
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index][0])) {
+            if(validObs[index]) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
-- 
2.43.0


From f55d04de44cb87f2da3663706f3181f65708370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 043/171] fix: check sizes before use in
 optimal_interpolation_ensi_multi

---
 src/api/oi_ensi_multi.cpp | 62 +++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index e764c32..15f1d5e 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -66,35 +66,35 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
     if(background.size() != nY || background[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
+    int nE = background[0][0].size();
     if(background_corr.size() != nY || background_corr[0].size() != nX || background_corr[0][0].size() != nE) {
         std::stringstream ss;
-        ss << "Input background_corr field (" << background_corr.size() << "," << background_corr[0].size() << "," << background_corr[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background_corr field is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
         throw std::invalid_argument(ss.str());
     }
     if(bratios.size() != nY || bratios[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
     if(pbackground.size() != nS || pbackground[0].size() != nE) {
         std::stringstream ss;
-        ss << "Input pbackground field at observation location (" << pbackground.size() << "," << pbackground[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pbackground_corr.size() != nS || pbackground_corr[0].size() != nE) {
         std::stringstream ss;
-        ss << "Input pbackground_corr field at observation location (" << pbackground_corr.size() << "," << pbackground_corr[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground_corr field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pobs.size() != nS || pobs[0].size() != nE) {
         std::stringstream ss;
-        ss << "Observations (" << pobs.size() << "," << pobs[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Observations and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pratios.size() != nS) {
@@ -167,25 +167,25 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
     if(background.size() != nY || background[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
+    int nE = background[0][0].size();
     if(bratios.size() != nY || bratios[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
     if(pbackground.size() != nS || pbackground[0].size() != nE) {
         std::stringstream ss;
-        ss << "Input pbackground field at observation location (" << pbackground.size() << "," << pbackground[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pobs.size() != nS || pobs[0].size() != nE) {
         std::stringstream ss;
-        ss << "Observations (" << pobs.size() << "," << pobs[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Observations and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pratios.size() != nS) {
@@ -258,30 +258,30 @@ vec3 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
     if(background.size() != nY || background[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
+    int nE = background[0][0].size();
     if(background_corr.size() != nY || background_corr[0].size() != nX || background_corr[0][0].size() != nE) {
         std::stringstream ss;
-        ss << "Input background_corr field (" << background_corr.size() << "," << background_corr[0].size() << "," << background_corr[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background_corr field is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
         throw std::invalid_argument(ss.str());
     }
     if(bratios.size() != nY || bratios[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
     if(pbackground.size() != nS || pbackground[0].size() != nE) {
         std::stringstream ss;
-        ss << "Input pbackground field at observation location (" << pbackground.size() << "," << pbackground[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pbackground_corr.size() != nS || pbackground_corr[0].size() != nE) {
         std::stringstream ss;
-        ss << "Input pbackground_corr field at observation location (" << pbackground_corr.size() << "," << pbackground_corr[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground_corr field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pobs.size() != nS) {
@@ -367,7 +367,17 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
     bool diagnose = false;
 
     int nY = background.size();
+    if(nY == 0)
+        return background;
     int nEns = background[0].size();
+    for(int i = 0; i < nS; i++) {
+        if(pbackground[i].size() != nEns || pbackground_corr[i].size() != nEns || pobs[i].size() != nEns)
+            throw std::invalid_argument("Ensemble members in background is not the same as at the observation points");
+    }
+    for(int y = 0; y < nY; y++) {
+        if(background_corr[y].size() != nEns)
+            throw std::invalid_argument("Ensemble members in background is not the same as in background_corr");
+    }
 
     // Prepare output matrix
     float missing_value = -99999.999;
@@ -670,7 +680,13 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
     bool diagnose = false;
 
     int nY = background.size();
+    if(nY == 0)
+        return background;
     int nEns = background[0].size();
+    for(int i = 0; i < nS; i++) {
+        if(pbackground[i].size() != nEns || pobs[i].size() != nEns)
+            throw std::invalid_argument("Ensemble members in background is not the same as at the observation points");
+    }
 
     // Prepare output matrix
     float missing_value = -99999.999;
@@ -918,7 +934,17 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
     bool diagnose = false;
 
     int nY = background.size();
+    if(nY == 0)
+        return background;
     int nEns = background[0].size();
+    for(int i = 0; i < nS; i++) {
+        if(pbackground[i].size() != nEns || pbackground_corr[i].size() != nEns)
+            throw std::invalid_argument("Ensemble members in background is not the same as at the observation points");
+    }
+    for(int y = 0; y < nY; y++) {
+        if(background_corr[y].size() != nEns)
+            throw std::invalid_argument("Ensemble members in background is not the same as in background_corr");
+    }
 
     // Prepare output matrix
     vec2 output = background;
-- 
2.43.0


From a91f71dea51da57c4bd31d4d616a12b69373f4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 044/171] fix: return -1 from KDTree::get_nearest_neighbour
 when there are no neighbours

---
 src/api/kdtree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index 492a0c9..c9694bf 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -102,7 +102,11 @@ ivec gridpp::KDTree::get_closest_neighbours(float lat, float lon, int num, bool
     return ret;
 }
 int gridpp::KDTree::get_nearest_neighbour(float lat, float lon, bool include_match) const {
-    return get_closest_neighbours(lat, lon, 1, include_match)[0];
+    ivec I = get_closest_neighbours(lat, lon, 1, include_match);
+    if(I.size() > 0)
+        return I[0];
+    else
+        return -1;
 }
 float gridpp::KDTree::calc_distance(float lat1, float lon1, float lat2, float lon2, CoordinateType type) {
     if(type == gridpp::Cartesian) {
-- 
2.43.0


From 7fec84f4358ce1d7decf31130456da67fc8c6b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 045/171] fix: share the work among the threads in gridding
 onto points

---
 src/api/gridding.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index e7692c1..79d23c4 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -46,7 +46,7 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
     vec lons = opoints.get_lons();
     vec output(N, gridpp::MV);
 
-    #pragma omp parallel
+    #pragma omp parallel for
     for(int n = 0; n < N; n++) {
         ivec I = ipoints.get_neighbours(lats[n], lons[n], radius);
         if(min_num <= 0 || I.size() >= min_num) {
@@ -120,7 +120,7 @@ vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const
 
     vec output(N, gridpp::MV);
 
-    #pragma omp parallel
+    #pragma omp parallel for
     for(int n = 0; n < N; n++) {
         if(temp[n].size() > 0) {
             if(min_num <= 0 || temp[n].size() >= min_num)
-- 
2.43.0


From 2992e26a5ebaac60fe74b6a01ef2d7e5f357b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 046/171] fix: throw on invalid statistics and handle empty
 outputs in gridding

---
 src/api/gridding.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index 79d23c4..ca36793 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -11,6 +11,9 @@ vec2 gridpp::gridding(const Grid& grid, const Points& points, const vec& values,
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
 
+    // Exceptions cannot leave the parallel region, so trigger those for invalid statistics here
+    gridpp::calc_statistic(vec(), statistic);
+
     int Y = grid.size()[0];
     int X = grid.size()[1];
     vec2 lats = grid.get_lats();
@@ -41,6 +44,9 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
 
+    // Exceptions cannot leave the parallel region, so trigger those for invalid statistics here
+    gridpp::calc_statistic(vec(), statistic);
+
     int N = opoints.size();
     vec lats = opoints.get_lats();
     vec lons = opoints.get_lons();
@@ -66,8 +72,14 @@ vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
 
+    // Exceptions cannot leave the parallel region, so trigger those for invalid statistics here
+    gridpp::calc_statistic(vec(), statistic);
+
     int Y = grid.size()[0];
     int X = grid.size()[1];
+    if(Y == 0 || X == 0)
+        return gridpp::init_vec2(Y, X, gridpp::MV);
+
     vec lats = ipoints.get_lats();
     vec lons = ipoints.get_lons();
     vec3 temp(Y);
@@ -104,7 +116,13 @@ vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
 
+    // Exceptions cannot leave the parallel region, so trigger those for invalid statistics here
+    gridpp::calc_statistic(vec(), statistic);
+
     int N = opoints.size();
+    if(N == 0)
+        return vec();
+
     vec lats = ipoints.get_lats();
     vec lons = ipoints.get_lons();
     vec2 temp(N);
-- 
2.43.0


From 64c1e27d129671828c7d7f37148035b1d0334e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 047/171] fix: handle empty fields in fill_missing

---
 src/api/fill.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/fill.cpp b/src/api/fill.cpp
index 4b9ab1c..031f386 100644
--- a/src/api/fill.cpp
+++ b/src/api/fill.cpp
@@ -41,6 +41,9 @@ vec2 gridpp::fill(const Grid& igrid, const vec2& input, const Points& points, co
 }
 
 vec2 gridpp::fill_missing(const vec2& values) {
+    if(values.size() == 0)
+        return vec2();
+
     int Y = values.size();
     int X = values[0].size();
     vec2 results_y(Y);
-- 
2.43.0


From 647031f7616fe09dd6205cd318537b4d81f102d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 048/171] fix: handle empty grids and very large halfwidths in
 doping_square

---
 src/api/doping.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/api/doping.cpp b/src/api/doping.cpp
index ef7b4ea..5018788 100644
--- a/src/api/doping.cpp
+++ b/src/api/doping.cpp
@@ -28,12 +28,18 @@ vec2 gridpp::doping_square(const Grid& igrid, const vec2& background, const Poin
     }
 
     vec2 output = background;
+    if(Y == 0 || X == 0)
+        return output;
+
+    // Halfwidths beyond the size of the grid make no difference, but can overflow the indices
+    int max_halfwidth = std::max(Y, X);
     bool check_elev = gridpp::is_valid(max_elev_diff);
     for(int i = 0; i < N; i++) {
+        int hw = std::min(halfwidth[i], max_halfwidth);
         ivec index = igrid.get_nearest_neighbour(lats[i], lons[i]);
         float curr = observations[i];
-        for(int yy = std::max(0, index[0] - halfwidth[i]); yy <= std::min(Y - 1, index[0] + halfwidth[i]); yy++) {
-            for(int xx = std::max(0, index[1] - halfwidth[i]); xx <= std::min(X - 1, index[1] + halfwidth[i]); xx++) {
+        for(int yy = std::max(0, index[0] - hw); yy <= std::min(Y - 1, index[0] + hw); yy++) {
+            for(int xx = std::max(0, index[1] - hw); xx <= std::min(X - 1, index[1] + hw); xx++) {
                 if(check_elev) {
                     float diff = fabs(elevs[i] - ielevs[yy][xx]);
                     if(diff > max_elev_diff)
-- 
2.43.0


From 6b2fc684b55f7f52ac89b39bbae609c1a6a68d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 049/171] fix: throw on invalid statistics and handle very long
 windows in window

---
 src/api/window.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/api/window.cpp b/src/api/window.cpp
index d72305f..e972185 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -27,6 +27,13 @@ vec2 gridpp::window(const vec2& array,
         throw std::invalid_argument("Length variable must be an odd number");
     }
 
+    // Exceptions cannot leave the parallel region, so trigger those for invalid statistics here
+    gridpp::calc_statistic(vec(), statistic);
+
+    // Windows extending further than this cover the whole array, but can overflow the indices
+    if(length > 2 * nX + 1)
+        length = 2 * nX + 1;
+
     #pragma omp parallel for
     for(int y = 0; y < array.size(); y++) {
         // Use the accumulation/deaccumulation trick for Mean and Sum
-- 
2.43.0


From 5a47de2bb69ae949dd348d46adaf82857ae19b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 050/171] fix: avoid reading before the start of the row and
 losing precision in window

---
 src/api/window.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/api/window.cpp b/src/api/window.cpp
index e972185..280dd81 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -38,7 +38,9 @@ vec2 gridpp::window(const vec2& array,
     for(int y = 0; y < array.size(); y++) {
         // Use the accumulation/deaccumulation trick for Mean and Sum
         if (statistic == gridpp::Mean || statistic == gridpp::Sum || statistic == gridpp::Count) {
-            vec values = vec(array[y].size(), 0);
+            // Accumulate in double precision, since the sums over the whole row can be much larger
+            // than the sum over one window
+            std::vector<double> values(array[y].size(), 0);
             vec counts = vec(array[y].size(), 0);
 
             for(int x = 0; x < array[y].size(); x++) {
@@ -75,28 +77,25 @@ vec2 gridpp::window(const vec2& array,
                     end = std::min(nX - 1, x + length / 2);
                 }
 
+                double sum = values[end];
+                float count = counts[end];
                 if(start - 1 >= 0) {
-                    if(counts[end] - counts[start-1] != 0) {
-                        output[y][x] = values[end] - values[start - 1];
-                    }
-                }
-                else{
-                    if(counts[end] != 0) {
-                        output[y][x] = values[end];
-                    }
+                    sum -= values[start - 1];
+                    count -= counts[start - 1];
                 }
 
                 if(statistic == gridpp::Count) {
-                    output[y][x] = counts[end] - counts[start - 1];
+                    output[y][x] = count;
                 }
                 else {
-                    if(statistic == gridpp::Mean) {
-                        if(counts[end] != 0) {
-                            output[y][x] = output[y][x] / (counts[end] - counts[start-1]);
-                        }
+                    if(count > 0) {
+                        if(statistic == gridpp::Mean)
+                            output[y][x] = sum / count;
+                        else
+                            output[y][x] = sum;
                     }
                     if(keep_missing) {
-                        if(counts[end] - counts[start - 1] < (end - (start - 1 ))) {
+                        if(count < end - start + 1) {
                             output[y][x] = gridpp::MV;
                         }
                     }
-- 
2.43.0


From 91b348bfd85f6c28d9eb4c29a831e9cc90088249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 051/171] fix: use the default gradient in calc_gradient when
 all base values are equal

---
 src/api/calc_gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/calc_gradient.cpp b/src/api/calc_gradient.cpp
index 2961d09..97ba53a 100644
--- a/src/api/calc_gradient.cpp
+++ b/src/api/calc_gradient.cpp
@@ -62,7 +62,7 @@ vec2 gridpp::calc_gradient(const vec2& base, const vec2& values, GradientType gr
                     output[y][x] = default_gradient;
                 }
 
-                else if(abs(current_max - current_min) <= min_range){
+                else if(current_max == current_min || abs(current_max - current_min) <= min_range){
                     output[y][x] = default_gradient;
                 }
                 else{
-- 
2.43.0


From 8053a43403ae6160417504dbed5a9b8a2073ad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 052/171] fix: avoid integer overflow in calc_gradient with
 very large halfwidths

---
 src/api/calc_gradient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/calc_gradient.cpp b/src/api/calc_gradient.cpp
index 97ba53a..39a0310 100644
--- a/src/api/calc_gradient.cpp
+++ b/src/api/calc_gradient.cpp
@@ -20,6 +20,9 @@ vec2 gridpp::calc_gradient(const vec2& base, const vec2& values, GradientType gr
     int nY = base.size();
     int nX = base[0].size();
 
+    // Halfwidths beyond the size of the field make no difference, but can overflow the indices
+    halfwidth = std::min(halfwidth, std::max(nY, nX));
+
     vec2 output = gridpp::init_vec2(nY, nX, default_gradient);
 
     // Min Max Gradient 
-- 
2.43.0


From b1bb465850446910bc48c0a05acbbf945f3fe5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 053/171] fix: compute regression gradients in a numerically
 stable way in calc_gradient

---
 src/api/calc_gradient.cpp | 76 +++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 39 deletions(-)

diff --git a/src/api/calc_gradient.cpp b/src/api/calc_gradient.cpp
index 39a0310..2efd754 100644
--- a/src/api/calc_gradient.cpp
+++ b/src/api/calc_gradient.cpp
@@ -77,51 +77,49 @@ vec2 gridpp::calc_gradient(const vec2& base, const vec2& values, GradientType gr
         }
     }
     else if(gradientType == LinearRegression){
-        // Compute neighbourhood means for different moments. Ensure we only use base and values
-        // where both of them are defined
-        vec2 base0 = gridpp::init_vec2(nY, nX, gridpp::MV);
-        vec2 values0 = gridpp::init_vec2(nY, nX, gridpp::MV);
-        vec2 base_x_base = gridpp::init_vec2(nY, nX, gridpp::MV);
-        vec2 base_x_values = gridpp::init_vec2(nY, nX, gridpp::MV);
-        vec2 is_valid = gridpp::init_vec2(nY, nX, 0);
-
+        // Only use base and values where both of them are defined. Compute the moments relative to
+        // one of the values in the neighbourhood and in double precision, since the variance of
+        // base can be much smaller than its square.
         #pragma omp parallel for collapse(2)
         for(int y = 0; y < nY; y++){
             for(int x = 0; x < nX; x++){
-                if(gridpp::is_valid(base[y][x]) && gridpp::is_valid(values[y][x])) {
-                    base_x_base[y][x] = pow(base[y][x], 2);
-                    base_x_values[y][x] = base[y][x] * values[y][x];
-                    is_valid[y][x] = 1;
-                    base0[y][x] = base[y][x];
-                    values0[y][x] = values[y][x];
+                int count = 0;
+                double base0 = 0;
+                double values0 = 0;
+                double sumX = 0;
+                double sumY = 0;
+                double sumXX = 0;
+                double sumXY = 0;
+                for(int yy = std::max(0, y - halfwidth); yy <= std::min(nY - 1, y + halfwidth); yy++){
+                    for(int xx = std::max(0, x - halfwidth); xx <= std::min(nX - 1, x + halfwidth); xx++){
+                        if(!gridpp::is_valid(base[yy][xx]) || !gridpp::is_valid(values[yy][xx]))
+                            continue;
+                        if(count == 0) {
+                            base0 = base[yy][xx];
+                            values0 = values[yy][xx];
+                        }
+                        double currX = base[yy][xx] - base0;
+                        double currY = values[yy][xx] - values0;
+                        sumX += currX;
+                        sumY += currY;
+                        sumXX += currX * currX;
+                        sumXY += currX * currY;
+                        count++;
+                    }
                 }
-            }
-        }
+                if(count == 0 || count < num_min)
+                    continue;
 
-        vec2 meanX = gridpp::neighbourhood(base0, halfwidth, gridpp::Mean);
-        vec2 meanY = gridpp::neighbourhood(values0, halfwidth, gridpp::Mean);
+                double meanX = sumX / count;
+                double meanY = sumY / count;
+                double variance = sumXX / count - meanX * meanX;
+                if(variance <= 0)
+                    continue;
 
-        vec2 meanXX = gridpp::neighbourhood(base_x_base, halfwidth, gridpp::Mean);
-        vec2 meanXY = gridpp::neighbourhood(base_x_values, halfwidth, gridpp::Mean);
-        vec2 count = gridpp::neighbourhood(is_valid, halfwidth, gridpp::Sum);
-
-        #pragma omp parallel for collapse(2)
-        for(int y = 0; y < nY; y++){
-            for(int x = 0; x < nX; x++){
-                output[y][x] = default_gradient;
-                if(count[y][x] >= num_min && gridpp::is_valid(meanXX[y][x]) && gridpp::is_valid(meanXY[y][x]) && gridpp::is_valid(meanX[y][x]) && meanXX[y][x] - meanX[y][x] * meanX[y][x] != 0) {
-                    bool valid_range = true;
-                    if(gridpp::is_valid(min_range)) {
-                        // Use the STD as a measure of range, since this is more efficient
-                        float range = sqrt(meanXX[y][x] - meanX[y][x] * meanX[y][x]);
-                        if(!gridpp::is_valid(range))
-                            valid_range = false;
-                        else if(range < min_range)
-                            valid_range = false;
-                    }
-                    if(valid_range)
-                        output[y][x] = (meanXY[y][x] - meanX[y][x] * meanY[y][x]) / (meanXX[y][x] - meanX[y][x] * meanX[y][x]);
-                }
+                // Use the STD as a measure of range
+                if(gridpp::is_valid(min_range) && sqrt(variance) < min_range)
+                    continue;
+                output[y][x] = (sumXY / count - meanX * meanY) / variance;
             }
         }
     }
-- 
2.43.0


From 3ce9982d01c75b3ed8254c0e04a7b82cdad3e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 054/171] fix: check sizes and handle very large halfwidths in
 neighbourhood_search

---
 src/api/neighbourhood_search.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/api/neighbourhood_search.cpp b/src/api/neighbourhood_search.cpp
index 6d86893..c621482 100644
--- a/src/api/neighbourhood_search.cpp
+++ b/src/api/neighbourhood_search.cpp
@@ -13,11 +13,13 @@ vec2 gridpp::neighbourhood_search(const vec2& array, const vec2& search_array, i
     if(halfwidth < 0) {
         throw std::invalid_argument("halfwidth must be positive");
     }
+    if(array.size() == 0 && search_array.size() == 0)
+        return vec2();
     if(search_array.size() != array.size() || search_array[0].size() != array[0].size()) {
 
         throw std::invalid_argument("search_array must either be the same size as array");
     }
-    if(apply_array.size() > 1 && (apply_array.size() != array.size() || apply_array[0].size() != array[0].size())) {
+    if(apply_array.size() > 0 && (apply_array.size() != array.size() || apply_array[0].size() != array[0].size())) {
         throw std::invalid_argument("apply_array must either be empty or same size as array");
     }
 
@@ -27,6 +29,9 @@ vec2 gridpp::neighbourhood_search(const vec2& array, const vec2& search_array, i
     int nY = array.size();
     int nX = array[0].size();
 
+    // Halfwidths beyond the size of the field make no difference, but can overflow the indices
+    halfwidth = std::min(halfwidth, std::max(nY, nX));
+
     for(int y = 0; y < array.size(); y++) {
         for(int x = 0; x < array[y].size(); x++) {
             /* Loop over each element in array */
-- 
2.43.0


From e662840f9ced02d2ae772e0d7bb1da1b5ae9541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 055/171] fix: check sizes in downscale_probability

---
 src/api/downscale_probability.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/api/downscale_probability.cpp b/src/api/downscale_probability.cpp
index fcfdb8e..0d84e60 100644
--- a/src/api/downscale_probability.cpp
+++ b/src/api/downscale_probability.cpp
@@ -5,6 +5,14 @@
 using namespace gridpp;
 
 vec2 gridpp::downscale_probability(const Grid& igrid, const Grid& ogrid, const vec3& ivalues, const vec2& threshold, const ComparisonOperator& comparison_operator) {
+    ivec isize = igrid.size();
+    if(ivalues.size() != isize[0] || (ivalues.size() > 0 && ivalues[0].size() != isize[1]))
+        throw std::invalid_argument("Input grid is not the same size as values");
+    if(!gridpp::compatible_size(ogrid, threshold))
+        throw std::invalid_argument("Output grid is not the same size as threshold");
+    if(ivalues.size() == 0 || threshold.size() == 0)
+        return gridpp::init_vec2(ogrid.size()[0], ogrid.size()[1], gridpp::MV);
+
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
 
-- 
2.43.0


From a78ae28d7060aab3a5bc4aa68541b2a2f7dc77f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 056/171] fix: check sizes and statistics in
 mask_threshold_downscale

---
 .../mask_threshold_downscale_consensus.cpp    | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/api/mask_threshold_downscale_consensus.cpp b/src/api/mask_threshold_downscale_consensus.cpp
index 86e8ca2..b6f9da2 100644
--- a/src/api/mask_threshold_downscale_consensus.cpp
+++ b/src/api/mask_threshold_downscale_consensus.cpp
@@ -9,6 +9,8 @@ namespace{
 }
 
 vec2 gridpp::mask_threshold_downscale_consensus(const Grid& igrid, const Grid& ogrid, const vec3& ivalues_true, const vec3& ivalues_false, const vec3& threshold_values, const vec2& threshold, const ComparisonOperator& comparison_operator, const Statistic& statistic) {
+    if(statistic == gridpp::Quantile)
+        throw std::invalid_argument("Use mask_threshold_downscale_quantile for computing quantiles");
     return ::mask_threshold_downscale(igrid, ogrid, ivalues_true, ivalues_false, threshold_values, threshold, comparison_operator, statistic, 0);
 }
 vec2 gridpp::mask_threshold_downscale_quantile(const Grid& igrid, const Grid& ogrid, const vec3& ivalues_true, const vec3& ivalues_false, const vec3& threshold_values, const vec2& threshold, const ComparisonOperator& comparison_operator, const float quantile) {
@@ -17,6 +19,23 @@ vec2 gridpp::mask_threshold_downscale_quantile(const Grid& igrid, const Grid& og
 
 namespace {
     vec2 mask_threshold_downscale(const Grid& igrid, const Grid& ogrid, const vec3& ivalues_true, const vec3& ivalues_false, const vec3& threshold_values, const vec2& threshold, const ComparisonOperator& comparison_operator, const Statistic& statistic, const float quantile) {
+        ivec isize = igrid.size();
+        if(ivalues_true.size() != isize[0] || (ivalues_true.size() > 0 && ivalues_true[0].size() != isize[1]))
+            throw std::invalid_argument("Input grid is not the same size as values");
+        if(!gridpp::compatible_size(ivalues_true, ivalues_false) || !gridpp::compatible_size(ivalues_true, threshold_values))
+            throw std::invalid_argument("Input values and threshold values are not the same size");
+        if(!gridpp::compatible_size(ogrid, threshold))
+            throw std::invalid_argument("Output grid is not the same size as threshold");
+
+        // Exceptions cannot leave the parallel region, so trigger those for invalid arguments here
+        if(statistic == gridpp::Quantile)
+            gridpp::calc_quantile(vec(), quantile);
+        else
+            gridpp::calc_statistic(vec(), statistic);
+
+        if(ivalues_true.size() == 0 || threshold.size() == 0)
+            return gridpp::init_vec2(ogrid.size()[0], ogrid.size()[1], gridpp::MV);
+
         vec2 iOutputLats = ogrid.get_lats();
         vec2 iOutputLons = ogrid.get_lons();
 
-- 
2.43.0


From 7d8f555a1d8c791b3021bc9211454fd5e5e2885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 057/171] fix: invert BoxCox correctly for negative thresholds

---
 src/api/transform.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/api/transform.cpp b/src/api/transform.cpp
index d455d2e..2aabf9f 100644
--- a/src/api/transform.cpp
+++ b/src/api/transform.cpp
@@ -114,10 +114,11 @@ float gridpp::BoxCox::backward(float value) const {
    if(mThreshold == 0)
       rValue = exp(value);
    else {
-      if(value < -1.0 / mThreshold) {
-         value = -1.0 / mThreshold;
-      }
-      rValue = pow(1 + mThreshold * value, 1 / mThreshold);
+      // Values beyond the limit of the transform correspond to this being negative
+      float base = 1 + mThreshold * value;
+      if(base < 0)
+         base = 0;
+      rValue = pow(base, 1 / mThreshold);
    }
    if(rValue <= 0)
       rValue = 0;
-- 
2.43.0


From 497675aa0282ab86d654a958c51b63d0060d99f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 058/171] fix: keep the tails in the Gamma transform instead of
 raising overflow errors

---
 src/api/transform.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/api/transform.cpp b/src/api/transform.cpp
index 2aabf9f..2b1ee66 100644
--- a/src/api/transform.cpp
+++ b/src/api/transform.cpp
@@ -1,4 +1,6 @@
 #include <iostream>
+#include <algorithm>
+#include <limits>
 #include "gridpp.h"
 
 using namespace gridpp;
@@ -167,16 +169,25 @@ gridpp::Gamma::Gamma(float shape, float scale, float tolerance) : m_gamma_dist(1
 float gridpp::Gamma::forward(float value) const {
     if(!gridpp::is_valid(value))
         return gridpp::MV;
-    float cdf = boost::math::cdf(m_gamma_dist, value + m_tolerance);
-    float result = boost::math::quantile(m_norm_dist, cdf);
-    return result;
+    // Use the closest tail, since the probability is accurately represented there. Prevent
+    // probabilities from reaching 0, for which the normal distribution has no finite quantile.
+    const double min_prob = std::numeric_limits<double>::min();
+    double cdf = boost::math::cdf(m_gamma_dist, value + m_tolerance);
+    if(cdf <= 0.5)
+        return boost::math::quantile(m_norm_dist, std::max(cdf, min_prob));
+    double sf = boost::math::cdf(boost::math::complement(m_gamma_dist, value + m_tolerance));
+    return boost::math::quantile(boost::math::complement(m_norm_dist, std::max(sf, min_prob)));
 }
 float gridpp::Gamma::backward(float value) const {
     if(!gridpp::is_valid(value))
         return gridpp::MV;
-   float cdf = boost::math::cdf(m_norm_dist, value);
-   float result = boost::math::quantile(m_gamma_dist, cdf) - m_tolerance;
-   return result;
+   const double min_prob = std::numeric_limits<double>::min();
+   if(value <= 0) {
+      double cdf = std::max(boost::math::cdf(m_norm_dist, value), min_prob);
+      return boost::math::quantile(m_gamma_dist, cdf) - m_tolerance;
+   }
+   double sf = std::max(boost::math::cdf(boost::math::complement(m_norm_dist, value)), min_prob);
+   return boost::math::quantile(boost::math::complement(m_gamma_dist, sf)) - m_tolerance;
 }
 float gridpp::Identity::forward(float value) const {
     return value;
-- 
2.43.0


From 7cb94202d417b8c941591df8918326c974012e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 059/171] fix: check sizes in gamma_inv

---
 src/api/distribution.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/distribution.cpp b/src/api/distribution.cpp
index 4c3ce93..a3037a9 100644
--- a/src/api/distribution.cpp
+++ b/src/api/distribution.cpp
@@ -4,6 +4,8 @@ using namespace gridpp;
 
 vec gridpp::gamma_inv(const vec& levels, const vec& shape, const vec& scale) {
     int N = shape.size();
+    if(levels.size() != N || scale.size() != N)
+        throw std::invalid_argument("Levels, shape, and scale vectors must be of the same size");
     for(int i = 0; i < N; i++) {
         if(levels[i] < 0 || levels[i] > 1 || !gridpp::is_valid(levels[i])) {
             std::stringstream ss;
-- 
2.43.0


From 1ede3234b44b050a0988c77f8469aadca9e29052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 060/171] fix: give infinity in gamma_inv for level 1 instead
 of aborting

---
 src/api/distribution.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/distribution.cpp b/src/api/distribution.cpp
index a3037a9..1bad031 100644
--- a/src/api/distribution.cpp
+++ b/src/api/distribution.cpp
@@ -1,4 +1,5 @@
 #include "gridpp.h"
+#include <limits>
 
 using namespace gridpp;
 
@@ -27,6 +28,11 @@ vec gridpp::gamma_inv(const vec& levels, const vec& shape, const vec& scale) {
 
     #pragma omp parallel for
     for(int i = 0; i < N; i++) {
+        if(levels[i] == 1) {
+            // Boost throws an exception for this
+            results[i] = std::numeric_limits<float>::infinity();
+            continue;
+        }
         boost::math::gamma_distribution<> m_gamma_dist(shape[i], scale[i]);
         float value = boost::math::quantile(m_gamma_dist, levels[i]);
         results[i] = value;
-- 
2.43.0


From a1dc6c48fc554967a78bfa7c6602775ae29dec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 061/171] fix: give missing dewpoint when the humidity is zero,
 as in wetbulb

---
 src/api/humidity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/humidity.cpp b/src/api/humidity.cpp
index 1857565..ff940e8 100644
--- a/src/api/humidity.cpp
+++ b/src/api/humidity.cpp
@@ -4,6 +4,8 @@ using namespace gridpp;
 
 float gridpp::dewpoint(float temperature, float relative_humidity) {
     if(gridpp::is_valid(temperature) && gridpp::is_valid(relative_humidity)) {
+        if(relative_humidity <= 0)
+            return gridpp::MV;
         // Taken from https://github.com/metno/wdb2ts
         float tempC = temperature - 273.15;
         float e = (relative_humidity)*0.611*exp( (17.63 * tempC) / (tempC + 243.04) );
-- 
2.43.0


From b6e8b496341903789ca3db524270184b4f653c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 062/171] fix: raise an exception for invalid input in
 sea_level_pressure on vectors instead of aborting

---
 src/api/pressure.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/api/pressure.cpp b/src/api/pressure.cpp
index a48e1d8..7328f72 100644
--- a/src/api/pressure.cpp
+++ b/src/api/pressure.cpp
@@ -1,4 +1,5 @@
 #include "gridpp.h"
+#include <exception>
 
 using namespace gridpp;
 
@@ -85,9 +86,19 @@ vec gridpp::sea_level_pressure(const vec& ps, const vec& altitude, const vec&  t
         throw std::invalid_argument("slp: Input arguments must be of the same size");
 
     vec values(N);
+    // Exceptions cannot leave a parallel region
+    std::exception_ptr error;
     #pragma omp parallel for
     for(int i = 0; i < N; i++) {
-        values[i] = gridpp::sea_level_pressure(ps[i], altitude[i], temperature[i], rh[i], dewpoint[i]);
+        try {
+            values[i] = gridpp::sea_level_pressure(ps[i], altitude[i], temperature[i], rh[i], dewpoint[i]);
+        }
+        catch(...) {
+            #pragma omp critical
+            error = std::current_exception();
+        }
     }
+    if(error)
+        std::rethrow_exception(error);
     return values;
 }
-- 
2.43.0


From afa12174d4433f2bf83778f88a9d5d4a20d722b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 063/171] fix: handle zero humidity at low altitudes in
 sea_level_pressure

---
 src/api/pressure.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/pressure.cpp b/src/api/pressure.cpp
index 7328f72..21ad2df 100644
--- a/src/api/pressure.cpp
+++ b/src/api/pressure.cpp
@@ -70,7 +70,9 @@ float gridpp::sea_level_pressure(float ps, float altitude, float temperature, fl
     if (altitude >= 50.) {
         slp = ps * exp((g * altitude / R) / (Ts + 0.5 * a * altitude + e * Ch));
     } else if (altitude < 50.) {
-        float Tv = (273.15 + T) / (1 - 0.379 * (6.11 * pow(10.,  (((7.5 * dewpoint) / (237.7 + dewpoint))) )  / ps ));
+        // Air without any humidity has no dewpoint
+        float ed = e == 0 && gridpp::is_valid(rh) ? 0 : 6.11 * pow(10.,  (((7.5 * dewpoint) / (237.7 + dewpoint))) );
+        float Tv = (273.15 + T) / (1 - 0.379 * ed / ps );
         float Ck = ps * altitude / (29.27 * Tv);
         slp = ps + Ck;
     }
-- 
2.43.0


From 9c9b86b01ae9cf4d9f32ea77c2b97954ecfb1419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 064/171] fix: handle a number of neighbours that is negative
 or far greater than the number of points

---
 src/api/kdtree.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index c9694bf..4a1c7f0 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -84,6 +84,9 @@ ivec gridpp::KDTree::get_closest_neighbours(float lat, float lon, int num, bool
     gridpp::convert_coordinates(lat, lon, mType, x, y, z);
     point p(x, y, z);
 
+    if(num <= 0)
+        return ivec();
+
     std::vector<value> results;
     if(!include_match) {
         is_not_equal s(p);
@@ -95,7 +98,7 @@ ivec gridpp::KDTree::get_closest_neighbours(float lat, float lon, int num, bool
     int num_found = results.size();
 
     ivec ret;
-    ret.reserve(num);
+    ret.reserve(num_found);
     for(int i = 0; i < num_found; i++) {
         ret.push_back(results[i].second);
     }
-- 
2.43.0


From 6df369ecc0316953095508f4f0793d9da76fa24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 065/171] fix: check that lats and lons have the same size when
 creating grids and trees

---
 src/api/grid.cpp | 2 ++
 src/api/util.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index eba3c1f..0be8713 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -17,6 +17,8 @@ gridpp::Grid::Grid(vec2 lats, vec2 lons, vec2 elevs, vec2 lafs, CoordinateType t
         mX = 0;
         return;
     }
+    if(!gridpp::compatible_size(lats, lons))
+        throw std::invalid_argument("Cannot create grid with unequal lat and lon sizes");
     mLats = lats;
     mLons = lons;
     mElevs = elevs;
diff --git a/src/api/util.cpp b/src/api/util.cpp
index 832d003..afcd3a7 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -584,6 +584,8 @@ bool gridpp::point_in_rectangle(const Point& A, const Point& B, const Point& C,
 
 bool gridpp::convert_coordinates(const vec& lats, const vec& lons, CoordinateType type, vec& x_coords, vec& y_coords, vec& z_coords) {
     int N = lats.size();
+    if(lons.size() != N)
+        throw std::invalid_argument("Lats and lons must be the same size");
     x_coords.resize(N);
     y_coords.resize(N);
     z_coords.resize(N);
-- 
2.43.0


From 95c74e1f27602287cb97e5822a99b49bde5be97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 066/171] fix: check the indices in get_point

---
 src/api/grid.cpp   | 2 ++
 src/api/points.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index 0be8713..f375385 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -233,6 +233,8 @@ bool gridpp::Grid::get_box(float lat, float lon, int& Y1, int& X1, int& Y2, int&
     return true;
 }
 gridpp::Point gridpp::Grid::get_point(int y_index, int x_index) const {
+    if(y_index < 0 || y_index >= mLats.size() || x_index < 0 || x_index >= mX)
+        throw std::invalid_argument("Grid point index is outside the grid");
     int index = y_index * mX + x_index;
     return Point(mLats[y_index][x_index], mLons[y_index][x_index], mElevs[y_index][x_index], mLafs[y_index][x_index], get_coordinate_type(), mTree.get_x()[index], mTree.get_y()[index], mTree.get_z()[index]);
 }
diff --git a/src/api/points.cpp b/src/api/points.cpp
index cd4dc08..b485526 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -135,6 +135,8 @@ CoordinateType gridpp::Points::get_coordinate_type() const {
     return mTree.get_coordinate_type();
 }
 gridpp::Point gridpp::Points::get_point(int index) const {
+    if(index < 0 || index >= mLats.size())
+        throw std::invalid_argument("Point index is negative or exceeds number of points");
     return Point(mLats[index], mLons[index], mElevs[index], mLafs[index], get_coordinate_type(), mTree.get_x()[index], mTree.get_y()[index], mTree.get_z()[index]);
 }
 gridpp::Points gridpp::Points::subset(const ivec& indices) const {
-- 
2.43.0


From 221844b0360572b11d687ed2fc5fe3fd840c9717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 067/171] fix: handle empty output grids in nearest and
 bilinear

---
 src/api/bilinear.cpp |  4 ++--
 src/api/nearest.cpp  | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index 5dcbade..ebd8480 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -33,7 +33,7 @@ vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
     vec2 iInputLons = igrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -62,7 +62,7 @@ vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
diff --git a/src/api/nearest.cpp b/src/api/nearest.cpp
index 77e1bea..feb7dbd 100644
--- a/src/api/nearest.cpp
+++ b/src/api/nearest.cpp
@@ -11,7 +11,7 @@ vec2 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
     vec2 iOutputLons = ogrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -37,7 +37,7 @@ vec3 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 ;
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -77,7 +77,7 @@ vec2 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec& ivalue
     vec2 iOutputLons = ogrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(ipoints.size() == 0)
@@ -103,7 +103,7 @@ vec3 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec2& ivalu
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(ipoints.size() == 0)
@@ -198,7 +198,7 @@ vec gridpp::nearest(const Points& ipoints, const Points& opoints, const vec& iva
 vec2 gridpp::nearest(const Points& ipoints, const Points& opoints, const vec2& ivalues) {
     if(!gridpp::compatible_size(ipoints, ivalues)) {
         std::stringstream ss;
-        ss << "Input points (" << ipoints.size() << ") and values (" << ivalues[0].size() << ") size mismatch";
+        ss << "Input points (" << ipoints.size() << ") and values (" << ivalues.size() << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     vec iOutputLats = opoints.get_lats();
-- 
2.43.0


From 473c3908c9eb6348d77162e9ebcbe51b96b84bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 068/171] fix: check the size of the values in smart and
 full_gradient

---
 src/api/gradient.cpp | 6 +++---
 src/api/smart.cpp    | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/api/gradient.cpp b/src/api/gradient.cpp
index ca64637..c6c2e61 100644
--- a/src/api/gradient.cpp
+++ b/src/api/gradient.cpp
@@ -7,16 +7,16 @@ vec2 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec2& iva
     int nY = ogrid.size()[0];
     int nX = ogrid.size()[1];
 
-    if(ivalues.size() != igrid.size()[0] || ivalues[0].size() != igrid.size()[1])
+    if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Values is the wrong size");
 
     if(laf_gradient.size() > 0)
-        if(laf_gradient.size() != igrid.size()[0] || laf_gradient[0].size() != igrid.size()[1])
+        if(!gridpp::compatible_size(igrid, laf_gradient))
 
             throw std::invalid_argument("Laf gradient is the wrong size");
 
     if(elev_gradient.size() > 0)
-        if(elev_gradient.size() != igrid.size()[0] || elev_gradient[0].size() != igrid.size()[1])
+        if(!gridpp::compatible_size(igrid, elev_gradient))
             throw std::invalid_argument("Elevation gradient is the wrong size");
 
     vec2 oelevs = ogrid.get_elevs();
diff --git a/src/api/smart.cpp b/src/api/smart.cpp
index e9faa48..25a1f58 100644
--- a/src/api/smart.cpp
+++ b/src/api/smart.cpp
@@ -10,6 +10,8 @@ namespace {
     };
 }
 vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, int num, const gridpp::StructureFunction& structure) {
+    if(!gridpp::compatible_size(igrid, ivalues))
+        throw std::invalid_argument("Grid size is not the same as values");
     vec2 ilats = igrid.get_lats();
     vec2 ilons = igrid.get_lons();
     vec2 ielevs = igrid.get_elevs();
-- 
2.43.0


From 3a9f573445a73621dc8687a07a4c68ea260aabf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 069/171] fix: raise an exception for incompatible coordinate
 types instead of aborting

---
 include/gridpp.h                               |  9 +++++++++
 src/api/bilinear.cpp                           |  8 ++++++++
 src/api/count.cpp                              |  8 ++++++++
 src/api/downscale_probability.cpp              |  2 ++
 src/api/gridding.cpp                           |  8 ++++++++
 src/api/local_distribution_correction.cpp      |  2 ++
 src/api/mask_threshold_downscale_consensus.cpp |  2 ++
 src/api/nearest.cpp                            | 16 ++++++++++++++++
 src/api/util.cpp                               | 15 +++++++++++++++
 9 files changed, 70 insertions(+)

diff --git a/include/gridpp.h b/include/gridpp.h
index 579e6bc..8ece4ed 100644
--- a/include/gridpp.h
+++ b/include/gridpp.h
@@ -1659,6 +1659,15 @@ namespace gridpp {
     */
     bool compatible_size(const vec3& a, const vec3& b);
 
+    /** Check if two sets of locations use the same coordinate type
+     *  @param a First set of locations
+     *  @param b Second set of locations
+     *  @returns True if compatible. An empty set is compatible with any coordinate type.
+    */
+    bool compatible_coordinates(const Grid& a, const Grid& b);
+    bool compatible_coordinates(const Grid& a, const Points& b);
+    bool compatible_coordinates(const Points& a, const Points& b);
+
     /** Checks if a point is located inside a rectangle formed by 4 points. The 4 points must be
       * provided in an order that draws out a rectangle (either clockwise or counter-clockwise).
       * @param A: A point in the rectangle
diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index ebd8480..daec863 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -25,6 +25,8 @@ namespace {
     bool calcGeneral(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float &t, float &s);
 }
 vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues) {
+    if(!gridpp::compatible_coordinates(igrid, ogrid))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     vec2 iOutputLats = ogrid.get_lats();
@@ -53,6 +55,8 @@ vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
     return output;
 }
 vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues) {
+    if(!gridpp::compatible_coordinates(igrid, ogrid))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
        throw std::invalid_argument("Grid size is not the same as values");
     vec2 iOutputLats = ogrid.get_lats();
@@ -83,6 +87,8 @@ vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 }
 
 vec gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec2& ivalues) {
+    if(!gridpp::compatible_coordinates(igrid, opoints))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     vec iOutputLats = opoints.get_lats();
@@ -108,6 +114,8 @@ vec gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec2& ivalu
     return output;
 }
 vec2 gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec3& ivalues) {
+    if(!gridpp::compatible_coordinates(igrid, opoints))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
        throw std::invalid_argument("Grid size is not the same as values");
     vec iOutputLats = opoints.get_lats();
diff --git a/src/api/count.cpp b/src/api/count.cpp
index 7a7bd11..1830770 100644
--- a/src/api/count.cpp
+++ b/src/api/count.cpp
@@ -4,6 +4,8 @@
 using namespace gridpp;
 
 vec gridpp::count(const Grid& grid, const Points& points, float radius) {
+    if(!gridpp::compatible_coordinates(grid, points))
+        throw std::invalid_argument("Incompatible coordinate types");
     int size = points.size();
     vec output(size);
     vec olats = points.get_lats();
@@ -17,6 +19,8 @@ vec gridpp::count(const Grid& grid, const Points& points, float radius) {
 }
 
 vec2 gridpp::count(const Grid& igrid, const Grid& ogrid, float radius) {
+    if(!gridpp::compatible_coordinates(igrid, ogrid))
+        throw std::invalid_argument("Incompatible coordinate types");
     ivec size = ogrid.size();
     vec2 output(size[0]);
     vec2 olats = ogrid.get_lats();
@@ -35,6 +39,8 @@ vec2 gridpp::count(const Grid& igrid, const Grid& ogrid, float radius) {
 }
 
 vec2 gridpp::count(const Points& points, const Grid& grid, float radius) {
+    if(!gridpp::compatible_coordinates(grid, points))
+        throw std::invalid_argument("Incompatible coordinate types");
     ivec size = grid.size();
     vec2 output(size[0]);
     vec2 olats = grid.get_lats();
@@ -53,6 +59,8 @@ vec2 gridpp::count(const Points& points, const Grid& grid, float radius) {
 }
 
 vec gridpp::count(const Points& ipoints, const Points& opoints, float radius) {
+    if(!gridpp::compatible_coordinates(ipoints, opoints))
+        throw std::invalid_argument("Incompatible coordinate types");
     int size = opoints.size();
     vec output(size);
     vec olats = opoints.get_lats();
diff --git a/src/api/downscale_probability.cpp b/src/api/downscale_probability.cpp
index 0d84e60..e0d17d6 100644
--- a/src/api/downscale_probability.cpp
+++ b/src/api/downscale_probability.cpp
@@ -8,6 +8,8 @@ vec2 gridpp::downscale_probability(const Grid& igrid, const Grid& ogrid, const v
     ivec isize = igrid.size();
     if(ivalues.size() != isize[0] || (ivalues.size() > 0 && ivalues[0].size() != isize[1]))
         throw std::invalid_argument("Input grid is not the same size as values");
+    if(!gridpp::compatible_coordinates(igrid, ogrid))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(ogrid, threshold))
         throw std::invalid_argument("Output grid is not the same size as threshold");
     if(ivalues.size() == 0 || threshold.size() == 0)
diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index ca36793..1f7c8a4 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -4,6 +4,8 @@
 using namespace gridpp;
 
 vec2 gridpp::gridding(const Grid& grid, const Points& points, const vec& values, float radius, int min_num, gridpp::Statistic statistic) {
+    if(!gridpp::compatible_coordinates(grid, points))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(points, values))
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(radius) || radius < 0)
@@ -37,6 +39,8 @@ vec2 gridpp::gridding(const Grid& grid, const Points& points, const vec& values,
     return output;
 }
 vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& values, float radius, int min_num, gridpp::Statistic statistic) {
+    if(!gridpp::compatible_coordinates(opoints, ipoints))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(ipoints, values))
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(radius) || radius < 0)
@@ -67,6 +71,8 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
 }
 
 vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec& values, int min_num, gridpp::Statistic statistic) {
+    if(!gridpp::compatible_coordinates(grid, ipoints))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(ipoints, values))
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(min_num) || min_num < 0)
@@ -111,6 +117,8 @@ vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec
     return output;
 }
 vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const vec& values, int min_num, gridpp::Statistic statistic) {
+    if(!gridpp::compatible_coordinates(opoints, ipoints))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(ipoints, values))
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(min_num) || min_num < 0)
diff --git a/src/api/local_distribution_correction.cpp b/src/api/local_distribution_correction.cpp
index 9d3aed3..4a20328 100644
--- a/src/api/local_distribution_correction.cpp
+++ b/src/api/local_distribution_correction.cpp
@@ -42,6 +42,8 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
 
     if(!gridpp::compatible_size(bgrid, background))
         throw std::invalid_argument("Background is not the same size as the grid");
+    if(!gridpp::compatible_coordinates(bgrid, points))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(background.size() == 0)
         return vec2();
     if(!(min_quantile >= 0 && min_quantile <= max_quantile && max_quantile <= 1))
diff --git a/src/api/mask_threshold_downscale_consensus.cpp b/src/api/mask_threshold_downscale_consensus.cpp
index b6f9da2..9f9090c 100644
--- a/src/api/mask_threshold_downscale_consensus.cpp
+++ b/src/api/mask_threshold_downscale_consensus.cpp
@@ -24,6 +24,8 @@ namespace {
             throw std::invalid_argument("Input grid is not the same size as values");
         if(!gridpp::compatible_size(ivalues_true, ivalues_false) || !gridpp::compatible_size(ivalues_true, threshold_values))
             throw std::invalid_argument("Input values and threshold values are not the same size");
+        if(!gridpp::compatible_coordinates(igrid, ogrid))
+            throw std::invalid_argument("Incompatible coordinate types");
         if(!gridpp::compatible_size(ogrid, threshold))
             throw std::invalid_argument("Output grid is not the same size as threshold");
 
diff --git a/src/api/nearest.cpp b/src/api/nearest.cpp
index feb7dbd..fc55cfe 100644
--- a/src/api/nearest.cpp
+++ b/src/api/nearest.cpp
@@ -5,6 +5,8 @@
 using namespace gridpp;
 
 vec2 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec2& ivalues) {
+    if(!gridpp::compatible_coordinates(igrid, ogrid))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     vec2 iOutputLats = ogrid.get_lats();
@@ -30,6 +32,8 @@ vec2 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
     return output;
 }
 vec3 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec3& ivalues) {
+    if(!gridpp::compatible_coordinates(igrid, ogrid))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     vec2 iOutputLats = ogrid.get_lats();
@@ -71,6 +75,8 @@ vec3 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 }
 
 vec2 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec& ivalues) {
+    if(!gridpp::compatible_coordinates(ogrid, ipoints))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(ipoints.size() != ivalues.size())
         throw std::invalid_argument("Points size is not the same as values");
     vec2 iOutputLats = ogrid.get_lats();
@@ -93,6 +99,8 @@ vec2 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec& ivalue
     return output;
 }
 vec3 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec2& ivalues) {
+    if(!gridpp::compatible_coordinates(ogrid, ipoints))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(ipoints, ivalues)) {
         std::stringstream ss;
         ss << "Input points (" << ipoints.size() << ") and values (" << ivalues.size() << ") size mismatch";
@@ -122,6 +130,8 @@ vec3 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec2& ivalu
 }
 
 vec gridpp::nearest(const Grid& igrid, const Points& opoints, const vec2& ivalues) {
+    if(!gridpp::compatible_coordinates(igrid, opoints))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     vec iOutputLats = opoints.get_lats();
@@ -143,6 +153,8 @@ vec gridpp::nearest(const Grid& igrid, const Points& opoints, const vec2& ivalue
     return output;
 }
 vec2 gridpp::nearest(const Grid& igrid, const Points& opoints, const vec3& ivalues) {
+    if(!gridpp::compatible_coordinates(igrid, opoints))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
        throw std::invalid_argument("Grid size is not the same as values");
     vec iOutputLats = opoints.get_lats();
@@ -175,6 +187,8 @@ vec2 gridpp::nearest(const Grid& igrid, const Points& opoints, const vec3& ivalu
     return output;
 }
 vec gridpp::nearest(const Points& ipoints, const Points& opoints, const vec& ivalues) {
+    if(!gridpp::compatible_coordinates(ipoints, opoints))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(ipoints.size() != ivalues.size())
         throw std::invalid_argument("Points size is not the same as values");
     vec iOutputLats = opoints.get_lats();
@@ -196,6 +210,8 @@ vec gridpp::nearest(const Points& ipoints, const Points& opoints, const vec& iva
     return output;
 }
 vec2 gridpp::nearest(const Points& ipoints, const Points& opoints, const vec2& ivalues) {
+    if(!gridpp::compatible_coordinates(ipoints, opoints))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(ipoints, ivalues)) {
         std::stringstream ss;
         ss << "Input points (" << ipoints.size() << ") and values (" << ivalues.size() << ") size mismatch";
diff --git a/src/api/util.cpp b/src/api/util.cpp
index afcd3a7..95bb965 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -474,6 +474,21 @@ bool gridpp::compatible_size(const vec3& a, const vec3& b) {
     }
     return true;
 }
+bool gridpp::compatible_coordinates(const Grid& a, const Grid& b) {
+    if(a.size()[0] == 0 || b.size()[0] == 0)
+        return true;
+    return a.get_coordinate_type() == b.get_coordinate_type();
+}
+bool gridpp::compatible_coordinates(const Grid& a, const Points& b) {
+    if(a.size()[0] == 0 || b.size() == 0)
+        return true;
+    return a.get_coordinate_type() == b.get_coordinate_type();
+}
+bool gridpp::compatible_coordinates(const Points& a, const Points& b) {
+    if(a.size() == 0 || b.size() == 0)
+        return true;
+    return a.get_coordinate_type() == b.get_coordinate_type();
+}
 vec2 gridpp::init_vec2(int Y, int X, float value) {
     vec2 output(Y);
     for(int y = 0; y < Y; y++)
-- 
2.43.0


From 4145518e78cdf52d96256961764f2a8c8e1fbb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 070/171] fix: raise an exception instead of aborting when
 bilinear interpolation is not possible

---
 src/api/bilinear.cpp | 60 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index daec863..1ccb163 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -1,5 +1,6 @@
 #include "gridpp.h"
 #include <math.h>
+#include <exception>
 #include <iostream>
 
 using namespace gridpp;
@@ -42,6 +43,8 @@ vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
         return output;
 
     // Algorithm from here:
+    // Exceptions cannot leave the parallel region, so rethrow them afterwards
+    std::exception_ptr error;
     #pragma omp parallel for collapse(2)
     for(int i = 0; i < nLat; i++) {
         for(int j = 0; j < nLon; j++) {
@@ -49,9 +52,17 @@ vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
             // and then figure out what side of this point the other there points are.
             float lat = iOutputLats[i][j];
             float lon = iOutputLons[i][j];
-            output[i][j] = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+            try {
+                output[i][j] = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+            }
+            catch(...) {
+                #pragma omp critical
+                error = std::current_exception();
+            }
         }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
 vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues) {
@@ -73,16 +84,26 @@ vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
         return output;
 
     // To reuse nearest neighbour information across time, we can't call calc on each timestep
+    // Exceptions cannot leave the parallel region, so rethrow them afterwards
+    std::exception_ptr error;
     #pragma omp parallel for collapse(2)
     for(int i = 0; i < nLat; i++) {
         for(int j = 0; j < nLon; j++) {
             float lat = iOutputLats[i][j];
             float lon = iOutputLons[i][j];
-            vec temp = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
-            for(int t = 0; t < nTime; t++)
-                output[t][i][j] = temp[t];
+            try {
+                vec temp = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+                for(int t = 0; t < nTime; t++)
+                    output[t][i][j] = temp[t];
+            }
+            catch(...) {
+                #pragma omp critical
+                error = std::current_exception();
+            }
         }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
 
@@ -103,14 +124,24 @@ vec gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec2& ivalu
         return output;
 
     // Algorithm from here:
+    // Exceptions cannot leave the parallel region, so rethrow them afterwards
+    std::exception_ptr error;
     #pragma omp parallel for
     for(int i = 0; i < nPoints; i++) {
         // Use the four points surrounding the lookup point. Use the nearest neighbour
         // and then figure out what side of this point the other there points are.
         float lat = iOutputLats[i];
         float lon = iOutputLons[i];
-        output[i] = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+        try {
+            output[i] = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+        }
+        catch(...) {
+            #pragma omp critical
+            error = std::current_exception();
+        }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
 vec2 gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec3& ivalues) {
@@ -130,15 +161,25 @@ vec2 gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec3& ival
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
         return output;
 
+    // Exceptions cannot leave the parallel region, so rethrow them afterwards
+    std::exception_ptr error;
     #pragma omp parallel for
     for(int i = 0; i < nPoints; i++) {
         float lat = iOutputLats[i];
         float lon = iOutputLons[i];
-        vec temp = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
-        for(int t = 0; t < nTime; t++) {
-            output[t][i] = temp[t];
+        try {
+            vec temp = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+            for(int t = 0; t < nTime; t++) {
+                output[t][i] = temp[t];
+            }
+        }
+        catch(...) {
+            #pragma omp critical
+            error = std::current_exception();
         }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
 
@@ -154,7 +195,8 @@ namespace {
         float B = X31;
         float C = Y21;
         float D = Y31;
-        assert(A * D != B * C);
+        if(A * D == B * C)
+            throw std::runtime_error("Problem with bilinear interpolation. The grid cell has no area.");
         float det = 1 / (A * D - B * C);
         s = det * ((x - X1) * (D) + (y - Y1) * (-B));
         t = det * ((x - X1) * (-C) + (y - Y1) * (A));
-- 
2.43.0


From e1e5eda987145a1f931090bd2e15b26ebec30cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 071/171] fix: raise an exception when a spatially varying
 structure function has no scales

---
 src/api/structure.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/api/structure.cpp b/src/api/structure.cpp
index c25c82a..4466392 100644
--- a/src/api/structure.cpp
+++ b/src/api/structure.cpp
@@ -212,6 +212,8 @@ gridpp::BarnesStructure::BarnesStructure(Grid grid, vec2 h, vec2 v, vec2 w, floa
         m_is_spatial = true;
         if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
             throw std::invalid_argument("Grid size not the same as scale size");
+        if(h.size() == 0)
+            throw std::invalid_argument("Grid cannot be empty");
         if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
             throw std::invalid_argument("Grid size not the same as scale size");
     }
@@ -388,6 +390,8 @@ gridpp::SoarStructure::SoarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float mi
         m_is_spatial = true;
         if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
             throw std::invalid_argument("Grid size not the same as scale size");
+        if(h.size() == 0)
+            throw std::invalid_argument("Grid cannot be empty");
         if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
             throw std::invalid_argument("Grid size not the same as scale size");
     }
@@ -537,6 +541,8 @@ gridpp::ToarStructure::ToarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float mi
         m_is_spatial = true;
         if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
             throw std::invalid_argument("Grid size not the same as scale size");
+        if(h.size() == 0)
+            throw std::invalid_argument("Grid cannot be empty");
         if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
             throw std::invalid_argument("Grid size not the same as scale size");
     }
@@ -684,6 +690,8 @@ gridpp::PowerlawStructure::PowerlawStructure(Grid grid, vec2 h, vec2 v, vec2 w,
         m_is_spatial = true;
         if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
             throw std::invalid_argument("Grid size not the same as scale size");
+        if(h.size() == 0)
+            throw std::invalid_argument("Grid cannot be empty");
         if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
             throw std::invalid_argument("Grid size not the same as scale size");
     }
@@ -831,6 +839,8 @@ gridpp::LinearStructure::LinearStructure(Grid grid, vec2 h, vec2 v, vec2 w, floa
         m_is_spatial = true;
         if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
             throw std::invalid_argument("Grid size not the same as scale size");
+        if(h.size() == 0)
+            throw std::invalid_argument("Grid cannot be empty");
         if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
             throw std::invalid_argument("Grid size not the same as scale size");
     }
-- 
2.43.0


From eb9efb1b798c39c4a244e10a07eb3e949727dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 072/171] fix: an empty tree has no neighbours, whatever the
 coordinates of the lookup point are

---
 src/api/kdtree.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index 4a1c7f0..5f916c7 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -21,6 +21,10 @@ int gridpp::KDTree::get_num_neighbours(float lat, float lon, float radius, bool
 }
 
 ivec gridpp::KDTree::get_neighbours_with_distance(float lat, float lon, float radius, vec& distances, bool include_match) const {
+    distances.clear();
+    if(mLats.size() == 0)
+        return ivec();
+
     float x, y, z;
     gridpp::convert_coordinates(lat, lon, mType, x, y, z);
     ivec indices = get_neighbours(lat, lon, radius, include_match);
@@ -37,6 +41,10 @@ ivec gridpp::KDTree::get_neighbours_with_distance(float lat, float lon, float ra
 }
 
 ivec gridpp::KDTree::get_neighbours(float lat, float lon, float radius, bool include_match) const {
+    // An empty tree has no coordinate type
+    if(mLats.size() == 0)
+        return ivec();
+
     float x, y, z;
     gridpp::convert_coordinates(lat, lon, mType, x, y, z);
 
@@ -80,6 +88,10 @@ ivec gridpp::KDTree::get_neighbours(float lat, float lon, float radius, bool inc
 }
 
 ivec gridpp::KDTree::get_closest_neighbours(float lat, float lon, int num, bool include_match) const {
+    // An empty tree has no coordinate type
+    if(mLats.size() == 0)
+        return ivec();
+
     float x, y, z;
     gridpp::convert_coordinates(lat, lon, mType, x, y, z);
     point p(x, y, z);
-- 
2.43.0


From ddcf7fc22faef7d6d217aee82e9256d4a8d79102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 073/171] fix: let exceptions from structure functions leave
 parallel regions

---
 src/api/corr_points.cpp                   | 11 +++++++++++
 src/api/local_distribution_correction.cpp | 11 +++++++++++
 src/api/oi.cpp                            | 11 +++++++++++
 3 files changed, 33 insertions(+)

diff --git a/src/api/corr_points.cpp b/src/api/corr_points.cpp
index 0849b43..bf28123 100644
--- a/src/api/corr_points.cpp
+++ b/src/api/corr_points.cpp
@@ -60,8 +60,12 @@ vec2 gridpp::staticcorr_points(const gridpp::Points& points,
         point_vec.push_back(knots.get_point(i));
     }
 
+    // Exceptions cannot leave the parallel region, so rethrow them afterwards
+    std::exception_ptr error;
+
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
+    try {
         float lat = blats[y];
         float lon = blons[y];
         Point p1 = points.get_point(y);
@@ -124,7 +128,14 @@ vec2 gridpp::staticcorr_points(const gridpp::Points& points,
                 output[y][index] = lRhos(i);
             }
         }
+    }
+    catch(...) {
+        #pragma omp critical
+        error = std::current_exception();
+    }
     } // End loop over points
+    if(error)
+        std::rethrow_exception(error);
     double e_time = gridpp::clock();
     // std::cout << count_stat << " " << e_time - s_time << " s" << std::endl;
     return output;
diff --git a/src/api/local_distribution_correction.cpp b/src/api/local_distribution_correction.cpp
index 4a20328..b866559 100644
--- a/src/api/local_distribution_correction.cpp
+++ b/src/api/local_distribution_correction.cpp
@@ -76,9 +76,13 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
         output[y].resize(nX, gridpp::MV);
     }
 
+    // Exceptions cannot leave the parallel region, so rethrow them afterwards
+    std::exception_ptr error;
+
     #pragma omp parallel for collapse(2)
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
+        try {
             // Default to the background value, if there are no observations
             output[y][x] = background[y][x];
 
@@ -211,6 +215,13 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
                 }
             }
         }
+        catch(...) {
+            #pragma omp critical
+            error = std::current_exception();
+        }
+        }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index 38c4aa3..1b1cb06 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -227,8 +227,12 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
 
     bool singular = false;
 
+    // Exceptions cannot leave the parallel region, so rethrow them afterwards
+    std::exception_ptr error;
+
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
+    try {
         if(!gridpp::is_valid(background[y])) {
             continue;
         }
@@ -352,7 +356,14 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         mattype a = (lGSR * lG.t());
         analysis_variance[y] = bvariance[y] * (1 - a(0, 0));
     }
+    catch(...) {
+        #pragma omp critical
+        error = std::current_exception();
+    }
+    }
 
+    if(error)
+        std::rethrow_exception(error);
     if(singular)
         throw std::runtime_error("Could not invert the observation error covariance matrix. Are there several observations without error at the same location?");
 
-- 
2.43.0


From 84751ac5e7bce4743243ccfe265cd79b25a66a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 074/171] fix: avoid overflow in get_optimal_threshold, which
 could make the search never end

---
 src/api/metric_optimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index 1d2ced9..b37bf81 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -152,8 +152,9 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
     float min_value = func(data.min);
     bins[0] = data.min;
     for(int b = 1; b < B; b++) {
-        bins[b] = data.min + (data.max - data.min) / (B - 1) * b;
-        float curr_x = data.min + (data.max - data.min) / (B - 1) * b;
+        // Use double precision, because the difference between the extremes can overflow
+        bins[b] = data.min + ((double) data.max - data.min) / (B - 1) * b;
+        float curr_x = bins[b];
         float curr_value = func(curr_x);
         // std::cout << curr_x << " " << curr_value << " " << min_index << " " << min_value << std::endl;
         if(curr_value < min_value) {
-- 
2.43.0


From 0123955947c639511c2feedb3170e5d93b0a24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 075/171] fix: setLons divided by the absolute longitude, which
 is undefined for longitude 0

---
 src/client/File/File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/File/File.cpp b/src/client/File/File.cpp
index 38770a4..83c59f1 100644
--- a/src/client/File/File.cpp
+++ b/src/client/File/File.cpp
@@ -263,7 +263,7 @@ bool File::setLons(vec2 iLons) {
          float lon = mLons[i][j];
          if(Util::isValid(lon)) {
             // Ensure lon is between -180 and 180
-            int sign = lon / fabs(lon);
+            int sign = lon < 0 ? -1 : 1;
             lon = fabs(lon);
             lon = fmod(lon,360); // lon is between 0 and 360
             lon = sign * lon; // lon is between -360 and 360
-- 
2.43.0


From 8df2cbbe9ef395405f8fc23989729f08d7cce095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 076/171] fix: the bilinear downscaler's getI and getJ ended
 without returning a value

---
 src/client/Downscaler/Bilinear.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index 152ac23..c886543 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -474,6 +474,7 @@ bool DownscalerBilinear::getI(int I, bool isAbove, bool Iinc, int& I1, int& I2)
          I2 = I + 1;
       }
    }
+   return true;
 }
 
 bool DownscalerBilinear::getJ(int J, bool isRight, bool Jinc, int& J1, int& J2) {
@@ -498,6 +499,7 @@ bool DownscalerBilinear::getJ(int J, bool isRight, bool Jinc, int& J1, int& J2)
          J2 = J + 1;
       }
    }
+   return true;
 }
 std::string DownscalerBilinear::description(bool full) {
    std::stringstream ss;
-- 
2.43.0


From 391c8ac45bf5f7522bf86f406c365eb9dadb30ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 077/171] fix: the bilinear downscaler read outside grids with
 a single row or column

---
 src/client/Downscaler/Bilinear.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index c886543..ca6f0d1 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -197,6 +197,10 @@ bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, c
    int nI = iLats.size();
    int nJ = iLats[0].size();
 
+   // There are no four points to interpolate between
+   if(nI < 2 || nJ < 2)
+      return false;
+
    assert(I < nI && I >= 0);
    assert(J < nJ && J >= 0);
 
-- 
2.43.0


From 9779c8fe090c8c749cda8117276576b07cfdbea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 078/171] fix: bilinear downscaler compared the row index with
 the number of columns

---
 src/client/Downscaler/Bilinear.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index ca6f0d1..b5fe169 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -229,7 +229,7 @@ bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, c
    if(isRight && J == 0 && iLons[I][0] > iLons[I][1])
       return false;
    // x 3 2 1 0
-   if(!isRight && I == nJ-1 && iLons[I][J-1] > iLons[I][J])
+   if(!isRight && J == nJ-1 && iLons[I][J-1] > iLons[I][J])
       return false;
 
    // Are the lats/lons increating when the index increases?
@@ -316,7 +316,7 @@ bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, c
       if(isRight && J == 0 && iLons[I][0] > iLons[I][1])
          return false;
       // x 3 2 1 0
-      if(!isRight && I == nJ-1 && iLons[I][J-1] > iLons[I][J])
+      if(!isRight && J == nJ-1 && iLons[I][J-1] > iLons[I][J])
          return false;
       x0 = iLons[I1][J1];
       x1 = iLons[I2][J1];
-- 
2.43.0


From d80e76ad564d1b0e1648465ec180dafe858066c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 079/171] fix: bilinear downscaler did not interpolate next to
 the first row or column of descending grids

---
 src/client/Downscaler/Bilinear.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index b5fe169..a532d5a 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -233,8 +233,8 @@ bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, c
       return false;
 
    // Are the lats/lons increating when the index increases?
-   bool Iinc = (I == 0) || (iLats[I][J] > iLats[I-1][J]);
-   bool Jinc = (J == 0) || (iLons[I][J] > iLons[I][J-1]);
+   bool Iinc = (I == 0) ? (iLats[1][J] > iLats[0][J]) : (iLats[I][J] > iLats[I-1][J]);
+   bool Jinc = (J == 0) ? (iLons[I][1] > iLons[I][0]) : (iLons[I][J] > iLons[I][J-1]);
 
    getI(I, isAbove, Iinc, I1, I2);
    getJ(J, isRight, Jinc, J1, J2);
-- 
2.43.0


From 8e777f7b5fd1d27366d65c776bfd45df91857504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 080/171] fix: gradient downscaler's limit option never set the
 largest value of the neighbourhood

---
 src/client/Downscaler/Gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index f708cee..34fe39d 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -197,7 +197,7 @@ void DownscalerGradient::downscaleCore(const File& iInput, File& iOutput) const
                            if(Util::isValid(curr)) {
                               if(!Util::isValid(min) || curr < min)
                                  min = curr;
-                              else if(!Util::isValid(max) || curr > max)
+                              if(!Util::isValid(max) || curr > max)
                                  max = curr;
                            }
                         }
-- 
2.43.0


From 322406579b4c6def7bfd97d912f2c79474f0c853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 081/171] fix: gradient downscaler ignored minLafGradient and
 maxLafGradient

---
 src/client/Downscaler/Gradient.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index 34fe39d..84d98bc 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -8,6 +8,8 @@ DownscalerGradient::DownscalerGradient(const Variable& iInputVariable, const Var
       mElevRadius(3),
       mMinElevGradient(Util::MV),
       mMaxElevGradient(Util::MV),
+      mMinLafGradient(Util::MV),
+      mMaxLafGradient(Util::MV),
       mLogTransform(false),
       mConstantElevGradient(Util::MV),
       mDefaultElevGradient(0),
@@ -376,6 +378,11 @@ float DownscalerGradient::calcLafGradient(int i, int j, int e, int Icenter, int
    }
    else {
       gradient = value / totalWeight;
+      // Check against minimum and maximum gradients
+      if(Util::isValid(mMinLafGradient) && gradient < mMinLafGradient)
+         gradient = mMinLafGradient;
+      if(Util::isValid(mMaxLafGradient) && gradient > mMaxLafGradient)
+         gradient = mMaxLafGradient;
    }
    return gradient;
 }
-- 
2.43.0


From 5d5e7e6152758658fc03ef9907220d5c2004f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 082/171] fix: gradient downscaler ignored the gradient when
 all but one point have elevation 0

---
 src/client/Downscaler/Gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index 84d98bc..e9acf29 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -444,7 +444,7 @@ float DownscalerGradient::calcElevGradient(int i, int j, int e, int Icenter, int
       // Use model gradient if:
       // 1) sufficient elevation difference in neighbourhood
       // 2) regression parameters are stable enough
-      if(counter >= mMinNumPoints && Util::isValid(elevDiff) && elevDiff >= mMinElevDiff && meanXX != meanX*meanX) {
+      if(counter >= mMinNumPoints && Util::isValid(elevDiff) && elevDiff >= mMinElevDiff) {
          // Estimate lapse rate
          meanXY /= counter;
          meanX  /= counter;
-- 
2.43.0


From b405c2f5cfadfa5d1642176eecef5102b190f5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 083/171] fix: the client's search tree could miss the nearest
 point across a meridian or the date line

---
 src/client/KDTree.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/client/KDTree.cpp b/src/client/KDTree.cpp
index 36fd406..0558564 100644
--- a/src/client/KDTree.cpp
+++ b/src/client/KDTree.cpp
@@ -1,5 +1,7 @@
 #include "KDTree.h"
 
+#include <algorithm>
+#include <cmath>
 #include <limits>
 
 KDTree::KDTree() : mRoot(NULL) {
@@ -127,6 +129,12 @@ const KDTree::TreeNode* KDTree::firstGuess(const unode& root, const float lon, c
    return root.get();
 }
 
+// Shortest distance from a point to the great circle formed by a meridian. This is shorter than the
+// distance to the meridian along the parallel of the point.
+static float getMeridianDistance(float lat, float lon, float meridian) {
+   return Util::radiusEarth * asin(fabs(cos(Util::deg2rad(lat)) * sin(Util::deg2rad(lon - meridian))));
+}
+
 const KDTree::queryRes KDTree::nearestNeighbour(const unode& root, const float lon, const float lat, const float oldBest) {
 
    const TreeNode * nearLeaf = firstGuess(root, lon, lat);
@@ -147,7 +155,9 @@ const KDTree::queryRes KDTree::nearestNeighbour(const unode& root, const float l
 
       bool cross;
       if(currentLeaf->xsection) {
-         cross = Util::getDistance(lat, lon, lat, currentLeaf->lon) < currBest;
+         // Points on the other side are separated either by the meridian of this node, or by the
+         // meridian where longitudes wrap around (0 or 180 degrees)
+         cross = std::min(getMeridianDistance(lat, lon, currentLeaf->lon), getMeridianDistance(lat, lon, 0)) < currBest;
       } else {
          cross = Util::getDistance(lat, lon, currentLeaf->lat, lon) < currBest;
       }
-- 
2.43.0


From 2dd29ab429c735c310c073f91240dd57887001f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 084/171] fix: the distance between nearly identical points
 could be NaN

---
 src/client/Util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 5d62b79..720682f 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -132,7 +132,8 @@ float Util::getDistance(float lat1, float lon1, float lat2, float lon2, bool app
       double ratio = cos(lat1r)*cos(lon1r)*cos(lat2r)*cos(lon2r)
                    + cos(lat1r)*sin(lon1r)*cos(lat2r)*sin(lon2r)
                    + sin(lat1r)*sin(lat2r);
-      double dist = acos(ratio)*radiusEarth;
+      // Rounding errors can put the ratio slightly outside the range of cosine
+      double dist = acos(std::max(-1.0, std::min(1.0, ratio)))*radiusEarth;
       return (float) dist;
    }
 }
-- 
2.43.0


From a2006902e93e7ab0350360dafe7745468235c6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 085/171] fix: bilinear downscaler lost precision in small
 cells that are not parallelograms

---
 src/client/Downscaler/Bilinear.cpp | 58 +++++++++++++++---------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index a532d5a..ee67bd9 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -394,31 +394,31 @@ bool DownscalerBilinear::calcParallelogram(float x, float y, float X1, float X2,
 
 bool DownscalerBilinear::calcGeneral(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float &t, float &s) {
    // std::cout << "Method general" << std::endl;
-   float a = -x0 + x2;
-   float b = -x0 + x1;
-   float c = x0 - x1 - x2 + x3;
-   float d = x - x0;
-   float e = -y0 + y2;
-   float f = -y0 + y1;
-   float g = y0 - y1 - y2 + y3;
-   float h = y - y0;
-   float alpha=Util::MV, beta=Util::MV;
-   float Y1 = y1;
-   float Y2 = y3;
-   float Y3 = y0;
-   float Y4 = y2;
-   float X1 = x1;
-   float X2 = x3;
-   float X3 = x0;
-   float X4 = x2;
-   float X31 = X3 - X1;
-   float X21 = X2 - X1;
-   float Y42 = Y4 - Y2;
-   float Y21 = Y2 - Y1;
-   float Y31 = Y3 - Y1;
-   float Y43 = Y4 - Y3;
-   float X42 = X4 - X2;
-   float X43 = X4 - X3;
+   double a = -x0 + x2;
+   double b = -x0 + x1;
+   double c = x0 - x1 - x2 + x3;
+   double d = x - x0;
+   double e = -y0 + y2;
+   double f = -y0 + y1;
+   double g = y0 - y1 - y2 + y3;
+   double h = y - y0;
+   double alpha=Util::MV, beta=Util::MV;
+   double Y1 = y1;
+   double Y2 = y3;
+   double Y3 = y0;
+   double Y4 = y2;
+   double X1 = x1;
+   double X2 = x3;
+   double X3 = x0;
+   double X4 = x2;
+   double X31 = X3 - X1;
+   double X21 = X2 - X1;
+   double Y42 = Y4 - Y2;
+   double Y21 = Y2 - Y1;
+   double Y31 = Y3 - Y1;
+   double Y43 = Y4 - Y3;
+   double X42 = X4 - X2;
+   double X43 = X4 - X3;
    if(2 * c * e - 2 * a * g != 0 && 2 * c * f - 2 * b * g != 0) {
       alpha = -(b * e - a * f + d * g - c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
       beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
@@ -426,8 +426,8 @@ bool DownscalerBilinear::calcGeneral(float x, float y, float x0, float x1, float
    else if(2 * c * f - 2 * b * g == 0) {
       // std::cout << "Need to diagnose t" << std::endl;
       alpha = -(b * e - a * f + d * g - c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
-      float s = alpha;
-      float t;
+      double s = alpha;
+      double t;
       if(Y3 + Y43 * s - Y1 - Y21 * s == 0) {
          assert(X3 + X43 * s - X1 - X21 * s != 0);
          t = (x - X1 - X21 * s) / (X3 + X43 * s - X1 - X21 * s);
@@ -440,8 +440,8 @@ bool DownscalerBilinear::calcGeneral(float x, float y, float x0, float x1, float
    else if(2 * c * e - 2 * a * g == 0) {
       // std::cout << "Need to diagnose s" << std::endl;
       beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
-      float t =  1 - beta;
-      float s;
+      double t =  1 - beta;
+      double s;
       if(Y2 + Y42 * t - Y1 - Y31 * t == 0) {
          assert(X2 + X42 * t - X1 - X31 * t != 0);
          s = (x - X1 - X31 * t) / (X2 + X42 * t - X1 - X31 * t);
-- 
2.43.0


From 6807a08becd0699fb286e95f6765b1eb64f26f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 086/171] fix: bilinear downscaler divided rounding errors in
 cells with two horizontal sides

---
 src/client/Downscaler/Bilinear.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index ee67bd9..d7056b6 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -428,12 +428,15 @@ bool DownscalerBilinear::calcGeneral(float x, float y, float x0, float x1, float
       alpha = -(b * e - a * f + d * g - c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
       double s = alpha;
       double t;
-      if(Y3 + Y43 * s - Y1 - Y21 * s == 0) {
-         assert(X3 + X43 * s - X1 - X21 * s != 0);
-         t = (x - X1 - X21 * s) / (X3 + X43 * s - X1 - X21 * s);
+      // Use the coordinate that varies the most
+      double dX = (X3 - X1) + (X43 - X21) * s;
+      double dY = (Y3 - Y1) + (Y43 - Y21) * s;
+      if(fabs(dX) >= fabs(dY)) {
+         assert(dX != 0);
+         t = (x - X1 - X21 * s) / dX;
       }
       else {
-         t = (y - Y1 - Y21 * s) / (Y3 + Y43 * s - Y1 - Y21 * s);
+         t = (y - Y1 - Y21 * s) / dY;
       }
       beta = 1 - t;
    }
@@ -442,12 +445,15 @@ bool DownscalerBilinear::calcGeneral(float x, float y, float x0, float x1, float
       beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
       double t =  1 - beta;
       double s;
-      if(Y2 + Y42 * t - Y1 - Y31 * t == 0) {
-         assert(X2 + X42 * t - X1 - X31 * t != 0);
-         s = (x - X1 - X31 * t) / (X2 + X42 * t - X1 - X31 * t);
+      // Use the coordinate that varies the most
+      double dX = (X2 - X1) + (X42 - X31) * t;
+      double dY = (Y2 - Y1) + (Y42 - Y31) * t;
+      if(fabs(dX) >= fabs(dY)) {
+         assert(dX != 0);
+         s = (x - X1 - X31 * t) / dX;
       }
       else {
-         s = (y - Y1 - Y31 * t) / (Y2 + Y42 * t - Y1 - Y31 * t);
+         s = (y - Y1 - Y31 * t) / dY;
       }
       alpha = s;
    }
-- 
2.43.0


From c13f3de802325520d7e172575e83fb4be94e4c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 087/171] fix: coastal calibrator used neighbours that had
 already been corrected

---
 src/client/Calibrator/Coastal.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index 7242a86..4be1110 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -38,6 +38,8 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
       if(!iParameterFile->isLocationDependent())
           parametersGlobal = iParameterFile->getParameters(t);
       const FieldPtr field = iFile.getField(mVariable, t);
+      // Neighbouring gridpoints must be read before they are corrected
+      const Field raw = *field;
 
       #pragma omp parallel for
       for(int i = 0; i < nLat; i++) {
@@ -52,17 +54,17 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                float upperValue = Util::MV;
                float minLaf = 2;
                float maxLaf = -1;
-               float nearestNeighbour = (*field)(i,j,e);
+               float nearestNeighbour = raw(i,j,e);
                // Find the range within a neighbourhood
                for(int ii = std::max(0, i-mSearchRadius); ii <= std::min(nLat-1, i+mSearchRadius); ii++) {
                   for(int jj = std::max(0, j-mSearchRadius); jj <= std::min(nLon-1, j+mSearchRadius); jj++) {
                      float currLaf = laf[ii][jj];
                      if(currLaf < minLaf) {
-                        lowerValue = (*field)(ii,jj,e);
+                        lowerValue = raw(ii,jj,e);
                         minLaf = currLaf;
                      }
                      if(currLaf > maxLaf) {
-                        upperValue = (*field)(ii,jj,e);
+                        upperValue = raw(ii,jj,e);
                         maxLaf = currLaf;
                      }
                   }
-- 
2.43.0


From ac87210b3643e21da2cfaf4dca9fc1d19e5fb7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 088/171] fix: coastal calibrator aborted when a value or
 parameter was missing

---
 src/client/Calibrator/Coastal.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index 4be1110..bc40483 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -59,6 +59,8 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                for(int ii = std::max(0, i-mSearchRadius); ii <= std::min(nLat-1, i+mSearchRadius); ii++) {
                   for(int jj = std::max(0, j-mSearchRadius); jj <= std::min(nLon-1, j+mSearchRadius); jj++) {
                      float currLaf = laf[ii][jj];
+                     if(!Util::isValid(currLaf))
+                        continue;
                      if(currLaf < minLaf) {
                         lowerValue = raw(ii,jj,e);
                         minLaf = currLaf;
@@ -79,14 +81,11 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                if(Util::isValid(lowerValue) && Util::isValid(upperValue) && (maxLaf - minLaf > mMinLafDiff))
                   gradient = (upperValue - lowerValue) / (maxLaf - minLaf);
                assert(Util::isValid(gradient));
-               assert(Util::isValid(nearestNeighbour));
 
                float value = Util::MV;
-               if(mUseNN)
-                  value = a + b * nearestNeighbour + c * gradient;
-               else
-                  value = a + b * lowerValue + c * gradient;
-               assert(Util::isValid(value));
+               float baseValue = mUseNN ? nearestNeighbour : lowerValue;
+               if(Util::isValid(baseValue) && Util::isValid(a) && Util::isValid(b) && Util::isValid(c))
+                  value = a + b * baseValue + c * gradient;
                (*field)(i,j,e) = value;
             }
          }
-- 
2.43.0


From 46049a0646b305fcc0ec5109332dc557a011d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 089/171] fix: bct calibrator ignored the maxEnsMean option

---
 src/client/Calibrator/Bct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Bct.cpp b/src/client/Calibrator/Bct.cpp
index c6d018b..3f76838 100644
--- a/src/client/Calibrator/Bct.cpp
+++ b/src/client/Calibrator/Bct.cpp
@@ -9,6 +9,7 @@
 CalibratorBct::CalibratorBct(const Variable& iVariable, const Options& iOptions):
       Calibrator(iVariable, iOptions),
       mMaxEnsMean(100) {
+   iOptions.getValue("maxEnsMean", mMaxEnsMean);
    iOptions.check();
 }
 
-- 
2.43.0


From 56bf95284608f72c650576426ad780607abc347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 090/171] fix: phase calibrator refused the minPrecip option

---
 src/client/Calibrator/Phase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Phase.cpp b/src/client/Calibrator/Phase.cpp
index fea6f41..6fec3c0 100644
--- a/src/client/Calibrator/Phase.cpp
+++ b/src/client/Calibrator/Phase.cpp
@@ -13,6 +13,7 @@ CalibratorPhase::CalibratorPhase(const Variable& iVariable, const Options& iOpti
    iOptions.getRequiredValue("precipitation", mPrecipitationVariable);
    iOptions.getValue("snowThreshold", mSnowThreshold);
    iOptions.getValue("rainThreshold", mRainThreshold);
+   iOptions.getValue("minPrecip", mMinPrecip);
    iOptions.check();
 }
 bool CalibratorPhase::calibrateCore(File& iFile, const ParameterFile* iParameterFile) const {
-- 
2.43.0


From 91bc5bbf1a68d39d74cad5ba0ee55d35185560c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 091/171] fix: phase calibrator required a parameter file that
 it does not use

---
 src/client/Calibrator/Phase.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Phase.h b/src/client/Calibrator/Phase.h
index a503a34..a04a8bf 100644
--- a/src/client/Calibrator/Phase.h
+++ b/src/client/Calibrator/Phase.h
@@ -9,6 +9,7 @@ class CalibratorPhase : public Calibrator {
       CalibratorPhase(const Variable& iVariable, const Options& iOptions);
       static std::string description(bool full=true);
       std::string name() const {return "phase";};
+      bool requiresParameterFile() const { return false;};
 
       //! Precipitation phase
       enum Phase {
-- 
2.43.0


From 2e6badc00f04b6dea28ac2ed43cfaadd43fbae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 092/171] fix: wind direction calibrator multiplied missing
 values and missing factors

---
 src/client/Calibrator/WindDirection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/WindDirection.cpp b/src/client/Calibrator/WindDirection.cpp
index 9cfd3a1..a800e14 100644
--- a/src/client/Calibrator/WindDirection.cpp
+++ b/src/client/Calibrator/WindDirection.cpp
@@ -46,7 +46,10 @@ bool CalibratorWindDirection::calibrateCore(File& iFile, const ParameterFile* iP
                float currDirection = direction(i,j,e);
                if(Util::isValid(currDirection)) {
                    float factor = getFactor(currDirection, parameters);
-                   wind(i,j,e) = factor*wind(i,j,e);
+                   if(Util::isValid(factor) && Util::isValid(wind(i,j,e)))
+                      wind(i,j,e) = factor*wind(i,j,e);
+                   else
+                      wind(i,j,e) = Util::MV;
                }
             }
          }
-- 
2.43.0


From 8546f461d81bc06f183e82b9b424fdc234cf97e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 093/171] fix: multivariate regression used missing predictors
 as numbers

---
 src/client/Calibrator/Regression.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Regression.cpp b/src/client/Calibrator/Regression.cpp
index 760b6a1..dac9853 100644
--- a/src/client/Calibrator/Regression.cpp
+++ b/src/client/Calibrator/Regression.cpp
@@ -69,11 +69,12 @@ bool CalibratorRegression::calibrateCore(File& iFile, const ParameterFile* iPara
                      // Accumulate a + b * var1 + c * var2 ...
                      for(int p = 0; p < parameters.size(); p++) {
                         float coeff = parameters[p];
-                        if(!Util::isValid(coeff)) {
+                        float value = (*fields[p])(i,j,e);
+                        if(!Util::isValid(coeff) || !Util::isValid(value)) {
                            total = Util::MV;
                            break;
                         }
-                        total += coeff*(*fields[p])(i,j,e);
+                        total += coeff*value;
                      }
                      (*field)(i,j,e)  = total;
                   }
-- 
2.43.0


From e69b892496c15f2493945c9c6d0e257bf33583bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 094/171] fix: dewpoint of completely dry air was set to the
 temperature

---
 src/client/Calibrator/DiagnoseHumidity.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/DiagnoseHumidity.cpp b/src/client/Calibrator/DiagnoseHumidity.cpp
index c754650..4bc629c 100644
--- a/src/client/Calibrator/DiagnoseHumidity.cpp
+++ b/src/client/Calibrator/DiagnoseHumidity.cpp
@@ -112,7 +112,8 @@ bool CalibratorDiagnoseHumidity::calibrateCore(File& iFile, const ParameterFile*
 }
 
 float CalibratorDiagnoseHumidity::computeDewpoint(float iTemperature, float iRelativeHumidity) {
-   if(Util::isValid(iTemperature) && Util::isValid(iRelativeHumidity)) {
+   // Dewpoint is not defined for completely dry air
+   if(Util::isValid(iTemperature) && Util::isValid(iRelativeHumidity) && iRelativeHumidity > 0) {
       // Taken from https://github.com/metno/wdb2ts
       float tempC = iTemperature - 273.15;
       float e = (iRelativeHumidity)*0.611*exp( (17.63 * tempC) / (tempC + 243.04) );
-- 
2.43.0


From 80c77f2174687e54f5cac6297ef6c83b0673cd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 095/171] fix: sort calibrator did not sort ensembles with nan
 members

---
 src/client/Calibrator/Sort.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/Calibrator/Sort.cpp b/src/client/Calibrator/Sort.cpp
index a7557d9..f8d3200 100644
--- a/src/client/Calibrator/Sort.cpp
+++ b/src/client/Calibrator/Sort.cpp
@@ -25,6 +25,11 @@ bool CalibratorSort::calibrateCore(File& iFile, const ParameterFile* iParameterF
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
             std::vector<float> values = field(i,j);
+            // nan values cannot be sorted
+            for(int e = 0; e < nEns; e++) {
+               if(!Util::isValid(values[e]))
+                  values[e] = Util::MV;
+            }
             std::sort(values.begin(), values.end());
 
             // Create a new array with all the missing values
-- 
2.43.0


From 03fcabb8c9549c6f5281a90509e4670445924a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 096/171] fix: mask calibrator carried the mask of earlier
 times over to later times

---
 src/client/Calibrator/Mask.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Mask.cpp b/src/client/Calibrator/Mask.cpp
index 7143cfe..c7bff76 100644
--- a/src/client/Calibrator/Mask.cpp
+++ b/src/client/Calibrator/Mask.cpp
@@ -38,6 +38,7 @@ bool CalibratorMask::calibrateCore(File& iFile, const ParameterFile* iParameterF
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
             if(t == 0 || iParameterFile->isTimeDependent()) {
+               isWithinRadius[i][j] = 0;
                Location loc(Util::MV, Util::MV, Util::MV);
                Location currLocation(lats[i][j], lons[i][j], elevs[i][j]);
                if(mUseNearestOnly) {
-- 
2.43.0


From 43d81c0821b685487ad4c0133b208c73a12276ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 097/171] fix: gaussian calibrator used neighbours that had
 already been calibrated

---
 src/client/Calibrator/Gaussian.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index 8447000..eb70f4d 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -32,6 +32,8 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
    // Loop over offsets
    for(int t = 0; t < nTime; t++) {
       Field& field = *iFile.getField(mVariable, t);
+      // Neighbouring gridpoints must be read before they are calibrated
+      const Field rawField = field;
 
       Parameters parametersGlobal;
       if(!iParameterFile->isLocationDependent())
@@ -55,7 +57,7 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                // Create a neighbourhood ensemble
                for(int ii = std::max(0, i-mNeighbourhoodSize); ii <= std::min(nLat-1, i+mNeighbourhoodSize); ii++) {
                   for(int jj = std::max(0, j-mNeighbourhoodSize); jj <= std::min(nLon-1, j+mNeighbourhoodSize); jj++) {
-                     float value = field(ii,jj,e);
+                     float value = rawField(ii,jj,e);
                      if(Util::isValid(value)) {
                         total += value;
                         total2 += value*value;
-- 
2.43.0


From af52c074f2f9105bcb3b27e9a558e38063be265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 098/171] fix: gaussian calibrator filled in missing members

---
 src/client/Calibrator/Gaussian.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index eb70f4d..7d4a0ae 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -67,10 +67,15 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                }
             }
             const std::vector<float>& raw = field(i,j);
+            bool allMembers = true;
+            for(int e = 0; e < nEns; e++) {
+               if(!Util::isValid(raw[e]))
+                  allMembers = false;
+            }
 
             // Only calibrate the ensemble if all members are available. Otherwise
             // use the raw members.
-            if(counter > 0) {
+            if(allMembers && counter > 0) {
                float ensMean = Util::MV;
                float ensSpread = Util::MV;
                if(counter > 0) {
-- 
2.43.0


From d0d29d86b84b2a0cd9274d2bfb5c0a5d816ceee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 099/171] fix: gaussian calibrator left some ensembles with
 equal members uncalibrated

---
 src/client/Calibrator/Gaussian.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index 7d4a0ae..19ed2fa 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -80,7 +80,8 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                float ensSpread = Util::MV;
                if(counter > 0) {
                   ensMean = total / counter;
-                  ensSpread = sqrt(total2/counter - (ensMean*ensMean));
+                  // Rounding errors can make the variance slightly negative
+                  ensSpread = sqrt(std::max(total2/counter - (ensMean*ensMean), 0.f));
                }
 
                // Calibrate
-- 
2.43.0


From c2edc5ad3cc6243a6f1739d9593da9f2a7609e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 100/171] fix: zaga calibrator used neighbours that had already
 been calibrated

---
 src/client/Calibrator/Zaga.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index 5060da8..3a2cce6 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -64,6 +64,11 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
    for(int t = 0; t < nTime; t++) {
       precips.push_back(iFile.getField(mVariable, t));
    }
+   // Neighbouring gridpoints must be read before they are calibrated
+   std::vector<Field> rawPrecips;
+   for(int t = 0; t < nTime; t++) {
+      rawPrecips.push_back(*precips[t]);
+   }
 
    // Loop over offsets
    for(int t = 0; t < nTime; t++) {
@@ -121,9 +126,7 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
                         float total = 0;
                         // Accumulate over the time window, if necessary
                         for(int tt = t-timeWindow + 1; tt <= t; tt++) {
-                           Field& precip = *precips[tt];
-
-                           float value = precip(ii,jj,e);
+                           float value = rawPrecips[tt](ii,jj,e);
                            if(Util::isValid(total) && Util::isValid(value)) {
                               total += value;
                            }
-- 
2.43.0


From d6d6b807f95ca6b9b7528371dc9d101f4fb3dc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 101/171] fix: zaga calibrator read before the first time with
 the 6h option and no popVariable

---
 src/client/Calibrator/Zaga.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index 3a2cce6..f9ea846 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -55,7 +55,8 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
 
    int startTime = 0;
    int timeWindow = 1;
-   if(m6h) {
+   // The accumulation is only used for the probability of precipitation
+   if(m6h && mPopVariable != "") {
       startTime = 5;
       timeWindow = 6;
    }
-- 
2.43.0


From b1c81236500729e1188c9b6d84cdef1a6f6f4eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 102/171] fix: zaga training truncated the fraction of dry
 members to an integer

---
 src/client/Calibrator/Zaga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index f9ea846..50b765c 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -425,7 +425,7 @@ Parameters CalibratorZaga::train(const std::vector<ObsEns>& iData) const {
          }
       }
       if(valid > 0)
-         frac[i] = total / valid;
+         frac[i] = (float) total / valid;
       else
          abort();
       assert(frac[i] >= 0 && frac[i] <= 1);
-- 
2.43.0


From 09c327eed0c3b572272f6d31695d7b4354ebb5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 103/171] fix: kriging accumulated the auxiliary weights over
 the ensemble members

---
 src/client/Calibrator/Kriging.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 17d88ff..3dd3151 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -350,32 +350,34 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                for(int e = 0; e < nEns; e++) {
                   float rawValue = (*field)(i,j,e);
 
+                  float currBias = finalBias;
+
                   // Adjust bias based on auxillary weight
                   if(mAuxVariable != "") {
                      float weight = auxWeights[i][j][e][t];
                      if(mOperator == Util::OperatorAdd || mOperator == Util::OperatorSubtract) {
-                        finalBias = finalBias * weight;
+                        currBias = finalBias * weight;
                      }
                      else {
-                        finalBias = pow(finalBias, weight);
+                        currBias = pow(finalBias, weight);
                      }
                   }
 
                   if(mOperator == Util::OperatorAdd) {
-                     (*field)(i,j,e) += finalBias;
+                     (*field)(i,j,e) += currBias;
                   }
                   else if(mOperator == Util::OperatorSubtract) {
-                     (*field)(i,j,e) -= finalBias;
+                     (*field)(i,j,e) -= currBias;
                   }
                   else if(mOperator == Util::OperatorMultiply) {
                      // TODO: How do we ensure that the matrix is positive definite in this
                      // case?
-                     (*field)(i,j,e) *= finalBias;
+                     (*field)(i,j,e) *= currBias;
                   }
                   else if(mOperator == Util::OperatorDivide) {
                      // TODO: How do we ensure that the matrix is positive definite in this
                      // case?
-                     (*field)(i,j,e) /= finalBias;
+                     (*field)(i,j,e) /= currBias;
                   }
                   else {
                      Util::error("Unrecognized operator in CalibratorKriging");
-- 
2.43.0


From 1023567b7c953a5fdcf5d4448273671a2a8554e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 104/171] fix: kriging corrected missing values

---
 src/client/Calibrator/Kriging.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 3dd3151..caf9511 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -349,6 +349,8 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                // Apply bias to each ensemble member
                for(int e = 0; e < nEns; e++) {
                   float rawValue = (*field)(i,j,e);
+                  if(!Util::isValid(rawValue))
+                     continue;
 
                   float currBias = finalBias;
 
-- 
2.43.0


From 20c846719c0cdfa8666e0f46234cf53032935ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 105/171] fix: kriging with operator=divide did not add the
 fluctuations onto 1

---
 src/client/Calibrator/Kriging.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index caf9511..cbb3816 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -344,7 +344,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                if(mOperator == Util::OperatorMultiply)
                   finalBias = finalBias + 1;
                else if(mOperator == Util::OperatorDivide)
-                  finalBias = finalBias - 1;
+                  finalBias = finalBias + 1;
 
                // Apply bias to each ensemble member
                for(int e = 0; e < nEns; e++) {
-- 
2.43.0


From fc827893a28f84c6066e65b28ce5d46a43fc68c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 106/171] fix: kriging cross-validation left out the wrong
 station and shared its matrix between gridpoints

---
 src/client/Calibrator/Kriging.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index cbb3816..8af5242 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -293,6 +293,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                continue;
 
             // Don't use the nearest station when cross validating
+            vec2 cvInverse;
             float maxCovar = Util::MV;
             int ImaxCovar = Util::MV;
             if(mCrossValidate) {
@@ -303,14 +304,17 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                   }
                }
                currS[ImaxCovar] = 0;
+               // Index of the station among all stations
+               ImaxCovar = currI[ImaxCovar];
                vec2 cvMatrix = matrix;
-               for(int ii = 0; ii < currN; ii++) {
+               for(int ii = 0; ii < N; ii++) {
                   cvMatrix[ImaxCovar][ii] = 0;
                   cvMatrix[ii][ImaxCovar] = 0;
                }
                cvMatrix[ImaxCovar][ImaxCovar] = 1;
-               inverse = Util::inverse(cvMatrix);
+               cvInverse = Util::inverse(cvMatrix);
             }
+            const vec2& currInverse = mCrossValidate ? cvInverse : inverse;
 
             // Compute weights (matrix-vector product)
             std::vector<float> weights;
@@ -319,7 +323,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                // Only loop over non-zero values in the vector
                for(int jj = 0; jj < currN; jj++) {
                   int JJ = currI[jj];
-                  weights[ii] += inverse[ii][JJ] * currS[jj];
+                  weights[ii] += currInverse[ii][JJ] * currS[jj];
                }
             }
             // Set the weight of the nearest location to 0 when cross-validating
-- 
2.43.0


From a9b4774bfa844deebc712811a826edd1539bd399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 107/171] fix: client oi limited the increments of a member by
 the innovations of other members

---
 src/client/Calibrator/Oi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index a6c3c17..2a8b7ce 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -939,8 +939,8 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                      if(!mExtrapolate) {
                         // Don't allow a final increment that is larger than any increment
                         // at station points
-                        float maxInc = arma::max(lObs - (lY[e] + lYhat));
-                        float minInc = arma::min(lObs - (lY[e] + lYhat));
+                        float maxInc = arma::max(lObs - (lY.col(e) + lYhat));
+                        float minInc = arma::min(lObs - (lY.col(e) + lYhat));
                         if(x == mX && y == mY) {
                            std::cout << "Increments: " << maxInc << " " << minInc << " " << currIncrement << std::endl;
                         }
-- 
2.43.0


From 19079923e9191e38d7d85a80335af45b39153e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 108/171] fix: client oi with a transform used missing
 observations as zeros

---
 src/client/Calibrator/Oi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 2a8b7ce..902d312 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -242,7 +242,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
       }
       Parameters parameters = iParameterFile->getParameters(0, gLocations[i]);
       assert(parameters.size() > 0);
-      gObs[i] = transform(parameters[0]);
+      gObs[i] = Util::isValid(parameters[0]) ? transform(parameters[0]) : Util::MV;
       if(parameters.size() == 2)
          gCi[i] = parameters[1];
       if(parameters.size() == 3)
-- 
2.43.0


From 0388d8ced6111fc9fb1a8e3a11cf166e26399fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 109/171] fix: text parameter files lost a last line without
 newline and everything after a long line

---
 src/client/ParameterFile/Text.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 4c38636..73f1578 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -23,11 +23,10 @@ ParameterFileText::ParameterFileText(const Options& iOptions, bool iIsNew) : Par
    int latPos = Util::MV;
    int lonPos = Util::MV;
    int elevPos = Util::MV;
-   while(ifs.good()) {
-      char line[10000];
-      ifs.getline(line, 10000, '\n');
-      if(ifs.good() && line[0] != '#') {
-         header = std::string(line);
+   std::string line;
+   while(std::getline(ifs, line)) {
+      if(line[0] != '#') {
+         header = line;
          std::stringstream ss(header);
          if(columnNames.size() == 0) {
             int currCounter = 0;
-- 
2.43.0


From 3225580ce396b79369c5ad82557987a3a0dbcfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 110/171] fix: negative times in a text parameter file were
 written outside the parameters

---
 src/client/ParameterFile/Text.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 73f1578..f00560f 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -70,6 +70,9 @@ ParameterFileText::ParameterFileText(const Options& iOptions, bool iIsNew) : Par
                   if(!status) {
                      Util::error("Could not read time from file '" + mFilename + "'");
                   }
+                  if(time < 0) {
+                     Util::error("Negative time in file '" + mFilename + "'");
+                  }
                }
                else if(currCounter == latPos) {
                   bool status = (bool) (ss >> lat);
-- 
2.43.0


From 68ee31a650839d9714beab0ec16f367256620a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 111/171] fix: lines without time or location in a text
 parameter file were used for time 0 or everywhere

---
 src/client/ParameterFile/Text.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index f00560f..9e1cb7e 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -102,6 +102,13 @@ ParameterFileText::ParameterFileText(const Options& iOptions, bool iIsNew) : Par
                }
                currCounter++;
             }
+            // Lines that are too short to contain the time or the location
+            if(currCounter <= timePos || currCounter <= latPos || currCounter <= lonPos || currCounter <= elevPos) {
+               std::stringstream ss;
+               ss << "Parameter file '" + getFilename() + "' is corrupt, because it has lines without"
+                  << " time and/or location" << std::endl;
+               Util::error(ss.str());
+            }
             times.insert(time);
             Location location(Util::MV, Util::MV, Util::MV);
             if(Util::isValid(lat) && Util::isValid(lon) && Util::isValid(elev)) {
-- 
2.43.0


From 3cdb3a0114e23e3d9ed861410fef7bf3edb4d8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 112/171] fix: text parameter files that were written could not
 be read back

---
 src/client/ParameterFile/Text.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 9e1cb7e..b019606 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -189,13 +189,16 @@ void ParameterFileText::write(const std::string& iFilename) const {
 
    std::map<Location, std::vector<Parameters> >::const_iterator it;
    // Loop over times
+   // Enough digits to recover locations and parameters when reading the file
+   ofs.precision(9);
    if(isLocationDependent())
-      ofs << "time lat lon elev" << std::endl;
+      ofs << "time lat lon elev";
    else
-      ofs << "time" << std::endl;
+      ofs << "time";
    for(int i = 0; i < getNumParameters(); i++) {
       ofs << " param" << i;
    }
+   ofs << std::endl;
    for(it = mParameters.begin(); it != mParameters.end(); it++) {
       // Loop over locations
       const Location& location = it->first;
-- 
2.43.0


From 4db1faa6ac32efa1c796e54717300e3f2d958f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 113/171] fix: parameter files without parameters were
 dereferenced

---
 src/client/ParameterFile/ParameterFile.cpp | 12 +++++-------
 src/client/ParameterFile/Text.cpp          |  2 +-
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/client/ParameterFile/ParameterFile.cpp b/src/client/ParameterFile/ParameterFile.cpp
index 1d56324..0cdf2b2 100644
--- a/src/client/ParameterFile/ParameterFile.cpp
+++ b/src/client/ParameterFile/ParameterFile.cpp
@@ -75,12 +75,10 @@ Parameters ParameterFile::getParameters(int iTime) const {
    if(isLocationDependent()) {
       Util::error("Cannot retrieve location-independent parameters for a location-dependent file");
    }
-   // Find the right location to use
-   LocationParameters::const_iterator it;
-   if(mParameters.size() == 1) {
-      // One set of parameters for all locations
-       it = mParameters.begin();
-   }
+   if(mParameters.size() == 0)
+      return Parameters();
+   // One set of parameters for all locations
+   LocationParameters::const_iterator it = mParameters.begin();
 
    // Find the right time to use
    const std::vector<Parameters>& timeParameters = it->second;
@@ -222,7 +220,7 @@ std::vector<int> ParameterFile::getTimes() const {
 
 bool ParameterFile::isLocationDependent() const {
    bool locationDependent = mParameters.size() > 1;
-   if(!locationDependent) {
+   if(mParameters.size() == 1) {
       Location location = mParameters.begin()->first;
       if(Util::isValid(location.lat()) && Util::isValid(location.lon()))
          locationDependent = true;
diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index b019606..d07f729 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -223,7 +223,7 @@ void ParameterFileText::write(const std::string& iFilename) const {
 
 bool ParameterFileText::isLocationDependent() const {
    bool locationDependent = mParameters.size() > 1;
-   if(!locationDependent) {
+   if(mParameters.size() == 1) {
       Location location = mParameters.begin()->first;
       if(Util::isValid(location.lat()) && Util::isValid(location.lon()))
          locationDependent = true;
-- 
2.43.0


From 8c42b7623cb3d79284bd24607393b7bed9fb7a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 114/171] fix: recomputing the tree of a parameter file mixed
 up its locations

---
 src/client/ParameterFile/ParameterFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/ParameterFile/ParameterFile.cpp b/src/client/ParameterFile/ParameterFile.cpp
index 0cdf2b2..22ec8db 100644
--- a/src/client/ParameterFile/ParameterFile.cpp
+++ b/src/client/ParameterFile/ParameterFile.cpp
@@ -21,6 +21,7 @@ ParameterFile::ParameterFile(const Options& iOptions, bool iIsNew) :
 void ParameterFile::recomputeTree() const {
    if(isLocationDependent()) {
       vec2 lats, lons;
+      mLocations.clear();
       LocationParameters::const_iterator it = mParameters.begin();
       for(it = mParameters.begin(); it != mParameters.end(); it++) {
          const Location loc = it->first;
-- 
2.43.0


From 480f603e12e9feffb5f9715959e7ea074147ad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 115/171] fix: parameter files were deleted without their
 destructor

---
 src/client/ParameterFile/ParameterFile.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/ParameterFile/ParameterFile.h b/src/client/ParameterFile/ParameterFile.h
index cf130d3..952a0a8 100644
--- a/src/client/ParameterFile/ParameterFile.h
+++ b/src/client/ParameterFile/ParameterFile.h
@@ -16,6 +16,7 @@
 class ParameterFile : public Scheme {
    public:
       ParameterFile(const Options& iOptions, bool iIsNew=false);
+      virtual ~ParameterFile() {};
 
       //! Get the parameter valid for specified forecast timestep. This is an index, not an hour.
       //! @param iAllowNearestNeighbour Use the nearest neighbour if the location isn't in the set
-- 
2.43.0


From 4a670e957358d60afd352d07d4d0c634a6afb685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 116/171] fix: netcdf parameter files were written with other
 dimension names than requested

---
 src/client/ParameterFile/Netcdf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index ac32be4..c5e291b 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -312,9 +312,9 @@ void ParameterFileNetcdf::write() const {
 
    // Create dimensions
    int dTime = createDim(mFile, "time", nTime);
-   int dLon  = createDim(mFile, "lon", nLon);
-   int dLat  = createDim(mFile, "lat", nLat);
-   int dCoeff = createDim(mFile, "coeff", nCoeff);
+   int dLon  = createDim(mFile, mXDimName == "" ? "lon" : mXDimName, nLon);
+   int dLat  = createDim(mFile, mYDimName == "" ? "lat" : mYDimName, nLat);
+   int dCoeff = createDim(mFile, mDimName, nCoeff);
    int dims[4]  = {dTime, dLat, dLon, dCoeff};
    int var = Util::MV;
    int status = nc_def_var(mFile, mVarName.c_str(), NC_FLOAT, 4, dims, &var);
-- 
2.43.0


From e3beea7f43e7725c832f4ec437c28602631674a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 117/171] fix: netcdf parameter files could not be written when
 the first location had no parameters

---
 src/client/ParameterFile/Netcdf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index c5e291b..caa889e 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -298,8 +298,10 @@ void ParameterFileNetcdf::write() const {
    }
    int nCoeff = 0;
    for(int i = 0; i < times.size(); i++) {
-      Parameters par0 = getParameters(times[i], locations[0], false);
-      nCoeff = std::max(nCoeff, par0.size());
+      for(int j = 0; j < locations.size(); j++) {
+         Parameters par = getParameters(times[i], locations[j], false);
+         nCoeff = std::max(nCoeff, par.size());
+      }
    }
 
    if(nCoeff == 0) {
-- 
2.43.0


From da8872d31b2de6b829f7ff87be6902f9232f8a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 118/171] fix: netcdf parameter files with extra dimensions
 were read outside their arrays

---
 src/client/ParameterFile/Netcdf.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index caa889e..e23f1b8 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -165,7 +165,7 @@ ParameterFileNetcdf::ParameterFileNetcdf(const Options& iOptions, bool iIsNew) :
    std::stringstream ss0;
    ss0 << "Parameter sizes (lat, lon, time, coeff): " << nLat << " " << nLon << " " << nTime << " " << nCoeff;
    Util::info(ss0.str());
-   std::vector<int> indices(4, 0);
+   std::vector<int> indices(ndims, 0);
    for(int i = 0; i < lats.size(); i++) {
       indices[latDimIndex] = i;
       for(int j = 0; j < lats[i].size(); j++) {
@@ -565,12 +565,14 @@ vec2 ParameterFileNetcdf::getGridValues(int iFile, int iVar) const {
    }
    // We have a projected grid, where lat and lons are provided for each grid point
    else {
-      long count[numDims];
+      size_t start[numDims];
+      size_t count[numDims];
       int size = 1;
       int indexLat = Util::MV;
       int indexLon = Util::MV;
       std::vector<int> dims = getDims(iFile, iVar);
       for(int i = 0; i < numDims; i++) {
+         start[i] = 0;
          if(dims[i] == getLatDim(iFile)) {
             count[i] = nLat;
             size *= count[i];
@@ -591,7 +593,8 @@ vec2 ParameterFileNetcdf::getGridValues(int iFile, int iVar) const {
          Util::error(ss.str());
       }
       float* values = new float[size];
-      nc_get_var_float(iFile, iVar, values);
+      int status = nc_get_vara_float(iFile, iVar, start, count, values);
+      handleNetcdfError(status, "could not get latitudes, longitudes or altitudes");
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
             // Latitude dimension is ordered first
-- 
2.43.0


From cc6deaaf93a5e21726233033c68b3b72a5d89d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 119/171] fix: nearest neighbour search missed points when one
 grid has longitudes above 180 and the other below 0

---
 src/client/KDTree.cpp | 22 +++++++++++++++++-----
 src/client/KDTree.h   |  4 ++++
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/client/KDTree.cpp b/src/client/KDTree.cpp
index 0558564..b65ebff 100644
--- a/src/client/KDTree.cpp
+++ b/src/client/KDTree.cpp
@@ -4,23 +4,25 @@
 #include <cmath>
 #include <limits>
 
-KDTree::KDTree() : mRoot(NULL) {
+KDTree::KDTree() : mRoot(NULL), mMinLon(0), mMaxLon(0) {
 }
 
-KDTree::KDTree(const vec2& iLats, const vec2& iLons) {
+KDTree::KDTree(const vec2& iLats, const vec2& iLons) : mMinLon(0), mMaxLon(0) {
    build(iLats, iLons);
 }
 
 KDTree& KDTree::operator=(KDTree other) {
    std::swap(mLats, other.mLats);
    std::swap(mLons, other.mLons);
+   std::swap(mMinLon, other.mMinLon);
+   std::swap(mMaxLon, other.mMaxLon);
 
    mRoot.swap(other.mRoot);
 
    return *this;
 }
 
-KDTree::KDTree(const KDTree& other) {
+KDTree::KDTree(const KDTree& other) : mMinLon(other.mMinLon), mMaxLon(other.mMaxLon) {
    if(other.mRoot != NULL) {
       mLats = other.mLats;
       mLons = other.mLons;
@@ -51,6 +53,8 @@ void KDTree::build(const vec2& iLats, const vec2& iLons) {
         if(Util::isValid(iLons[i][j]) && Util::isValid(iLats[i][j])) {
            *(currLon++) = Indexed(iLons[i][j], iLats[i][j], i, j);
            ++to;
+           mMinLon = to == 0 ? iLons[i][j] : std::min(mMinLon, iLons[i][j]);
+           mMaxLon = to == 0 ? iLons[i][j] : std::max(mMaxLon, iLons[i][j]);
         }
      }
    }
@@ -228,7 +232,7 @@ void KDTree::getNearestNeighbour(const File& iTo, vec2Int& iI, vec2Int& iJ) cons
       for(size_t j = 0; j < nLon; ++j) {
          if(Util::isValid(olats[i][j]) && Util::isValid(olons[i][j])) {
             // Find the nearest neighbour from input grid (ii, jj)
-            nearest = nearestNeighbour(mRoot, olons[i][j], olats[i][j], std::numeric_limits<float>::infinity()).first;
+            nearest = nearestNeighbour(mRoot, wrapLon(olons[i][j]), olats[i][j], std::numeric_limits<float>::infinity()).first;
             iI[i][j] = nearest->ipos;
             iJ[i][j] = nearest->jpos;
          }
@@ -236,8 +240,16 @@ void KDTree::getNearestNeighbour(const File& iTo, vec2Int& iI, vec2Int& iJ) cons
    }
 }
 
+float KDTree::wrapLon(float iLon) const {
+   if(iLon > 180 && mMinLon < 0)
+      return iLon - 360;
+   else if(iLon < 0 && mMaxLon > 180)
+      return iLon + 360;
+   return iLon;
+}
+
 void KDTree::getNearestNeighbour(float iLat, float iLon, int& iI, int& iJ) const {
-   const TreeNode * nearest = nearestNeighbour(mRoot, iLon, iLat, std::numeric_limits<float>::infinity()).first;
+   const TreeNode * nearest = nearestNeighbour(mRoot, wrapLon(iLon), iLat, std::numeric_limits<float>::infinity()).first;
    iI = nearest->ipos;
    iJ = nearest->jpos;
    return;
diff --git a/src/client/KDTree.h b/src/client/KDTree.h
index 1e76fd9..91d9055 100644
--- a/src/client/KDTree.h
+++ b/src/client/KDTree.h
@@ -73,6 +73,10 @@ class KDTree {
       unode mRoot;
       vec2 mLats;
       vec2 mLons;
+      float mMinLon;
+      float mMaxLon;
+      // Express a longitude in the convention (-180 to 180, or 0 to 360) used in the tree
+      float wrapLon(float iLon) const;
 
       friend bool compareLons (const KDTree::Indexed& l, const KDTree::Indexed& r);
       friend bool compareLats (const KDTree::Indexed& l, const KDTree::Indexed& r);
-- 
2.43.0


From c454004ce56c3edd2a5d019729219e52fd4b3ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:38 +0000
Subject: [PATCH 120/171] fix: zaga training aborted when the probability of no
 precipitation became 0

---
 src/client/Calibrator/Zaga.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index 50b765c..52aa12b 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -553,6 +553,8 @@ double CalibratorZaga::my_f(const gsl_vector *v, void *params) {
       // float P0 = Util::invLogit(logit);
       float P0 = getP0(mean[n], frac[n], par);
       if(obs[n] == 0) {
+         if(P0 == 0 || !Util::isValid(P0))
+            P0 = 0.00001;
          assert(P0 > 0);
          total += log(P0);
       }
-- 
2.43.0


From 3b923610110e853635f8e494843c3b3f53fe5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 121/171] fix: undefined conversion of the missing value to an
 unsigned size in FileNetcdf

---
 src/client/File/Netcdf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index f1f6af0..926e69d 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -849,14 +849,16 @@ int FileNetcdf::getDimSize(std::string iDim) const {
    if(!hasDim(iDim))
       return 0;
    int dim = getDim(iDim);
-   size_t len = Util::MV;
+   size_t len = 0;
    int status = nc_inq_dimlen(mFile, dim, &len);
    return len;
 }
 
 int FileNetcdf::getDimSize(int iDim) const {
-   size_t len = Util::MV;
+   size_t len = 0;
    int status = nc_inq_dimlen(mFile, iDim, &len);
+   if(status != NC_NOERR)
+      return Util::MV;
    return len;
 }
 
-- 
2.43.0


From a663cefab431c0079715296d71ff7dbbfaa347d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 122/171] fix: options added after clear counted as used in
 Options::check

---
 src/client/Options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Options.cpp b/src/client/Options.cpp
index 0cdc33a..f0be93c 100644
--- a/src/client/Options.cpp
+++ b/src/client/Options.cpp
@@ -27,6 +27,7 @@ void Options::addOptions(std::string iOptionString) {
 }
 void Options::clear() {
    mPairs.clear();
+   mHasBeenAccessed.clear();
 }
 
 std::string Options::toString() const {
-- 
2.43.0


From 31ae235569d28e62c95c0cc030e24697e2547ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 123/171] fix: the max option of a variable was ignored and set
 to the min option

---
 src/client/Variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Variable.cpp b/src/client/Variable.cpp
index 4de36d6..7529106 100644
--- a/src/client/Variable.cpp
+++ b/src/client/Variable.cpp
@@ -91,7 +91,7 @@ void Variable::add(const Options& iOptions) {
       mMin = min;
    }
    float max;
-   if(iOptions.getValue("min", max)) {
+   if(iOptions.getValue("max", max)) {
       mMax = max;
    }
 }
-- 
2.43.0


From 3655182eac33ffce4064903db31fc9a88d1d34e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 124/171] fix: limits and level were not initialized for a
 variable created without a name

---
 src/client/Variable.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/Variable.cpp b/src/client/Variable.cpp
index 7529106..8dd572e 100644
--- a/src/client/Variable.cpp
+++ b/src/client/Variable.cpp
@@ -2,7 +2,10 @@
 #include <sstream>
 #include "Util.h"
 
-Variable::Variable() {
+Variable::Variable():
+      mMin(Util::MV),
+      mMax(Util::MV),
+      mLevel(Util::MV) {
 }
 Variable::Variable(std::string iName, float iMin, float iMax, std::string iUnits, std::string iStandardName, int iLevel):
       mName(iName),
-- 
2.43.0


From db2994d185c934545560e3fdae24ed79f748474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 125/171] fix: a variable with options and an input variable
 was overwritten by the next -v or -vi

---
 src/client/Setup.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index 6f3edde..c6bbde2 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -192,10 +192,13 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-v") {
             state = NEWVAR;
          }
-         else if(argv[index] == "-vi") {
+         else if(variableInputName == "" && argv[index] == "-vi") {
             index++;
             state = VARI;
          }
+         else if(argv[index] == "-vi") {
+            state = NEWVAR;
+         }
          else if(argv[index] == "-p") {
             errorMessage = "-p must be after a -d or -c";
             state = ERROR;
@@ -264,10 +267,13 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-vi") {
             state = NEWVAR;
          }
-         else if(argv[index] == "-v") {
+         else if(variableName == "" && argv[index] == "-v") {
             state = VAR;
             index++;
          }
+         else if(argv[index] == "-v") {
+            state = NEWVAR;
+         }
          else if(argv[index] == "-p") {
             errorMessage = "-p must be after a -d or -c";
             state = ERROR;
-- 
2.43.0


From 1e3459919a7b9131b996961ea1d02a0147f53fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:10 +0000
Subject: [PATCH 126/171] fix: a second -va was taken as options of the first
 alias

---
 src/client/Setup.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index c6bbde2..f9de610 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -422,6 +422,9 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-vi") {
             state = NEWVARALIAS;
          }
+         else if(argv[index] == "-va") {
+            state = NEWVARALIAS;
+         }
          else {
             aOptions.addOptions(argv[index]);
             index++;
@@ -436,14 +439,14 @@ Setup::Setup(const std::vector<std::string>& argv) {
                Util::error("Variable alias must have a name= option");
             }
             variableAliases[variableAlias] = Variable(aOptions);
-            variableAlias = "";
-            aOptions.clear();
          }
          else {
             std:: stringstream ss;
             ss << "Variable alias '" << variableAlias << "' already read. Using first instance.";
             Util::warning(ss.str());
          }
+         variableAlias = "";
+         aOptions.clear();
          if(argv.size() <= index) {
             state = END;
          }
@@ -455,6 +458,10 @@ Setup::Setup(const std::vector<std::string>& argv) {
             state = VARI;
             index++;
          }
+         else if(argv[index] == "-va"){
+            state = VARALIAS;
+            index++;
+         }
       }
       else if(state == DOWN) {
          if(argv.size() <= index) {
-- 
2.43.0


From 503ba986b66b16dc133b470770464e97863b1fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:10 +0000
Subject: [PATCH 127/171] fix: a second -d after downscaler options was taken
 as an option, and the options of the first downscaler were used for the
 second

---
 src/client/Setup.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index f9de610..5f607cf 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -471,6 +471,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
          }
          else {
             downscaler = argv[index];
+            dOptions.clear();
             index++;
             if(argv.size() <= index) {
                state = NEWVAR;
@@ -512,6 +513,11 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-vi") {
             state = NEWVAR;
          }
+         else if(argv[index] == "-d") {
+            // Two downscalers defined for one variable
+            state = DOWN;
+            index++;
+         }
          else if(argv[index] == "-p") {
             state = PARDOWN;
          }
-- 
2.43.0


From b4daa533631c2efbbf8c26da7cd6fced71b00e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 128/171] fix: options of a calibrator's parameter file were
 also used for later parameter files, and the file name was taken as an option

---
 src/client/Setup.cpp | 33 ++++++---------------------------
 1 file changed, 6 insertions(+), 27 deletions(-)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index 5f607cf..db3bc58 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -615,6 +615,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
             }
             else if(argv[index] == "-p") {
                state = PARCAL;
+               index++;
             }
             else {
                state = CALOPT;
@@ -639,6 +640,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
          }
          else if(argv[index] == "-p") {
             state = PARCAL;
+            index++;
          }
          else {
             // Process calibrator options
@@ -654,33 +656,8 @@ Setup::Setup(const std::vector<std::string>& argv) {
          }
          else {
             parameterFile = argv[index];
-            if(argv.size() <= index) {
-               state = NEWCAL;
-               index++;
-            }
-            else if(argv[index] == "-v") {
-               state = NEWCAL;
-               index++;
-            }
-            else if(argv[index] == "-vi") {
-               state = NEWCAL;
-               index++;
-            }
-            else if(argv[index] == "-c") {
-               state = NEWCAL;
-               index++;
-            }
-            else if(argv[index] == "-d") {
-               state = NEWCAL;
-               index++;
-            }
-            else if(argv[index] == "-p") {
-               state = PARCAL;
-               index++;
-            }
-            else {
-               state = PAROPTCAL;
-            }
+            index++;
+            state = PAROPTCAL;
          }
       }
       else if(state == PAROPTCAL) {
@@ -701,6 +678,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
          }
          else if(argv[index] == "-p") {
             state = PARCAL;
+            index++;
          }
          else {
             // Process calibrator options
@@ -737,6 +715,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
             calibrator = "";
             cOpt.clear();
             parameterFile = "";
+            pOptions.clear();
             if(argv.size() <= index) {
                state = NEWVAR;
             }
-- 
2.43.0


From 8395960d5de86bc7561a1798f133f8e29b898e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 129/171] fix: the parameter file of a downscaler was not read,
 and was used for the next calibrator instead

---
 src/client/Setup.cpp | 82 ++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 34 deletions(-)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index db3bc58..65c2889 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -87,7 +87,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
    }
 
    // Implement a finite state machine
-   enum State {START = 0, VAR = 1, VAROPT = 2, NEWVAR = 3, VARI = 4, VARIOPT = 5, VARALIAS = 6, VARALIASOPT = 7, NEWVARALIAS = 8, DOWN = 10, DOWNOPT = 15, CAL = 20, NEWCAL = 22, CALOPT = 25, PARDOWN = 30, PAROPTDOWN = 35, PARCAL = 40, PAROPTCAL = 45, END = 90, ERROR = 100};
+   enum State {START = 0, VAR = 1, VAROPT = 2, NEWVAR = 3, VARI = 4, VARIOPT = 5, VARALIAS = 6, VARALIASOPT = 7, NEWVARALIAS = 8, DOWN = 10, DOWNOPT = 15, CAL = 20, NEWCAL = 22, CALOPT = 25, PARDOWN = 30, PAROPTDOWN = 35, NEWPARDOWN = 37, PARCAL = 40, PAROPTCAL = 45, END = 90, ERROR = 100};
    State state = START;
    State prevState = START;
 
@@ -472,6 +472,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else {
             downscaler = argv[index];
             dOptions.clear();
+            parameterFileDownscaler = NULL;
             index++;
             if(argv.size() <= index) {
                state = NEWVAR;
@@ -493,6 +494,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
             }
             else if(argv[index] == "-p") {
                state = PARDOWN;
+               index++;
             }
             else {
                state = DOWNOPT;
@@ -520,6 +522,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
          }
          else if(argv[index] == "-p") {
             state = PARDOWN;
+            index++;
          }
          else {
             // Process downscaler options
@@ -536,51 +539,27 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else {
             parameterFile = argv[index];
             index++;
-            if(argv.size() <= index) {
-               state = NEWVAR;
-            }
-            else if(argv[index] == "-c") {
-               state = CAL;
-               index++;
-            }
-            else if(argv[index] == "-v") {
-               state = NEWVAR;
-            }
-            else if(argv[index] == "-vi") {
-               state = NEWVAR;
-            }
-            else if(argv[index] == "-d") {
-               // Two downscalers defined for one variable
-               state = DOWN;
-               index++;
-            }
-            else if(argv[index] == "-p") {
-               // Two parameter files defined for one variable
-               errorMessage = "Two or more -p used for one downscaler";
-               state = ERROR;
-               index++;
-            }
-            else {
-               state = PAROPTDOWN;
-            }
+            state = PAROPTDOWN;
          }
       }
       else if(state == PAROPTDOWN) {
          if(argv.size() <= index) {
-            state = NEWVAR;
+            state = NEWPARDOWN;
          }
          else if(argv[index] == "-c") {
-            state = CAL;
-            index++;
+            state = NEWPARDOWN;
          }
          else if(argv[index] == "-v") {
-            state = NEWVAR;
+            state = NEWPARDOWN;
          }
          else if(argv[index] == "-vi") {
-            state = NEWVAR;
+            state = NEWPARDOWN;
+         }
+         else if(argv[index] == "-d") {
+            state = NEWPARDOWN;
          }
          else if(argv[index] == "-p") {
-            errorMessage = "Two or more -p used for one calibrator";
+            errorMessage = "Two or more -p used for one downscaler";
             state = ERROR;
          }
          else {
@@ -589,6 +568,41 @@ Setup::Setup(const std::vector<std::string>& argv) {
             index++;
          }
       }
+      else if(state == NEWPARDOWN) {
+         std::string schemeName;
+         if(!pOptions.getValue("type", schemeName)) {
+            state = ERROR;
+            errorMessage = "Parameter file missing 'type': " + pOptions.toString();
+         }
+         else {
+            pOptions.addOption("file", parameterFile);
+            parameterFileDownscaler = ParameterFile::getScheme(schemeName, pOptions);
+            if(!parameterFileDownscaler->isReadable()) {
+               state = ERROR;
+               errorMessage = "Could not open parameter file: " + pOptions.toString();
+            }
+         }
+         if(state != ERROR) {
+            // Reset
+            parameterFile = "";
+            pOptions.clear();
+            if(argv.size() <= index) {
+               state = NEWVAR;
+            }
+            else if(argv[index] == "-c") {
+               state = CAL;
+               index++;
+            }
+            else if(argv[index] == "-d") {
+               // Two downscalers defined for one variable
+               state = DOWN;
+               index++;
+            }
+            else {
+               state = NEWVAR;
+            }
+         }
+      }
       else if(state == CAL) {
          if(argv.size() <= index) {
             // -c but nothing after it
-- 
2.43.0


From 7e69b2b11bfd8e8732f318b9484685cc8ac543de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 130/171] fix: missing values were not recognised or written
 for integer variables and for fill values NaN and -999

---
 src/client/File/Netcdf.cpp | 53 ++++++++++++++++++++++++++------------
 src/client/File/Netcdf.h   |  2 +-
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 926e69d..9d9aaa4 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -292,7 +292,7 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
    float* values = new float[size];
    nc_get_vara_float(mFile, var, start, count, values);
 
-   float MV = getMissingValue(var);
+   float MV = (float) getMissingValue(var);
    float offset = getOffset(var);
    float scale = getScale(var);
 
@@ -319,7 +319,7 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
                indices[xPos] = x;
             int i = getIndex(countVector, indices);
             float value = values[i];
-            if(Util::isValid(MV) && value == MV) {
+            if(value == MV) {
                // Field has missing value indicator and the value is missing
                // Save values using our own internal missing value indicator
                value = Util::MV;
@@ -438,9 +438,9 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
       std::string variableName = variable.name();
       assert(hasVariableCore(variable));
       int var = getVar(variableName);
-      float MV = getMissingValue(var); // The output file's missing value indicator
+      double MV = getMissingValue(var); // The output file's missing value indicator
       size_t size = 1*1*mNEns*getNumY()*getNumX();
-      float* values = new float[size];
+      double* values = new double[size];
 
       std::vector<int> dims = getDims(var);
       size_t count[dims.size()];
@@ -501,8 +501,8 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
                      if(Util::isValid(xPos))
                         indices[xPos] = x;
                      int i = getIndex(countVector, indices);
-                     float value = (*field)(y, x, e);
-                     if(Util::isValid(MV) && !Util::isValid(value)) {
+                     double value = (*field)(y, x, e);
+                     if(!Util::isValid(value)) {
                         // Field has missing value indicator and the value is missing
                         // Save values using the file's missing indicator value
                         value = MV;
@@ -514,7 +514,7 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
                   }
                }
             }
-            int status = nc_put_vara_float(mFile, var, start, count, values);
+            int status = nc_put_vara_double(mFile, var, start, count, values);
             handleNetcdfError(status, "could not write variable " + variableName);
          }
       }
@@ -791,12 +791,12 @@ void FileNetcdf::writeAltitude() const {
       }
       start[i] = 0;
    }
-   float MV = getMissingValue(vElev);
-   float* values = new float[size];
+   double MV = getMissingValue(vElev);
+   double* values = new double[size];
    for(int i = 0; i < getNumY(); i++) {
       for(int j = 0; j < getNumX(); j++) {
-         float elev = elevs[i][j];
-         if(Util::isValid(MV) && !Util::isValid(elev))
+         double elev = elevs[i][j];
+         if(!Util::isValid(elev))
             elev = MV;
          // Latitude dimension is ordered first
          if(indexY < indexX) {
@@ -808,7 +808,7 @@ void FileNetcdf::writeAltitude() const {
          }
       }
    }
-   int status = nc_put_vara_float(mFile, vElev, start, count, values);
+   int status = nc_put_vara_double(mFile, vElev, start, count, values);
    handleNetcdfError(status, "could not write altitude");
    delete[] values;
 }
@@ -920,11 +920,30 @@ std::vector<int> FileNetcdf::getDims(int iVar) const {
    }
    return dims;
 }
-float FileNetcdf::getMissingValue(int iVar) const {
-   float fillValue;
-   int status = nc_get_att_float(mFile, iVar, "_FillValue", &fillValue);
-   if(status != NC_NOERR)
-      fillValue  = NC_FILL_FLOAT;
+double FileNetcdf::getMissingValue(int iVar) const {
+   double fillValue;
+   int status = nc_get_att_double(mFile, iVar, "_FillValue", &fillValue);
+   if(status != NC_NOERR) {
+      // The default fill value depends on the type of the variable
+      nc_type type = NC_FLOAT;
+      nc_inq_vartype(mFile, iVar, &type);
+      if(type == NC_BYTE)
+         fillValue = NC_FILL_BYTE;
+      else if(type == NC_UBYTE)
+         fillValue = NC_FILL_UBYTE;
+      else if(type == NC_SHORT)
+         fillValue = NC_FILL_SHORT;
+      else if(type == NC_USHORT)
+         fillValue = NC_FILL_USHORT;
+      else if(type == NC_INT)
+         fillValue = NC_FILL_INT;
+      else if(type == NC_UINT)
+         fillValue = NC_FILL_UINT;
+      else if(type == NC_INT64)
+         fillValue = NC_FILL_INT64;
+      else
+         fillValue = NC_FILL_FLOAT;
+   }
    return fillValue;
 }
 void FileNetcdf::setMissingValue(int iVar, float iValue) const {
diff --git a/src/client/File/Netcdf.h b/src/client/File/Netcdf.h
index dc37d73..76c8320 100644
--- a/src/client/File/Netcdf.h
+++ b/src/client/File/Netcdf.h
@@ -89,7 +89,7 @@ class FileNetcdf : public File {
       void startDefineMode() const;
       void startDataMode() const;
       mutable bool mInDataMode;
-      float getMissingValue(int iVar) const;
+      double getMissingValue(int iVar) const;
       void  setMissingValue(int iVar, float iValue) const;
       //! Convert linear index 'i' to vector 'iInidices'. 'iCount' specifies the size of the data
       //! Using row-major ordering (last index varies fastest)
-- 
2.43.0


From fff2a5fc34c948ac42195200b3cd20ac3146bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 131/171] fix: values were truncated instead of rounded when
 written to integer variables

---
 src/client/File/Netcdf.cpp | 13 +++++++++++++
 src/client/File/Netcdf.h   |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 9d9aaa4..f07054e 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -477,6 +477,7 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
 
          float offset = getOffset(var);
          float scale = getScale(var);
+         bool isInt = isInteger(var);
          FieldPtr field = getField(variable, t);
          if(field != NULL) { // TODO: Can't be null if coming from reference
             std::vector<int> countVector(count, count + dims.size());
@@ -509,6 +510,9 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
                      }
                      else {
                         value = (value - offset)/scale;
+                        // Integers are otherwise truncated
+                        if(isInt)
+                           value = floor(value + 0.5);
                      }
                      values[i] = value;
                   }
@@ -792,12 +796,15 @@ void FileNetcdf::writeAltitude() const {
       start[i] = 0;
    }
    double MV = getMissingValue(vElev);
+   bool isInt = isInteger(vElev);
    double* values = new double[size];
    for(int i = 0; i < getNumY(); i++) {
       for(int j = 0; j < getNumX(); j++) {
          double elev = elevs[i][j];
          if(!Util::isValid(elev))
             elev = MV;
+         else if(isInt)
+            elev = floor(elev + 0.5);
          // Latitude dimension is ordered first
          if(indexY < indexX) {
             values[i*getNumX() + j] = elev;
@@ -974,6 +981,12 @@ float FileNetcdf::getOffset(int iVar) const {
    return offset;
 }
 
+bool FileNetcdf::isInteger(int iVar) const {
+   nc_type type = NC_FLOAT;
+   nc_inq_vartype(mFile, iVar, &type);
+   return type != NC_FLOAT && type != NC_DOUBLE;
+}
+
 int FileNetcdf::getIndex(const std::vector<int>& iCount, const std::vector<int>& iIndices) const {
    int numDims = iCount.size();
    int index = 0;
diff --git a/src/client/File/Netcdf.h b/src/client/File/Netcdf.h
index 76c8320..e936277 100644
--- a/src/client/File/Netcdf.h
+++ b/src/client/File/Netcdf.h
@@ -48,6 +48,8 @@ class FileNetcdf : public File {
    protected:
       float getScale(int iVar) const;
       float getOffset(int iVar) const;
+      //! Is this a variable that stores integers?
+      bool isInteger(int iVar) const;
       void writeCore(std::vector<Variable> iVariables, std::string iMessage="");
       FieldPtr getFieldCore(const Variable& iVariable, int iTime) const;
       bool hasVariableCore(const Variable& iVariable) const;
-- 
2.43.0


From 2015541a439d60ae02f86890908e7a864d97d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 132/171] fix: fields with another number of members than the
 netcdf file were read and written outside their arrays

---
 src/client/File/Netcdf.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index f07054e..02ff315 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -301,6 +301,9 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
    int nEns = 1;
    if(Util::isValid(ensPos))
       nEns = count[ensPos];
+   // The number of members can have been set to something else than what the file has
+   if(nEns > field->getNumEns())
+      nEns = field->getNumEns();
    int nY = 1;
    if(Util::isValid(yPos))
       nY = count[yPos];
@@ -439,9 +442,6 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
       assert(hasVariableCore(variable));
       int var = getVar(variableName);
       double MV = getMissingValue(var); // The output file's missing value indicator
-      size_t size = 1*1*mNEns*getNumY()*getNumX();
-      double* values = new double[size];
-
       std::vector<int> dims = getDims(var);
       size_t count[dims.size()];
       int ensPos = Util::MV;
@@ -468,6 +468,12 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
          }
       }
 
+      size_t size = 1;
+      for(int d = 0; d < dims.size(); d++) {
+         size *= count[d];
+      }
+      double* values = new double[size];
+
       for(int t = 0; t < getNumTime(); t++) {
          size_t start[dims.size()];
          for(int d = 0; d < dims.size(); d++)
@@ -502,7 +508,10 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
                      if(Util::isValid(xPos))
                         indices[xPos] = x;
                      int i = getIndex(countVector, indices);
-                     double value = (*field)(y, x, e);
+                     // Members that the field does not have are missing
+                     double value = Util::MV;
+                     if(e < field->getNumEns())
+                        value = (*field)(y, x, e);
                      if(!Util::isValid(value)) {
                         // Field has missing value indicator and the value is missing
                         // Save values using the file's missing indicator value
-- 
2.43.0


From cb988c1ad6ed8630d2343c725c668cacb382c2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 133/171] fix: uninitialized values were used when a variable
 could not be read, or for times that the netcdf file does not have

---
 src/client/File/Netcdf.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 02ff315..1854f92 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -244,6 +244,9 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
       count[d] = 1;
       start[d] = 0;
       if(dim == mTimeDim) {
+         // The file does not (yet) have this time
+         if(iTime >= getDimSize(dim))
+            return getEmptyField();
          start[d] = iTime;
       }
       else if(dim == mEnsDim) {
@@ -290,7 +293,8 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
       size *= count[d];
    }
    float* values = new float[size];
-   nc_get_vara_float(mFile, var, start, count, values);
+   int status = nc_get_vara_float(mFile, var, start, count, values);
+   handleNetcdfError(status, "could not read variable '" + variableName + "'");
 
    float MV = (float) getMissingValue(var);
    float offset = getOffset(var);
-- 
2.43.0


From 60a0846013842caf7d4f968fda83e69faed659e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 134/171] fix: netcdf attributes scale_factor and add_offset
 with several values were read outside their variable

---
 src/client/File/Netcdf.cpp | 25 +++++++++++++++----------
 src/client/File/Netcdf.h   |  2 ++
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 1854f92..95b3dd9 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -980,18 +980,23 @@ void FileNetcdf::setMissingValue(int iVar, float iValue) const {
 }
 
 float FileNetcdf::getScale(int iVar) const {
-   float scale;
-   int status = nc_get_att_float(mFile, iVar, "scale_factor", &scale);
-   if(status != NC_NOERR)
-      scale  = 1;
-   return scale;
+   return getNumber(iVar, "scale_factor", 1);
 }
 float FileNetcdf::getOffset(int iVar) const {
-   float offset;
-   int status = nc_get_att_float(mFile, iVar, "add_offset", &offset);
-   if(status != NC_NOERR)
-      offset  = 0;
-   return offset;
+   return getNumber(iVar, "add_offset", 0);
+}
+double FileNetcdf::getNumber(int iVar, std::string iName, double iDefault) const {
+   double value = iDefault;
+   size_t len = 0;
+   int status = nc_inq_attlen(mFile, iVar, iName.c_str(), &len);
+   if(status == NC_NOERR) {
+      if(len != 1)
+         Util::error("Attribute '" + iName + "' of variable '" + getVarName(iVar) + "' in '" + getFilename() + "' must have exactly one value");
+      status = nc_get_att_double(mFile, iVar, iName.c_str(), &value);
+      if(status != NC_NOERR)
+         value = iDefault;
+   }
+   return value;
 }
 
 bool FileNetcdf::isInteger(int iVar) const {
diff --git a/src/client/File/Netcdf.h b/src/client/File/Netcdf.h
index e936277..93fcbed 100644
--- a/src/client/File/Netcdf.h
+++ b/src/client/File/Netcdf.h
@@ -48,6 +48,8 @@ class FileNetcdf : public File {
    protected:
       float getScale(int iVar) const;
       float getOffset(int iVar) const;
+      //! Get numeric attribute, or the default value if the attribute does not exist
+      double getNumber(int iVar, std::string iName, double iDefault) const;
       //! Is this a variable that stores integers?
       bool isInteger(int iVar) const;
       void writeCore(std::vector<Variable> iVariables, std::string iMessage="");
-- 
2.43.0


From c106d1152ca9bb4886dbd319f4dbb29c1880ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 135/171] fix: netcdf files with attributes stored as strings
 or numbers could not be opened, and long attributes overflowed the stack

---
 src/client/File/Netcdf.cpp | 72 +++++++++++++-------------------------
 1 file changed, 25 insertions(+), 47 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 95b3dd9..28aa58f 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -1058,11 +1058,7 @@ void FileNetcdf::appendGlobalAttribute(std::string iName, std::string iValue) {
          Util::warning(ss0.str());
       }
       else {
-         char value[len+1];
-         status = nc_get_att_text(mFile, NC_GLOBAL, iName.c_str(), value);
-         handleNetcdfError(status, "could not append global attribute");
-         value[len] = '\0';
-         ss << value << "\n";
+         ss << getGlobalAttribute(iName) << "\n";
       }
       ss << iValue;
       setGlobalAttribute(iName, ss.str());
@@ -1088,11 +1084,7 @@ void FileNetcdf::prependGlobalAttribute(std::string iName, std::string iValue) {
          Util::warning(ss0.str());
       }
       else {
-         char value[len+1];
-         status = nc_get_att_text(mFile, NC_GLOBAL, iName.c_str(), value);
-         handleNetcdfError(status, "could not get attribute when prepending a new value");
-         value[len] = '\0';
-         ss << "\n" << value;
+         ss << "\n" << getGlobalAttribute(iName);
       }
       setGlobalAttribute(iName, ss.str());
    }
@@ -1108,58 +1100,44 @@ std::string FileNetcdf::getAttribute(std::string iVariable, std::string iName) {
 
 std::string FileNetcdf::getAttribute(int iVar, std::string iName) {
    std::string ret = "";
-   int id;
-   int status = nc_inq_attid(mFile, iVar, iName.c_str(), &id);
+   nc_type type;
+   size_t len;
+   int status = nc_inq_att(mFile, iVar, iName.c_str(), &type, &len);
    if(status == NC_NOERR) {
-      size_t len;
-      int status = nc_inq_attlen(mFile, iVar, iName.c_str(), &len);
-      handleNetcdfError(status, "could not determine attribute length");
-
       if(len > mMaxAttributeLength) {
          std::stringstream ss;
          ss << "Cannot get attribute with length greater than " << mMaxAttributeLength;
          Util::warning(ss.str());
       }
-      else {
-         char* value = new char[len+1];
-         status = nc_get_att_text(mFile, iVar, iName.c_str(), value);
+      else if(type == NC_CHAR) {
+         std::vector<char> value(len+1, '\0');
+         status = nc_get_att_text(mFile, iVar, iName.c_str(), &value[0]);
          handleNetcdfError(status, "could not get attribute");
-         value[len] = '\0';
-         if(status == NC_NOERR)
-            ret = std::string(value);
-         delete[] value;
+         ret = std::string(&value[0]);
       }
-   }
-   return ret;
-}
-
-std::string FileNetcdf::getGlobalAttribute(std::string iName) {
-   std::string ret = "";
-   int id;
-   int status = nc_inq_attid(mFile, NC_GLOBAL, iName.c_str(), &id);
-   if(status == NC_NOERR) {
-      size_t len;
-      int status = nc_inq_attlen(mFile, NC_GLOBAL, iName.c_str(), &len);
-      handleNetcdfError(status, "could not determine global attribute length");
-
-      if(len > mMaxAttributeLength) {
-         std::stringstream ss;
-         ss << "Cannot get attribute with length greater than " << mMaxAttributeLength;
-         Util::warning(ss.str());
+      else if(type == NC_STRING && len > 0) {
+         std::vector<char*> values(len, (char*) NULL);
+         status = nc_get_att_string(mFile, iVar, iName.c_str(), &values[0]);
+         handleNetcdfError(status, "could not get attribute");
+         for(int i = 0; i < len; i++) {
+            if(i > 0)
+               ret += "\n";
+            if(values[i] != NULL)
+               ret += values[i];
+         }
+         nc_free_string(len, &values[0]);
       }
       else {
-         char* value = new char[len+1];
-         status = nc_get_att_text(mFile, NC_GLOBAL, iName.c_str(), value);
-         handleNetcdfError(status, "could not get global attribute");
-         value[len] = '\0';
-         if(status == NC_NOERR)
-            ret = std::string(value);
-         delete[] value;
+         Util::warning("Attribute '" + iName + "' in '" + getFilename() + "' is not text. Not used.");
       }
    }
    return ret;
 }
 
+std::string FileNetcdf::getGlobalAttribute(std::string iName) {
+   return getAttribute(NC_GLOBAL, iName);
+}
+
 void FileNetcdf::defineTimes() {
    if(!hasVar("time")) {
       if(Util::isValid(mTimeDim)) {
-- 
2.43.0


From 9704e50ad46c00c7ddb4b28f39d49b8dce82be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 136/171] fix: the Conventions attribute was overwritten when
 it existed, and not set when it did not

---
 src/client/File/Netcdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 28aa58f..31fa606 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -1208,7 +1208,7 @@ void FileNetcdf::writeReferenceTime() {
    handleNetcdfError(status, "could not write reference time");
 }
 void FileNetcdf::defineGlobalAttributes(std::string iMessage) {
-   if(getGlobalAttribute("Conventions") != "")
+   if(getGlobalAttribute("Conventions") == "")
       setGlobalAttribute("Conventions", "CF-1.0");
    std::stringstream ss;
    ss << Util::getCurrentTimeStamp() << ": gridpp " << iMessage;
-- 
2.43.0


From e53882e55c88d1300ed0af84d5f9b70142f98866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 137/171] fix: scale_factor, add_offset and missing values were
 not used for latitudes, longitudes, altitudes and land area fractions

---
 src/client/File/Netcdf.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 31fa606..666055a 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -810,14 +810,19 @@ void FileNetcdf::writeAltitude() const {
    }
    double MV = getMissingValue(vElev);
    bool isInt = isInteger(vElev);
+   float offset = getOffset(vElev);
+   float scale = getScale(vElev);
    double* values = new double[size];
    for(int i = 0; i < getNumY(); i++) {
       for(int j = 0; j < getNumX(); j++) {
          double elev = elevs[i][j];
          if(!Util::isValid(elev))
             elev = MV;
-         else if(isInt)
-            elev = floor(elev + 0.5);
+         else {
+            elev = (elev - offset)/scale;
+            if(isInt)
+               elev = floor(elev + 0.5);
+         }
          // Latitude dimension is ordered first
          if(indexY < indexX) {
             values[i*getNumX() + j] = elev;
@@ -1229,7 +1234,9 @@ bool FileNetcdf::hasVariableCore(const Variable& iVariable) const {
    return status == NC_NOERR;
 }
 vec2 FileNetcdf::getLatLonVariable(int iVar) const {
-   float MV = getMissingValue(iVar);
+   float MV = (float) getMissingValue(iVar);
+   float offset = getOffset(iVar);
+   float scale = getScale(iVar);
    std::vector<int> dims = getDims(iVar);
    // Initialize grid
    vec2 grid;
@@ -1268,6 +1275,10 @@ vec2 FileNetcdf::getLatLonVariable(int iVar) const {
                value = values[j];
             else
                value = values[i];
+            if(value == MV)
+               value = Util::MV;
+            else
+               value = scale*value + offset;
             grid[i][j] = value;
          }
       }
@@ -1316,6 +1327,8 @@ vec2 FileNetcdf::getLatLonVariable(int iVar) const {
             float value = values[index];
             if(values[index] == MV)
                value = Util::MV;
+            else
+               value = scale*value + offset;
             grid[i][j] = value;
             assert(index < numX*numY);
          }
-- 
2.43.0


From 772ff7b7457498cd039a9b6b6de905339779b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 138/171] fix: time variables that do not have the time
 dimension were read outside their array

---
 src/client/File/Netcdf.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 666055a..fed335b 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -167,22 +167,22 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
 
    if(Util::isValid(mTimeVar)) {
       int size = getDimSize(mTimeDim);
-      if(size == 0) {
-
-      }
-      else if(Util::isValid(size)) {
-         double* times = new double[size];
-         int status = nc_get_var_double(mFile, mTimeVar, times);
+      // Time can be a scalar
+      int numTimes = Util::isValid(size) ? size : 1;
+      std::vector<int> timeDims = getDims(mTimeVar);
+      size_t varSize = 1;
+      for(int d = 0; d < timeDims.size(); d++)
+         varSize *= getDimSize(timeDims[d]);
+      if(numTimes > 0) {
+         if(varSize != numTimes) {
+            std::stringstream ss;
+            ss << "The time variable in " << getFilename() << " has " << varSize << " values, but there are "
+               << numTimes << " times. Does the variable have the time dimension?";
+            Util::error(ss.str());
+         }
+         std::vector<double> times(numTimes, Util::MV);
+         int status = nc_get_var_double(mFile, mTimeVar, &times[0]);
          handleNetcdfError(status, "could not get times");
-         setTimes(std::vector<double>(times, times+size));
-         delete[] times;
-      }
-      else {
-         // Time is a scalar
-         double time = Util::MV;
-         int status = nc_get_var_double(mFile, mTimeVar, &time);
-         handleNetcdfError(status, "could not get time");
-         std::vector<double> times(1, time);
          setTimes(times);
       }
       if(size > 0 && !Util::isValid(getReferenceTime())) {
-- 
2.43.0


From 8ddc224ff52297e155de0a816d24f2cb0a67c9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 139/171] fix: missing times and reference times in netcdf
 files were used as times

---
 src/client/File/Netcdf.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index fed335b..3ed5af6 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -162,6 +162,8 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
       }
       int status = nc_get_var_double(mFile, vReferenceTime, &referenceTime);
       handleNetcdfError(status, "could not get reference time");
+      if(referenceTime == getMissingValue(vReferenceTime))
+         referenceTime = Util::MV;
       setReferenceTime(referenceTime);
    }
 
@@ -183,6 +185,11 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
          std::vector<double> times(numTimes, Util::MV);
          int status = nc_get_var_double(mFile, mTimeVar, &times[0]);
          handleNetcdfError(status, "could not get times");
+         double MV = getMissingValue(mTimeVar);
+         for(int t = 0; t < times.size(); t++) {
+            if(times[t] == MV)
+               times[t] = Util::MV;
+         }
          setTimes(times);
       }
       if(size > 0 && !Util::isValid(getReferenceTime())) {
@@ -1178,12 +1185,12 @@ void FileNetcdf::writeTimes() {
       times = std::vector<double>(getNumTime(), Util::MV);
    }
 
+   int vTime = getVar("time");
    // Convert missing
    for(int i = 0; i < times.size(); i++) {
       if(!Util::isValid(times[i]))
-         times[i] = NC_FILL_FLOAT;
+         times[i] = getMissingValue(vTime);
    }
-   int vTime = getVar("time");
    double timesArr[getNumTime()];
    for(int t = 0; t < getNumTime(); t++) {
       timesArr[t] = times[t];
@@ -1208,7 +1215,7 @@ void FileNetcdf::writeReferenceTime() {
    int vTime = getVar("forecast_reference_time");
    double referenceTime = getReferenceTime();
    if(!Util::isValid(referenceTime))
-      referenceTime = NC_FILL_DOUBLE;
+      referenceTime = getMissingValue(vTime);
    int status = nc_put_var_double(mFile, vTime, &referenceTime);
    handleNetcdfError(status, "could not write reference time");
 }
-- 
2.43.0


From 06b541b4837301a888da7bb1dd3c524166ad4f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 140/171] fix: times were not written to the variable given by
 the timeVar option

---
 src/client/File/Netcdf.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 3ed5af6..3c4bb8b 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -1151,10 +1151,9 @@ std::string FileNetcdf::getGlobalAttribute(std::string iName) {
 }
 
 void FileNetcdf::defineTimes() {
-   if(!hasVar("time")) {
+   if(!Util::isValid(mTimeVar)) {
       if(Util::isValid(mTimeDim)) {
-         int id;
-         int status = nc_def_var(mFile, "time", NC_DOUBLE, 1, &mTimeDim, &id);
+         int status = nc_def_var(mFile, "time", NC_DOUBLE, 1, &mTimeDim, &mTimeVar);
          handleNetcdfError(status, "creating time variable");
       }
       else {
@@ -1164,7 +1163,7 @@ void FileNetcdf::defineTimes() {
          handleNetcdfError(status, "creating time variable");
       }
    }
-   int vTime = getVar("time");
+   int vTime = mTimeVar;
    setAttribute(vTime, "long_name", "time");
    setAttribute(vTime, "standard_name", "time");
    setAttribute(vTime, "units", "seconds since 1970-01-01 00:00:00 +00:00");
@@ -1185,7 +1184,7 @@ void FileNetcdf::writeTimes() {
       times = std::vector<double>(getNumTime(), Util::MV);
    }
 
-   int vTime = getVar("time");
+   int vTime = mTimeVar;
    // Convert missing
    for(int i = 0; i < times.size(); i++) {
       if(!Util::isValid(times[i]))
-- 
2.43.0


From 29836b22b4bbfe8186ea9eda3d8bfc497151e1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 141/171] fix: only the last time was stored when writing
 several times to a netcdf file without time dimension

---
 src/client/File/Netcdf.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 3c4bb8b..e13579e 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -378,6 +378,11 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
 }
 
 void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessage) {
+   if(Util::isValid(mTimeVar) && !Util::isValid(mTimeDim) && getNumTime() > 1) {
+      std::stringstream ss;
+      ss << "Cannot write " << getNumTime() << " times to " << getFilename() << ", which does not have a time dimension";
+      Util::error(ss.str());
+   }
    startDefineMode();
 
    // check if altitudes are valid
-- 
2.43.0


From fc42ae4dfde426d2e9d19495c781cde33c4b6e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 142/171] fix: variables at different levels were taken as the
 same variable

---
 src/client/Variable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/Variable.cpp b/src/client/Variable.cpp
index 8dd572e..8b6ec4f 100644
--- a/src/client/Variable.cpp
+++ b/src/client/Variable.cpp
@@ -100,9 +100,11 @@ void Variable::add(const Options& iOptions) {
 }
 
 bool Variable::operator<(const Variable &right) const {
+   if(mName == right.name())
+      return level() < right.level();
    return mName < right.name();
 }
 
 bool Variable::operator==(const Variable &right) const {
-   return mName == right.name();
+   return mName == right.name() && level() == right.level();
 }
-- 
2.43.0


From 01048589dfc2ca1e4d2c08954c1c1dfe194348d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 143/171] fix: files and variables without values were read
 outside their arrays

---
 src/client/File/File.cpp   | 12 ++++++------
 src/client/File/Netcdf.cpp | 22 +++++++++++-----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/client/File/File.cpp b/src/client/File/File.cpp
index 83c59f1..f962223 100644
--- a/src/client/File/File.cpp
+++ b/src/client/File/File.cpp
@@ -221,7 +221,7 @@ Uuid File::getUniqueTag() const {
 }
 bool File::setLats(vec2 iLats) {
    bool uninitialized = mLats.size() == 0;
-   if(!uninitialized && (iLats.size() != getNumY() || iLats[0].size() != getNumX()))
+   if(!uninitialized && (iLats.size() != getNumY() || (iLats.size() > 0 && iLats[0].size() != getNumX())))
       return false;
    if(mLats != iLats)
       createNewTag();
@@ -241,7 +241,7 @@ bool File::setLats(vec2 iLats) {
 }
 bool File::setLons(vec2 iLons) {
    bool uninitialized = mLons.size() == 0;
-   if(!uninitialized && (iLons.size() != getNumY() || iLons[0].size() != getNumX()))
+   if(!uninitialized && (iLons.size() != getNumY() || (iLons.size() > 0 && iLons[0].size() != getNumX())))
       return false;
    if(mLons != iLons)
       createNewTag();
@@ -280,14 +280,14 @@ bool File::setLons(vec2 iLons) {
    return true;
 }
 bool File::setElevs(vec2 iElevs) {
-   if(iElevs.size() != getNumY() || iElevs[0].size() != getNumX())
+   if(iElevs.size() != getNumY() || (iElevs.size() > 0 && iElevs[0].size() != getNumX()))
       return false;
    mElevs = iElevs;
    mHasElevs = true;
    return true;
 }
 bool File::setLandFractions(vec2 iLandFractions) {
-   if(iLandFractions.size() != getNumY() || iLandFractions[0].size() != getNumX())
+   if(iLandFractions.size() != getNumY() || (iLandFractions.size() > 0 && iLandFractions[0].size() != getNumX()))
       return false;
    mLandFractions = iLandFractions;
    return true;
@@ -311,7 +311,7 @@ vec2 File::getElevs() const {
       return mElevs;
 }
 vec2 File::getLandFractions() const {
-   if(mLandFractions.size() != getNumY() || mLandFractions[0].size() != getNumX()) {
+   if(mLandFractions.size() != getNumY() || (mLandFractions.size() > 0 && mLandFractions[0].size() != getNumX())) {
       vec2 landFractions;
       landFractions.resize(getNumY());
       for(int i = 0; i < getNumY(); i++)
@@ -324,7 +324,7 @@ int File::getNumY() const {
    return mLats.size();
 }
 int File::getNumX() const {
-   return mLats[0].size();
+   return mLats.size() == 0 ? 0 : mLats[0].size();
 }
 int File::getNumEns() const {
    return mNEns;
diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index e13579e..460b153 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -215,7 +215,7 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
    // Load variables
    int numVars = Util::MV;
    status = nc_inq_nvars(mFile, &numVars);
-   int vars[numVars];
+   int vars[numVars+1];
    status = nc_inq_varids(mFile, &numVars, vars);
    handleNetcdfError(status, "could not get list of variables");
    for(int v = 0; v < numVars; v++) {
@@ -241,8 +241,8 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
    std::vector<int> dims = getDims(var);
 
    // Determine which slice to retrieve
-   size_t count[dims.size()];
-   size_t start[dims.size()];
+   size_t count[dims.size()+1];
+   size_t start[dims.size()+1];
    int ensPos = Util::MV;
    int yPos = Util::MV;
    int xPos = Util::MV;
@@ -409,7 +409,7 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
       if(!hasVariableCore(variable)) {
          // Create variable
          int numDims = Util::isValid(mYDim) + Util::isValid(mXDim) + Util::isValid(mEnsDim) + Util::isValid(mTimeDim);
-         int dims[numDims];
+         int dims[numDims+1];
          int counter = 0;
          if(Util::isValid(mTimeDim)) {
             dims[counter] = mTimeDim;
@@ -459,7 +459,7 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
       int var = getVar(variableName);
       double MV = getMissingValue(var); // The output file's missing value indicator
       std::vector<int> dims = getDims(var);
-      size_t count[dims.size()];
+      size_t count[dims.size()+1];
       int ensPos = Util::MV;
       int yPos = Util::MV;
       int xPos = Util::MV;
@@ -491,7 +491,7 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
       double* values = new double[size];
 
       for(int t = 0; t < getNumTime(); t++) {
-         size_t start[dims.size()];
+         size_t start[dims.size()+1];
          for(int d = 0; d < dims.size(); d++)
             start[d] = 0;
          if(Util::isValid(timePos))
@@ -949,7 +949,7 @@ std::vector<int> FileNetcdf::getDims(int iVar) const {
    int ndims = getNumDims(iVar);
    assert(ndims >= 0);
    std::vector<int> dims;
-   int ids[ndims];
+   int ids[ndims+1];
    int status = nc_inq_vardimid(mFile, iVar, ids);
    handleNetcdfError(status, "Could not get dimension");
    for(int i = 0; i < ndims; i++) {
@@ -1195,14 +1195,14 @@ void FileNetcdf::writeTimes() {
       if(!Util::isValid(times[i]))
          times[i] = getMissingValue(vTime);
    }
-   double timesArr[getNumTime()];
+   std::vector<double> timesArr(getNumTime()+1, 0);
    for(int t = 0; t < getNumTime(); t++) {
       timesArr[t] = times[t];
    }
 
    size_t start = 0;
    size_t count = getNumTime();
-   int status = nc_put_vara_double(mFile, vTime, &start, &count, timesArr);
+   int status = nc_put_vara_double(mFile, vTime, &start, &count, &timesArr[0]);
    handleNetcdfError(status, "could not write times");
 }
 void FileNetcdf::defineReferenceTime() {
@@ -1298,8 +1298,8 @@ vec2 FileNetcdf::getLatLonVariable(int iVar) const {
    else {
       int yPos = Util::MV;
       int xPos = Util::MV;
-      size_t count[dims.size()];
-      size_t start[dims.size()];
+      size_t count[dims.size()+1];
+      size_t start[dims.size()+1];
       for(int d = 0; d < dims.size(); d++) {
          count[d] = 1;
          start[d] = 0;
-- 
2.43.0


From ec215de0043026ef7c5e318f08f73e4a6a4acf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 144/171] fix: altitudes could not be added to netcdf files
 with one horizontal dimension

---
 src/client/File/Netcdf.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 460b153..0c5a6d5 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -771,8 +771,14 @@ void FileNetcdf::defineAltitude() {
       dims[0]  = dLon;
       dims[1]  = dLat;
    }
+   // The file can have only one horizontal dimension
+   int numDims = 2;
+   if(!Util::isValid(dLat) || !Util::isValid(dLon)) {
+      numDims = Util::isValid(dLat) + Util::isValid(dLon);
+      dims[0] = Util::isValid(dLat) ? dLat : dLon;
+   }
    int var = Util::MV;
-   int status = nc_def_var(mFile, "altitude", NC_FLOAT, 2, dims, &var);
+   int status = nc_def_var(mFile, "altitude", NC_FLOAT, numDims, dims, &var);
    handleNetcdfError(status, "could not define altitude");
 }
 
-- 
2.43.0


From 36d7d4cc7d67e4e911ac04dc1f0e859709163886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 145/171] fix: text and point files were read incompletely when
 a line is long or the last line has no newline

---
 src/client/File/Point.cpp | 14 ++++++--------
 src/client/File/Text.cpp  |  7 +++----
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index d547d69..9765c9c 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -52,10 +52,9 @@ FilePoint::FilePoint(std::string iFilename, const Options& iOptions) :
    // Determine time and ensemble dimension if possible
    std::ifstream ifs(getFilename().c_str());
    if(ifs.good()) {
-      while(ifs.good()) {
-         char line[10000];
-         ifs.getline(line, 10000, '\n');
-         if(ifs.good() && line[0] != '#') {
+      std::string line;
+      while(std::getline(ifs, line)) {
+         if(line[0] != '#') {
             std::stringstream ss(line);
             double time;
             ss >> time;
@@ -97,10 +96,9 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
    FieldPtr field = getEmptyField();
 
    int row = 0;
-   while(ifs.good()) {
-      char line[10000];
-      ifs.getline(line, 10000, '\n');
-      if(ifs.good() && line[0] != '#') {
+   std::string line;
+   while(std::getline(ifs, line)) {
+      if(line[0] != '#') {
          std::stringstream ss(line);
          double time;
          ss >> time;
diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index eb9790d..efa17b4 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -17,10 +17,9 @@ FileText::FileText(std::string iFilename, const Options& iOptions) :
    std::set<Location> locationsSet;
    std::map<int, std::map<Location, std::vector<float> > > values;
    mNEns = Util::MV;
-   while(ifs.good()) {
-      char line[10000];
-      ifs.getline(line, 10000, '\n');
-      if(ifs.good() && line[0] != '#') {
+   std::string line;
+   while(std::getline(ifs, line)) {
+      if(line[0] != '#') {
          std::stringstream ss(line);
          // Loop over each value
          std::vector<float> currValues;
-- 
2.43.0


From b20e24ca18f19360f1651544093de506c28447bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 146/171] fix: values in point files were looked up by time
 index instead of by time

---
 src/client/File/Point.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index 9765c9c..e9e6e55 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -57,7 +57,9 @@ FilePoint::FilePoint(std::string iFilename, const Options& iOptions) :
          if(line[0] != '#') {
             std::stringstream ss(line);
             double time;
-            ss >> time;
+            // Skip empty lines
+            if(!(ss >> time))
+               continue;
             times.push_back(time);
             double value;
             mNEns = 0;
@@ -101,9 +103,7 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
       if(line[0] != '#') {
          std::stringstream ss(line);
          double time;
-         ss >> time;
-
-         if(time == iTime) {
+         if(ss >> time && time == getTimes()[iTime]) {
             double value;
             int e = 0;
             while(ss >> value) {
-- 
2.43.0


From 2fcfc86302435e49b44cbd48a96facedc0d8a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 147/171] fix: number of times was not initialized in FilePoint

---
 src/client/File/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index e9e6e55..2864d5c 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -72,7 +72,7 @@ FilePoint::FilePoint(std::string iFilename, const Options& iOptions) :
 
    // Otherwise get the time or ensemble dimension from options
    iOptions.getValue("ens", mNEns);
-   int numTimes;
+   int numTimes = times.size() > 0 ? (int) times.size() : Util::MV;
    if(iOptions.getValue("time", numTimes)) {
       times.clear();
       // Empty file, probably used as output only
-- 
2.43.0


From 668a87e65500915f9124f9e08107e64e9d016bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 148/171] fix: missing values written as nan to text and point
 files could not be read

---
 src/client/File/Point.cpp | 6 +++++-
 src/client/File/Text.cpp  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index 2864d5c..e7bcd1c 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -142,7 +142,11 @@ void FilePoint::writeCore(std::vector<Variable> iVariables, std::string iMessage
          ofs << (long) getTimes()[i];
          ofs.precision(2);
          for(int e = 0; e < getNumEns(); e++) {
-            ofs << std::fixed << " " << (*field)(0,0,e);
+            float value = (*field)(0,0,e);
+            // NaN cannot be read back
+            if(!Util::isValid(value))
+               value = Util::MV;
+            ofs << std::fixed << " " << value;
          }
          ofs << std::endl;
       }
diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index efa17b4..555ecc3 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -140,7 +140,11 @@ void FileText::writeCore(std::vector<Variable> iVariables, std::string iMessage)
          ofs << (long) getTimes()[i];
          ofs.precision(2);
          for(int e = 0; e < getNumEns(); e++) {
-            ofs << std::fixed << " " << (*field)(0,0,e);
+            float value = (*field)(0,0,e);
+            // NaN cannot be read back
+            if(!Util::isValid(value))
+               value = Util::MV;
+            ofs << std::fixed << " " << value;
          }
          ofs << std::endl;
       }
-- 
2.43.0


From cb24715417450b5b11dc9a4ba048923c85e27c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 149/171] fix: text files that do not exist or have no rows
 were read outside their arrays

---
 src/client/File/Text.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index 555ecc3..d5431b5 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -11,7 +11,7 @@ FileText::FileText(std::string iFilename, const Options& iOptions) :
 
    std::ifstream ifs(getFilename().c_str(), std::ifstream::in);
    if(!ifs.good()) {
-      return;
+      Util::error("Could not read file '" + iFilename + "'");
    }
    std::set<int> timesSet;
    std::set<Location> locationsSet;
@@ -71,6 +71,9 @@ FileText::FileText(std::string iFilename, const Options& iOptions) :
       }
    }
    ifs.close();
+   if(locationsSet.size() == 0) {
+      Util::error("File '" + iFilename + "' has no values");
+   }
 
    std::vector<double> times(timesSet.begin(), timesSet.end());
    std::vector<Location> locations(locationsSet.begin(), locationsSet.end());
-- 
2.43.0


From 0f9b6fe350936dbbdd04874c59f1a5cb59acca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 150/171] fix: changing a field of a text file changed other
 variables, and fields for new times and members were read outside their
 arrays

---
 src/client/File/Text.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index d5431b5..48c5a0a 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -127,7 +127,18 @@ FileText::FileText(std::string iFilename, const Options& iOptions) :
 }
 
 FieldPtr FileText::getFieldCore(const Variable& iVariable, int iTime) const {
-   return mLocalFields[iTime];
+   // A copy, because fields can be changed. The times and members can have been set to something
+   // else than what the file has, in which case values are missing.
+   FieldPtr field = getEmptyField();
+   if(iTime < mLocalFields.size()) {
+      const Field& local = *mLocalFields[iTime];
+      for(int i = 0; i < local.getNumY(); i++) {
+         for(int e = 0; e < field->getNumEns() && e < local.getNumEns(); e++) {
+            (*field)(i,0,e) = local(i,0,e);
+         }
+      }
+   }
+   return field;
 }
 
 void FileText::writeCore(std::vector<Variable> iVariables, std::string iMessage) {
-- 
2.43.0


From cc5abef89c0bcfe706e41d0fb1ab228424389763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 151/171] fix: text files were written with only the first
 location and without coordinates, and could not be read

---
 src/client/File/Text.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index 48c5a0a..983272b 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -147,20 +147,28 @@ void FileText::writeCore(std::vector<Variable> iVariables, std::string iMessage)
       Util::warning("No variables to write");
       return;
    }
+   vec2 lats = getLats();
+   vec2 lons = getLons();
+   vec2 elevs = getElevs();
    for(int i = 0; i < getNumTime(); i++) {
       ofs.precision(0);
       FieldPtr field = getField(iVariables[0], i);
       if(field != NULL) {
-         ofs << (long) getTimes()[i];
-         ofs.precision(2);
-         for(int e = 0; e < getNumEns(); e++) {
-            float value = (*field)(0,0,e);
-            // NaN cannot be read back
-            if(!Util::isValid(value))
-               value = Util::MV;
-            ofs << std::fixed << " " << value;
+         for(int k = 0; k < getNumY(); k++) {
+            ofs << (long) getTimes()[i];
+            ofs.precision(5);
+            ofs << std::fixed << " " << lats[k][0] << " " << lons[k][0];
+            ofs.precision(2);
+            ofs << std::fixed << " " << elevs[k][0];
+            for(int e = 0; e < getNumEns(); e++) {
+               float value = (*field)(k,0,e);
+               // NaN cannot be read back
+               if(!Util::isValid(value))
+                  value = Util::MV;
+               ofs << std::fixed << " " << value;
+            }
+            ofs << std::endl;
          }
-         ofs << std::endl;
       }
    }
    ofs.close();
-- 
2.43.0


From 5f52e50e9452762df87390aba29ddf6a831ee701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 152/171] fix: times outside the file and missing values were
 not handled in FileNorcomQnh

---
 src/client/File/NorcomQnh.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/File/NorcomQnh.cpp b/src/client/File/NorcomQnh.cpp
index 02fe294..bef92df 100644
--- a/src/client/File/NorcomQnh.cpp
+++ b/src/client/File/NorcomQnh.cpp
@@ -107,6 +107,9 @@ void FileNorcomQnh::writeCore(std::vector<Variable> iVariables, std::string iMes
    time_t currUnixTime = Util::getCurrentUnixTime();
    std::string currTimeStamp = getNorcomTimeStamp(currUnixTime);
    std::vector<double> times = getTimes();
+   if(mStartTime < 0 || mEndTime >= times.size()) {
+      Util::error("FileNorcomQnh: 'startTime' and 'endTime' must be within the available times");
+   }
    std::string startTime = getNorcomTimeStamp(times[mStartTime]);
    std::string endTime   = getNorcomTimeStamp(times[mEndTime]);
    ofs << "FBNO52 ENNC " << currTimeStamp << "\r\r" << std::endl;
@@ -124,7 +127,8 @@ void FileNorcomQnh::writeCore(std::vector<Variable> iVariables, std::string iMes
       int valuePa = Util::MV;
       for(int t = mStartTime; t <= mEndTime; t++) {
          FieldPtr field = getField(variable, t);
-         int currValue = (int) (*field)(0,j,0);
+         float value = (*field)(0,j,0);
+         int currValue = Util::isValid(value) ? (int) value : (int) Util::MV;
          if(!Util::isValid(valuePa)|| (Util::isValid(currValue) && currValue < valuePa))
             valuePa = currValue;
       }
-- 
2.43.0


From 439d40d7cad94e708936b0c6c919ed45161d7b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:14 +0000
Subject: [PATCH 153/171] fix: vectors wrapped by SWIG were deleted when passed
 to a function, and lists that cannot be converted were freed twice or leaked

---
 swig/vector.i | 47 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/swig/vector.i b/swig/vector.i
index 585d9de..4385d6f 100644
--- a/swig/vector.i
+++ b/swig/vector.i
@@ -56,12 +56,15 @@ namespace std {
         $1 = std::vector<DTYPE>(arg, arg+size);
     }
     else {
-        ptr = new std::vector<DTYPE>();
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(1, DTYPE);
         }
         $1 = *ptr;
+        /* Only delete new objects, not those that python owns */
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
@@ -87,12 +90,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<DTYPE>();
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(1, DTYPE);
         }
         $1 = ptr;
+        /* Only delete new objects, not those that python owns */
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
@@ -119,12 +125,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<DTYPE>();
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(1, DTYPE);
         }
         $1 = ptr;
+        /* Only delete new objects, not those that python owns */
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
@@ -219,12 +228,15 @@ namespace std {
         $1 = temp;
     }
     else {
-        ptr = new std::vector<std::vector<DTYPE> >();
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(2, DTYPE);
         }
         $1 = *ptr;
+        /* Only delete new objects, not those that python owns */
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
@@ -256,13 +268,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<DTYPE> >();
-        swig::asptr($input, &ptr);
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(2, DTYPE);
         }
         $1 = ptr;
+        /* Only delete new objects, not those that python owns */
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 /* Same as the const version above */
@@ -294,13 +308,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<DTYPE> >();
-        swig::asptr($input, &ptr);
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(2, DTYPE);
         }
         $1 = ptr;
+        /* Only delete new objects, not those that python owns */
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
@@ -390,12 +406,15 @@ namespace std {
         $1 = temp;
     }
     else {
-        ptr = new std::vector<std::vector<std::vector<DTYPE> > >();
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(3, DTYPE);
         }
         $1 = *ptr;
+        /* Only delete new objects, not those that python owns */
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
@@ -431,12 +450,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<std::vector<DTYPE> > >();
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(3, DTYPE);
         }
         $1 = ptr;
+        /* Only delete new objects, not those that python owns */
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
@@ -473,12 +495,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<std::vector<DTYPE> > >();
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(3, DTYPE);
         }
         $1 = ptr;
+        /* Only delete new objects, not those that python owns */
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
-- 
2.43.0


From 3f3432782f3ab73b1583e48fbd3c6c8525020de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:14 +0000
Subject: [PATCH 154/171] fix: python was terminated when the elements of an
 array cannot be converted to numbers

---
 swig/vector.i | 54 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/swig/vector.i b/swig/vector.i
index 4385d6f..5d6d6de 100644
--- a/swig/vector.i
+++ b/swig/vector.i
@@ -46,10 +46,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 1, 1, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int size = array_size($input, 0);
@@ -79,10 +81,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 1, 1, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int size = array_size($input, 0);
@@ -114,10 +118,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 1, 1, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int size = array_size($input, 0);
@@ -213,10 +219,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 2, 2, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
@@ -252,10 +260,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 2, 2, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
@@ -292,10 +302,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 2, 2, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
@@ -387,10 +399,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 3, 3, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
@@ -430,10 +444,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 3, 3, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
@@ -475,10 +491,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 3, 3, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
-- 
2.43.0


From 4eff8539d95fa819c78ae392a48fc79c03514dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:26 +0000
Subject: [PATCH 155/171] fix: vectors returned by KDTree::get_x, get_y and
 get_z were used by python after the tree was deleted

---
 swig/vector.i | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/swig/vector.i b/swig/vector.i
index 5d6d6de..ea7e1a6 100644
--- a/swig/vector.i
+++ b/swig/vector.i
@@ -194,6 +194,17 @@ namespace std {
     }
 }
 
+/* Copy the values, since the object that holds the vector might not exist as long as the result */
+%typemap(out) const std::vector<DTYPE> & {
+    PRINT_DEBUG("Typemap(out) const std::vector<DTYPE> &");
+    npy_intp dims[1] = {(npy_intp) $1->size()};
+    $result = PyArray_ZEROS(1, dims, NPY_DTYPE, 0);
+    for(long i = 0; i < $1->size(); i++) {
+        DTYPE* ref = (DTYPE*) PyArray_GETPTR1((PyArrayObject*) $result, i);
+        ref[0] = (*$1)[i];
+    }
+}
+
 %typecheck(SWIG_TYPECHECK_INTEGER) std::vector<DTYPE>, const std::vector<DTYPE> & {
     PRINT_DEBUG("typecheck std::vector<DTYPE>");
     if(is_array($input)) {
-- 
2.43.0


From 8cd2bea99a7651ba6fd6db8986bc81f664b19d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:26 +0000
Subject: [PATCH 156/171] fix: get_box did not set its indices for a grid
 without points, python received uninitialized values

---
 src/api/grid.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index f375385..9292444 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -152,6 +152,10 @@ bool gridpp::Grid::get_box(float lat, float lon, int& Y1, int& X1, int& Y2, int&
     int xdir = 1;
     int ydir = 1;
     CoordinateType type = get_coordinate_type();
+    Y1 = -1;
+    Y2 = -1;
+    X1 = -1;
+    X2 = -1;
     ivec nn = get_nearest_neighbour(lat, lon);
     if(nn.size() != 2)
         return false;
@@ -159,10 +163,6 @@ bool gridpp::Grid::get_box(float lat, float lon, int& Y1, int& X1, int& Y2, int&
     int X = nn[1];
     int nY = size()[0];
     int nX = size()[1];
-    Y1 = -1;
-    Y2 = -1;
-    X1 = -1;
-    X2 = -1;
     if(nX <= 1 || nY <= 1)
         return false;
     if(Y == 0) {
-- 
2.43.0


From 1b02ad895cc0fd447de8956cd85041a9f474b56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:26 +0000
Subject: [PATCH 157/171] fix: python read outside arrays when a function
 returned rows with different lengths, as for nested lists that are not
 rectangular

---
 swig/vector.i | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/swig/vector.i b/swig/vector.i
index ea7e1a6..09bc312 100644
--- a/swig/vector.i
+++ b/swig/vector.i
@@ -357,6 +357,10 @@ namespace std {
     int s1 = 0;
     if(s0 != 0)
         s1 = temp[0].size();
+    for(long i = 0; i < s0; i++) {
+        if(temp[i].size() != s1)
+            SWIG_exception(SWIG_RuntimeError, "Rows of the output do not have the same length");
+    }
     npy_intp dims[2] = {s0, s1};
     py_obj = PyArray_ZEROS(2, dims, NPY_DTYPE, 0);
     for(long i = 0; i < s0; i++) {
@@ -375,6 +379,10 @@ namespace std {
     int s1 = 0;
     if(s0 != 0)
         s1 = temp[0].size();
+    for(long i = 0; i < s0; i++) {
+        if(temp[i].size() != s1)
+            SWIG_exception(SWIG_RuntimeError, "Rows of the output do not have the same length");
+    }
     npy_intp dims[2] = {s0, s1};
     $result = PyArray_ZEROS(2, dims, NPY_DTYPE, 0);
     for(long i = 0; i < s0; i++) {
@@ -553,6 +561,14 @@ namespace std {
     int s2 = 0;
     if(s0 != 0 && s1 != 0)
         s2 = temp[0][0].size();
+    for(long i = 0; i < s0; i++) {
+        if(temp[i].size() != s1)
+            SWIG_exception(SWIG_RuntimeError, "Rows of the output do not have the same length");
+        for(long j = 0; j < s1; j++) {
+            if(temp[i][j].size() != s2)
+                SWIG_exception(SWIG_RuntimeError, "Rows of the output do not have the same length");
+        }
+    }
     npy_intp dims[3] = {s0, s1, s2};
     py_obj = PyArray_ZEROS(3, dims, NPY_DTYPE, 0);
     for(long i = 0; i < s0; i++) {
@@ -576,6 +592,14 @@ namespace std {
     int s2 = 0;
     if(s0 != 0 && s1 != 0)
         s2 = temp[0][0].size();
+    for(long i = 0; i < s0; i++) {
+        if(temp[i].size() != s1)
+            SWIG_exception(SWIG_RuntimeError, "Rows of the output do not have the same length");
+        for(long j = 0; j < s1; j++) {
+            if(temp[i][j].size() != s2)
+                SWIG_exception(SWIG_RuntimeError, "Rows of the output do not have the same length");
+        }
+    }
     npy_intp dims[3] = {s0, s1, s2};
     $result = PyArray_ZEROS(3, dims, NPY_DTYPE, 0);
     for(long i = 0; i < s0; i++) {
-- 
2.43.0


From a92e9776e4c3f1646a3499fc0840377c3c9ebdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 158/171] fix: dates and times before 1970 were off by one day
 or negative

---
 src/client/Util.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 720682f..f9bf9a0 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -164,13 +164,15 @@ std::string Util::gridppVersion() {
 }
 int Util::getDate(time_t iUnixTime) {
    boost::gregorian::date epoch(1970,1,1);
-   boost::gregorian::date_duration diff(iUnixTime/86400);
+   // Round down also for times before 1970
+   time_t days = iUnixTime/86400 - (iUnixTime % 86400 < 0);
+   boost::gregorian::date_duration diff(days);
    boost::gregorian::date newDate = epoch + diff;
 
    return newDate.year() * 10000 + newDate.month() * 100 + newDate.day();
 }
 int Util::getTime(time_t iUnixTime) {
-   int numSeconds = iUnixTime % 86400;
+   int numSeconds = (iUnixTime % 86400 + 86400) % 86400;
    int hh = numSeconds / 3600;
    int mm = (numSeconds / 60) % 60;
    int ss = numSeconds % 60;
-- 
2.43.0


From 6f78539ba91c8a5b15b20f97fc54b71d53c1718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 159/171] fix: inverse logit of values above 88 was nan

---
 src/client/Util.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index f9bf9a0..2baa505 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -269,6 +269,9 @@ float Util::logit(float p) {
 float Util::invLogit(float x) {
    if(!Util::isValid(x))
       return Util::MV;
+   // The limit for large x, where exp(x) overflows
+   if(std::isinf(exp(x)))
+      return 1;
    return exp(x)/(exp(x)+1);
 }
 
-- 
2.43.0


From af1fc0c51c98392690c654200cbf489f8f7ad442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 160/171] fix: matrices that are nearly singular terminated the
 client when inverted

---
 src/client/Util.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 2baa505..bafc517 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -494,8 +494,21 @@ vec2 Util::inverse(const vec2 iMatrix) {
    // create a permutation matrix for the LU-factorization
    pmatrix pm(matrix.size1());
 
-   // perform LU-factorization
-   int res = lu_factorize(matrix,pm);
+   int res = 0;
+   try {
+      // perform LU-factorization
+      res = lu_factorize(matrix,pm);
+
+      // Compute the inverse from the identity matrix
+      if(res == 0) {
+         inverseMatrix.assign(identity_matrix<float>(matrix.size1()));
+         lu_substitute(matrix, pm, inverseMatrix);
+      }
+   }
+   catch(const internal_logic&) {
+      // The result is too inaccurate, because the matrix is nearly singular
+      res = 1;
+   }
 
    if( res != 0 ) {
       Util::warning("Could not compute inverse, unstable.");
@@ -508,12 +521,6 @@ vec2 Util::inverse(const vec2 iMatrix) {
       return matrixVec;
    }
 
-   // Initialize to identity matrix
-   inverseMatrix.assign(identity_matrix<float>(matrix.size1()));
-
-   // Compute the inverse
-   lu_substitute(matrix, pm, inverseMatrix);
-
    // Convert to vec2
    vec2 inverseVec;
    inverseVec.resize(N);
-- 
2.43.0


From afb8aa62db1c9ab5698534de9b6a75416d89fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 161/171] fix: mean, sum and standard deviation of long arrays
 were wrong, because of accumulated rounding errors

---
 src/api/util.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index 95bb965..b741c57 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -20,7 +20,7 @@ float gridpp::calc_statistic(const vec& array, gridpp::Statistic statistic) {
     // Initialize to missing
     float value = gridpp::MV;
     if(statistic == gridpp::Mean || statistic == gridpp::Sum || statistic == gridpp::Count) {
-        float total = 0;
+        double total = 0;
         int count = 0;
         for(int n = 0; n < array.size(); n++) {
             if(gridpp::is_valid(array[n])) {
@@ -42,8 +42,8 @@ float gridpp::calc_statistic(const vec& array, gridpp::Statistic statistic) {
         // The above formula is unstable when the variance is small and the mean is large.
         // Use the property that VAR(X) = VAR(X-K). Provided K is any element in the array,
         // the resulting calculation of VAR(X-K) is stable. Set K to the first non-missing value.
-        float total  = 0;
-        float total2 = 0;
+        double total  = 0;
+        double total2 = 0;
         float K = gridpp::MV;
         int count = 0;
         for(int n = 0; n < array.size(); n++) {
@@ -52,15 +52,16 @@ float gridpp::calc_statistic(const vec& array, gridpp::Statistic statistic) {
                     K = array[n];
                 assert(gridpp::is_valid(K));
 
-                total  += array[n] - K;
-                total2 += (array[n] - K)*(array[n] - K);
+                double diff = (double) array[n] - K;
+                total  += diff;
+                total2 += diff*diff;
                 count++;
             }
         }
         if(count > 0) {
-            float mean  = total / count;
-            float mean2 = total2 / count;
-            float var   = mean2 - mean*mean;
+            double mean  = total / count;
+            double mean2 = total2 / count;
+            double var   = mean2 - mean*mean;
             if(var < 0) {
                 // This should never happen
                 var = 0;
-- 
2.43.0


From 15bb49efaa231109518b062284ab8ff8c5bd05d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 162/171] fix: the client's mean, sum and standard deviation of
 long arrays were wrong, because of accumulated rounding errors

---
 src/client/Util.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index bafc517..312a352 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -346,7 +346,7 @@ float Util::calculateStat(const std::vector<float>& iArray, Util::StatType iStat
    // Initialize to missing
    float value = Util::MV;
    if(iStatType == Util::StatTypeMean || iStatType == Util::StatTypeSum) {
-      float total = 0;
+      double total = 0;
       int count = 0;
       for(int n = 0; n < iArray.size(); n++) {
          if(Util::isValid(iArray[n])) {
@@ -366,8 +366,8 @@ float Util::calculateStat(const std::vector<float>& iArray, Util::StatType iStat
       // The above formula is unstable when the variance is small and the mean is large.
       // Use the property that VAR(X) = VAR(X-K). Provided K is any element in the array,
       // the resulting calculation of VAR(X-K) is stable. Set K to the first non-missing value.
-      float total  = 0;
-      float total2 = 0;
+      double total  = 0;
+      double total2 = 0;
       float K = Util::MV;
       int count = 0;
       for(int n = 0; n < iArray.size(); n++) {
@@ -376,15 +376,16 @@ float Util::calculateStat(const std::vector<float>& iArray, Util::StatType iStat
                K = iArray[n];
             assert(Util::isValid(K));
 
-            total  += iArray[n] - K;
-            total2 += (iArray[n] - K)*(iArray[n] - K);
+            double diff = (double) iArray[n] - K;
+            total  += diff;
+            total2 += diff*diff;
             count++;
          }
       }
       if(count > 0) {
-         float mean  = total / count;
-         float mean2 = total2 / count;
-         float var   = mean2 - mean*mean;
+         double mean  = total / count;
+         double mean2 = total2 / count;
+         double var   = mean2 - mean*mean;
          if(var < 0) {
             // This should never happen
             var = 0;
-- 
2.43.0


From 6fbc9e48e9ee7c654e20d50e66f4281acebbbeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 163/171] fix: neighbourhood calibrator's mean and sum lost
 precision in large fields

---
 src/client/Calibrator/Neighbourhood.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/client/Calibrator/Neighbourhood.cpp b/src/client/Calibrator/Neighbourhood.cpp
index 324d29d..d589a5e 100644
--- a/src/client/Calibrator/Neighbourhood.cpp
+++ b/src/client/Calibrator/Neighbourhood.cpp
@@ -80,7 +80,8 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
    int count_stat = 0;
    for(int e = 0; e < nEns; e++) {
       if(mFast && (mStatType == Util::StatTypeMean || mStatType == Util::StatTypeSum)) {
-         vec2 values;
+         // The sums become too large for single precision
+         std::vector<std::vector<double> > values;
          vec2 counts;
          values.resize(nLat);
          counts.resize(nLat);
@@ -142,10 +143,10 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
                int j1 = std::min(nLon-1, j + radius);
                int i0 = i - radius - 1;
                int j0 = j - radius - 1;
-               float value11 = values[i1][j1];
-               float value00 = 0;
-               float value10 = 0;
-               float value01 = 0;
+               double value11 = values[i1][j1];
+               double value00 = 0;
+               double value10 = 0;
+               double value01 = 0;
                int count11 = counts[i1][j1];
                int count00 = 0;
                int count10 = 0;
@@ -166,7 +167,7 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
                   value01 = values[i0][j1];
                   count01 = counts[i0][j1];
                }
-               float value = value11 + value00 - value10 - value01;
+               double value = value11 + value00 - value10 - value01;
                int count = count11 + count00 - count10 - count01;
                if(count > 0) {
                   if(mStatType == Util::StatTypeMean) {
-- 
2.43.0


From 022994270ddcec96efdaa690e591ad9b98fc2210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 164/171] fix: kriging training lost precision for many samples

---
 src/client/Calibrator/Kriging.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 8af5242..3426403 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -434,8 +434,8 @@ float CalibratorKriging::calcCovar(const Location& loc1, const Location& loc2) c
 
 Parameters CalibratorKriging::train(const std::vector<ObsEns>& iData) const {
    double timeStart = Util::clock();
-   float totalObs = 0;
-   float totalFcst = 0;
+   double totalObs = 0;
+   double totalFcst = 0;
    int counter = 0;
    // Compute predictors in model
    for(int i = 0; i < iData.size(); i++) {
-- 
2.43.0


From 767fc8d27c4b27e31d7ac3d37d0751b7232eb052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 165/171] fix: gaussian calibrator's ensemble spread was
 dominated by rounding errors for values far from zero

---
 src/client/Calibrator/Gaussian.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index 19ed2fa..2890f63 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -49,8 +49,8 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                parameters = parametersGlobal;
 
             // Compute model variables
-            float total2 = 0;
-            float total = 0;
+            double total2 = 0;
+            double total = 0;
             int counter = 0;
             bool isValid = true;
             for(int e = 0; e < nEns; e++) {
@@ -60,7 +60,7 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                      float value = rawField(ii,jj,e);
                      if(Util::isValid(value)) {
                         total += value;
-                        total2 += value*value;
+                        total2 += (double) value*value;
                         counter++;
                      }
                   }
@@ -79,9 +79,10 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                float ensMean = Util::MV;
                float ensSpread = Util::MV;
                if(counter > 0) {
-                  ensMean = total / counter;
+                  double mean = total / counter;
+                  ensMean = mean;
                   // Rounding errors can make the variance slightly negative
-                  ensSpread = sqrt(std::max(total2/counter - (ensMean*ensMean), 0.f));
+                  ensSpread = sqrt(std::max(total2/counter - mean*mean, 0.0));
                }
 
                // Calibrate
-- 
2.43.0


From ab91d4e29794bc20dc9695c7aaffa5c31637cb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 166/171] fix: gradient downscaler's elevation gradient was
 dominated by rounding errors for high elevations

---
 src/client/Downscaler/Gradient.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index e9acf29..6bc04a5 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -402,10 +402,10 @@ float DownscalerGradient::calcElevGradient(int i, int j, int e, int Icenter, int
          forecasts to go outside its domain (e.g. negative winds). If this occurs,
          the nearest neighbour is used.
       */
-      float meanXY  = 0; // elev*T
-      float meanX   = 0; // elev
-      float meanY   = 0; // T
-      float meanXX  = 0; // elev*elev
+      double meanXY  = 0; // elev*T
+      double meanX   = 0; // elev
+      double meanY   = 0; // T
+      double meanXX  = 0; // elev*elev
       int   counter = 0;
       float min = Util::MV;
       float max = Util::MV;
@@ -420,10 +420,10 @@ float DownscalerGradient::calcElevGradient(int i, int j, int e, int Icenter, int
                y = log(y);
             }
             if(Util::isValid(x) && Util::isValid(y) &&(!Util::isValid(currLaf) || currLaf >= mMinLafForElevGradient)) {
-               meanXY += x*y;
+               meanXY += (double) x*y;
                meanX  += x;
                meanY  += y;
-               meanXX += x*x;
+               meanXX += (double) x*x;
                counter++;
                // Found a new min
                if(!Util::isValid(min) || x < min)
-- 
2.43.0


From 89e1490526843f4e02cae0b23e6399b1e48240e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 167/171] fix: neighbourhood_search lost precision in large
 neighbourhoods

---
 src/api/neighbourhood_search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/neighbourhood_search.cpp b/src/api/neighbourhood_search.cpp
index c621482..e1813ee 100644
--- a/src/api/neighbourhood_search.cpp
+++ b/src/api/neighbourhood_search.cpp
@@ -39,7 +39,7 @@ vec2 gridpp::neighbourhood_search(const vec2& array, const vec2& search_array, i
             int I_nearestSearchArray_Y = 0;
             int I_nearestSearchArray_X = 0;
             int counter = 0;
-            float accum_temp = 0;
+            double accum_temp = 0;
 
             if(!gridpp::is_valid(search_array[y][x])) {
                 /* if current search_array is invalid, set output equal to array (input) */
-- 
2.43.0


From 1abe2f7faa3d843c2aa96a995bb18d9d9b2e67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:06 +0000
Subject: [PATCH 168/171] fix: gradient downscaler computed a gradient from
 rounding errors when all elevations are equal

---
 src/client/Downscaler/Gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index 6bc04a5..5c4c569 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -450,7 +450,7 @@ float DownscalerGradient::calcElevGradient(int i, int j, int e, int Icenter, int
          meanX  /= counter;
          meanY  /= counter;
          meanXX /= counter;
-         if(meanXX - meanX*meanX != 0) {
+         if(elevDiff > 0 && meanXX - meanX*meanX != 0) {
             elevGradient = (meanXY - meanX*meanY)/(meanXX - meanX*meanX);
          }
       }
-- 
2.43.0


From 95bd8fc3a65440b7e04ee9c2165492f4afe35bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:00 +0000
Subject: [PATCH 169/171] fix: training of qq with quantiles failed when there
 is only one pair of observation and forecast

---
 src/client/Calibrator/Qq.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Qq.cpp b/src/client/Calibrator/Qq.cpp
index 34335e6..ed10f35 100644
--- a/src/client/Calibrator/Qq.cpp
+++ b/src/client/Calibrator/Qq.cpp
@@ -193,7 +193,7 @@ Parameters CalibratorQq::train(const std::vector<ObsEns>& iData) const {
       int N = obs.size();
       std::vector<float> x(N);
       for(int i = 0; i < N; i++) {
-         x[i] = (float) i / (N-1);
+         x[i] = N > 1 ? (float) i / (N-1) : 0;
       }
       for(int i = 0; i < mQuantiles.size(); i++) {
          float currObs  = Util::interpolate(mQuantiles[i], x, obs);
-- 
2.43.0


From fe0e0d9127b5cb2bf22688f356a91823775db0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 170/171] fix: smart, fill, doping and get_in_domain mixed
 geodetic and Cartesian coordinates silently

---
 src/api/doping.cpp | 4 ++++
 src/api/fill.cpp   | 2 ++
 src/api/points.cpp | 2 ++
 src/api/smart.cpp  | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/src/api/doping.cpp b/src/api/doping.cpp
index 5018788..413bcf4 100644
--- a/src/api/doping.cpp
+++ b/src/api/doping.cpp
@@ -5,6 +5,8 @@ using namespace gridpp;
 vec2 gridpp::doping_square(const Grid& igrid, const vec2& background, const Points& points, const vec& observations, const ivec& halfwidth, float max_elev_diff) {
     if(!gridpp::compatible_size(igrid, background))
         throw std::invalid_argument("Grid size is not the same as observations");
+    if(!gridpp::compatible_coordinates(igrid, points))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(points.size() != observations.size())
         throw std::invalid_argument("Points size is not the same as observations size");
     if(points.size() != halfwidth.size())
@@ -56,6 +58,8 @@ vec2 gridpp::doping_square(const Grid& igrid, const vec2& background, const Poin
 vec2 gridpp::doping_circle(const Grid& igrid, const vec2& background, const Points& points, const vec& observations, const vec& radii, float max_elev_diff) {
     if(!gridpp::compatible_size(igrid, background))
         throw std::invalid_argument("Grid size is not the same as observations");
+    if(!gridpp::compatible_coordinates(igrid, points))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(points.size() != observations.size())
         throw std::invalid_argument("Points size is not the same as observations size");
     if(points.size() != radii.size())
diff --git a/src/api/fill.cpp b/src/api/fill.cpp
index 031f386..abf172d 100644
--- a/src/api/fill.cpp
+++ b/src/api/fill.cpp
@@ -6,6 +6,8 @@ using namespace gridpp;
 vec2 gridpp::fill(const Grid& igrid, const vec2& input, const Points& points, const vec& radii, float value, bool outside) {
     if(!gridpp::compatible_size(igrid, input))
         throw std::invalid_argument("Grid size is not the same as values");
+    if(!gridpp::compatible_coordinates(igrid, points))
+        throw std::invalid_argument("Incompatible coordinate types");
     if(points.size() != radii.size())
         throw std::invalid_argument("Points size is not the same as radii size");
     for(int i = 0; i < radii.size(); i++) {
diff --git a/src/api/points.cpp b/src/api/points.cpp
index b485526..91e0a0b 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -84,6 +84,8 @@ int gridpp::Points::size() const {
     return mLats.size();
 }
 ivec gridpp::Points::get_in_domain_indices(const gridpp::Grid& grid) const {
+    if(!gridpp::compatible_coordinates(grid, *this))
+        throw std::invalid_argument("Incompatible coordinate types");
     ivec indices;
     indices.reserve(size());
     ivec gsize = grid.size();
diff --git a/src/api/smart.cpp b/src/api/smart.cpp
index 25a1f58..8856340 100644
--- a/src/api/smart.cpp
+++ b/src/api/smart.cpp
@@ -12,6 +12,8 @@ namespace {
 vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, int num, const gridpp::StructureFunction& structure) {
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
+    if(!gridpp::compatible_coordinates(igrid, ogrid))
+        throw std::invalid_argument("Incompatible coordinate types");
     vec2 ilats = igrid.get_lats();
     vec2 ilons = igrid.get_lons();
     vec2 ielevs = igrid.get_elevs();
-- 
2.43.0


From bc2a30773e5ed5a1abb05e2e3917f57ddcc40d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:36 +0000
Subject: [PATCH 171/171] fix: a grid without points forgot its coordinate type

---
 src/api/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index 9292444..e04f338 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -13,7 +13,7 @@ gridpp::Grid::Grid(vec2 lats, vec2 lons, vec2 elevs, vec2 lafs, CoordinateType t
     if(lats.size() == 0) {
         vec lats;
         vec lons;
-        mTree = KDTree(lats, lons);
+        mTree = KDTree(lats, lons, type);
         mX = 0;
         return;
     }
-- 
2.43.0

