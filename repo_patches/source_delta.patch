From 8547a9b665c570852bbd2acf7db50e7f889ab218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 1/3] fix: keep the search for intersecting body soil inside
 the grid

MoveIntersectingBodySoil explored a direction until a wall was reached or all
the soil was moved, without checking that the next position is part of the
grid. When the soil trapped between two body layers could not be placed before
the border, memory outside of the grid was read and written.
---
 soil_simulator/intersecting_cells.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/soil_simulator/intersecting_cells.cpp b/soil_simulator/intersecting_cells.cpp
index 768b2df..b9e2d89 100644
--- a/soil_simulator/intersecting_cells.cpp
+++ b/soil_simulator/intersecting_cells.cpp
@@ -129,6 +129,13 @@ void soil_simulator::MoveIntersectingBodySoil(
                 int ii_n = ii + pp * directions[xy][0];
                 int jj_n = jj + pp * directions[xy][1];
 
+                if (
+                    (ii_n < 0) || (ii_n > 2 * grid.half_length_x_) ||
+                    (jj_n < 0) || (jj_n > 2 * grid.half_length_y_)) {
+                    // Border of the grid is blocking the movement
+                    break;
+                }
+
                 std::tie(ind_p, ii_p, jj_p, h_soil, wall_presence) = (
                     soil_simulator::MoveBodySoil(
                         sim_out, ind_p, ii_p, jj_p, max_h, ii_n, jj_n, h_soil,
-- 
2.43.0


From f02acf342f63cf3239e765fddfe5e8f65d42b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 2/3] fix: keep the search for intersecting terrain inside the
 grid

MoveIntersectingBody investigated farther and farther rings until all the soil
was moved, without checking that the positions are part of the grid. When there
was no space up to the border, memory outside of the grid was read and written.
The soil that cannot be placed is now removed together with a warning, as done
for the soil resting on the body.
---
 soil_simulator/intersecting_cells.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/soil_simulator/intersecting_cells.cpp b/soil_simulator/intersecting_cells.cpp
index b9e2d89..f9aba3b 100644
--- a/soil_simulator/intersecting_cells.cpp
+++ b/soil_simulator/intersecting_cells.cpp
@@ -197,6 +197,10 @@ void soil_simulator::MoveIntersectingBody(SimOut* sim_out, float tol
         {1, 0}, {-1, 0}, {0, 1}, {0, -1},
         {1, 1}, {1, -1}, {-1, 1}, {-1, -1}};
 
+    // Determining the size of the grid
+    int size_x = sim_out->terrain_.size();
+    int size_y = sim_out->terrain_[0].size();
+
     // Iterating over intersecting cells
     for (auto nn = 0; nn < intersecting_cells.size(); nn++) {
         int ind = intersecting_cells[nn][0];
@@ -221,15 +225,26 @@ void soil_simulator::MoveIntersectingBody(SimOut* sim_out, float tol
         float h_soil = sim_out->terrain_[ii][jj] - sim_out->body_[ind][ii][jj];
 
         int pp = 0;
+        bool in_grid = true;
         // Investigating farther and farther until all the soil has been moved
-        while (h_soil > tol) {
+        // or until all the directions have reached the border of the grid
+        while ((h_soil > tol) && in_grid) {
             pp += 1;
+            in_grid = false;
             // Iterating over the eight lateral directions
             for (auto xy = 0; xy < directions.size(); xy++) {
                 // Calculating considered position
                 int ii_p = ii + directions[xy][0] * pp;
                 int jj_p = jj + directions[xy][1] * pp;
 
+                if (
+                    (ii_p < 0) || (ii_p >= size_x) ||
+                    (jj_p < 0) || (jj_p >= size_y)) {
+                    // Position is outside of the grid
+                    continue;
+                }
+                in_grid = true;
+
                 // Determining presence of body
                 bool body_absence_1 = (
                     (sim_out->body_[0][ii_p][jj_p] == 0.0) &&
@@ -277,6 +292,13 @@ void soil_simulator::MoveIntersectingBody(SimOut* sim_out, float tol
             }
         }
 
+        if (h_soil > tol) {
+            // For cases where there is no space up to the border of the grid
+            LOG(WARNING) << "WARNING\nNot all terrain intersecting with a body "
+                "layer could be moved.\nThe extra soil has been arbitrarily "
+                "removed.";
+        }
+
         // Removing intersecting soil
         sim_out->terrain_[ii][jj] = sim_out->body_[ind][ii][jj];
     }
-- 
2.43.0


From 6dd575dd41d1d5382f96d2c6ca5d3933c87a3c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:14 +0000
Subject: [PATCH 3/3] fix: WriteSoil must not overwrite a body soil file that
 exists without its terrain file

---
 soil_simulator/utils.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soil_simulator/utils.cpp b/soil_simulator/utils.cpp
index 444b0a6..25dc794 100644
--- a/soil_simulator/utils.cpp
+++ b/soil_simulator/utils.cpp
@@ -510,10 +510,13 @@ void soil_simulator::WriteSoil(
             path + "terrain_" + std::string(nn, '0').append(file_number)
             + ".csv");
 
-        // Checking if file exists
+        // Checking if one of the two files exists
         std::ifstream infile(terrain_filename);
-        if (!infile.good()) {
-            // File does not exist
+        std::ifstream body_soil_infile(
+            path + "body_soil_" + std::string(nn, '0').append(file_number)
+            + ".csv");
+        if (!infile.good() && !body_soil_infile.good()) {
+            // Neither file exists
             break;
         }
     }
-- 
2.43.0

