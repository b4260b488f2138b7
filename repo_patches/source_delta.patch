From ad1776f576cd5348ddbc9b3707adf68cbd7fcac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:52 +0000
Subject: [PATCH 01/27] fix: place ghost and interior grid nodes correctly for
 any padding width

---
 src/cpu/grid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/grid.cc b/src/cpu/grid.cc
index 00a7f95..b0a0ca5 100644
--- a/src/cpu/grid.cc
+++ b/src/cpu/grid.cc
@@ -188,7 +188,7 @@ void GALS::CPU::Grid<T, DIM>::generate(T x_min, T x_max, T y_min, T y_max, T z_m
 
   for (int i = 0; i < DIM; ++i) m_one_over_dx[i] = static_cast<T>(1.) / m_dx[i];
 
-  for (int i = 0; i < DIM; ++i) domain_min_new[i] = domain_min[i] + (m_dx[i] * 0.5) - (m_dx[i] * m_mask[i]);
+  for (int i = 0; i < DIM; ++i) domain_min_new[i] = domain_min[i] + (m_dx[i] * 0.5) - (m_dx[i] * m_pad * m_mask[i]);
 
   Vec3<T> elem;
 
-- 
2.43.0


From cba9585880800c5b788f10ec4ed94ece86016db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:52 +0000
Subject: [PATCH 02/27] fix: second order gradient of a vector differentiates
 along the column axis

---
 src/cpu/gradient/second-order-central.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/gradient/second-order-central.cc b/src/cpu/gradient/second-order-central.cc
index da69738..ca00650 100644
--- a/src/cpu/gradient/second-order-central.cc
+++ b/src/cpu/gradient/second-order-central.cc
@@ -81,8 +81,8 @@ void GALS::CPU::SecondOrderCentral<T, T_GRID>::compute(const Array<T_GRID, Vec3<
             typename T_GRID::value_type one_by_dx = static_cast<typename T_GRID::value_type>(1.) / dx[cmpt];
 
             grad_alpha(i, j, k)(axis, cmpt) =
-                (alpha(i + axis_vectors(axis, 0), j + axis_vectors(axis, 1), k + axis_vectors(axis, 2))[axis] -
-                 alpha(i - axis_vectors(axis, 0), j - axis_vectors(axis, 1), k - axis_vectors(axis, 2))[axis]) *
+                (alpha(i + axis_vectors(cmpt, 0), j + axis_vectors(cmpt, 1), k + axis_vectors(cmpt, 2))[axis] -
+                 alpha(i - axis_vectors(cmpt, 0), j - axis_vectors(cmpt, 1), k - axis_vectors(cmpt, 2))[axis]) *
                 one_by_dx * static_cast<T>(0.5);
           }
         }
-- 
2.43.0


From 4f07aa7b15696eac48ab3ec04b1fe5257e7acb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:52 +0000
Subject: [PATCH 03/27] fix: third order gradient of a vector differentiates
 along the column axis

---
 src/cpu/gradient/third-order.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cpu/gradient/third-order.cc b/src/cpu/gradient/third-order.cc
index be3f517..005fd2d 100644
--- a/src/cpu/gradient/third-order.cc
+++ b/src/cpu/gradient/third-order.cc
@@ -81,11 +81,11 @@ void GALS::CPU::ThirdOrder<T, T_GRID>::compute(const Array<T_GRID, Vec3<T>> &alp
             typename T_GRID::value_type one_by_dx = static_cast<typename T_GRID::value_type>(1.) / (6 * dx[cmpt]);
 
             grad_alpha(i, j, k)(axis, cmpt) =
-                (2 * alpha(i + axis_vectors(axis, 0), j + axis_vectors(axis, 1), k + axis_vectors(axis, 2))[axis] +
+                (2 * alpha(i + axis_vectors(cmpt, 0), j + axis_vectors(cmpt, 1), k + axis_vectors(cmpt, 2))[axis] +
                  3 * alpha(i, j, k)[axis] -
-                 6 * alpha(i - axis_vectors(axis, 0), j - axis_vectors(axis, 1), k - axis_vectors(axis, 2))[axis] +
-                 1 * alpha(i - 2 * axis_vectors(axis, 0), j - 2 * axis_vectors(axis, 1),
-                           k - 2 * axis_vectors(axis, 2))[axis]) *
+                 6 * alpha(i - axis_vectors(cmpt, 0), j - axis_vectors(cmpt, 1), k - axis_vectors(cmpt, 2))[axis] +
+                 1 * alpha(i - 2 * axis_vectors(cmpt, 0), j - 2 * axis_vectors(cmpt, 1),
+                           k - 2 * axis_vectors(cmpt, 2))[axis]) *
                 one_by_dx;
           }
         }
-- 
2.43.0


From 9c6266286ba73d08cd475ece57f623deee262b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:52 +0000
Subject: [PATCH 04/27] fix: Vec3::min returns the smallest component when two
 components tie

---
 src/cpu/vec3.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/vec3.cc b/src/cpu/vec3.cc
index b9a67b5..00626e1 100644
--- a/src/cpu/vec3.cc
+++ b/src/cpu/vec3.cc
@@ -76,8 +76,8 @@ const double GALS::CPU::Vec3<T>::mag() const
 template <typename T>
 const T GALS::CPU::Vec3<T>::min() const
 {
-  if (m_data[0] < m_data[1] && m_data[0] < m_data[2]) return m_data[0];
-  if (m_data[1] < m_data[0] && m_data[1] < m_data[2]) return m_data[1];
+  if (m_data[0] <= m_data[1] && m_data[0] <= m_data[2]) return m_data[0];
+  if (m_data[1] <= m_data[0] && m_data[1] <= m_data[2]) return m_data[1];
   return m_data[2];
 }
 
-- 
2.43.0


From fa33ad78ed7fcaaf4c52767713d34cc3f9b9796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:57 +0000
Subject: [PATCH 05/27] fix: circular velocity rotates about the configured
 centre

---
 src/cpu/analytical-fields/velocity.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 7bf653e..c6ac50f 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -69,8 +69,8 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
         for (int j = 0; j < num_cells[1]; ++j)
           for (int k = 0; k < num_cells[2]; ++k) {
             for (int cmpt = 0; cmpt < T_GRID::dim; ++cmpt) {
-              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center[cmpt] - positions(i, j, k)[cmpt + 1]);
-              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center[cmpt]);
+              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center[cmpt + 1] - positions(i, j, k)[cmpt + 1]);
+              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center[cmpt - 1]);
             }
 
             velocity(i, j, k) = velocity_node;
-- 
2.43.0


From 319376a3615cc73d982315b29cd85834df70da24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:39 +0000
Subject: [PATCH 06/27] fix: analytical velocity gradient is stored at its own
 cell

---
 src/cpu/analytical-fields/velocity.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index c6ac50f..4a058dd 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -85,10 +85,10 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
             for (int k = 0; k < num_cells[2]; ++k) {
               for (int cmpt = 0; cmpt < T_GRID::dim; ++cmpt) {
                 for (int derv = 0; derv < T_GRID::dim; ++derv) {
-                  if (cmpt == 0 && derv == 0) velocity_gradient[cmpt][derv] = static_cast<T>(0);
-                  if (cmpt == 0 && derv == 1) velocity_gradient[cmpt][derv] = -coeff;
-                  if (cmpt == 1 && derv == 0) velocity_gradient[cmpt][derv] = coeff;
-                  if (cmpt == 1 && derv == 1) velocity_gradient[cmpt][derv] = static_cast<T>(0);
+                  if (cmpt == 0 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
+                  if (cmpt == 0 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = -coeff;
+                  if (cmpt == 1 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = coeff;
+                  if (cmpt == 1 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
                 }
               }
             }
-- 
2.43.0


From 55bf986082b3817ce38cfbbdc66e5213e8e24f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:01 +0000
Subject: [PATCH 07/27] fix: reject a cells list with fewer than three entries
 instead of reading past it

---
 src/cpu/input-parser/grid.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpu/input-parser/grid.cc b/src/cpu/input-parser/grid.cc
index 39041ca..9b58de1 100644
--- a/src/cpu/input-parser/grid.cc
+++ b/src/cpu/input-parser/grid.cc
@@ -51,9 +51,9 @@ void GALS::INPUT_PARSER::Grid::parse(const YAML::Node &field, GALS::INPUT_FIELDS
   input_fields.m_grid->z_max = field["box"]["z_max"].as<double>();
 
   // Number of cells.
-  input_fields.m_grid->nx = field["cells"].as<std::vector<int>>()[0];
-  input_fields.m_grid->ny = field["cells"].as<std::vector<int>>()[1];
-  input_fields.m_grid->nz = field["cells"].as<std::vector<int>>()[2];
+  input_fields.m_grid->nx = field["cells"].as<std::vector<int>>().at(0);
+  input_fields.m_grid->ny = field["cells"].as<std::vector<int>>().at(1);
+  input_fields.m_grid->nz = field["cells"].as<std::vector<int>>().at(2);
 }
 
 void GALS::INPUT_PARSER::Grid::operator()(const YAML::Node &field, GALS::INPUT_FIELDS::InputFields *p_input_fields)
-- 
2.43.0


From 9df471399cb0a92cee72c58b88a795cb97426671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:17 +0000
Subject: [PATCH 08/27] fix: reject a levelset center without exactly three
 components

---
 src/cpu/input-parser/levelset.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cpu/input-parser/levelset.cc b/src/cpu/input-parser/levelset.cc
index 919ecdf..5fbfbbe 100644
--- a/src/cpu/input-parser/levelset.cc
+++ b/src/cpu/input-parser/levelset.cc
@@ -32,6 +32,7 @@
 #include "gals/input-parser/levelset.h"
 #include "gals/input-fields/levelset.h"
 
+#include <stdexcept>
 #include <vector>
 
 GALS::INPUT_PARSER::Levelset::Levelset() {}
@@ -43,7 +44,11 @@ void GALS::INPUT_PARSER::Levelset::parse(const YAML::Node &field, GALS::INPUT_FI
   auto &input_fields = *p_input_fields;
 
   input_fields.m_levelset->name = field["name"].as<std::string>();
-  input_fields.m_levelset->center = GALS::CPU::Vec3<double>(field["center"].as<std::vector<double>>());
+
+  const auto center = field["center"].as<std::vector<double>>();
+  if (center.size() != 3) throw std::invalid_argument("levelset: center must have three components");
+  input_fields.m_levelset->center = GALS::CPU::Vec3<double>(center);
+
   input_fields.m_levelset->radius = field["radius"].as<double>();
   input_fields.m_levelset->gradient_scheme = field["gradient"]["scheme"].as<std::string>();
 }
-- 
2.43.0


From e28c1cab4a281a900f619a8de3bd761aebd46ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:42 +0000
Subject: [PATCH 09/27] fix: reject a velocity center without exactly three
 components

---
 src/cpu/input-parser/velocity.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cpu/input-parser/velocity.cc b/src/cpu/input-parser/velocity.cc
index f787bcf..6909189 100644
--- a/src/cpu/input-parser/velocity.cc
+++ b/src/cpu/input-parser/velocity.cc
@@ -32,6 +32,7 @@
 #include "gals/input-parser/velocity.h"
 #include "gals/input-fields/velocity.h"
 
+#include <stdexcept>
 #include <vector>
 
 GALS::INPUT_PARSER::Velocity::Velocity() {}
@@ -44,7 +45,11 @@ void GALS::INPUT_PARSER::Velocity::parse(const YAML::Node &field, GALS::INPUT_FI
 
   input_fields.m_velocity->name = field["name"].as<std::string>();
   input_fields.m_velocity->vector = field["vector"].as<std::vector<double>>();
-  input_fields.m_velocity->center = field["center"].as<std::vector<double>>();
+
+  const auto center = field["center"].as<std::vector<double>>();
+  if (center.size() != 3) throw std::invalid_argument("velocity: center must have three components");
+  input_fields.m_velocity->center = center;
+
   input_fields.m_velocity->gradient_scheme = field["gradient"]["scheme"].as<std::string>();
 }
 
-- 
2.43.0


From 6fb583ecd5f4f6fcbeb79398e3f40ee9876170dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:29 +0000
Subject: [PATCH 10/27] fix: error macros stay inside the branch that uses them
 in production builds

---
 include/gals/utilities/utilities.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/gals/utilities/utilities.h b/include/gals/utilities/utilities.h
index 3261c35..bf77167 100644
--- a/include/gals/utilities/utilities.h
+++ b/include/gals/utilities/utilities.h
@@ -37,17 +37,21 @@
 namespace GALS
 {
 #ifndef BUILD_TESTS
-#define GALS_FUNCTION_NOT_IMPLEMENTED(var)                        \
-  std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl; \
-  exit(0);
+#define GALS_FUNCTION_NOT_IMPLEMENTED(var)                          \
+  {                                                                 \
+    std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl; \
+    exit(0);                                                        \
+  }
 #else
 #define GALS_FUNCTION_NOT_IMPLEMENTED(var) std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl;
 #endif
 
 #ifndef BUILD_TESTS
-#define GALS_ABORT(var)                        \
-  std::cout << "ERROR: " << #var << std::endl; \
-  exit(0);
+#define GALS_ABORT(var)                          \
+  {                                              \
+    std::cout << "ERROR: " << #var << std::endl; \
+    exit(0);                                     \
+  }
 #else
 #define GALS_ABORT(var) std::cout << "ERROR: " << #var << std::endl;
 #endif
-- 
2.43.0


From edf4550aab50e47829e27411c64e996a8c1411b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:40 +0000
Subject: [PATCH 11/27] fix: include <cstring> in the advection program

std::strcmp was used without its header, so the program did not compile.
---
 applications/advection/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index ddbe361..570baa3 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -29,6 +29,7 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 ///////////////////////////////////////////////////////////////////////////////
 
+#include <cstring>
 #include <iostream>
 #include <string>
 
-- 
2.43.0


From b5a8a50ff2ff313b1b7cccde5b2611aef92d8fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:13 +0000
Subject: [PATCH 12/27] fix: give the advection program's grid the two ghost
 cells its gradient reads

The third order gradient uses a two cell stencil while the grid had the
default single ghost layer, so fields were read out of bounds.
---
 applications/advection/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index 570baa3..5d172db 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -79,6 +79,7 @@ int main(int argc, char **argv)
   // Construct grid.
   const auto &grid_inputs = *(input_fields.m_grid);
   T_GRID grid(grid_inputs.nx, grid_inputs.ny, grid_inputs.nz);
+  grid.setPadding(2);  // third order gradient reads two ghost cells on each side.
   grid.generate(grid_inputs.x_min, grid_inputs.x_max, grid_inputs.y_min, grid_inputs.y_max, grid_inputs.z_min,
                 grid_inputs.z_max);
 
-- 
2.43.0


From 231c20da046bc2317143b586c3cb37675bbda3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:49 +0000
Subject: [PATCH 13/27] fix: choose the advection program's time step from the
 grid's own axes

The dynamic step took the minimum spacing over all three axes of a 2D
grid.  With z_min equal to z_max it was zero and the program never ended.
---
 applications/advection/main.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index 5d172db..b949fbf 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -29,6 +29,7 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 ///////////////////////////////////////////////////////////////////////////////
 
+#include <algorithm>
 #include <cstring>
 #include <iostream>
 #include <string>
@@ -133,7 +134,10 @@ int main(int argc, char **argv)
   T sim_time = static_cast<T>(0);
 
   if (!is_dt_fixed) {
-    dt = grid.dX().min() * static_cast<T>(0.5);
+    // Only axes of the grid restrict dt: along others the spacing may be arbitrarily small, even zero.
+    T dx_min = grid.dX()[0];
+    for (int d = 1; d < dim; ++d) dx_min = std::min(dx_min, grid.dX()[d]);
+    dt = dx_min * static_cast<T>(0.5);
   }
 
   // Time loop
-- 
2.43.0


From 4b5b408e89da62d3661dacba0ea3635a8ae31179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:21 +0000
Subject: [PATCH 14/27] fix: trace the last row and column of nodes in the
 serial reference solver

advection_point skipped the last row and column, so those nodes were
treated as if they came from the origin.  The column-range version used by
the parallel programs traces every node.
---
 src/reference/AdvectionPointCalcs.h            | 4 ++--
 src/reference/SerialCode/AdvectionPointCalcs.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reference/AdvectionPointCalcs.h b/src/reference/AdvectionPointCalcs.h
index c799590..7a8b04b 100755
--- a/src/reference/AdvectionPointCalcs.h
+++ b/src/reference/AdvectionPointCalcs.h
@@ -62,8 +62,8 @@ namespace galsfunctions
         unsigned int nx = x.size();
         unsigned int ny = y.size();
 
-        for(unsigned int i = 0; i < ny - 1; i++){  // loop for y - rows in the array
-            for(unsigned int j = 0; j < nx - 1; j++){  // loop for x - columns in the array
+        for(unsigned int i = 0; i < ny; i++){  // loop for y - rows in the array
+            for(unsigned int j = 0; j < nx; j++){  // loop for x - columns in the array
 
                 double ux = Velx(x[j], y[i], (t + 1) * dt, T_period);
                 double vy = Vely(x[j], y[i], (t + 1) * dt, T_period);
diff --git a/src/reference/SerialCode/AdvectionPointCalcs.h b/src/reference/SerialCode/AdvectionPointCalcs.h
index c799590..7a8b04b 100755
--- a/src/reference/SerialCode/AdvectionPointCalcs.h
+++ b/src/reference/SerialCode/AdvectionPointCalcs.h
@@ -62,8 +62,8 @@ namespace galsfunctions
         unsigned int nx = x.size();
         unsigned int ny = y.size();
 
-        for(unsigned int i = 0; i < ny - 1; i++){  // loop for y - rows in the array
-            for(unsigned int j = 0; j < nx - 1; j++){  // loop for x - columns in the array
+        for(unsigned int i = 0; i < ny; i++){  // loop for y - rows in the array
+            for(unsigned int j = 0; j < nx; j++){  // loop for x - columns in the array
 
                 double ux = Velx(x[j], y[i], (t + 1) * dt, T_period);
                 double vy = Vely(x[j], y[i], (t + 1) * dt, T_period);
-- 
2.43.0


From 5ef4a34d84a5a6c459b0d8e4cc90f70c1981e335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:25 +0000
Subject: [PATCH 15/27] fix: make the mixed derivative temporaries private to
 each thread

They were shared by all OpenMP threads, a data race that could mix the
differences of two nodes.
---
 src/reference/AdvectionPointCalcs.h            | 4 ++--
 src/reference/SerialCode/AdvectionPointCalcs.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reference/AdvectionPointCalcs.h b/src/reference/AdvectionPointCalcs.h
index 7a8b04b..dd273df 100755
--- a/src/reference/AdvectionPointCalcs.h
+++ b/src/reference/AdvectionPointCalcs.h
@@ -377,10 +377,10 @@ namespace galsfunctions
 void update_mixed_derivatives(gridarray &temppsix, gridarray &temppsiy, gridarray &temppsixy,
 				unsigned int nx, unsigned int ny, double dx, double dy)
 {
-double dxy1, dxy2;
-double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
 # pragma omp parallel
 {
+double dxy1, dxy2;
+double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives, private to each thread
 # pragma omp for schedule(static) collapse(2) 
 for(unsigned int k = 0; k < ny; k++){
     for(unsigned int l = 0; l < nx; l++){
diff --git a/src/reference/SerialCode/AdvectionPointCalcs.h b/src/reference/SerialCode/AdvectionPointCalcs.h
index 7a8b04b..dd273df 100755
--- a/src/reference/SerialCode/AdvectionPointCalcs.h
+++ b/src/reference/SerialCode/AdvectionPointCalcs.h
@@ -377,10 +377,10 @@ namespace galsfunctions
 void update_mixed_derivatives(gridarray &temppsix, gridarray &temppsiy, gridarray &temppsixy,
 				unsigned int nx, unsigned int ny, double dx, double dy)
 {
-double dxy1, dxy2;
-double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
 # pragma omp parallel
 {
+double dxy1, dxy2;
+double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives, private to each thread
 # pragma omp for schedule(static) collapse(2) 
 for(unsigned int k = 0; k < ny; k++){
     for(unsigned int l = 0; l < nx; l++){
-- 
2.43.0


From afd53892896fa649fac7314799804b35e6dea382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:32 +0000
Subject: [PATCH 16/27] fix: let only the first process write the initial
 fields in the MPI programs

Both processes removed and appended the same files, so the initial block
and details.txt were duplicated or lost depending on timing.
---
 src/reference/GALS_Advection_MPI.cpp        | 30 ++++++++++++---------
 src/reference/GALS_Advection_MPI_OpenMP.cpp | 20 ++++++++------
 2 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/reference/GALS_Advection_MPI.cpp b/src/reference/GALS_Advection_MPI.cpp
index f0c07ab..9d2ca17 100755
--- a/src/reference/GALS_Advection_MPI.cpp
+++ b/src/reference/GALS_Advection_MPI.cpp
@@ -77,15 +77,17 @@ int main(int argc, char **argv){
     gridarray tempphi(mphi), temppsix(mpsix), temppsiy(mpsiy), temppsixy(mpsixy);	// Making level set matrix copies for time loop use
     
     
-    // Removing existing files with these names if any
-    remove("phi.txt");
-    remove("psix.txt");
-    remove("psiy.txt");
-    remove("psixy.txt");
-    remove("details.txt");
-    remove("Velocity_x.txt");
-    remove("Velocity_y.txt");
-    fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    // Removing existing files with these names if any; only one process may touch the files
+    if(ctx.rank() == 0){
+        remove("phi.txt");
+        remove("psix.txt");
+        remove("psiy.txt");
+        remove("psixy.txt");
+        remove("details.txt");
+        remove("Velocity_x.txt");
+        remove("Velocity_y.txt");
+        fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    }
     
     /*
      * Let the following represent one cell
@@ -103,10 +105,12 @@ int main(int argc, char **argv){
      *
      */
     
-    ofstream details;
-    details.open("details.txt", ios::out | ios::app);
-    details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
-    details.close();
+    if(ctx.rank() == 0){
+        ofstream details;
+        details.open("details.txt", ios::out | ios::app);
+        details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
+        details.close();
+    }
     
     // TIME STEPPING LOOP
     // If only the initial and final profiles are needed
diff --git a/src/reference/GALS_Advection_MPI_OpenMP.cpp b/src/reference/GALS_Advection_MPI_OpenMP.cpp
index 998a589..2fd865e 100755
--- a/src/reference/GALS_Advection_MPI_OpenMP.cpp
+++ b/src/reference/GALS_Advection_MPI_OpenMP.cpp
@@ -90,10 +90,12 @@ int main(int argc, char **argv){
     gridarray tempphi(mphi), temppsix(mpsix), temppsiy(mpsiy), temppsixy(mpsixy);	// Making level set matrix copies for time loop use
 
 
-    // Removing existing files with these names if any
-    remove("phi.txt");         remove("psix.txt");         remove("psiy.txt");     remove("psixy.txt");  
-    remove("Velocity_x.txt");  remove("Velocity_y.txt");   remove("details.txt");
-    fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    // Removing existing files with these names if any; only one process may touch the files
+    if(ctx.rank() == 0){
+        remove("phi.txt");         remove("psix.txt");         remove("psiy.txt");     remove("psixy.txt");  
+        remove("Velocity_x.txt");  remove("Velocity_y.txt");   remove("details.txt");
+        fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    }
 
     /*
      * Let the following represent one cell
@@ -111,10 +113,12 @@ int main(int argc, char **argv){
      *
      */
 
-    ofstream details;
-    details.open("details.txt", ios::out | ios::app);
-    details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
-    details.close();
+    if(ctx.rank() == 0){
+        ofstream details;
+        details.open("details.txt", ios::out | ios::app);
+        details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
+        details.close();
+    }
 
     // TIME STEPPING LOOP
     // If only the initial and final profiles are needed
-- 
2.43.0


From f85ae33ebeb80656f6aeedfdcc38fb3905c963dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:59 +0000
Subject: [PATCH 17/27] fix: exchange whole doubles between the MPI processes

The buffers hold double but were sent and received as MPI_FLOAT with the
same count, so half of each buffer never arrived.
---
 src/reference/GALS_Advection_MPI.cpp        | 20 ++++++++++----------
 src/reference/GALS_Advection_MPI_OpenMP.cpp | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/reference/GALS_Advection_MPI.cpp b/src/reference/GALS_Advection_MPI.cpp
index 9d2ca17..73bc558 100755
--- a/src/reference/GALS_Advection_MPI.cpp
+++ b/src/reference/GALS_Advection_MPI.cpp
@@ -150,8 +150,8 @@ int main(int argc, char **argv){
             advection_point_MPI(x, y, xadv, yadv, t, dt, T_period,0,nnx, backtrace_scheme);
             
             // receive the data from node-2
-            MPI_Recv(&(A1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(B1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(A1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(B1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
             
             
             // populate the full data to xadv and yadv
@@ -173,9 +173,9 @@ int main(int argc, char **argv){
             find_advection_point_location_MPI(x, y, xadv, yadv, cellx, celly, tracker, xlim1, xlim2, ylim1, ylim2,0,nnx);
             
             // receive the data from node-2
-            MPI_Recv(&(A3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(B3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(C3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(A3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(B3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(C3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
             
             
             // populate the full data to xadv and yadv
@@ -239,8 +239,8 @@ int main(int argc, char **argv){
             }
             
             //send data to node-1
-            MPI_Send(&(A1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(B1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(A1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(B1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
             
             
             
@@ -260,9 +260,9 @@ int main(int argc, char **argv){
             }
             
             //send data to node-1
-            MPI_Send(&(A3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(B3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(C3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(A3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(B3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(C3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
             
         }  	    // end of node-2
     } // end of time marching loop
diff --git a/src/reference/GALS_Advection_MPI_OpenMP.cpp b/src/reference/GALS_Advection_MPI_OpenMP.cpp
index 2fd865e..67e5f5d 100755
--- a/src/reference/GALS_Advection_MPI_OpenMP.cpp
+++ b/src/reference/GALS_Advection_MPI_OpenMP.cpp
@@ -154,8 +154,8 @@ int main(int argc, char **argv){
         advection_point_MPI(x, y, xadv, yadv, t, dt, T_period,0,nnx, backtrace_scheme);
 
 	// receive the data from node-2
-	MPI_Recv(&(A1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-        MPI_Recv(&(B1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(A1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+        MPI_Recv(&(B1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
 
 	// populate the recevied data to the current data array
 	# pragma omp parallel
@@ -179,9 +179,9 @@ int main(int argc, char **argv){
 	find_advection_point_location_MPI(x, y, xadv, yadv, cellx, celly, tracker, xlim1, xlim2, ylim1, ylim2,0,nnx);
 
 	// receive the data from node-2
-	MPI_Recv(&(A3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-        MPI_Recv(&(B3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-	MPI_Recv(&(C3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(A3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+        MPI_Recv(&(B3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(C3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
 
 	// populate the recevied data to the current data array
 	# pragma omp parallel
@@ -256,8 +256,8 @@ int main(int argc, char **argv){
 	}
 
 	//send data to node-1
-	MPI_Send(&(A1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-        MPI_Send(&(B1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(A1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+        MPI_Send(&(B1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
 
 	// end of fct-1
         //---------------------------------------------------------------------------
@@ -283,9 +283,9 @@ int main(int argc, char **argv){
 	}
 
 	//send data to node-1
-	MPI_Send(&(A3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-        MPI_Send(&(B3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-	MPI_Send(&(C3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(A3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+        MPI_Send(&(B3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(C3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
 	// end of fct-2
 	// ---------------------------------------------------------------------------	
 
-- 
2.43.0


From eaee34b628498e26b39c0fe72039c446c3f4630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:21 +0000
Subject: [PATCH 18/27] fix: keep points between the last node and the domain
 limit in the last cell

The last node is computed as limit + spacing * index and may round to just
below the upper limit.  A point traced in between was located in a cell
beyond the grid, whose data were then read out of bounds.
---
 src/reference/AdvectionPointCalcs.h           | 24 +++++++++----------
 .../SerialCode/AdvectionPointCalcs.h          | 24 +++++++++----------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/reference/AdvectionPointCalcs.h b/src/reference/AdvectionPointCalcs.h
index dd273df..b126e95 100755
--- a/src/reference/AdvectionPointCalcs.h
+++ b/src/reference/AdvectionPointCalcs.h
@@ -113,9 +113,9 @@ namespace galsfunctions
                 if(!xoutofbounds && !youtofbounds)
                 {
                     tracker[i][j] = 1;
-                    locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
+                    locate = std::lower_bound(x.begin(), x.end() - 1, xadv[i][j]);
                     cellx[i][j] = locate - x.begin() - 1;
-                    locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
+                    locate = std::lower_bound(y.begin(), y.end() - 1, yadv[i][j]);
                     celly[i][j] = locate - y.begin() - 1;
                 }
                 else
@@ -124,14 +124,14 @@ namespace galsfunctions
                         tracker[i][j] = 2;
                         if(yadv[i][j] <= ylim1)
                         {
-                            locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
+                            locate = std::lower_bound(x.begin(), x.end() - 1, xadv[i][j]);
                             cellx[i][j] = locate - x.begin() - 1;
                             celly[i][j] = 0;
                         }
                         else
                             if(yadv[i][j] >= ylim2)
                             {
-                                locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
+                                locate = std::lower_bound(x.begin(), x.end() - 1, xadv[i][j]);
                                 cellx[i][j] = locate - x.begin() - 1;
                                 celly[i][j] = ny-2;
                             }
@@ -142,14 +142,14 @@ namespace galsfunctions
                             tracker[i][j] = 3;
                             if(xadv[i][j] <= xlim1)
                             {
-                                locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
+                                locate = std::lower_bound(y.begin(), y.end() - 1, yadv[i][j]);
                                 celly[i][j] = locate - y.begin() - 1;
                                 cellx[i][j] = 0;
                             }
                             else
                                 if(xadv[i][j] >= xlim2)
                                 {
-                                    locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
+                                    locate = std::lower_bound(y.begin(), y.end() - 1, yadv[i][j]);
                                     celly[i][j] = locate - y.begin() - 1;
                                     cellx[i][j] = nx-2;
                                 }
@@ -184,9 +184,9 @@ namespace galsfunctions
                 if(!xoutofbounds && !youtofbounds)
                 {
                     tracker[i][j] = 1;
-                    locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
+                    locate = std::lower_bound(x.begin(), x.end() - 1, xadv[i][j]);
                     cellx[i][j] = locate - x.begin() - 1;
-                    locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
+                    locate = std::lower_bound(y.begin(), y.end() - 1, yadv[i][j]);
                     celly[i][j] = locate - y.begin() - 1;
                 }
                 else
@@ -195,14 +195,14 @@ namespace galsfunctions
                         tracker[i][j] = 2;
                         if(yadv[i][j] <= ylim1)
                         {
-                            locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
+                            locate = std::lower_bound(x.begin(), x.end() - 1, xadv[i][j]);
                             cellx[i][j] = locate - x.begin() - 1;
                             celly[i][j] = 0;
                         }
                         else
                             if(yadv[i][j] >= ylim2)
                             {
-                                locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
+                                locate = std::lower_bound(x.begin(), x.end() - 1, xadv[i][j]);
                                 cellx[i][j] = locate - x.begin() - 1;
                                 celly[i][j] = ny-2;
                             }
@@ -213,14 +213,14 @@ namespace galsfunctions
                             tracker[i][j] = 3;
                             if(xadv[i][j] <= xlim1)
                             {
-                                locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
+                                locate = std::lower_bound(y.begin(), y.end() - 1, yadv[i][j]);
                                 celly[i][j] = locate - y.begin() - 1;
                                 cellx[i][j] = 0;
                             }
                             else
                                 if(xadv[i][j] >= xlim2)
                                 {
-                                    locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
+                                    locate = std::lower_bound(y.begin(), y.end() - 1, yadv[i][j]);
                                     celly[i][j] = locate - y.begin() - 1;
                                     cellx[i][j] = nx-2;
                                 }
diff --git a/src/reference/SerialCode/AdvectionPointCalcs.h b/src/reference/SerialCode/AdvectionPointCalcs.h
index dd273df..b126e95 100755
--- a/src/reference/SerialCode/AdvectionPointCalcs.h
+++ b/src/reference/SerialCode/AdvectionPointCalcs.h
@@ -113,9 +113,9 @@ namespace galsfunctions
                 if(!xoutofbounds && !youtofbounds)
                 {
                     tracker[i][j] = 1;
-                    locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
+                    locate = std::lower_bound(x.begin(), x.end() - 1, xadv[i][j]);
                     cellx[i][j] = locate - x.begin() - 1;
-                    locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
+                    locate = std::lower_bound(y.begin(), y.end() - 1, yadv[i][j]);
                     celly[i][j] = locate - y.begin() - 1;
                 }
                 else
@@ -124,14 +124,14 @@ namespace galsfunctions
                         tracker[i][j] = 2;
                         if(yadv[i][j] <= ylim1)
                         {
-                            locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
+                            locate = std::lower_bound(x.begin(), x.end() - 1, xadv[i][j]);
                             cellx[i][j] = locate - x.begin() - 1;
                             celly[i][j] = 0;
                         }
                         else
                             if(yadv[i][j] >= ylim2)
                             {
-                                locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
+                                locate = std::lower_bound(x.begin(), x.end() - 1, xadv[i][j]);
                                 cellx[i][j] = locate - x.begin() - 1;
                                 celly[i][j] = ny-2;
                             }
@@ -142,14 +142,14 @@ namespace galsfunctions
                             tracker[i][j] = 3;
                             if(xadv[i][j] <= xlim1)
                             {
-                                locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
+                                locate = std::lower_bound(y.begin(), y.end() - 1, yadv[i][j]);
                                 celly[i][j] = locate - y.begin() - 1;
                                 cellx[i][j] = 0;
                             }
                             else
                                 if(xadv[i][j] >= xlim2)
                                 {
-                                    locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
+                                    locate = std::lower_bound(y.begin(), y.end() - 1, yadv[i][j]);
                                     celly[i][j] = locate - y.begin() - 1;
                                     cellx[i][j] = nx-2;
                                 }
@@ -184,9 +184,9 @@ namespace galsfunctions
                 if(!xoutofbounds && !youtofbounds)
                 {
                     tracker[i][j] = 1;
-                    locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
+                    locate = std::lower_bound(x.begin(), x.end() - 1, xadv[i][j]);
                     cellx[i][j] = locate - x.begin() - 1;
-                    locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
+                    locate = std::lower_bound(y.begin(), y.end() - 1, yadv[i][j]);
                     celly[i][j] = locate - y.begin() - 1;
                 }
                 else
@@ -195,14 +195,14 @@ namespace galsfunctions
                         tracker[i][j] = 2;
                         if(yadv[i][j] <= ylim1)
                         {
-                            locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
+                            locate = std::lower_bound(x.begin(), x.end() - 1, xadv[i][j]);
                             cellx[i][j] = locate - x.begin() - 1;
                             celly[i][j] = 0;
                         }
                         else
                             if(yadv[i][j] >= ylim2)
                             {
-                                locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
+                                locate = std::lower_bound(x.begin(), x.end() - 1, xadv[i][j]);
                                 cellx[i][j] = locate - x.begin() - 1;
                                 celly[i][j] = ny-2;
                             }
@@ -213,14 +213,14 @@ namespace galsfunctions
                             tracker[i][j] = 3;
                             if(xadv[i][j] <= xlim1)
                             {
-                                locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
+                                locate = std::lower_bound(y.begin(), y.end() - 1, yadv[i][j]);
                                 celly[i][j] = locate - y.begin() - 1;
                                 cellx[i][j] = 0;
                             }
                             else
                                 if(xadv[i][j] >= xlim2)
                                 {
-                                    locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
+                                    locate = std::lower_bound(y.begin(), y.end() - 1, yadv[i][j]);
                                     celly[i][j] = locate - y.begin() - 1;
                                     cellx[i][j] = nx-2;
                                 }
-- 
2.43.0


From e001e4c899054b26f7c67f398800801c79061227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:28 +0000
Subject: [PATCH 19/27] fix: mask node ids before adding the padding in
 Grid::index

Cell lookup marks missing axes with INT_MAX; adding the padding to it
overflowed a signed int (undefined behaviour) before the mask discarded it.
---
 src/cpu/grid.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cpu/grid.cc b/src/cpu/grid.cc
index b0a0ca5..1973514 100644
--- a/src/cpu/grid.cc
+++ b/src/cpu/grid.cc
@@ -116,8 +116,9 @@ const int GALS::CPU::Grid<T, DIM>::getPadding() const
 template <typename T, int DIM>
 const std::size_t GALS::CPU::Grid<T, DIM>::index(const int i, const int j, const int k) const
 {
-  const std::size_t idx = ((k + m_pad) * (m_nx + 2 * m_pad) * (m_ny + 2 * m_pad) * m_mask[2]) +
-                          ((j + m_pad) * (m_nx + 2 * m_pad) * m_mask[1]) + ((i + m_pad) * m_mask[0]);
+  // Mask the ids first: along missing axes they can be INT_MAX (see baseNodeId), to which nothing may be added.
+  const std::size_t idx = ((k * m_mask[2] + m_pad) * (m_nx + 2 * m_pad) * (m_ny + 2 * m_pad) * m_mask[2]) +
+                          ((j * m_mask[1] + m_pad) * (m_nx + 2 * m_pad) * m_mask[1]) + ((i + m_pad) * m_mask[0]);
 
   return idx;
 }
-- 
2.43.0


From 80f6cb26254dc2d48dd1727d8c016ab997dfd731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:42 +0000
Subject: [PATCH 20/27] fix: give CUDA nodes traced out of both limits a valid
 cell

The cell of such a node was never set, so the update kernel read the level
set at an undefined position.
---
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index a5659b8..c257438 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -113,7 +113,11 @@ __global__ void find_advection_point_location_cuda(double *x, double *y, double
             }
             else
                 if(xoutofbounds && youtofbounds)
+                {
                     tracker[indexToWrite] = 4;
+                    cellx[indexToWrite] = 0;
+                    celly[indexToWrite] = 0;
+                }
 }
 
 __global__ void update_levelset_data_cuda(double *x, double *y, double *xadv, double *yadv, unsigned int *cellx,
-- 
2.43.0


From e9b8ba4bfdcdb684e99c3134b86eaf7c9dfc0d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:52 +0000
Subject: [PATCH 21/27] fix: copy the whole y gradient back from the CUDA
 device

The size of an integer grid was used, so half of psiy.txt kept old values.
---
 src/reference/CUDA/GALS_Advection.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/CUDA/GALS_Advection.cu b/src/reference/CUDA/GALS_Advection.cu
index e9571d5..ff51c4f 100755
--- a/src/reference/CUDA/GALS_Advection.cu
+++ b/src/reference/CUDA/GALS_Advection.cu
@@ -196,7 +196,7 @@ int main(){
             cudaEventRecord(startEvent,0);
             cudaMemcpy(mphi, masterdphi, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
             cudaMemcpy(mpsix, masterdpsix, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
-            cudaMemcpy(mpsiy, masterdpsiy, gridmemoryint, cudaMemcpyDeviceToHost);      // Writing back to host memory
+            cudaMemcpy(mpsiy, masterdpsiy, gridmemory, cudaMemcpyDeviceToHost);      // Writing back to host memory
             cudaEventRecord(stopEvent,0);
             cudaEventSynchronize(stopEvent);
             cudaEventElapsedTime(&tempt, startEvent, stopEvent);
-- 
2.43.0


From f86ae79690ae78c22e75bca908673356cd074fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:03 +0000
Subject: [PATCH 22/27] fix: write the current cross derivative in the CUDA
 program

psixy.txt repeated the initial cross derivative at every printed step.
---
 src/reference/CUDA/GALS_Advection.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/CUDA/GALS_Advection.cu b/src/reference/CUDA/GALS_Advection.cu
index ff51c4f..7187180 100755
--- a/src/reference/CUDA/GALS_Advection.cu
+++ b/src/reference/CUDA/GALS_Advection.cu
@@ -197,11 +197,11 @@ int main(){
             cudaMemcpy(mphi, masterdphi, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
             cudaMemcpy(mpsix, masterdpsix, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
             cudaMemcpy(mpsiy, masterdpsiy, gridmemory, cudaMemcpyDeviceToHost);      // Writing back to host memory
+            cudaMemcpy(mpsixy, dpsixy, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
             cudaEventRecord(stopEvent,0);
             cudaEventSynchronize(stopEvent);
             cudaEventElapsedTime(&tempt, startEvent, stopEvent);
             t_transfer += tempt;
-            //cudaMemcpy(mpsixy, masterdpsixy, gridmemoryint, cudaMemcpyDeviceToHost);  // Writing back to host memory
             fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,(t+1)*dt,T_period);
         }
         cout<< t+1;
-- 
2.43.0


From bf7777c9b418b791af54cff8d450e4cf1a6e31a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:14 +0000
Subject: [PATCH 23/27] fix: difference the same column in the CUDA cross
 derivative corner

At the upper left corner the y difference mixed two columns.
---
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index c257438..e40ca56 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -238,7 +238,7 @@ __global__ void update_mixed_derivatives(double *temppsix, double *temppsiy, dou
                 else if(index_y == ny-1 && index_x == 0){
                     double d1 = (temppsiy[nx *(ny-2) + 1] - temppsiy[nx *(ny-2)])/dx;
                     double d2 = (temppsix[nx *(ny-1)] - temppsix[nx *(ny-2)])/dy;
-                    double d3 = (temppsix[nx *(ny-1)] - temppsix[nx *(ny-2) + 1])/dy;
+                    double d3 = (temppsix[nx *(ny-1) + 1] - temppsix[nx *(ny-2) + 1])/dy;
                     double d4 = (temppsiy[nx *(ny-1) + 1] - temppsiy[nx *(ny-1)])/dx;
                     temppsixy[indexToWrite] = 0.75 * (d2 + d4) - 0.25 * (d3 + d1);
                     
-- 
2.43.0


From bf6cc350f42fbccba818baa3070ee6474bc63de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:27 +0000
Subject: [PATCH 24/27] fix: keep the CUDA cell search inside the grid

A point between the last node (which may round below the limit) and the
limit was located in a cell beyond the grid.
---
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index e40ca56..64e74c9 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -52,7 +52,7 @@ __global__ void advection_point_cuda(double *x, double *y, double *xadv, double
 __device__ unsigned int locationAlgo(double *x, double xadv, unsigned int nx)
 {
     unsigned int location = 0;
-    while (x[location] < xadv && location < nx)
+    while (location < nx - 1 && x[location] < xadv)
         location++;
     if(location == 0)
         return location;
-- 
2.43.0


From dd549d1b2d71a163c254f729c0a213c06c4ccbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:57 +0000
Subject: [PATCH 25/27] fix: cover the whole grid when the CUDA tile does not
 divide it

The number of tiles was rounded down, so the last rows and columns of such
grids were never initialised nor advected.
---
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu | 18 +++++++++++++++++-
 src/reference/CUDA/Allocation.h               |  4 ++++
 src/reference/CUDA/GALS_Advection.cu          |  6 +++---
 src/reference/CUDA/HermiteCUDA.cu             |  6 +++++-
 4 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index 64e74c9..ab9938a 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -9,7 +9,7 @@ in the 2D grid and update the level set.
 #ifndef _AdvectionPointCalcsCUDA_h
 #define _AdvectionPointCalcsCIDA_h
 
-__global__ void advection_point_cuda(double *x, double *y, double *xadv, double *yadv, unsigned int nx,
+__global__ void advection_point_cuda(double *x, double *y, double *xadv, double *yadv, unsigned int nx, unsigned int ny,
         unsigned int t, double dt, double T_period, unsigned int TileSize)
 {
     double c1 = (1/6.0);
@@ -25,6 +25,10 @@ __global__ void advection_point_cuda(double *x, double *y, double *xadv, double
     unsigned int index_x = bx * TileSize + tx;
     unsigned int index_y = by * TileSize + ty;
     
+    // Tiles at the upper ends may reach beyond the grid
+    if(index_x >= nx || index_y >= ny)
+        return;
+    
     double ux = Velx(x[index_x], y[index_y], (t + 1) * dt, T_period);
     double vy = Vely(x[index_x], y[index_y], (t + 1) * dt, T_period);
     
@@ -73,6 +77,10 @@ __global__ void find_advection_point_location_cuda(double *x, double *y, double
     unsigned int index_x = bx * TileSize + tx;
     unsigned int index_y = by * TileSize + ty;
     
+    // Tiles at the upper ends may reach beyond the grid
+    if(index_x >= nx || index_y >= ny)
+        return;
+    
     unsigned int indexToWrite = index_y * nx + index_x;
     
     bool xoutofbounds = false;
@@ -134,6 +142,10 @@ __global__ void update_levelset_data_cuda(double *x, double *y, double *xadv, do
     unsigned int index_x = bx * TileSize + tx;
     unsigned int index_y = by * TileSize + ty;
     
+    // Tiles at the upper ends may reach beyond the grid
+    if(index_x >= nx || index_y >= ny)
+        return;
+    
     unsigned int indexToWrite = index_y * nx + index_x;
     
     double dx = x[2] - x[1];
@@ -211,6 +223,10 @@ __global__ void update_mixed_derivatives(double *temppsix, double *temppsiy, dou
     unsigned int index_x = bx * TileSize + tx;
     unsigned int index_y = by * TileSize + ty;
     
+    // Tiles at the upper ends may reach beyond the grid
+    if(index_x >= nx || index_y >= ny)
+        return;
+    
     unsigned int indexToWrite = index_y * nx + index_x;
     
     if ((index_y == 0 || index_y == ny - 1) && (index_x != 0 && index_x != nx - 1))
diff --git a/src/reference/CUDA/Allocation.h b/src/reference/CUDA/Allocation.h
index c4f293c..62719b6 100755
--- a/src/reference/CUDA/Allocation.h
+++ b/src/reference/CUDA/Allocation.h
@@ -25,6 +25,10 @@ __global__ void allocate_levelset_matrices_CUDA(double *mphi, double *mpsix, dou
     unsigned int index_x = bx * blockDim.x + tx;
     unsigned int index_y = by * blockDim.x + ty;
     
+    // Tiles at the upper ends may reach beyond the grid
+    if(index_x >= nx || index_y >= ny)
+        return;
+    
     unsigned int indexToWrite = index_y * nx + index_x;
     
     double x_t = x[index_x];
diff --git a/src/reference/CUDA/GALS_Advection.cu b/src/reference/CUDA/GALS_Advection.cu
index 7187180..4c82641 100755
--- a/src/reference/CUDA/GALS_Advection.cu
+++ b/src/reference/CUDA/GALS_Advection.cu
@@ -67,7 +67,7 @@ int main(){
         printstep = n;
     
     dim3 dimBlock(TileSize, TileSize);
-    dim3 dimGrid(nx/dimBlock.x, ny/dimBlock.y);
+    dim3 dimGrid((nx + dimBlock.x - 1)/dimBlock.x, (ny + dimBlock.y - 1)/dimBlock.y);
     
     // Node Locations
     double dx = (xlim2 - xlim1)/(nx - 1);
@@ -149,7 +149,7 @@ int main(){
         
         // Find the point from which advection occurs at this time step
         cudaEventRecord(startEvent,0);
-        advection_point_cuda<<<dimGrid,dimBlock>>>(devicex,devicey,dxadv,dyadv,nx,t,dt,T_period,TileSize);
+        advection_point_cuda<<<dimGrid,dimBlock>>>(devicex,devicey,dxadv,dyadv,nx,ny,t,dt,T_period,TileSize);
         cudaEventRecord(stopEvent,0);
         cudaEventSynchronize(stopEvent);
         cudaEventElapsedTime(&tempt, startEvent, stopEvent);
@@ -173,7 +173,7 @@ int main(){
         
         // Create another copy to preserve data which gets modified on the fly in next loop
         cudaEventRecord(startEvent,0);
-        devicetodevicecopy<<<dimGrid,dimBlock>>>(dphi,dpsix,dpsiy,masterdphi,masterdpsix,masterdpsiy,nx,TileSize);
+        devicetodevicecopy<<<dimGrid,dimBlock>>>(dphi,dpsix,dpsiy,masterdphi,masterdpsix,masterdpsiy,nx,ny,TileSize);
         cudaEventRecord(stopEvent,0);
         cudaEventSynchronize(stopEvent);
         cudaEventElapsedTime(&tempt, startEvent, stopEvent);
diff --git a/src/reference/CUDA/HermiteCUDA.cu b/src/reference/CUDA/HermiteCUDA.cu
index c94c97a..359c804 100755
--- a/src/reference/CUDA/HermiteCUDA.cu
+++ b/src/reference/CUDA/HermiteCUDA.cu
@@ -7,7 +7,7 @@ which is the essence of the high accuracy of the current advection scheme.
 #define _HermiteCUDA_h
 
 __global__ void devicetodevicecopy(double *dphi, double *dpsix, double *dpsiy, double *mphi, double *mpsix, double *mpsiy,
-        unsigned int nx, unsigned int TileSize)
+        unsigned int nx, unsigned int ny, unsigned int TileSize)
 {
     unsigned int bx = blockIdx.x;
     unsigned int by = blockIdx.y;
@@ -18,6 +18,10 @@ __global__ void devicetodevicecopy(double *dphi, double *dpsix, double *dpsiy, d
     unsigned int index_x = bx * TileSize + tx;
     unsigned int index_y = by * TileSize + ty;
     
+    // Tiles at the upper ends may reach beyond the grid
+    if(index_x >= nx || index_y >= ny)
+        return;
+    
     unsigned int indexToWrite = index_y * nx + index_x;
     
     mphi[indexToWrite] = dphi[indexToWrite];
-- 
2.43.0


From f4d616e6cce88e7d5e17ef2ef82044f014e0f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:51 +0000
Subject: [PATCH 26/27] fix: take the spacing from the first two nodes so that
 2 x 2 grids work

---
 src/reference/AdvectionPointCalcs.h            | 8 ++++----
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu  | 4 ++--
 src/reference/SerialCode/AdvectionPointCalcs.h | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/reference/AdvectionPointCalcs.h b/src/reference/AdvectionPointCalcs.h
index b126e95..0e1c3d8 100755
--- a/src/reference/AdvectionPointCalcs.h
+++ b/src/reference/AdvectionPointCalcs.h
@@ -239,9 +239,9 @@ namespace galsfunctions
             gridarray &mphi, gridarray &mpsix, gridarray &mpsiy, gridarray &mpsixy, char psischeme[],
             char backtrace_scheme[], unsigned int ny_Node_min, unsigned int ny_Node_max, double T_period){
 
-        double dx = x[2] - x[1];
+        double dx = x[1] - x[0];
         unsigned int ny = y.size();
-        double dy = y[2] - y[1];
+        double dy = y[1] - y[0];
 
         for(unsigned int i = 0; i < ny; i++){  // loop for y - rows in the array
             for(unsigned int j = ny_Node_min; j < ny_Node_max; j++){  // loop for x - columns in the array
@@ -308,9 +308,9 @@ namespace galsfunctions
             char backtrace_scheme[], double T_period){
 
         unsigned int nx = x.size();
-        double dx = x[2] - x[1];
+        double dx = x[1] - x[0];
         unsigned int ny = y.size();
-        double dy = y[2] - y[1];
+        double dy = y[1] - y[0];
         # pragma omp parallel
         {
         # pragma omp for schedule(static) collapse(2)    
diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index ab9938a..32f7a33 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -148,8 +148,8 @@ __global__ void update_levelset_data_cuda(double *x, double *y, double *xadv, do
     
     unsigned int indexToWrite = index_y * nx + index_x;
     
-    double dx = x[2] - x[1];
-    double dy = y[2] - y[1];
+    double dx = x[1] - x[0];
+    double dy = y[1] - y[0];
     
     double phi[4], psix[4], psiy[4], psixy[4];
     
diff --git a/src/reference/SerialCode/AdvectionPointCalcs.h b/src/reference/SerialCode/AdvectionPointCalcs.h
index b126e95..0e1c3d8 100755
--- a/src/reference/SerialCode/AdvectionPointCalcs.h
+++ b/src/reference/SerialCode/AdvectionPointCalcs.h
@@ -239,9 +239,9 @@ namespace galsfunctions
             gridarray &mphi, gridarray &mpsix, gridarray &mpsiy, gridarray &mpsixy, char psischeme[],
             char backtrace_scheme[], unsigned int ny_Node_min, unsigned int ny_Node_max, double T_period){
 
-        double dx = x[2] - x[1];
+        double dx = x[1] - x[0];
         unsigned int ny = y.size();
-        double dy = y[2] - y[1];
+        double dy = y[1] - y[0];
 
         for(unsigned int i = 0; i < ny; i++){  // loop for y - rows in the array
             for(unsigned int j = ny_Node_min; j < ny_Node_max; j++){  // loop for x - columns in the array
@@ -308,9 +308,9 @@ namespace galsfunctions
             char backtrace_scheme[], double T_period){
 
         unsigned int nx = x.size();
-        double dx = x[2] - x[1];
+        double dx = x[1] - x[0];
         unsigned int ny = y.size();
-        double dy = y[2] - y[1];
+        double dy = y[1] - y[0];
         # pragma omp parallel
         {
         # pragma omp for schedule(static) collapse(2)    
-- 
2.43.0


From fe68eb6596abaaf7e0a39a12e2dd67ec9b711f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:50 +0000
Subject: [PATCH 27/27] fix: only look field names up in the shared name tables

Evaluating a level set or velocity whose name is not defined inserted the name
into the process-wide table: a data race between threads that work on separate objects.
---
 src/cpu/analytical-fields/levelset.cc | 5 ++++-
 src/cpu/analytical-fields/velocity.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cpu/analytical-fields/levelset.cc b/src/cpu/analytical-fields/levelset.cc
index 03d006d..667fbee 100644
--- a/src/cpu/analytical-fields/levelset.cc
+++ b/src/cpu/analytical-fields/levelset.cc
@@ -50,7 +50,10 @@ void GALS::ANALYTICAL_FIELDS::Levelset<T_GRID, T>::compute(
   const GALS::CPU::Vec3<int> num_cells = positions.numCells();
   const auto& levelset_name = m_inputs.name;
 
-  switch (levelset_name_map[levelset_name]) {
+  // Only look the name up: the map is shared by everyone, undefined names must not be added to it.
+  const auto name_entry = levelset_name_map.find(levelset_name);
+
+  switch (name_entry == levelset_name_map.end() ? LevelsetFieldNames::NOT_DEFINED : name_entry->second) {
     case LevelsetFieldNames::CIRCLE: {
       auto& phi = levelset.phi();
 
diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 4a058dd..dd96a07 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -54,7 +54,10 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
   const GALS::CPU::Vec3<int> num_cells = positions.numCells();
   const auto& velocity_name = m_inputs.name;
 
-  switch (velocity_name_map[velocity_name]) {
+  // Only look the name up: the map is shared by everyone, undefined names must not be added to it.
+  const auto name_entry = velocity_name_map.find(velocity_name);
+
+  switch (name_entry == velocity_name_map.end() ? VelocityFieldNames::NOT_DEFINED : name_entry->second) {
     case VelocityFieldNames::CIRCULAR: {
       auto& velocity = levelset_velocity.velocity();
 
-- 
2.43.0

