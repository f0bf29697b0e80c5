From 50dbb00f994c9a9b338c6fbd15ccfd72ffdf9936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:57 +0000
Subject: [PATCH 01/23] Add guarded verification hooks (MATTER_VERIF): stage
 observer and read-only accessors

---
 src/simulation/simulation.cpp | 20 +++++++++++++++++++-
 src/simulation/simulation.hpp | 18 ++++++++++++++++++
 src/tools.hpp                 |  6 ++++++
 3 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index 2e2b745..fb0be56 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -155,6 +155,8 @@ void Simulation::simulate(){
         saveParticleData();
     }
 
+    MATTER_VERIF_STAGE("start");
+
     // Total runtime of simulation
     std::chrono::steady_clock::time_point begin = std::chrono::steady_clock::now();
 
@@ -166,8 +168,10 @@ void Simulation::simulate(){
             std::cout << "               Time: " << time   << " -> "   << (frame+1)*frame_dt << std::endl;
         }
         advanceStep();
-        if (exit == 1)
+        if (exit == 1){
+            MATTER_VERIF_STAGE("abort");
             return;
+        }
         time += dt;
         current_time_step++;
         if(frame_dt*(frame+1) - time < min_dt*1.1){
@@ -181,6 +185,7 @@ void Simulation::simulate(){
             }
 
         }
+        MATTER_VERIF_STAGE("clock");
         if (std::abs(final_time-time) < min_dt*1.1 || final_time < time){
             std::cout << "The simulation ended at time = " << time << std::endl;
             if (save_sim){
@@ -204,6 +209,8 @@ void Simulation::simulate(){
 
     if (save_sim)
         saveTiming();
+
+    MATTER_VERIF_STAGE("end");
 }
 
 
@@ -212,6 +219,7 @@ void Simulation::simulate(){
 
 void Simulation::advanceStep(){
     updateDt();
+    MATTER_VERIF_STAGE("dt");
 
     if (pbc){
         if (current_time_step == 0)
@@ -224,9 +232,11 @@ void Simulation::advanceStep(){
             remeshFixedCont();
         }
     }
+    MATTER_VERIF_STAGE("mesh");
 
     if (pbc){
         PBCAddParticles(4);
+        MATTER_VERIF_STAGE("ghosts");
     }
 
     resizeGrid();
@@ -234,6 +244,7 @@ void Simulation::advanceStep(){
     timer t_p2g; t_p2g.start();
     P2G();
     t_p2g.stop(); runtime_p2g += t_p2g.get_timing();
+    MATTER_VERIF_STAGE("p2g");
 
     // checkMassConservation();
     // checkMomentumConservation();
@@ -241,29 +252,36 @@ void Simulation::advanceStep(){
     timer t_euler; t_euler.start();
     explicitEulerUpdate();
     t_euler.stop(); runtime_euler += t_euler.get_timing();
+    MATTER_VERIF_STAGE("grid");
 
     // addExternalParticleGravity();
 
     if (pbc){
         PBCDelParticles();
+        MATTER_VERIF_STAGE("unghost");
     }
 
 
     timer t_g2p; t_g2p.start();
     G2P();
     t_g2p.stop(); runtime_g2p += t_g2p.get_timing();
+    MATTER_VERIF_STAGE("g2p");
 
     if (use_musl){
         MUSL();
+        MATTER_VERIF_STAGE("musl");
 
         timer t_defgrad; t_defgrad.start();
         deformationUpdate();
         t_defgrad.stop(); runtime_defgrad += t_defgrad.get_timing();
+        MATTER_VERIF_STAGE("defo");
     }
 
     positionUpdate();
+    MATTER_VERIF_STAGE("pos");
 
     moveObjects();
+    MATTER_VERIF_STAGE("move");
 
 } // end advanceStep
 
diff --git a/src/simulation/simulation.hpp b/src/simulation/simulation.hpp
index bdbd093..89a3a61 100644
--- a/src/simulation/simulation.hpp
+++ b/src/simulation/simulation.hpp
@@ -20,6 +20,14 @@
 #include "../objects/object_general.hpp"
 #include "../objects/object_plate.hpp"
 
+// Verification builds only: announce the end of a stage to an observer
+#ifdef MATTER_VERIF
+  #include <functional>
+  #define MATTER_VERIF_STAGE(stage) if (verif_observer) verif_observer(stage)
+#else
+  #define MATTER_VERIF_STAGE(stage)
+#endif
+
 class Simulation{
 public:
   Simulation();
@@ -150,6 +158,16 @@ public:
   TM NeoHookeanPiola(TM & Fe);
   TM HenckyPiola(TM & Fe);
 
+#ifdef MATTER_VERIF
+  // Observer called after each stage, and read-only access to the internal state
+  std::function<void(const char*)> verif_observer;
+  T verifTime() const { return time; }
+  T verifDt() const { return dt; }
+  unsigned int verifFrame() const { return frame; }
+  unsigned int verifStep() const { return current_time_step; }
+  const Grid& verifGrid() const { return grid; }
+#endif
+
 private:
 
   unsigned int current_time_step = 0;
diff --git a/src/tools.hpp b/src/tools.hpp
index 9243644..5e5e47a 100644
--- a/src/tools.hpp
+++ b/src/tools.hpp
@@ -22,6 +22,12 @@ typedef double T; // float or double
 // #define WARNINGS // Write more debug info to screen
 ///////////////////////////////////////////////////
 
+// Verification builds only: choose the spline degree from the compiler command line
+#if defined(MATTER_VERIF) && defined(MATTER_VERIF_SPLINEDEG)
+    #undef SPLINEDEG
+    #define SPLINEDEG MATTER_VERIF_SPLINEDEG
+#endif
+
 
 
 // Needed for tinyply (do NOT uncomment):
-- 
2.43.0


From 8e2daf5380761ca83c1ee65c6f1601bfa241396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:13 +0000
Subject: [PATCH 02/23] fix: reduce both tangential components of a 3D plate
 contact by the same factor

The second component was computed from the already reduced first one, so the
direction of the tangential velocity changed and the friction was wrong.
---
 src/simulation/boundary_collision.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/simulation/boundary_collision.cpp b/src/simulation/boundary_collision.cpp
index 227815e..55ebfa5 100644
--- a/src/simulation/boundary_collision.cpp
+++ b/src/simulation/boundary_collision.cpp
@@ -114,8 +114,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vx_rel*vx_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vz_rel*vz_rel));
+                        vx_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vz_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (y) must be set to zero
@@ -136,8 +136,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vy_rel*vy_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vz_rel*vz_rel));
+                        vy_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vz_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (x) must be set to zero
@@ -158,8 +158,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vy_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vx_rel*vx_rel));
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vy_rel*vy_rel));
+                        vx_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vy_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (z) must be set to zero
@@ -189,8 +189,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vx_rel*vx_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vz_rel*vz_rel));
+                        vx_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vz_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (y) must be set to zero
@@ -210,8 +210,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vy_rel*vy_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vz_rel*vz_rel));
+                        vy_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vz_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (x) must be set to zero
@@ -231,8 +231,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vy_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vx_rel*vx_rel));
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vy_rel*vy_rel));
+                        vx_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vy_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (z) must be set to zero
-- 
2.43.0


From 8bb09ed28f97c94d3ed2a98b2c69925a360fa98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:23 +0000
Subject: [PATCH 03/23] fix: zero the z-component of the ground normal in 3D

It was left uninitialised.
---
 src/objects/object_ground.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/objects/object_ground.hpp b/src/objects/object_ground.hpp
index 55b8d10..97d3c76 100644
--- a/src/objects/object_ground.hpp
+++ b/src/objects/object_ground.hpp
@@ -26,7 +26,7 @@ public:
 
     TV normal(const TV& X_in) const override {
 
-        TV n;
+        TV n = TV::Zero();
         
         n(0) = 0;
         n(1) = 1;
-- 
2.43.0


From b95a61d3ed8e4cde5eba7bcf225d1e22fd901e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:03 +0000
Subject: [PATCH 04/23] fix: extend the grid when a particle is exactly a whole
 number of cells outside the initial extent

Rounding the expansion down left such a particle without its outermost node, and
the transfers then read and wrote outside the grid.
---
 src/simulation/remesh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simulation/remesh.cpp b/src/simulation/remesh.cpp
index a1fd82f..d615bb7 100644
--- a/src/simulation/remesh.cpp
+++ b/src/simulation/remesh.cpp
@@ -230,7 +230,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_x_init-max_x)/dx - 1e-8*dx) );
         high_x = high_x_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_x-max_x_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_x-max_x_init)/dx + 1e-8) );
         high_x = high_x_init + expansion_factor * dx;
     }
 
@@ -239,7 +239,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_x-min_x_init)/dx - 1e-8*dx) );
         low_x = low_x_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_x_init-min_x)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_x_init-min_x)/dx + 1e-8) );
         low_x = low_x_init - expansion_factor * dx;
     }
 
@@ -248,7 +248,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_y_init-max_y)/dx - 1e-8*dx) );
         high_y = high_y_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_y-max_y_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_y-max_y_init)/dx + 1e-8) );
         high_y = high_y_init + expansion_factor * dx;
     }
 
@@ -257,7 +257,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_y-min_y_init)/dx - 1e-8*dx) );
         low_y = low_y_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_y_init-min_y)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_y_init-min_y)/dx + 1e-8) );
         low_y = low_y_init - expansion_factor * dx;
     }
 #ifdef THREEDIM
@@ -266,7 +266,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_z_init-max_z)/dx - 1e-8*dx) );
         high_z = high_z_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_z-max_z_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_z-max_z_init)/dx + 1e-8) );
         high_z = high_z_init + expansion_factor * dx;
     }
 
@@ -275,7 +275,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_z-min_z_init)/dx - 1e-8*dx) );
         low_z = low_z_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_z_init-min_z)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_z_init-min_z)/dx + 1e-8) );
         low_z = low_z_init - expansion_factor * dx;
     }
 #endif
-- 
2.43.0


From 50d453f8b224ef4ee6d3e6443091ca1c20258a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:21 +0000
Subject: [PATCH 05/23] fix: add the periodic image of a particle lying exactly
 on the upper end of the period

Such a particle got no image at all, so it contributed only half its mass near the ends.
---
 src/simulation/pbc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 0795fd8..9dc7d64 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -47,7 +47,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         T diff;
 
         diff = Lx - part_x(0);
-        if ( diff < safety_factor*dx && diff > 0){
+        if ( diff < safety_factor*dx && diff >= 0){
             part_x(0) = -diff;
             #pragma omp critical
             {
-- 
2.43.0


From b328aaf731bf08496a554458e6f2b776cb3c20db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:11 +0000
Subject: [PATCH 06/23] fix: do not reallocate the positions while other
 threads read them when adding periodic images

---
 src/simulation/pbc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 9dc7d64..429cf59 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -40,6 +40,9 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
 
     num_add_pbc_particles = 0;
 
+    // At most one image per particle: positions must not be reallocated while other threads read them
+    particles.x.reserve(2*Np);
+
     #pragma omp parallel for reduction(+:num_add_pbc_particles) num_threads(n_threads)
     for(int p = 0; p < Np; p++){
 
-- 
2.43.0


From ba1c2ffaa7ca44b0f7210c7ed1e9c3916090ea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:12 +0000
Subject: [PATCH 07/23] fix: give periodic images the friction of their
 particle

With material-induced boundary friction the transfer to the grid read beyond the
end of the friction array for every image.
---
 src/simulation/pbc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 429cf59..310f2de 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -59,6 +59,8 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
                 particles.F.push_back(particles.F[p]);
                 particles.Bmat.push_back(particles.Bmat[p]);
                 particles.tau.push_back(particles.tau[p]);
+                if (use_mibf)
+                    particles.muI.push_back(particles.muI[p]);
             }
             num_add_pbc_particles++;
             continue; // go directly to next p
@@ -74,6 +76,8 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
                 particles.F.push_back(particles.F[p]);
                 particles.Bmat.push_back(particles.Bmat[p]);
                 particles.tau.push_back(particles.tau[p]);
+                if (use_mibf)
+                    particles.muI.push_back(particles.muI[p]);
             }
             num_add_pbc_particles++;
             continue; // go directly to next p
@@ -100,6 +104,8 @@ void Simulation::PBCDelParticles(){
     particles.F.erase(   particles.F.end()   -num_add_pbc_particles, particles.F.end()   );
     particles.Bmat.erase(particles.Bmat.end()-num_add_pbc_particles, particles.Bmat.end());
     particles.tau.erase( particles.tau.end() -num_add_pbc_particles, particles.tau.end() );
+    if (use_mibf)
+        particles.muI.erase( particles.muI.end() -num_add_pbc_particles, particles.muI.end() );
     Np = particles.x.size();
 
 #ifdef WARNINGS
-- 
2.43.0


From d358a847829f275e9b6e11bb19e10d6f418cd9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:22 +0000
Subject: [PATCH 08/23] fix: include the periodic images when re-projecting
 velocities (MUSL)

The grid mass contains the images but the re-projected momentum did not, so the
velocity near the ends of the period was only a fraction of the particles'.
---
 src/simulation/musl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simulation/musl.cpp b/src/simulation/musl.cpp
index 5ab5e98..af89f92 100644
--- a/src/simulation/musl.cpp
+++ b/src/simulation/musl.cpp
@@ -25,6 +25,9 @@ void Simulation::MUSL(){
     } // end loop over particles
 
 
+    if (pbc)
+        PBCAddParticles(4); // the grid mass includes the periodic images, so must the velocity
+
     std::fill( grid.v.begin(), grid.v.end(), TV::Zero() );
 
     #pragma omp parallel num_threads(n_threads)
@@ -88,6 +91,9 @@ void Simulation::MUSL(){
     } // end omp parallel
 
 
+    if (pbc)
+        PBCDelParticles();
+
     for (int l = 0; l<grid_nodes; l++){
         T mi = grid.mass[l];
         if (mi > 0)
-- 
2.43.0


From c65fc1a2f4963797645fcb0d020d32ddcdff6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:45 +0000
Subject: [PATCH 09/23] fix: zero the stress of a particle released by the
 tension cap of the viscous von Mises law

The deformation was reset to a rotation, but the stress was still computed from
the trial strain.
---
 src/simulation/plasticity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 21f9e1f..3e156fe 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -188,6 +188,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             if (p_trial < p_min * exp(-xi * particles.eps_pl_vol[p])){
                 T delta_gamma = q_trial / f_mu_prefac;
                 T eps_pl_vol_inst = -p_trial/K;
+                hencky.setZero();
                 particles.F[p] = svd.matrixU() * svd.matrixV().transpose();
                 particles.eps_pl_vol[p] += eps_pl_vol_inst;
                 particles.eps_pl_dev[p] += (1.0/d_prefac) * delta_gamma;
-- 
2.43.0


From abe176987bb6b0a167448639d5502cb68980a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:40 +0000
Subject: [PATCH 10/23] fix: use the same pressure in the mu(I) flow equation
 as in the viscosity it yields

With cohesion or a volume correction the trial pressure differs from it (and can be
negative): the return then overshot, reversing the sign of the shear stress.
---
 src/simulation/plasticity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 3e156fe..654fa60 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -437,7 +437,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                 T p_special = p_trial+p_shift - p_tip + stress_tolerance; // p_special is positive.
 
                 T fac_a = f_mu_prefac * dt; // always positive
-                T fac_b = p_trial*(mu_2-mu_1) + f_mu_prefac*dt*fac_Q*std::sqrt(p_special) - (q_trial-q_yield);
+                T fac_b = p_special*(mu_2-mu_1) + f_mu_prefac*dt*fac_Q*std::sqrt(p_special) - (q_trial-q_yield);
                 T fac_c = -(q_trial-q_yield) * fac_Q * std::sqrt(p_special); // always negative 
 
                 // this is gamma_dot:
-- 
2.43.0


From b812f62667ef15699549c79d2241fd8b5c1e9013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:07 +0000
Subject: [PATCH 11/23] fix: keep the pressure in the mu(I) Cam-Clay law
 positive at the tensile end

When the return is clipped there with implicit hardening, it became negative and the
friction coefficient and viscosity of the particle became NaN.
---
 src/simulation/plasticity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 654fa60..9e9b417 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -511,7 +511,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     else if (hardening_law == HardeningLaw::SinhImpl){
                         p_c = std::max( K * std::sinh(-xi*particles.eps_pl_vol[p] + std::asinh(p0/K)) , p_stress + stress_tolerance );
                     }
-                    T p_special = p_stress + beta * p_c + stress_tolerance; // always larger than 0
+                    T p_special = std::max(T(0), p_stress + beta * p_c) + stress_tolerance; // always larger than 0
 
                     T fac_a = f_mu_prefac * dt; // always positive
 
-- 
2.43.0


From 021922efe6bbcca003638c9632fdb45a2485e32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:36 +0000
Subject: [PATCH 12/23] fix: reset the plastic strain rate of particles that
 stay elastic in a step without MUSL

---
 src/simulation/g2p.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulation/g2p.cpp b/src/simulation/g2p.cpp
index 1e6ef21..4f66d4f 100644
--- a/src/simulation/g2p.cpp
+++ b/src/simulation/g2p.cpp
@@ -15,6 +15,8 @@ void Simulation::G2P(){
     std::fill( particles.pic.begin(),  particles.pic.end(),  TV::Zero() );
     std::fill( particles.flip.begin(), particles.flip.end(), TV::Zero() );
     std::fill( particles.Bmat.begin(), particles.Bmat.end(), TM::Zero() );
+    if (!use_musl) // otherwise reset in deformationUpdate
+        std::fill( particles.delta_gamma.begin(), particles.delta_gamma.end(), 0.0 );
 
     #pragma omp parallel num_threads(n_threads)
     {
-- 
2.43.0


From 0368964078b7b697aa9c65e770f6f30ac7bd5b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:36 +0000
Subject: [PATCH 13/23] fix: report the plastic strain rate, not the increment,
 at the tip of the mu(I) Drucker-Prager cone

---
 src/simulation/plasticity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 9e9b417..a99fd7a 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -417,7 +417,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                 plastic_count++;
                 hencky = -p_tip/(K*dim) * TV::Ones();
                 particles.F[p] = svd.matrixU() * hencky.array().exp().matrix().asDiagonal() * svd.matrixV().transpose();
-                particles.delta_gamma[p]          = delta_gamma;               // NB!
+                particles.delta_gamma[p]          = delta_gamma / dt;
                 particles.eps_pl_dev[p]          += (1.0/d_prefac) * delta_gamma;
                 particles.eps_pl_vol[p]          += eps_pl_vol_inst;
                 particles.eps_pl_vol_pradhana[p] += eps_pl_vol_inst; // can be negative!
-- 
2.43.0


From a42e89da3648656980f7aa41d772eedcf5369eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:36 +0000
Subject: [PATCH 14/23] fix: count the projected particles without a data race

---
 src/simulation/g2p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/g2p.cpp b/src/simulation/g2p.cpp
index 4f66d4f..f010609 100644
--- a/src/simulation/g2p.cpp
+++ b/src/simulation/g2p.cpp
@@ -21,7 +21,7 @@ void Simulation::G2P(){
     #pragma omp parallel num_threads(n_threads)
     {
 
-        #pragma omp for nowait
+        #pragma omp for nowait reduction(+:plastic_count)
         for(int p = 0; p < Np; p++){
             TV xp = particles.x[p];
             TV vp    = TV::Zero();
-- 
2.43.0


From 9d46eb7ce6af071b8ce6c01eada7f66826a39c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:51 +0000
Subject: [PATCH 15/23] fix: set the preconsolidation pressure used by the
 friction of Cam-Clay without hardening

---
 src/simulation/plasticity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index a99fd7a..f06c293 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -555,6 +555,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             bool perform_rma;
             T p_c;
             if (hardening_law == HardeningLaw::NoHard){ // Exponential Explicit Hardening
+                p_c = p0;
                    perform_rma =       MCCRMAExplicit(p_stress, q_stress, exit, M, p0, beta, mu, K, f_mu_prefac);
                 // perform_rma = MCCRMAExplicitOnevar(p_stress, q_stress, exit, M, p0, beta, mu, K);
             }
-- 
2.43.0


From b8ded7ff20275072b257448124fdcec34c634c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:51 +0000
Subject: [PATCH 16/23] fix: do not read an undefined flag when the Cam-Clay
 hardening law is invalid

---
 src/simulation/plasticity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index f06c293..841b2a5 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -468,7 +468,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             T q_trial = q_stress;
 
             //////////////////////////////////////////////////////////////////////
-            bool perform_rma;
+            bool perform_rma = false;
             T p_c;
             if (hardening_law == HardeningLaw::ExpoExpl){ // Exponential Explicit Hardening
                 p_c = std::max(stress_tolerance, p0 * std::exp(-xi*particles.eps_pl_vol[p]));
@@ -552,7 +552,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             if (use_mibf)
                 particles.muI[p] = M;
             
-            bool perform_rma;
+            bool perform_rma = false;
             T p_c;
             if (hardening_law == HardeningLaw::NoHard){ // Exponential Explicit Hardening
                 p_c = p0;
-- 
2.43.0


From ad6b42194b32500ac7e2135b52a88d737fefb273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:51 +0000
Subject: [PATCH 17/23] fix: complete the particle file before announcing the
 frame in last_written.txt

---
 src/simulation/save_data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulation/save_data.cpp b/src/simulation/save_data.cpp
index f8fd041..e585e37 100644
--- a/src/simulation/save_data.cpp
+++ b/src/simulation/save_data.cpp
@@ -162,6 +162,7 @@ void Simulation::saveParticleData(std::string extra){
     } // end if plasticity
 
     file.write(out, true);
+    out.close(); // the frame must be complete before it is announced
 
     std::ofstream outFile(directory + sim_name + "/last_written.txt");
     outFile << std::to_string(frame) << "\n";
-- 
2.43.0


From 570cfc283327ae34ced1650c7ace8c90a55d7254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:51 +0000
Subject: [PATCH 18/23] fix: do not rewrite the last frame after it has been
 announced

---
 src/simulation/simulation.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index fb0be56..3e6e2c3 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -188,13 +188,7 @@ void Simulation::simulate(){
         MATTER_VERIF_STAGE("clock");
         if (std::abs(final_time-time) < min_dt*1.1 || final_time < time){
             std::cout << "The simulation ended at time = " << time << std::endl;
-            if (save_sim){
-                saveParticleData();
-                if (save_grid)
-                    saveGridData();
-                // saveAvgData();
-            }
-            break;
+            break; // the last frame is already saved
         }
     }
 
-- 
2.43.0


From 436b8a27ed4eaa30e47024b572d8478dd473a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:10 +0000
Subject: [PATCH 19/23] fix: keep the pressure within the ellipse when an
 implicit Cam-Clay return meets its apex

---
 src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp | 1 +
 src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
index 46c948f..6198417 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
@@ -68,6 +68,7 @@ bool MCCRMAImplicitExponentialOnevar(T& p, T& q, int& exit, T M, T p00, T beta,
         T midpoint = (p0 - beta * p0) * 0.5;  // Find p-center of yield surface to avoid div-by-0 error
         if (std::abs(p - midpoint) < 1e-4) {
             // if p == midpoint then we map q to top of yield surface since no plastic change
+            p = std::min(std::max(p, -beta * p0), p0); // ensure p is within valid range
             q = M * std::sqrt((p0 - p) * (beta * p0 + p) / damping_factor);
             
             // rescale values
diff --git a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
index 3a3fea3..52864c1 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
@@ -63,6 +63,7 @@ bool MCCRMAImplicitSinhOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T
         T midpoint = (p0 - beta * p0) * 0.5;  // Find p-center of yield surface to avoid div-by-0 error
         if (std::abs(p - midpoint) < T(1.e-4)) {
             // if p_t == midpoint then we map q to top of yield surface since no plastic change
+            p = std::min(std::max(p, -beta * p0), p0); // ensure p is within valid range
             q = M * std::sqrt((p0 - p) * (beta * p0 + p) / damping_factor);
 
             // rescale values
-- 
2.43.0


From dccddc69fb3a5f49884173145ff272e2c3307fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:34 +0000
Subject: [PATCH 20/23] fix: DPVisc and DPMui let a state exactly at the
 pressure of the tip bear any shear stress

---
 src/simulation/plasticity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 841b2a5..65eaaf5 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -312,7 +312,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             }
 
             // right of shifted tip AND outside the shifted yield surface
-            if ((p_trial+p_shift) > p_tip && q_trial > q_yield) {
+            if ((p_trial+p_shift) >= p_tip && q_trial > q_yield) {
                 plastic_count++;
 
                 T delta_gamma;
@@ -430,7 +430,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             T q_yield = mu_1 * (p_trial+p_shift) + q_cohesion;
 
             // right of tip AND outside yield surface
-            if ((p_trial+p_shift) > p_tip && q_trial > (q_yield + stress_tolerance)) {
+            if ((p_trial+p_shift) >= p_tip && q_trial > (q_yield + stress_tolerance)) {
 
                 plastic_count++;
 
-- 
2.43.0


From 77afcb0a0f3b4fe95d11e372b3617614dd32f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:43 +0000
Subject: [PATCH 21/23] fix: the gradients of linear hat functions did not add
 up to zero for a particle on a node

---
 src/tools.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/tools.hpp b/src/tools.hpp
index 5e5e47a..908f021 100644
--- a/src/tools.hpp
+++ b/src/tools.hpp
@@ -202,12 +202,9 @@ inline T N(T u){
 
 inline T dNdu(T u){
     T uabs = std::abs(u);
-    if (uabs < 1.0){
-        if (u > 0){
-            return -1;
-        } else{
-            return 1;
-        }
+    T eps = 1e-10; // none at the kinks, up to rounding: the gradients of all nodes must add up to zero
+    if (uabs > eps && uabs < 1.0 - eps){
+        return -sgn(u);
     }
     else {
         return 0;
-- 
2.43.0


From 0b2a69f1393e521763e91504f1094f39f622f084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 22/23] fix: do not change the state of the output stream from
 several threads at once when messages are printed

---
 src/tools.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tools.hpp b/src/tools.hpp
index 908f021..843122d 100644
--- a/src/tools.hpp
+++ b/src/tools.hpp
@@ -66,30 +66,37 @@ enum class BC { NoSlip, SlipStick, SlipFree };
 
 template <typename T>
 void debug(T in){
+  #pragma omp critical(debug_output)
   std::cout << std::setprecision(12) << in << std::endl;
 }
 template <typename T, typename U>
 void debug(T in1, U in2){
+  #pragma omp critical(debug_output)
   std::cout << in1 << in2 << std::endl;
 }
 template <typename T, typename U, typename V>
 void debug(T in1, U in2, V in3){
+  #pragma omp critical(debug_output)
   std::cout << in1 << in2 << in3 << std::endl;
 }
 template <typename T, typename U, typename V, typename W>
 void debug(T in1, U in2, V in3, W in4){
+  #pragma omp critical(debug_output)
   std::cout << in1 << in2 << in3 << in4 << std::endl;
 }
 template <typename T, typename U, typename V, typename W, typename X>
 void debug(T in1, U in2, V in3, W in4, X in5){
+  #pragma omp critical(debug_output)
   std::cout << in1 << in2 << in3 << in4 << in5 << std::endl;
 }
 template <typename T, typename U, typename V, typename W, typename X, typename Y>
 void debug(T in1, U in2, V in3, W in4, X in5, Y in6){
+  #pragma omp critical(debug_output)
   std::cout << in1 << in2 << in3 << in4 << in5 << in6 << std::endl;
 }
 template <typename T, typename U, typename V, typename W, typename X, typename Y, typename Z>
 void debug(T in1, U in2, V in3, W in4, X in5, Y in6, Z in7){
+  #pragma omp critical(debug_output)
   std::cout << in1 << in2 << in3 << in4 << in5 << in6 << in7 << std::endl;
 }
 
-- 
2.43.0


From 55708a3b1efa5754251d3b649dcef52ef8a89c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:36 +0000
Subject: [PATCH 23/23] fix: set the failure flag without a data race when
 several threads meet a failure

---
 .../mcc_rma_implicit_exponential_onevar.hpp              | 1 +
 src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp  | 2 ++
 src/simulation/boundary_collision.cpp                    | 3 +++
 src/simulation/plasticity.cpp                            | 9 +++++++++
 4 files changed, 15 insertions(+)

diff --git a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
index 6198417..4949b90 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
@@ -146,6 +146,7 @@ bool MCCRMAImplicitExponentialOnevar(T& p, T& q, int& exit, T M, T p00, T beta,
             debug("q    = ", q);
             debug("p0_t = ", p0_t);
             debug("scale factor = ", scale_factor); 
+            #pragma omp atomic write
             exit = 1;
             break;
         }
diff --git a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
index 52864c1..1e58102 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
@@ -109,6 +109,7 @@ bool MCCRMAImplicitSinhOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T
                 debug("q    = ", q);
                 debug("p0_t = ", p0_t);
                 debug("scale factor = ", scale_factor); 
+                #pragma omp atomic write
                 exit = 1;
             }
         }
@@ -151,6 +152,7 @@ bool MCCRMAImplicitSinhOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T
             debug(iter, ":  q    = ", q);
             debug(iter, ":  K    = ", K);
             debug(iter, ":  mu    = ", mu);
+            #pragma omp atomic write
             exit = 1;
             break;
         }
diff --git a/src/simulation/boundary_collision.cpp b/src/simulation/boundary_collision.cpp
index 55ebfa5..43cf321 100644
--- a/src/simulation/boundary_collision.cpp
+++ b/src/simulation/boundary_collision.cpp
@@ -65,6 +65,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
 
             else {
                 debug("INVALID BOUNDARY CONDITION!!!");
+                #pragma omp atomic write
                 exit = 1;
                 return;
             }
@@ -245,6 +246,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
 
             else {
                 debug("INVALID BOUNDARY CONDITION!!!");
+                #pragma omp atomic write
                 exit = 1;
                 return;
             }
@@ -375,6 +377,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
 
             else {
                 debug("INVALID BOUNDARY CONDITION!!!");
+                #pragma omp atomic write
                 exit = 1;
                 return;
             }
diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 65eaaf5..e2a535a 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -209,6 +209,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     }
                     if (delta_gamma < 0){
                         debug("VMVisc: FATAL negative delta_gamma = ", delta_gamma);
+                        #pragma omp atomic write
                         exit = 1;
                     }
                 }
@@ -221,6 +222,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     for (int iter = 0; iter < max_iter; iter++) {
                         if (iter == max_iter - 1){ // did not break loop
                             debug("VMVisc: FATAL did not exit loop at iter = ", iter);
+                            #pragma omp atomic write
                             exit = 1;
                         }
 
@@ -326,6 +328,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     }
                     if (delta_gamma < 0){
                         debug("DPVisc: FATAL negative delta_gamma = ", delta_gamma);
+                        #pragma omp atomic write
                         exit = 1;
                     }
                 }
@@ -337,6 +340,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     for (int iter = 0; iter < max_iter; iter++) {
                         if (iter == max_iter - 1){ // did not break loop
                             debug("DPVisc: FATAL did not exit loop at iter = ", iter);
+                            #pragma omp atomic write
                             exit = 1;
                         }
 
@@ -490,6 +494,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             }
             else{
                 debug("You specified an invalid HARDENING LAW!");
+                #pragma omp atomic write
                 exit = 1;
             }
             //////////////////////////////////////////////////////////////////////
@@ -578,6 +583,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             }
             else{
                 debug("You specified an invalid HARDENING LAW!");
+                #pragma omp atomic write
                 exit = 1;
             }
 
@@ -592,6 +598,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                         b = 1.0 / (1.0 + visc_time / dt); // b defined such that "stress = (1-b) * strain_trial + b * stress_yield"
                         if (visc_exponent != 1){
                             debug("MCCVisc: FATAL viscous exponent must be 1 when use_duvaut_lions_formulation = true");
+                            #pragma omp atomic write
                             exit = 1;
                         }
                     }
@@ -607,6 +614,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                                 }
                                 else{
                                     debug("MCCVisc: FATAL negative delta_gamma = ", delta_gamma);
+                                    #pragma omp atomic write
                                     exit = 1;
                                 }
                             }
@@ -619,6 +627,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                             for (int iter = 0; iter < max_iter; iter++) {
                                 if (iter == max_iter - 1){ // did not break loop
                                     debug("MCCVisc: FATAL did not exit loop at iter = ", iter);
+                                    #pragma omp atomic write
                                     exit = 1;
                                 }
 
-- 
2.43.0

