From 8c8ab25c6a591fbc34b530908f12ec83b1fbefc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:42 +0000
Subject: [PATCH 01/30] fix: wrap periodic coordinates by any number of periods

---
 .../charge_transport/cuboid_lattice.cpp        | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 6cc2787..870422b 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -155,24 +155,18 @@ namespace mythical {
 
 
     int Cuboid::getXPeriodic_( const int x ) const noexcept{
-      if(x<0){
-        return x+length_;
-      }
-      return x % length_;
+      const int remainder = x % length_;
+      return remainder < 0 ? remainder + length_ : remainder;
     }
 
     int Cuboid::getYPeriodic_( const int y ) const noexcept{
-      if(y<0){
-        return y+width_;
-      }
-      return y % width_;
+      const int remainder = y % width_;
+      return remainder < 0 ? remainder + width_ : remainder;
     }
 
     int Cuboid::getZPeriodic_( const int z ) const noexcept{
-      if(z<0){
-        return z+height_;
-      }
-      return z % height_;
+      const int remainder = z % height_;
+      return remainder < 0 ? remainder + height_ : remainder;
     }
 
     void Cuboid::setDistributions_() {
-- 
2.43.0


From 51d3ceb000d0aa8bdfbdfe2b58301135897874c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:45 +0000
Subject: [PATCH 02/30] fix: smallest distance across periodic boundaries

The shortest separation was stored as if it were a position, and the z axis used the y coordinates.
---
 .../libmythical/charge_transport/cuboid_lattice.cpp    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 870422b..39f660d 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -507,7 +507,7 @@ namespace mythical {
         const int diff1 = abs(x2 - x1 + length_);
         const int diff2 = abs(x2 - x1 - length_);
         const int diff = min(diff1, diff2); 
-        pos_2.at(0) = min(diff,abs(x2 - x1));
+        pos_2.at(0) = x1 + min(diff,abs(x2 - x1));
       }
       const int y1 = pos_1.at(1);
       const int y2 = pos_2.at(1);
@@ -515,15 +515,15 @@ namespace mythical {
         const int diff1 = abs(y2 - y1 + width_);
         const int diff2 = abs(y2 - y1 - width_);
         const int diff = min(diff1, diff2); 
-        pos_2.at(1) = min(diff,abs(y2 - y1));
+        pos_2.at(1) = y1 + min(diff,abs(y2 - y1));
       }
-      const int z1 = pos_1.at(1);
-      const int z2 = pos_2.at(1);
+      const int z1 = pos_1.at(2);
+      const int z2 = pos_2.at(2);
       if ( z_bound_ == BoundarySetting::Periodic ){
         const int diff1 = abs(z2 - z1 + height_);
         const int diff2 = abs(z2 - z1 - height_);
         const int diff = min(diff1, diff2); 
-        pos_2.at(2) = min(diff,abs(z2 - z1));
+        pos_2.at(2) = z1 + min(diff,abs(z2 - z1));
       }
       return getDistance_(pos_1.at(0), pos_1.at(1), pos_1.at(2), pos_2.at(0), pos_2.at(1), pos_2.at(2));
     }
-- 
2.43.0


From caeb8f4bb5e3ff8c236957ef3ab40af618ecc0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:48 +0000
Subject: [PATCH 03/30] fix: integer overflow in distances on long lattices

---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 39f660d..390e2a1 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -86,16 +86,17 @@ namespace mythical {
     double Cuboid::getDistance_(const int x1, const int y1, const int z1,
         const int x2, const int y2, const int z2) const noexcept {
 
-      int xdiff = x1-x2;
-      int ydiff = y1-y2;
-      int zdiff = z1-z2;
+      // Squaring an int overflows for separations above 46340 sites
+      double xdiff = static_cast<double>(x1-x2);
+      double ydiff = static_cast<double>(y1-y2);
+      double zdiff = static_cast<double>(z1-z2);
 
       // Square
       xdiff = xdiff*xdiff;
       ydiff = ydiff*ydiff;
       zdiff = zdiff*zdiff;
       
-      return std::pow(static_cast<double>(xdiff+ydiff+zdiff), 0.5) * inter_site_distance_;
+      return std::pow(xdiff+ydiff+zdiff, 0.5) * inter_site_distance_;
     }
 
     std::vector<std::pair<int,double>> Cuboid::getNeighborDistances_(const std::vector<int> pos_i, const double cutoff) const {
-- 
2.43.0


From f4498c0ed21a9d3d0bcf95e27f009742f81c7967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:50 +0000
Subject: [PATCH 04/30] fix: whole lattice neighbor distances missed diagonal
 neighbors

Only sites with smaller coordinates along every axis were considered, and a farther periodic image could overwrite the closest one.
---
 .../charge_transport/cuboid_lattice.cpp       | 57 +++----------------
 1 file changed, 7 insertions(+), 50 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 390e2a1..0b9b02b 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -436,61 +436,18 @@ namespace mythical {
 
     std::unordered_map<int, std::unordered_map<int,double>> Cuboid::getNeighborDistances(const double cutoff) const {
 
-      // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
-      
       int total_num_sites = length_*width_*height_;
-      // So as not to return redundant info, only provide distance if the 
-      // neighbor has a smaller index
       std::unordered_map<int, std::unordered_map<int, double>> neigh_distances;
 
       for ( int index = 0; index < total_num_sites; ++index ) {
-        
-        std::vector<int> pos_i = getPos_(index);
-        const int x = pos_i.at(0);
-        const int y = pos_i.at(1);
-        const int z = pos_i.at(2);
-
-        const int x_min = x - num_sites;
-        const int x_max = x;
-        const int y_min = y - num_sites;
-        const int y_max = y;
-        const int z_min = z - num_sites;
-        const int z_max = z;
-
-        for ( int x_ind = x_min; x_ind <= x_max; ++x_ind ) {
-          int x_lattice_pos = x_ind;
-          if ( x_bound_ == BoundarySetting::Periodic ) {
-            x_lattice_pos = getXPeriodic_(x_ind);
-          }       
-          if ( x_lattice_pos >= 0 && x_lattice_pos < length_ ) {
-            for ( int y_ind = y_min; y_ind <= y_max; ++y_ind ) {
-              int y_lattice_pos = y_ind;
-              if ( y_bound_ == BoundarySetting::Periodic ) {
-                y_lattice_pos = getYPeriodic_(y_ind);
-              }       
-              if ( y_lattice_pos >= 0 && y_lattice_pos < width_ ) {
-                for ( int z_ind = z_min; z_ind <= z_max; ++z_ind ){
-                  int z_lattice_pos = z_ind;
-
-                  if ( z_bound_ == BoundarySetting::Periodic ) {
-                    z_lattice_pos = getZPeriodic_(z_ind);
-                  }       
-                  if ( z_lattice_pos >= 0 && z_lattice_pos < height_ ) {
-                    double dist = getDistance_(x_ind, y_ind, z_ind, pos_i.at(0), pos_i.at(1), pos_i.at(2));
-                    if ( dist <= cutoff ) {
-                      int neigh_index = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
-                      if ( neigh_index != index ) {
-                        neigh_distances[neigh_index][index] = dist;
-                        neigh_distances[index][neigh_index] = dist;
-                      }
-                    }
-                  }
-                } // for z
-              }
-            } // for y
+        for ( const std::pair<int,double> & neigh : getNeighborDistances_(getPos_(index), cutoff) ) {
+          // Several periodic images of a neighbor may be within the cutoff, 
+          // keep the closest one
+          auto inserted = neigh_distances[index].insert(neigh);
+          if ( neigh.second < inserted.first->second ) {
+            inserted.first->second = neigh.second;
           }
-        } // for x
+        }
       } // index
       return neigh_distances;
     }
-- 
2.43.0


From 851143dad0cf5dbd6b50c03acc228a240482944d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:53 +0000
Subject: [PATCH 05/30] fix: random site of a plane

The XY plane drew y from the z range, and the plane index was never checked.
---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 0b9b02b..4a245b2 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -282,7 +282,7 @@ namespace mythical {
       int y_lattice_pos = plane_index;
       int z_lattice_pos = plane_index;
       if ( plane == Plane::YZ ) {
-        if (x_lattice_pos < 0 && x_lattice_pos >= length_ ) {
+        if (x_lattice_pos < 0 || x_lattice_pos >= length_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with x pos " + to_string(plane_index) + " when the x"
             "bounds are 0 to " + to_string(length_-1);
@@ -291,7 +291,7 @@ namespace mythical {
         y_lattice_pos = distribution_y_(generator_);
         z_lattice_pos = distribution_z_(generator_);
       } else if ( plane == Plane::XZ ) {
-        if (y_lattice_pos < 0 && y_lattice_pos >= width_ ) {
+        if (y_lattice_pos < 0 || y_lattice_pos >= width_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with y pos " + to_string(plane_index) + " when the y"
             "bounds are 0 to " + to_string(width_-1);
@@ -300,14 +300,14 @@ namespace mythical {
         x_lattice_pos = distribution_x_(generator_);
         z_lattice_pos = distribution_z_(generator_);
       } else {
-        if (z_lattice_pos < 0 && z_lattice_pos >= height_ ) {
+        if (z_lattice_pos < 0 || z_lattice_pos >= height_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with z pos " + to_string(plane_index) + " when the z"
             "bounds are 0 to " + to_string(height_-1);
             throw std::invalid_argument(error_msg);
         }
         x_lattice_pos = distribution_x_(generator_);
-        y_lattice_pos = distribution_z_(generator_);
+        y_lattice_pos = distribution_y_(generator_);
       }
       return getIndex(x_lattice_pos,y_lattice_pos,z_lattice_pos);
     }
-- 
2.43.0


From 394ca4f403dc61a00e5b27b11e764f9ca0595364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:56 +0000
Subject: [PATCH 06/30] fix: refuse negative site indices when converting to
 positions

---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 4a245b2..194f1e6 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -313,7 +313,7 @@ namespace mythical {
     }
 
     std::vector<int> Cuboid::getPosition(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -324,7 +324,7 @@ namespace mythical {
     }
 
     int Cuboid::getX(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -337,7 +337,7 @@ namespace mythical {
     }
 
     int Cuboid::getY(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -350,7 +350,7 @@ namespace mythical {
     }
 
     int Cuboid::getZ(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
-- 
2.43.0


From 621640fe5dfb4c5937f229e67e4ce3830b72425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:51 +0000
Subject: [PATCH 07/30] fix: rate queries about absent sites must not insert or
 return null

getRate only refused a lookup when the site had no entry at all, otherwise it
inserted and returned a null rate. outgoingRateCount created an empty entry
for an unknown site, which from then on was reported as a source and no longer
as a sink.
---
 CoarseGrainSites/src/libmythical/rate_container.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/rate_container.cpp b/CoarseGrainSites/src/libmythical/rate_container.cpp
index e0f72c4..4c69d22 100644
--- a/CoarseGrainSites/src/libmythical/rate_container.cpp
+++ b/CoarseGrainSites/src/libmythical/rate_container.cpp
@@ -31,12 +31,11 @@ namespace mythical {
   }
 
   double * Rate_Container::getRate(int siteId, int neighId) {
-    if(rates_.count(siteId)==0){
-      if(rates_[siteId].count(neighId)==0){
-        throw invalid_argument("Cannot retrieve rate as it has not been added.");
-      }
+    auto site = rates_.find(siteId);
+    if(site==rates_.end() || site->second.count(neighId)==0){
+      throw invalid_argument("Cannot retrieve rate as it has not been added.");
     }
-    return rates_[siteId][neighId];
+    return site->second[neighId];
   }
 
   size_t Rate_Container::incomingRateCount(int siteId) {
@@ -46,6 +45,7 @@ namespace mythical {
   }
 
   size_t Rate_Container::outgoingRateCount(int siteId) {
+    if(rates_.count(siteId)==0) return 0;
     return rates_[siteId].size();
   }
 
-- 
2.43.0


From a7203142e7272bd404deadd3d1be8dff58830701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:52 +0000
Subject: [PATCH 08/30] fix: Marcus prefactor lacked the reorganization energy

The classical Marcus rate has 1/sqrt(4*pi*lambda*k_B*T); the factor lambda was
missing, so rates had the wrong units and scaled wrongly with lambda.
---
 .../include/mythical/charge_transport/marcus.hpp          | 8 ++++----
 .../src/libmythical/charge_transport/marcus.cpp           | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/CoarseGrainSites/include/mythical/charge_transport/marcus.hpp b/CoarseGrainSites/include/mythical/charge_transport/marcus.hpp
index 0428593..62c8fb9 100644
--- a/CoarseGrainSites/include/mythical/charge_transport/marcus.hpp
+++ b/CoarseGrainSites/include/mythical/charge_transport/marcus.hpp
@@ -20,9 +20,9 @@ namespace mythical {
          * @param lamba - Reorganization energy
          * @param T - Temperature
          *
-         * a = 2*pi/h_bar * 1/sqrt(4*pi*k_B*T)
+         * a = 2*pi/h_bar * 1/sqrt(4*pi*lambda*k_B*T)
          *
-         * k = a * |H_AB|^2 * exp(-(lambda_ + DeltaG)^2/(4*pi*k_B*T));
+         * k = a * |H_AB|^2 * exp(-(lambda_ + DeltaG)^2/(4*lambda*k_B*T));
          */
         Marcus(const double lamba, const double T);
 
@@ -41,10 +41,10 @@ namespace mythical {
         // Reorganization energy
         const double lambda_;
        
-        // Eponent denominator (4*pi*k_B*T) 
+        // Exponent denominator (4*lambda*k_B*T)
         const double expon_denom_;
 
-        // 2*pi/h_bar * |H_AB|^2 * 1/sqrt(4*pi*k_B*T)
+        // 2*pi/h_bar * 1/sqrt(4*pi*lambda*k_B*T)
         const double pre_factor_;
     };
     
diff --git a/CoarseGrainSites/src/libmythical/charge_transport/marcus.cpp b/CoarseGrainSites/src/libmythical/charge_transport/marcus.cpp
index f0f2f36..5c308fa 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/marcus.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/marcus.cpp
@@ -11,7 +11,7 @@ namespace mythical {
     Marcus::Marcus(const double lambda, const double T) :
       lambda_(lambda), 
       expon_denom_(4.0*lambda*k_B*T),
-      pre_factor_(2.0*PI/h_bar * 1.0/(SRPI*2*SRk_B*std::pow(T,0.5))) {}
+      pre_factor_(2.0*PI/h_bar * 1.0/(SRPI*2*SRk_B*std::pow(lambda*T,0.5))) {}
 
     double Marcus::getRate(const double E_i, const double E_j, const double H_AB) const noexcept {
       // DeltaG = E_j - E_i 
-- 
2.43.0


From 967cc25d635471646c6c42c178707d59fe80679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:34 +0000
Subject: [PATCH 09/30] fix: smallest cluster id query added absent sites to
 the container

getSmallestClusterId used operator[] and silently inserted a default site for
an id that is not stored. Refuse it like every other query does.
---
 CoarseGrainSites/src/libmythical/site_container.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/site_container.cpp b/CoarseGrainSites/src/libmythical/site_container.cpp
index 0866e21..d0cca87 100644
--- a/CoarseGrainSites/src/libmythical/site_container.cpp
+++ b/CoarseGrainSites/src/libmythical/site_container.cpp
@@ -66,6 +66,9 @@ namespace mythical {
     LOG("Getting the favored cluster Id", 1);
     int favoredClusterId = constants::unassignedId;
     for (auto siteId : siteIds) {
+      if(sites_.count(siteId)==0){
+        throw invalid_argument("Site is not stored in the container.");
+      }
       int clusterId = sites_[siteId].getClusterId();
       if (favoredClusterId == constants::unassignedId) {
         favoredClusterId = clusterId;
-- 
2.43.0


From 7eb351e7dff70a45412d115027756d55db8fcec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:58 +0000
Subject: [PATCH 10/30] fix: cluster kept sampling from stale distributions
 after an update

The cumulative distributions were appended to on every update and never
cleared, so after adding sites, merging or changing rates the cluster kept
picking sites with the probabilities of its first update.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index c813414..fec7b8d 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -607,6 +607,7 @@ void Cluster::calculateProbabilityHopToInternalSite_() {
         return x.second>y.second;
       });
 
+  cumulitive_probabilityHopToInternalSite_.clear();
   total = 0.0;
   for(pair<int,double> site_and_prob : probabilityHopToInternalSite_){
     site_and_prob.second+=total;
@@ -659,6 +660,7 @@ void Cluster::calculateProbabilityHopToNeighbors_() {
         return x.second>y.second;
       });
 
+  cumulitive_probabilityHopToNeighbor_.clear();
   total = 0.0;
   for(pair<int,double>  site_and_prob : probabilityHopToNeighbor_){
     site_and_prob.second+=total;
-- 
2.43.0


From 5a1e6be86201317b87f0ed75501169eb6b204540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:01 +0000
Subject: [PATCH 11/30] fix: removing a walker from a cluster did not forget
 its dwell time

removeWalkerCluster_ was never registered, so a walker removed from the
cluster resumed its old stay if its id was used again.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index fec7b8d..e32e055 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -62,7 +62,7 @@ Cluster::Cluster() : TopologyFeature() {
   occupy_siteId_ptr_ = occupyCluster_;
   vacate_siteId_ptr_ = vacateCluster_;
   isOccupied_siteId_ptr_ = isOccupiedCluster_;
-
+  remove_ptr_ = removeWalkerCluster_;
 }
 
 void Cluster::addSite(Site& newSite) {
-- 
2.43.0


From 8ddb243797e21b53e331b4eb6beb49c77cfa7b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:03 +0000
Subject: [PATCH 12/30] fix: escape time constant of a cluster ignored sites
 without exits

The constant only averaged over the sites that have rates off the cluster, and
those weights were divided by the normalization of the internal hops. Use the
mean time per visit over the probability of leaving per visit.
---
 .../libmythical/topologyfeatures/cluster.cpp   | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index e32e055..2272600 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -510,7 +510,7 @@ void Cluster::calculateProbabilityHopBetweenInternalSite_() {
 
   // Normalize
   for(auto site : probabilityHopBetweenInternalSite_){
-    probabilityHopOffInternalSite_[site.first]/=sum_internal;
+    probabilityHopBetweenInternalSite_[site.first]/=sum_internal;
   }
   
 }
@@ -553,18 +553,22 @@ void Cluster::calculateSumOfEscapeRatesFromSitesToInternalSites_() {
   }
   sumOfEscapeRateFromSiteToInternalSite_ = temp;
 }
-// Requires that calculateProbabilityHopOffInternalSites has first been called
+// Requires master equation convergence as it uses probabilityOnSite_, the time
+// constant is the mean time spent per visit to a site of the cluster divided by
+// the probability of leaving the cluster with the hop that ends the visit
 void Cluster::calculateEscapeTimeConstant_() {
   escape_time_constant_ = 0.0;
   if(getRatesToNeighborsOfCluster_().size()==0){
     escape_time_constant_ = constants::unassigned_value;
   }else{
-    for( auto site_prob : probabilityHopOffInternalSite_ ){
-      auto rate_off = sumOfEscapeRateFromSiteToNeighbor_[site_prob.first];
-      if(rate_off>0){
-        escape_time_constant_ += 1.0/rate_off *site_prob.second ;
-      }
+    double time_per_visit = 0.0;
+    double probability_off = 0.0;
+    for( auto site_prob : probabilityOnSite_ ){
+      double time_on_site = site_prob.second*sitesInCluster_[site_prob.first].getTimeConstant();
+      time_per_visit += time_on_site;
+      probability_off += time_on_site*sumOfEscapeRateFromSiteToNeighbor_[site_prob.first];
     }
+    escape_time_constant_ = time_per_visit/probability_off;
   }
   time_increment_ = TopologyFeature::escape_time_constant_/resolution_;
 }
-- 
2.43.0


From 446628fbb6893c85bdd681f04e34e5bddd900e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:22 +0000
Subject: [PATCH 13/30] fix: updating a cluster ignored rates changed in place

The cluster holds copies of its sites, whose hop probabilities and time
constants were never recalculated, so an update after a rate was changed mixed
new rates with old probabilities.
---
 .../src/libmythical/topologyfeatures/cluster.cpp           | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 2272600..38d5cbf 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -86,6 +86,13 @@ void Cluster::updateProbabilitiesAndTimeConstant() {
 
   unordered_map<int,int> temporary_visit_frequencies = getVisitFrequencies_();
 
+  // Rates may have been changed in place, resetting one of them makes the site
+  // recalculate its probabilities and time constant
+  for( auto & site : sitesInCluster_ ){
+    auto rates = site.second.getNeighborsAndRates();
+    if(rates.size()!=0) site.second.resetNeighRate(*rates.begin());
+  }
+
   solveMasterEquation_();
   calculateSumOfEscapeRatesFromSitesToTheirNeighbors_();
   calculateSumOfEscapeRatesFromSitesToInternalSites_();
-- 
2.43.0


From b9b9539f69426bb1f995f4d1ea20d92fbc0e41df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:26 +0000
Subject: [PATCH 14/30] fix: visit counts of sites in a cluster depended on the
 unit of time

The number of visits was estimated as a time instead of the time divided by
the mean time per visit, and rounding at every query made it depend on how
often it was asked for.
---
 .../src/libmythical/topologyfeatures/cluster.cpp         | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 38d5cbf..2a5c107 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -249,12 +249,17 @@ int Cluster::getVisitFrequency(const int & siteId){
 
   if(total_visit_freq_!=prev_total_visit_freq_){
     double difference = total_visit_freq_ - prev_total_visit_freq_; 
+    // Mean time spent per visit to a site of the cluster
+    double time_per_visit = 0.0;
+    for(auto site_visit : site_visits_){
+      time_per_visit += probabilityOnSite_[site_visit.first]*sitesInCluster_.at(site_visit.first).getTimeConstant();
+    }
     for(auto site_visit : site_visits_){
       double visits = static_cast<double>(difference)*probabilityOnSite_[site_visit.first]*sitesInCluster_.at(site_visit.first).getTimeConstant();
       visits = visits/internal_dwell_time_.at(site_visit.first);
       visits = escape_time_constant_*visits;
-      visits = visits/resolution_;
-      site_visits_[site_visit.first] += round(visits);
+      visits = visits/(resolution_*time_per_visit);
+      site_visits_[site_visit.first] += visits;
     }
     prev_total_visit_freq_ = total_visit_freq_;
   }
-- 
2.43.0


From cda13d63eb1dc18234e44a8e73821b707903a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:15 +0000
Subject: [PATCH 15/30] fix: setting a visit count in a cluster was undone by
 earlier visits

Visits not yet distributed over the sites were added on top of the value at
the next query.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 2a5c107..ad8d739 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -235,6 +235,9 @@ void Cluster::setVisitFrequency(int frequency,const int & siteId){
       "that you have called the update function and that there exist at least "
       "one rate off the cluster.");
 
+  // Visits made so far are not to be added to the new value later on
+  getVisitFrequency(siteId);
+
   // Need to convert to the right storage format 
   double visits = static_cast<double>(frequency);
   site_visits_[siteId] = visits;
-- 
2.43.0


From d64e9b23ff4e7059decff4fa1a10381fcfb44148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:19 +0000
Subject: [PATCH 16/30] fix: occupancy of a cluster ignored its sites

Walkers arriving on a site of the cluster did not count for the cluster as a
whole while walkers leaving did, so it was never reported occupied and its
counter became negative.
---
 .../src/libmythical/topologyfeatures/cluster.cpp      | 11 ++++++++++-
 .../src/libmythical/topologyfeatures/cluster.hpp      |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index ad8d739..483834a 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -32,6 +32,15 @@ void occupyCluster_(TopologyFeature* feature, const int& siteId){
   site.setToOccupiedStatus(); 
 }
 
+bool isOccupiedCluster_(TopologyFeature* feature){
+  auto cluster = static_cast<Cluster *>(feature);
+  if(cluster->occupied_>0) return true;
+  for(auto & site : cluster->sitesInCluster_){
+    if(site.second.isOccupied()) return true;
+  }
+  return false;
+}
+
 bool isOccupiedCluster_(TopologyFeature* feature,const int& siteId){
   auto cluster = static_cast<Cluster *>(feature);
   assert(cluster->sitesInCluster_.count(siteId));
@@ -41,7 +50,6 @@ bool isOccupiedCluster_(TopologyFeature* feature,const int& siteId){
 void vacateCluster_(TopologyFeature* feature,const int& siteId){
   auto cluster = static_cast<Cluster *>(feature);
   cluster->sitesInCluster_[siteId].vacate();
-  cluster->vacate();
 }
 
 void removeWalkerCluster_(TopologyFeature * feature,const int & walker_id){
@@ -61,6 +69,7 @@ Cluster::Cluster() : TopologyFeature() {
 
   occupy_siteId_ptr_ = occupyCluster_;
   vacate_siteId_ptr_ = vacateCluster_;
+  isOccupied_ptr_ = isOccupiedCluster_;
   isOccupied_siteId_ptr_ = isOccupiedCluster_;
   remove_ptr_ = removeWalkerCluster_;
 }
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
index d5b4cb0..72d8b8b 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
@@ -469,6 +469,7 @@ class Cluster : public TopologyFeature {
 
     friend void occupyCluster_(TopologyFeature*,const int&);
     friend void vacateCluster_(TopologyFeature*,const int&);
+    friend bool isOccupiedCluster_(TopologyFeature*);
     friend bool isOccupiedCluster_(TopologyFeature*,const int&);
     friend void removeWalkerCluster_(TopologyFeature *,const int&);
   };
-- 
2.43.0


From f4ad8415f49e581d1ed11f3bade2fcbf3c8ddf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 17/30] fix: visits to sites of a cluster counted a full time
 increment for the last part of a stay

The last part of a stay is shorter than the time increment, with a coarse
resolution the visits were overestimated by up to 27 percent compared with the
same walk without clusters. Visits that end with leaving the cluster are visits
as well.
---
 .../src/libmythical/topologyfeatures/cluster.cpp         | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 483834a..dd71cc0 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -266,11 +266,12 @@ int Cluster::getVisitFrequency(const int & siteId){
     for(auto site_visit : site_visits_){
       time_per_visit += probabilityOnSite_[site_visit.first]*sitesInCluster_.at(site_visit.first).getTimeConstant();
     }
+    // Mean time spent per visit to the cluster, the last one of a stay is shorter
+    // than the time increment
+    double time_spent = escape_time_constant_*(1.0-exp(-1.0/resolution_));
     for(auto site_visit : site_visits_){
-      double visits = static_cast<double>(difference)*probabilityOnSite_[site_visit.first]*sitesInCluster_.at(site_visit.first).getTimeConstant();
-      visits = visits/internal_dwell_time_.at(site_visit.first);
-      visits = escape_time_constant_*visits;
-      visits = visits/(resolution_*time_per_visit);
+      double visits = static_cast<double>(difference)*probabilityOnSite_[site_visit.first];
+      visits = visits*time_spent/time_per_visit;
       site_visits_[site_visit.first] += visits;
     }
     prev_total_visit_freq_ = total_visit_freq_;
-- 
2.43.0


From cba36f10194b7e723b04e90c2e36f377a34b8039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:33 +0000
Subject: [PATCH 18/30] fix: joining part of a cluster left sites pointing to
 an erased cluster

A basin can contain only some of the sites of an existing cluster. All of its
sites were moved to the joined cluster, but only those in the basin were told,
and whether the joined cluster has any exits was not tested.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 5c3693d..14b7fef 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -4,6 +4,7 @@
 #include <iostream>
 #include <limits>
 #include <memory>
+#include <set>
 #include <stdexcept>
 #include <unordered_set>
 
@@ -250,6 +251,15 @@ namespace mythical {
     BasinExplorer basin_explorer;
     auto basin_site_ids = basin_explorer.findBasin(*sites_,*clusters_,siteId);
 
+    // Clusters can only be joined as a whole
+    set<int> basin(basin_site_ids.begin(),basin_site_ids.end());
+    for(const pair<const int,int> & site_and_cluster : getClustersOfSites(basin_site_ids)){
+      if(site_and_cluster.second==constants::unassignedId) continue;
+      for(const int & member : clusters_->getCluster(site_and_cluster.second).getSiteIdsInCluster()){
+        if(basin.insert(member).second) basin_site_ids.push_back(member);
+      }
+    }
+
     double internal_time_limit = getInternalTimeLimit_(basin_site_ids);
 
     if( sitesSatisfyEquilibriumCondition_(basin_site_ids, internal_time_limit) ){
-- 
2.43.0


From 4a3d585b173e923446b0e1774b020ef12470a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:39 +0000
Subject: [PATCH 19/30] fix: a walker placed on a site of a cluster did not
 occupy the site

Only the cluster as a whole was marked, so another walker could move onto the
same site and the mark was never removed.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 14b7fef..62f5e2b 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -166,7 +166,7 @@ namespace mythical {
           "within the rates parameter.";
         throw runtime_error(error_msg);
       }
-      topology_features_[siteId]->occupy();
+      topology_features_[siteId]->occupy(siteId);
 
       auto hopTime = topology_features_[siteId]->getDwellTime(walkers.at(index).first);
       int newId = topology_features_[siteId]->pickNewSiteId(walkers.at(index).first);
-- 
2.43.0


From dba82061475bc435c8385e9e6d24748da5cff269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:05 +0000
Subject: [PATCH 20/30] fix: seeded runs depended on memory addresses

The edges were kept in a set ordered by address, so basins were explored, and
equally likely sites of a cluster were ordered, differently in every run.
---
 CoarseGrainSites/src/libmythical/basin_explorer.cpp   | 11 ++++++-----
 .../src/libmythical/coarsegrainsystem.cpp             |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/basin_explorer.cpp b/CoarseGrainSites/src/libmythical/basin_explorer.cpp
index 4a07888..f27560e 100644
--- a/CoarseGrainSites/src/libmythical/basin_explorer.cpp
+++ b/CoarseGrainSites/src/libmythical/basin_explorer.cpp
@@ -1,5 +1,5 @@
 
-#include <unordered_set>
+#include <vector>
 
 #include "basin_explorer.hpp"
 #include "graph_library_adapter.hpp"
@@ -10,7 +10,8 @@ using namespace std;
 
 namespace mythical {
 
-  typedef unordered_set<shared_ptr<Edge>> shared_edge_set;
+  // Keeps the order of the edges, with a set it would depend on their addresses
+  typedef vector<shared_ptr<Edge>> shared_edge_vec;
   typedef vector<weak_ptr<Edge>> weak_edge_vec;
 
   vector<int> BasinExplorer::findBasin(
@@ -19,7 +20,7 @@ namespace mythical {
       int siteId){
     
     auto edges_store = 
-      convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_set>( sites, siteId);
+      convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_vec>( sites, siteId);
 
     weak_edge_vec edges_weak(edges_store.begin(),edges_store.end());
 
@@ -45,10 +46,10 @@ namespace mythical {
       auto next_vertex = gv_largest_known.chooseTerminalVertex(next_edge);
 
       gv_largest_known.exploreEdge(next_edge);
-      auto edges_tmp = convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_set>( sites, next_vertex);
+      auto edges_tmp = convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_vec>( sites, next_vertex);
       
       weak_edge_vec edges_weak_tmp(edges_tmp.begin(),edges_tmp.end());
-      edges_store.insert(edges_tmp.begin(),edges_tmp.end());
+      edges_store.insert(edges_store.end(),edges_tmp.begin(),edges_tmp.end());
 
       addEdges_(sites,edges_weak_tmp,next_vertex,gv_largest_known);
  
diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 62f5e2b..a8265b2 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -360,7 +360,7 @@ namespace mythical {
 
     LOG("Merging sites to cluster", 1);
     vector<Site> isolated_sites;
-    unordered_set<int> cluster_ids;
+    set<int> cluster_ids;
 
     for (auto site_and_cluster : sites_and_clusters) { 
       if(site_and_cluster.second != favoredClusterId){ 
-- 
2.43.0


From ff55c40192959fa23acea1b5ea58bdfc19f143f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:55 +0000
Subject: [PATCH 21/30] fix: joined clusters kept the resolution of the smaller
 one

The time constant grows when sites are joined, with the old resolution the time
increment could become larger than the time resolution.
---
 .../include/mythical/coarsegrainsystem.hpp    |  3 +-
 .../src/libmythical/coarsegrainsystem.cpp     | 33 +++++++++++--------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp b/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp
index 2e7a740..0f3166c 100644
--- a/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp
+++ b/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp
@@ -302,8 +302,9 @@ class CoarseGrainSystem {
 
   bool coarseGrain_(int siteId);
   std::unordered_map<int,int> getClustersOfSites(const std::vector<int> & siteIds);
+  double chooseResolution_(double cluster_time_const,double internal_time_limit) const;
   int createCluster_(std::vector<int> siteIds,double internal_time_limit);
-  void mergeSitesAndClusters_(std::unordered_map<int,int> sites_and_clusters, int clusterId);
+  void mergeSitesAndClusters_(std::unordered_map<int,int> sites_and_clusters, int clusterId,double internal_time_limit);
   double getTimeConstantFromSitesToNeighbors_(const std::vector<int> & siteIds) const;
   std::unordered_map<int,double> filterSites_();
   std::vector<std::vector<int>> breakIntoIslands_(std::unordered_map<int,double> relevant_sites);
diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index a8265b2..6590a1c 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -274,7 +274,7 @@ namespace mythical {
       }else if(number_clusters!=1){
         // Joint clusters and sites to an existing cluster
         int favored_clusterId = getFavoredClusterId(sites_and_clusters);
-        mergeSitesAndClusters_(sites_and_clusters,favored_clusterId);
+        mergeSitesAndClusters_(sites_and_clusters,favored_clusterId,internal_time_limit);
         return true;
       }
     }
@@ -315,6 +315,19 @@ namespace mythical {
     return sites_and_clusters;
   }
 
+  double CoarseGrainSystem::chooseResolution_(double cluster_time_const, double internal_time_limit) const {
+    // Cut the resolution in half from what it would otherwise be otherwise not worth doing
+    double res = cluster_time_const/(2*internal_time_limit);
+    double allowed_resolution = cluster_time_const/time_resolution_;
+    double chosen_resolution = res;
+
+    // The coarser the resolution is the better
+    if(allowed_resolution <  chosen_resolution) chosen_resolution=allowed_resolution;
+
+    if(chosen_resolution<2.0) chosen_resolution=2.0;
+    return chosen_resolution;
+  }
+
   int CoarseGrainSystem::createCluster_(vector<int> siteIds, double internal_time_limit) {
     LOG("Creating cluster from vector of sites", 1);
 
@@ -328,18 +341,7 @@ namespace mythical {
     cluster.addSites(sites);
     cluster.updateProbabilitiesAndTimeConstant();
 
-    double cluster_time_const = cluster.getTimeConstant();
-    // Cut the resolution in half from what it would otherwise be otherwise not worth doing
-    double res = cluster_time_const/(2*internal_time_limit);
-    double allowed_resolution = cluster_time_const/time_resolution_;
-    double chosen_resolution = res;
-
-    // The coarser the resolution is the better
-    if(allowed_resolution <  chosen_resolution) chosen_resolution=allowed_resolution;
-
-    if(chosen_resolution<2.0) chosen_resolution=2.0;
-   
-    cluster.setResolution(chosen_resolution);
+    cluster.setResolution(chooseResolution_(cluster.getTimeConstant(),internal_time_limit));
     if (seed_set_) {
       cluster.setRandomSeed(seed_);
       ++seed_;
@@ -356,7 +358,7 @@ namespace mythical {
     return cluster.getId();
   }
 
-  void CoarseGrainSystem::mergeSitesAndClusters_( unordered_map<int,int> sites_and_clusters,int favoredClusterId) {
+  void CoarseGrainSystem::mergeSitesAndClusters_( unordered_map<int,int> sites_and_clusters,int favoredClusterId, double internal_time_limit) {
 
     LOG("Merging sites to cluster", 1);
     vector<Site> isolated_sites;
@@ -380,6 +382,9 @@ namespace mythical {
       clusters_->erase(clusterId);
     }
 
+    // The time constant has changed
+    Cluster & cluster = clusters_->getCluster(favoredClusterId);
+    cluster.setResolution(chooseResolution_(cluster.getTimeConstant(),internal_time_limit));
   }
 
   double CoarseGrainSystem::getExternalTimeLimit_(const vector<int> & siteIds ){
-- 
2.43.0


From e84edf5ad5a1882aba1a72852806b9d98b72a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:19 +0000
Subject: [PATCH 22/30] fix: neighbour searches with long cutoffs overflowed or
 ran out of memory

---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp       | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 194f1e6..eab5805 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -115,9 +115,7 @@ namespace mythical {
       const int z_min = pos_i.at(2) - num_sites;
       const int z_max = pos_i.at(2) + num_sites;
 
-      const int max_num_neigh =2*num_sites*2*num_sites*2*num_sites;
       std::vector<std::pair<int,double>> neighbors;
-      neighbors.reserve(max_num_neigh);
 
       for ( int x_ind = x_min; x_ind <= x_max; ++x_ind ) {
         int x_lattice_pos = x_ind;
@@ -376,9 +374,7 @@ namespace mythical {
       const int z_min = z - num_sites;
       const int z_max = z + num_sites;
 
-      const int max_num_neigh = 2*num_sites*2*num_sites*2*num_sites;
       std::vector<int> neighbors;
-      neighbors.reserve(max_num_neigh);
 
       for ( int x_ind = x_min; x_ind <= x_max; ++x_ind ) {
         int x_lattice_pos = x_ind;
-- 
2.43.0


From 4b614295f150308b5c5c8cb553e8a9ed8b368365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:05 +0000
Subject: [PATCH 23/30] fix: a cluster whose sites were moved on kept the
 unfinished stays of its walkers

---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index dd71cc0..4ffaf17 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -173,6 +173,7 @@ void Cluster::migrateSitesFrom(Cluster& cluster) {
   cluster.sumOfEscapeRateFromSiteToNeighbor_.clear();
   cluster.site_visits_.clear();
   cluster.internal_dwell_time_.clear();
+  cluster.remaining_walker_dwell_times_.clear();
   cluster.probabilityHopToNeighbor_.clear();
   cluster.cumulitive_probabilityHopToNeighbor_.clear();
   cluster.escape_time_constant_ = constants::unassigned_value;
-- 
2.43.0


From 437c8a8c94d21940c98a38bde7527f3c99329b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:08 +0000
Subject: [PATCH 24/30] fix: lattices with more sites than an int can number
 were accepted

---
 .../charge_transport/cuboid_lattice.cpp         | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index eab5805..3e07742 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -2,6 +2,7 @@
 #include "mythical/charge_transport/cuboid_lattice.hpp"
 
 #include <iostream>
+#include <limits>
 #include <string>
 #include <vector>
 #include <stdexcept>
@@ -66,6 +67,13 @@ namespace mythical {
         throw std::invalid_argument("Cannot initialize Cuboid Lattice with "
             "a negative height");
       }
+      // Sites are numbered with ints
+      const int max_sites = std::numeric_limits<int>::max();
+      if ( length_ > 0 && width_ > 0 && height_ > 0 &&
+          ( width_ > max_sites/length_ || height_ > max_sites/(length_*width_) ) ) {
+        throw std::invalid_argument("Cannot initialize Cuboid Lattice, it has "
+            "more sites than can be numbered");
+      }
     }
     
     void Cuboid::checkIndex_(const int index) const {
@@ -179,13 +187,14 @@ namespace mythical {
      *************************************************************************/
     Cuboid::Cuboid(const int length, const int width, const int height) : 
       length_(length), width_(width), height_(height), 
-      total_(length*width*height),
+      total_(0),
       inter_site_distance_(1.0),
       x_bound_(BoundarySetting::Fixed),
       y_bound_(BoundarySetting::Fixed),
       z_bound_(BoundarySetting::Fixed)
     {
       checkBounds_(); 
+      total_ = length_*width_*height_;
       setDistributions_();
     }
 
@@ -194,13 +203,14 @@ namespace mythical {
         const int height, 
         const double inter_site_distance) :
       length_(length), width_(width), height_(height),
-      total_(length*width*height),
+      total_(0),
       inter_site_distance_(inter_site_distance),
       x_bound_(BoundarySetting::Fixed),
       y_bound_(BoundarySetting::Fixed),
       z_bound_(BoundarySetting::Fixed)
        {
         checkBounds_(); 
+        total_ = length_*width_*height_;
         setDistributions_();
       }
 
@@ -212,11 +222,12 @@ namespace mythical {
         const BoundarySetting y_bound,
         const BoundarySetting z_bound) :
       length_(length), width_(width), height_(height),
-      total_(length*width*height),
+      total_(0),
       inter_site_distance_(inter_site_distance),
       x_bound_(x_bound), y_bound_(y_bound), z_bound_(z_bound)
        {
         checkBounds_();
+        total_ = length_*width_*height_;
         setDistributions_();
       }
 
-- 
2.43.0


From 7dc9b5e13b6452024d8f0206f2e3d586922065f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:09 +0000
Subject: [PATCH 25/30] fix: hop counter and doubled threshold of coarse
 graining overflowed

After 2^30 hops without a cluster (or 2^31 with coarse graining off) the int
counter or the doubled threshold overflowed, and a negative threshold made every
hop an attempt to coarse grain.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 6590a1c..ac53b2b 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -230,12 +230,12 @@ namespace mythical {
       walker->setPotentialSite(feature->pickNewSiteId(walker_id));
     }
 
-    ++iteration_;
+    if(iteration_ < constants::inf_iterations) ++iteration_;
     if(iteration_ > iteration_threshold_){
       if(iteration_threshold_min_!=constants::inf_iterations){
         if(coarseGrain_(siteToHopToId)){
           iteration_threshold_ = iteration_threshold_min_;
-        }else{
+        }else if(iteration_threshold_ < constants::inf_iterations/2){
           iteration_threshold_*=2;
         }
       }
-- 
2.43.0


From 190bca89b6e7f5f61443e332f25cb2d12615de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:03 +0000
Subject: [PATCH 26/30] fix: neighbour searches with cutoffs beyond the int
 range

The number of sites within the cutoff was converted to an int, which
overflows for long cutoffs (an infinite one for example) and made the
search return nothing. Along fixed axes the search window is now limited to the
lattice.
---
 .../charge_transport/cuboid_lattice.cpp       | 45 +++++++++++++------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 3e07742..3d0e921 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -1,6 +1,7 @@
 
 #include "mythical/charge_transport/cuboid_lattice.hpp"
 
+#include <algorithm>
 #include <iostream>
 #include <limits>
 #include <string>
@@ -12,6 +13,22 @@ namespace mythical {
 
   namespace charge_transport {
 
+    /**************************************************************************
+     * Internal Functions
+     *************************************************************************/
+
+    // First and last position not more than num_sites away from pos. Along a
+    // fixed axis only positions on the lattice count, however large num_sites is.
+    static int firstInRange_(const int pos, const double num_sites, const int edge, const BoundarySetting bound) {
+      if ( bound == BoundarySetting::Periodic ) return pos - static_cast<int>(num_sites);
+      return static_cast<int>(std::min(std::max(pos - num_sites, 0.0), static_cast<double>(edge)));
+    }
+
+    static int lastInRange_(const int pos, const double num_sites, const int edge, const BoundarySetting bound) {
+      if ( bound == BoundarySetting::Periodic ) return pos + static_cast<int>(num_sites);
+      return static_cast<int>(std::min(std::max(pos + num_sites, -1.0), static_cast<double>(edge-1)));
+    }
+
     /**************************************************************************
      * Internal Methods
      *************************************************************************/
@@ -110,18 +127,18 @@ namespace mythical {
     std::vector<std::pair<int,double>> Cuboid::getNeighborDistances_(const std::vector<int> pos_i, const double cutoff) const {
 
       // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
+      const double num_sites = std::floor(cutoff/inter_site_distance_);  
 
       const int x = pos_i.at(0);
       const int y = pos_i.at(1);
       const int z = pos_i.at(2);
       const int index = getIndex_(x, y, z);
-      const int x_min = pos_i.at(0) - num_sites;
-      const int x_max = pos_i.at(0) + num_sites;
-      const int y_min = pos_i.at(1) - num_sites;
-      const int y_max = pos_i.at(1) + num_sites;
-      const int z_min = pos_i.at(2) - num_sites;
-      const int z_max = pos_i.at(2) + num_sites;
+      const int x_min = firstInRange_(pos_i.at(0), num_sites, length_, x_bound_);
+      const int x_max = lastInRange_(pos_i.at(0), num_sites, length_, x_bound_);
+      const int y_min = firstInRange_(pos_i.at(1), num_sites, width_, y_bound_);
+      const int y_max = lastInRange_(pos_i.at(1), num_sites, width_, y_bound_);
+      const int z_min = firstInRange_(pos_i.at(2), num_sites, height_, z_bound_);
+      const int z_max = lastInRange_(pos_i.at(2), num_sites, height_, z_bound_);
 
       std::vector<std::pair<int,double>> neighbors;
 
@@ -373,17 +390,17 @@ namespace mythical {
       checkIndex_(index);
       std::vector<int> pos_i = getPosition(index);
       // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
+      const double num_sites = std::floor(cutoff/inter_site_distance_);  
 
       const int x = pos_i.at(0);
       const int y = pos_i.at(1);
       const int z = pos_i.at(2);
-      const int x_min = x - num_sites;
-      const int x_max = x + num_sites;
-      const int y_min = y - num_sites;
-      const int y_max = y + num_sites;
-      const int z_min = z - num_sites;
-      const int z_max = z + num_sites;
+      const int x_min = firstInRange_(x, num_sites, length_, x_bound_);
+      const int x_max = lastInRange_(x, num_sites, length_, x_bound_);
+      const int y_min = firstInRange_(y, num_sites, width_, y_bound_);
+      const int y_max = lastInRange_(y, num_sites, width_, y_bound_);
+      const int z_min = firstInRange_(z, num_sites, height_, z_bound_);
+      const int z_max = lastInRange_(z, num_sites, height_, z_bound_);
 
       std::vector<int> neighbors;
 
-- 
2.43.0


From 0f83e89a5585c0dccf792cf92dda0cc97b0a67e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:06 +0000
Subject: [PATCH 27/30] fix: refuse positions on lattices without sites

Asking a lattice with a periodic axis of no sites for the index of a position
divided by zero.
---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 3d0e921..c445bf6 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -269,6 +269,9 @@ namespace mythical {
     }
 
     int Cuboid::getIndex(const int x, const int y, const int z) const {
+      if ( total_ == 0 ) {
+        throw std::invalid_argument("Cannot get index, the lattice has no sites");
+      }
       int x_lattice_pos = x;
       int y_lattice_pos = y;
       int z_lattice_pos = z;
-- 
2.43.0


From f96a73e8249bbc3da82a1a81e961cd5e5ee6c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:19 +0000
Subject: [PATCH 28/30] fix: smallest distance overflowed an int on periodic
 lattices longer than 2^30 sites

---
 .../charge_transport/cuboid_lattice.cpp       | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index c445bf6..4f7dcab 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -489,26 +489,26 @@ namespace mythical {
       const int x1 = pos_1.at(0);
       const int x2 = pos_2.at(0);
       if ( x_bound_ == BoundarySetting::Periodic ){
-        const int diff1 = abs(x2 - x1 + length_);
-        const int diff2 = abs(x2 - x1 - length_);
-        const int diff = min(diff1, diff2); 
-        pos_2.at(0) = x1 + min(diff,abs(x2 - x1));
+        const int diff = abs(x2 - x1);
+        // Only the separation matters, and unlike the positions it does not overflow
+        pos_1.at(0) = 0;
+        pos_2.at(0) = min(diff,length_ - diff);
       }
       const int y1 = pos_1.at(1);
       const int y2 = pos_2.at(1);
       if ( y_bound_ == BoundarySetting::Periodic ){
-        const int diff1 = abs(y2 - y1 + width_);
-        const int diff2 = abs(y2 - y1 - width_);
-        const int diff = min(diff1, diff2); 
-        pos_2.at(1) = y1 + min(diff,abs(y2 - y1));
+        const int diff = abs(y2 - y1);
+        // Only the separation matters, and unlike the positions it does not overflow
+        pos_1.at(1) = 0;
+        pos_2.at(1) = min(diff,width_ - diff);
       }
       const int z1 = pos_1.at(2);
       const int z2 = pos_2.at(2);
       if ( z_bound_ == BoundarySetting::Periodic ){
-        const int diff1 = abs(z2 - z1 + height_);
-        const int diff2 = abs(z2 - z1 - height_);
-        const int diff = min(diff1, diff2); 
-        pos_2.at(2) = z1 + min(diff,abs(z2 - z1));
+        const int diff = abs(z2 - z1);
+        // Only the separation matters, and unlike the positions it does not overflow
+        pos_1.at(2) = 0;
+        pos_2.at(2) = min(diff,height_ - diff);
       }
       return getDistance_(pos_1.at(0), pos_1.at(1), pos_1.at(2), pos_2.at(0), pos_2.at(1), pos_2.at(2));
     }
-- 
2.43.0


From b9b85247b3b6a4c21d139f4c7c2fc5c690a59cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:39 +0000
Subject: [PATCH 29/30] fix: neighbour searches overflowed an int next to the
 end of periodic lattices of almost 2^31 sites

---
 .../charge_transport/cuboid_lattice.hpp       | 10 +--
 .../charge_transport/cuboid_lattice.cpp       | 82 +++++++++----------
 2 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/CoarseGrainSites/include/mythical/charge_transport/cuboid_lattice.hpp b/CoarseGrainSites/include/mythical/charge_transport/cuboid_lattice.hpp
index 668d602..243b522 100644
--- a/CoarseGrainSites/include/mythical/charge_transport/cuboid_lattice.hpp
+++ b/CoarseGrainSites/include/mythical/charge_transport/cuboid_lattice.hpp
@@ -127,9 +127,9 @@ namespace mythical {
         BoundarySetting y_bound_;
         BoundarySetting z_bound_;
 
-        int getXPeriodic_( const int x ) const noexcept;
-        int getYPeriodic_( const int y ) const noexcept;
-        int getZPeriodic_( const int z ) const noexcept;
+        int getXPeriodic_( const long x ) const noexcept;
+        int getYPeriodic_( const long y ) const noexcept;
+        int getZPeriodic_( const long z ) const noexcept;
 
         void checkPosX_(const int x) const;
         void checkPosY_(const int y) const;
@@ -142,8 +142,8 @@ namespace mythical {
 
         std::vector<int> getPos_(int index) const noexcept;
         // Only call if indices have already been checked
-        double getDistance_(const int x1, const int y1, const int z1,
-            const int x2, const int y2, const int z2) const noexcept;
+        double getDistance_(const long x1, const long y1, const long z1,
+            const long x2, const long y2, const long z2) const noexcept;
 
         std::vector<std::pair<int,double>> getNeighborDistances_(const std::vector<int> lattice_pos, const double cutoff) const;
 
diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 4f7dcab..655267c 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -19,14 +19,14 @@ namespace mythical {
 
     // First and last position not more than num_sites away from pos. Along a
     // fixed axis only positions on the lattice count, however large num_sites is.
-    static int firstInRange_(const int pos, const double num_sites, const int edge, const BoundarySetting bound) {
-      if ( bound == BoundarySetting::Periodic ) return pos - static_cast<int>(num_sites);
-      return static_cast<int>(std::min(std::max(pos - num_sites, 0.0), static_cast<double>(edge)));
+    static long firstInRange_(const int pos, const double num_sites, const int edge, const BoundarySetting bound) {
+      if ( bound == BoundarySetting::Periodic ) return pos - static_cast<long>(num_sites);
+      return static_cast<long>(std::min(std::max(pos - num_sites, 0.0), static_cast<double>(edge)));
     }
 
-    static int lastInRange_(const int pos, const double num_sites, const int edge, const BoundarySetting bound) {
-      if ( bound == BoundarySetting::Periodic ) return pos + static_cast<int>(num_sites);
-      return static_cast<int>(std::min(std::max(pos + num_sites, -1.0), static_cast<double>(edge-1)));
+    static long lastInRange_(const int pos, const double num_sites, const int edge, const BoundarySetting bound) {
+      if ( bound == BoundarySetting::Periodic ) return pos + static_cast<long>(num_sites);
+      return static_cast<long>(std::min(std::max(pos + num_sites, -1.0), static_cast<double>(edge-1)));
     }
 
     /**************************************************************************
@@ -108,8 +108,8 @@ namespace mythical {
       return (z*length_*width_) + (y*length_)+x;  
     }
 
-    double Cuboid::getDistance_(const int x1, const int y1, const int z1,
-        const int x2, const int y2, const int z2) const noexcept {
+    double Cuboid::getDistance_(const long x1, const long y1, const long z1,
+        const long x2, const long y2, const long z2) const noexcept {
 
       // Squaring an int overflows for separations above 46340 sites
       double xdiff = static_cast<double>(x1-x2);
@@ -133,29 +133,29 @@ namespace mythical {
       const int y = pos_i.at(1);
       const int z = pos_i.at(2);
       const int index = getIndex_(x, y, z);
-      const int x_min = firstInRange_(pos_i.at(0), num_sites, length_, x_bound_);
-      const int x_max = lastInRange_(pos_i.at(0), num_sites, length_, x_bound_);
-      const int y_min = firstInRange_(pos_i.at(1), num_sites, width_, y_bound_);
-      const int y_max = lastInRange_(pos_i.at(1), num_sites, width_, y_bound_);
-      const int z_min = firstInRange_(pos_i.at(2), num_sites, height_, z_bound_);
-      const int z_max = lastInRange_(pos_i.at(2), num_sites, height_, z_bound_);
+      const long x_min = firstInRange_(pos_i.at(0), num_sites, length_, x_bound_);
+      const long x_max = lastInRange_(pos_i.at(0), num_sites, length_, x_bound_);
+      const long y_min = firstInRange_(pos_i.at(1), num_sites, width_, y_bound_);
+      const long y_max = lastInRange_(pos_i.at(1), num_sites, width_, y_bound_);
+      const long z_min = firstInRange_(pos_i.at(2), num_sites, height_, z_bound_);
+      const long z_max = lastInRange_(pos_i.at(2), num_sites, height_, z_bound_);
 
       std::vector<std::pair<int,double>> neighbors;
 
-      for ( int x_ind = x_min; x_ind <= x_max; ++x_ind ) {
-        int x_lattice_pos = x_ind;
+      for ( long x_ind = x_min; x_ind <= x_max; ++x_ind ) {
+        int x_lattice_pos = static_cast<int>(x_ind);
         if ( x_bound_ == BoundarySetting::Periodic ) {
           x_lattice_pos = getXPeriodic_(x_ind);
         }       
         if ( x_lattice_pos >= 0 && x_lattice_pos < length_ ) {
-          for ( int y_ind = y_min; y_ind <= y_max; ++y_ind ) {
-            int y_lattice_pos = y_ind;
+          for ( long y_ind = y_min; y_ind <= y_max; ++y_ind ) {
+            int y_lattice_pos = static_cast<int>(y_ind);
             if ( y_bound_ == BoundarySetting::Periodic ) {
               y_lattice_pos = getYPeriodic_(y_ind);
             }       
             if ( y_lattice_pos >= 0 && y_lattice_pos < width_ ) {
-              for ( int z_ind = z_min; z_ind <= z_max; ++z_ind ){
-                int z_lattice_pos = z_ind;
+              for ( long z_ind = z_min; z_ind <= z_max; ++z_ind ){
+                int z_lattice_pos = static_cast<int>(z_ind);
 
                 if ( z_bound_ == BoundarySetting::Periodic ) {
                   z_lattice_pos = getZPeriodic_(z_ind);
@@ -178,19 +178,19 @@ namespace mythical {
     }
 
 
-    int Cuboid::getXPeriodic_( const int x ) const noexcept{
-      const int remainder = x % length_;
-      return remainder < 0 ? remainder + length_ : remainder;
+    int Cuboid::getXPeriodic_( const long x ) const noexcept{
+      const long remainder = x % length_;
+      return static_cast<int>(remainder < 0 ? remainder + length_ : remainder);
     }
 
-    int Cuboid::getYPeriodic_( const int y ) const noexcept{
-      const int remainder = y % width_;
-      return remainder < 0 ? remainder + width_ : remainder;
+    int Cuboid::getYPeriodic_( const long y ) const noexcept{
+      const long remainder = y % width_;
+      return static_cast<int>(remainder < 0 ? remainder + width_ : remainder);
     }
 
-    int Cuboid::getZPeriodic_( const int z ) const noexcept{
-      const int remainder = z % height_;
-      return remainder < 0 ? remainder + height_ : remainder;
+    int Cuboid::getZPeriodic_( const long z ) const noexcept{
+      const long remainder = z % height_;
+      return static_cast<int>(remainder < 0 ? remainder + height_ : remainder);
     }
 
     void Cuboid::setDistributions_() {
@@ -398,29 +398,29 @@ namespace mythical {
       const int x = pos_i.at(0);
       const int y = pos_i.at(1);
       const int z = pos_i.at(2);
-      const int x_min = firstInRange_(x, num_sites, length_, x_bound_);
-      const int x_max = lastInRange_(x, num_sites, length_, x_bound_);
-      const int y_min = firstInRange_(y, num_sites, width_, y_bound_);
-      const int y_max = lastInRange_(y, num_sites, width_, y_bound_);
-      const int z_min = firstInRange_(z, num_sites, height_, z_bound_);
-      const int z_max = lastInRange_(z, num_sites, height_, z_bound_);
+      const long x_min = firstInRange_(x, num_sites, length_, x_bound_);
+      const long x_max = lastInRange_(x, num_sites, length_, x_bound_);
+      const long y_min = firstInRange_(y, num_sites, width_, y_bound_);
+      const long y_max = lastInRange_(y, num_sites, width_, y_bound_);
+      const long z_min = firstInRange_(z, num_sites, height_, z_bound_);
+      const long z_max = lastInRange_(z, num_sites, height_, z_bound_);
 
       std::vector<int> neighbors;
 
-      for ( int x_ind = x_min; x_ind <= x_max; ++x_ind ) {
-        int x_lattice_pos = x_ind;
+      for ( long x_ind = x_min; x_ind <= x_max; ++x_ind ) {
+        int x_lattice_pos = static_cast<int>(x_ind);
         if ( x_bound_ == BoundarySetting::Periodic ) {
           x_lattice_pos = getXPeriodic_(x_ind);
         }       
         if ( x_lattice_pos >= 0 && x_lattice_pos < length_ ) {
-          for ( int y_ind = y_min; y_ind <= y_max; ++y_ind ) {
-            int y_lattice_pos = y_ind;
+          for ( long y_ind = y_min; y_ind <= y_max; ++y_ind ) {
+            int y_lattice_pos = static_cast<int>(y_ind);
             if ( y_bound_ == BoundarySetting::Periodic ) {
               y_lattice_pos = getYPeriodic_(y_ind);
             }       
             if ( y_lattice_pos >= 0 && y_lattice_pos < width_ ) {
-              for ( int z_ind = z_min; z_ind <= z_max; ++z_ind ){
-                int z_lattice_pos = z_ind;
+              for ( long z_ind = z_min; z_ind <= z_max; ++z_ind ){
+                int z_lattice_pos = static_cast<int>(z_ind);
 
                 if ( z_bound_ == BoundarySetting::Periodic ) {
                   z_lattice_pos = getZPeriodic_(z_ind);
-- 
2.43.0


From ddde77139ee8a1a60e2e8dbd882cb9cba10d282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:02 +0000
Subject: [PATCH 30/30] fix: occupation probabilities of clusters that are left
 at almost every hop lost their precision to cancellation and need not
 converge

---
 .../src/libmythical/topologyfeatures/cluster.cpp             | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 4ffaf17..10638a9 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -361,7 +361,7 @@ void Cluster::iterate_() {
   unordered_map<int, double> temp_probabilityOnSite;
   // Initialize temporary probabilities
   for(auto site : sitesInCluster_){
-    temp_probabilityOnSite[site.first] = probabilityOnSite_[site.first];
+    temp_probabilityOnSite[site.first] = 0.0;
   }
   
   double total = 0.0;
@@ -372,9 +372,6 @@ void Cluster::iterate_() {
           sitesInCluster_[neighsite].getProbabilityOfHoppingToNeighboringSite(site.first) *
           probabilityOnSite_[neighsite];
       }
-      temp_probabilityOnSite[site.first] -=
-        sitesInCluster_[site.first].getProbabilityOfHoppingToNeighboringSite(neighsite) *
-        probabilityOnSite_[site.first];
     }
     total += temp_probabilityOnSite[site.first];
   }
-- 
2.43.0

