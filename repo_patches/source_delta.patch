From bdd53fa2c7d40129bd6d0ba146b8670bcdf8e119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 01/58] fix: dinf_upslope_area gave each neighbour the other
 neighbour's share of flow

---
 include/richdem/methods/dinf_methods.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index 6535315..9686292 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -81,8 +81,8 @@ static void area_proportion(float flowdir, int nhigh, int nlow, float &phigh, fl
     phigh = 1;
     plow  = 0;
   } else {
-    phigh = (nhigh*(M_PI/4.0)-flowdir)/(M_PI/4.0);
-    plow  = 1-phigh;
+    plow  = (nhigh*(M_PI/4.0)-flowdir)/(M_PI/4.0); //The nearer a neighbour is to the flow's angle, the more flow it receives
+    phigh = 1-plow;
   }
 
   assert(phigh+plow==1);  //TODO: This isn't necessarily so in floating-point... or is it?
-- 
2.43.0


From ff467adbb2b08224999bfd2be60142ce1971bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 02/58] fix: dinf_upslope_area left cells without flow
 direction or upstream cells at zero area

---
 include/richdem/methods/dinf_methods.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index 9686292..c0e9a82 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -191,8 +191,6 @@ void dinf_upslope_area(
     for(int x=0;x<flowdirs.width();x++)
       if(flowdirs(x,y)==flowdirs.noData())
         continue;
-      else if(flowdirs(x,y)==NO_FLOW)
-        continue;
       else if(dependency(x,y)==0)
         sources.emplace(x,y);
   }
-- 
2.43.0


From 86ae89d925618445700da14bafbef13700273ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 03/58] fix: D4 flow metrics stored D4 neighbour labels where
 flow accumulation expects D8 labels

---
 include/richdem/common/constants.hpp       | 1 +
 include/richdem/flowmet/Fairfield1991.hpp  | 2 +-
 include/richdem/flowmet/OCallaghan1984.hpp | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/constants.hpp b/include/richdem/common/constants.hpp
index 2abd314..17f511d 100644
--- a/include/richdem/common/constants.hpp
+++ b/include/richdem/common/constants.hpp
@@ -54,6 +54,7 @@ constexpr std::array<int, 5> d4x = {0, -1,  0, 1, 0}; ///< x offsets of D4 neigh
 constexpr std::array<int, 5> d4y = {0,  0, -1, 0, 1}; ///< y offsets of D4 neighbours, from a central cell
 constexpr std::array<double, 5> d4r = {0, 1, 1, 1, 1};
 constexpr std::array<bool, 5> n4_diag = {false, false, false, false, false};
+constexpr std::array<int, 5> d4_to_d8 = {0, 1, 3, 5, 7}; ///< D8 label of each D4 neighbour
 constexpr int D4_WEST  = 1;
 constexpr int D4_NORTH = 2;
 constexpr int D4_EAST  = 3;
diff --git a/include/richdem/flowmet/Fairfield1991.hpp b/include/richdem/flowmet/Fairfield1991.hpp
index 3452927..0d934cf 100644
--- a/include/richdem/flowmet/Fairfield1991.hpp
+++ b/include/richdem/flowmet/Fairfield1991.hpp
@@ -72,7 +72,7 @@ void FM_FairfieldLeymarie(const Array2D<elev_t> &elevations, Array3D<float> &pro
       continue;
 
     props(x,y,0)          = HAS_FLOW_GEN;
-    props(x,y,greatest_n) = 1;
+    props(x,y,(topo==Topology::D4) ? d4_to_d8[greatest_n] : greatest_n) = 1; //Neighbours are always stored using their D8 labels
 
     assert(elevations(x,y)>=elevations(x+dx[greatest_n],y+dy[greatest_n])); //Ensure flow goes downhill
   }
diff --git a/include/richdem/flowmet/OCallaghan1984.hpp b/include/richdem/flowmet/OCallaghan1984.hpp
index 148e5d9..bd09a87 100644
--- a/include/richdem/flowmet/OCallaghan1984.hpp
+++ b/include/richdem/flowmet/OCallaghan1984.hpp
@@ -71,7 +71,7 @@ void FM_OCallaghan(
 
     assert(elevations(ci)>=elevations(ci+elevations.nshift(lowest_n))); //Ensure flow goes downhill
 
-    props(x,y,lowest_n) = 1;
+    props(x,y,(topo==Topology::D4) ? d4_to_d8[lowest_n] : lowest_n) = 1; //Neighbours are always stored using their D8 labels
   }
   progress.stop();
 }
-- 
2.43.0


From 14c05ebbcb4daf7ddbbc87d9819450a04be45eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 04/58] fix: d8_flow_accum lost dependency counts when threads
 shared a receiving cell

---
 include/richdem/methods/d8_methods.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/methods/d8_methods.hpp b/include/richdem/methods/d8_methods.hpp
index f2010c6..597d601 100644
--- a/include/richdem/methods/d8_methods.hpp
+++ b/include/richdem/methods/d8_methods.hpp
@@ -86,7 +86,9 @@ void d8_flow_accum(const Array2D<T> &flowdirs, Array2D<U> &area){
         continue;
 
       //Neighbour is valid and is part of the grid. The neighbour depends on this
-      //cell, so increment its dependency count.
+      //cell, so increment its dependency count. Several threads may share this
+      //neighbour.
+      #pragma omp atomic
       ++dependency(nx,ny);
     }
   }
-- 
2.43.0


From 2cff784ea253685c999d3eede03ee3258db4b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 05/58] fix: dinf_upslope_area lost dependency counts when
 threads shared a receiving cell

---
 include/richdem/methods/dinf_methods.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index c0e9a82..2a73bae 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -169,10 +169,15 @@ void dinf_upslope_area(
         nlx = x+dinf_dx[n_low];
         nly = y+dinf_dy[n_low];
       }
-      if( n_low!=-1 && flowdirs.inGrid(nlx,nly) && flowdirs(nlx,nly)!=flowdirs.noData() )
+      //Several threads may share a receiving cell
+      if( n_low!=-1 && flowdirs.inGrid(nlx,nly) && flowdirs(nlx,nly)!=flowdirs.noData() ){
+        #pragma omp atomic
         dependency(nlx,nly)++;
-      if( flowdirs.inGrid(nhx,nhy) && flowdirs(nhx,nhy)!=flowdirs.noData() )
+      }
+      if( flowdirs.inGrid(nhx,nhy) && flowdirs(nhx,nhy)!=flowdirs.noData() ){
+        #pragma omp atomic
         dependency(nhx,nhy)++;
+      }
     }
   }
   RDLOG_TIME_USE<<"Succeeded in = "<<progress.stop()<<" s";
-- 
2.43.0


From e689b75f98dd6f1c735e3839b3827312b80b3e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 06/58] fix: seed_rand gave thread 0 the same stream for every
 seed

---
 src/random.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/random.cpp b/src/random.cpp
index 74c0f8c..fd63339 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -39,7 +39,14 @@ void seed_rand(uint64_t seed){
       std::seed_seq q(std::begin(seed_data), std::end(seed_data));
       rand_engine().seed(q);
     } else {
-      rand_engine().seed( seed*rd_get_thread_num() );
+      //All of the seed and the thread's number go into the state: a product of the
+      //two would give thread 0 the same numbers for every seed
+      std::seed_seq q{
+        static_cast<std::uint_least32_t>(seed),
+        static_cast<std::uint_least32_t>(seed>>32),
+        static_cast<std::uint_least32_t>(rd_get_thread_num())
+      };
+      rand_engine().seed(q);
     }
   }
 }
-- 
2.43.0


From 1ddf4bedf2ec4e8662cf2f3ac3094efe66e0d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 07/58] fix: random state save, restore and seeding ignored the
 pending normal number

---
 src/random.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/random.cpp b/src/random.cpp
index fd63339..54c1d30 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -26,11 +26,20 @@ our_random_engine& rand_engine(){
 }
 
 
+//The normal distribution keeps every second number it makes for its next call,
+//so it is part of a thread's state
+static std::normal_distribution<double>& normal_dist(){
+  static std::array<std::normal_distribution<double>, PRNG_THREAD_MAX> d;
+  return d[rd_get_thread_num()];
+}
+
+
 //Be sure to read: http://www.pcg-random.org/posts/cpp-seeding-surprises.html
 //and http://www.pcg-random.org/posts/cpps-random_device.html
 void seed_rand(uint64_t seed){
   #pragma omp parallel default(none) shared(seed) //All threads must come here
   {
+    normal_dist().reset();
     #pragma omp critical    //But only one at a time
     if(seed==0){
       std::array<std::uint_least32_t, std::mt19937::state_size> seed_data;
@@ -67,20 +76,21 @@ double uniform_rand_real(double from, double thru){
 
 
 double normal_rand(double mean, double stddev){
-  static std::array<std::normal_distribution<double>, PRNG_THREAD_MAX> d;
   using parm_t = std::normal_distribution<double>::param_type;
-  return d[rd_get_thread_num()]( rand_engine(), parm_t{mean, stddev} );
+  return normal_dist()( rand_engine(), parm_t{mean, stddev} );
 }
 
 RandomEngineState SaveRandomState(){
   std::ostringstream oss;
-  oss<<rand_engine();
+  oss<<rand_engine()<<' '<<normal_dist();
   return oss.str();
 }
 
 void SetRandomState(const RandomEngineState &res){
   std::istringstream iss(res);
   iss>>rand_engine();
+  normal_dist().reset();
+  iss>>normal_dist();
 }
 
 }
-- 
2.43.0


From 9257d8a3b262076d2b9222828adde7ae9834b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 08/58] fix: Fill-Spill-Merge must not take the neighbour at
 index 0 for having no neighbour

---
 include/richdem/depressions/fill_spill_merge.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/depressions/fill_spill_merge.hpp b/include/richdem/depressions/fill_spill_merge.hpp
index 1e33158..08ad441 100644
--- a/include/richdem/depressions/fill_spill_merge.hpp
+++ b/include/richdem/depressions/fill_spill_merge.hpp
@@ -279,7 +279,7 @@ static void MoveWaterIntoPits(
 
     //Coordinates of downstream neighbour, if any
     const auto ndir = flowdirs(c); //Neighbour direction
-    int n = NO_FLOW;               //Neighbour address
+    int n = -1;                    //Neighbour address; -1 for none, since 0 (NO_FLOW) is a cell's address
     if(ndir!=NO_FLOW){
       int x,y;
       topo.iToxy(c,x,y);
@@ -289,7 +289,7 @@ static void MoveWaterIntoPits(
       assert(n>=0);
     }
 
-    if(n == NO_FLOW){    //If this is a pit cell, move the water to the appropriate depression's water_vol.
+    if(n == -1){         //If this is a pit cell, move the water to the appropriate depression's water_vol.
       //Note that OCEAN cells have NO_FLOW so this will route water to the OCEAN
       //depression. This can be used to find out how much total run-off made it
       //into the ocean.
-- 
2.43.0


From b1ea1963a5ef4eb6592c1f62308dec022035ec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 09/58] fix: Fill-Spill-Merge must not create water when the
 surface falls below a saddle

---
 .../richdem/depressions/fill_spill_merge.hpp  | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/richdem/depressions/fill_spill_merge.hpp b/include/richdem/depressions/fill_spill_merge.hpp
index 08ad441..3f7d198 100644
--- a/include/richdem/depressions/fill_spill_merge.hpp
+++ b/include/richdem/depressions/fill_spill_merge.hpp
@@ -15,6 +15,7 @@
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <queue>
 #include <stdexcept>
 #include <string>
@@ -818,6 +819,9 @@ void FillDepressions(
   //dephier.hpp TODO)
   double total_elevation = 0;
 
+  //Elevation of the highest of the cells_affected
+  double highest_elevation = -std::numeric_limits<double>::infinity();
+
   while(!flood_q.empty()){
     const auto c = flood_q.top();
     flood_q.pop();
@@ -858,7 +862,17 @@ void FillDepressions(
     //   sufficient topographic volume to hold all the water. In this case, the
     //   cell's water table is left unaffected.
 
-    if(fp_le(water_vol,current_volume-wtd(c.x,c.y))){
+    //If this cell is lower than one we've already visited, then we have climbed
+    //over a saddle and `current_volume` says nothing about how much water fits.
+    //All such a cell can do is to soak up water. Only if that uses up all of the
+    //water are we done.
+    const bool beyond_saddle = topo(c.x,c.y)<highest_elevation;
+    if(beyond_saddle && water_vol<=-wtd(c.x,c.y)){
+      wtd(c.x,c.y) += water_vol;
+      return;
+    }
+
+    if(!beyond_saddle && fp_le(water_vol,current_volume-wtd(c.x,c.y))){
       //The current scope of the depression plus the water storage capacity of
       //this cell is sufficient to store all of the water. We'll stop adding
       //cells and fill things now.
@@ -872,6 +886,18 @@ void FillDepressions(
       assert(cells_affected.size()==0 || fp_le(topo(cells_affected.back()),water_level));
       assert(topo(c.x,c.y)>water_level || fp_eq(topo(c.x,c.y),water_level));
 
+      //The water table may have soaked up so much that the water's surface is
+      //below the saddles we've climbed over. Cells which are not under water
+      //don't take part in the Lake-Level Equation.
+      if(water_level<highest_elevation){
+        std::sort(cells_affected.begin(), cells_affected.end(), [&](const flat_c_idx a, const flat_c_idx b){ return topo(a)<topo(b); });
+        while(cells_affected.size()>1 && water_level<topo(cells_affected.back())){
+          total_elevation -= topo(cells_affected.back());
+          cells_affected.pop_back();
+          water_level = (water_vol+total_elevation)/cells_affected.size();
+        }
+      }
+
       BackfillDepression(water_level, topo, wtd, cells_affected);
 
       //We've spread the water, so we're done
@@ -894,6 +920,7 @@ void FillDepressions(
 
       //Add the current cell's information to the running total
       total_elevation += topo(c.x,c.y);
+      highest_elevation = std::max(highest_elevation, static_cast<double>(topo(c.x,c.y)));
     }
 
     //Add focal cell's neighbours to expand the search for more volume.
-- 
2.43.0


From 275c522c6b0fb33e5c3d6cfe503c5488f7079320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 10/58] fix: rasters made by several threads at once registered
 GDAL's drivers concurrently

---
 include/richdem/common/Array2D.hpp  |  2 +-
 include/richdem/common/gdal.hpp     | 15 ++++++++++++++-
 include/richdem/tiled/A2Array2D.hpp |  4 ++--
 src/gdal.cpp                        |  4 ++--
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 46fd58e..e8c4844 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -283,7 +283,7 @@ class Array2D {
  public:
   Array2D(){
     #ifdef USEGDAL
-    GDALAllRegister();
+    RegisterGDALDrivers();
     #endif
   }
 
diff --git a/include/richdem/common/gdal.hpp b/include/richdem/common/gdal.hpp
index 879f9a2..002af52 100644
--- a/include/richdem/common/gdal.hpp
+++ b/include/richdem/common/gdal.hpp
@@ -8,6 +8,19 @@
 
 namespace richdem {
 
+/**
+  @brief  Makes GDAL's drivers available, once
+
+  GDALAllRegister() must not be run by several threads at the same time, but
+  rasters may well be made by several threads at the same time.
+*/
+inline void RegisterGDALDrivers(){
+  static const bool registered = [](){ GDALAllRegister(); return true; }();
+  (void)registered;
+}
+
+
+
 /**
   @brief  Determine data type of a GDAL file's first layer
   @author Richard Barnes (rbarnes@umn.edu)
@@ -36,7 +49,7 @@ void getGDALHeader(
   T       &no_data,
   double  geotransform[6]
 ){
-  GDALAllRegister();
+  RegisterGDALDrivers();
   GDALDataset *fin = (GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly);
   if(fin==NULL)
     throw std::runtime_error("Could not get GDAL header: file '" + filename + "'' did not open!");
diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 4b4654d..33aa4ac 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -22,7 +22,7 @@ GDALDataType peekLayoutType(const std::string &layout_filename) {
     if(lf.getFilename().size()==0)
       continue;
 
-    GDALAllRegister();
+    RegisterGDALDrivers();
     std::string tile_path = lf.getPath()+lf.getFilename();
     GDALDataset *fin = (GDALDataset*)GDALOpen(tile_path.c_str(), GA_ReadOnly);
     if(fin==NULL)
@@ -42,7 +42,7 @@ GDALDataType peekLayoutType(const std::string &layout_filename) {
 int peekLayoutTileSize(const std::string &layout_filename) {
   LayoutfileReader lf(layout_filename);
 
-  GDALAllRegister();
+  RegisterGDALDrivers();
   while(lf.next()){
     if(lf.getFilename().size()==0)
       continue;
diff --git a/src/gdal.cpp b/src/gdal.cpp
index e58a601..05dcf9a 100644
--- a/src/gdal.cpp
+++ b/src/gdal.cpp
@@ -5,7 +5,7 @@
 namespace richdem {
 
 GDALDataType peekGDALType(const std::string &filename){
-  GDALAllRegister();
+  RegisterGDALDrivers();
   auto *const fin = static_cast<GDALDataset*>(GDALOpen(filename.c_str(), GA_ReadOnly));
   if(fin==nullptr){
     throw std::runtime_error("Unable to open file '"+filename+"'!");
@@ -26,7 +26,7 @@ void getGDALDimensions(
   GDALDataType &dtype,
   double geotransform[6]
 ){
-  GDALAllRegister();
+  RegisterGDALDrivers();
   auto *const fin = static_cast<GDALDataset*>(GDALOpen(filename.c_str(), GA_ReadOnly));
   if(fin==nullptr){
     throw std::runtime_error("Could not open file '"+filename+"' to get dimensions.");
-- 
2.43.0


From 9d9a3432bbad6c24c206e484ced720fa708c3885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 11/58] fix: failed and short writes and reads of native raster
 files went unnoticed

---
 include/richdem/common/Array2D.hpp | 71 +++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index e8c4844..6050729 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -209,12 +209,9 @@ class Array2D {
   void saveToCache(const std::string &cache_filename){
     std::fstream fout;
 
-    from_cache     = true;
-    this->filename = cache_filename;
-
-    fout.open(filename, std::ios_base::binary | std::ios_base::out | std::ios::trunc);
+    fout.open(cache_filename, std::ios_base::binary | std::ios_base::out | std::ios::trunc);
     if(!fout.good()){
-      throw std::logic_error("Failed to open cache file '"+filename+"'.");
+      throw std::logic_error("Failed to open cache file '"+cache_filename+"'.");
     }
 
     #ifdef WITH_COMPRESSION
@@ -238,6 +235,18 @@ class Array2D {
     out.write(reinterpret_cast<const char*>(projection.data()), projection.size()*sizeof(const char));
 
     out.write(reinterpret_cast<const char*>(_data.data()), size()*sizeof(T));
+
+    bool good = out.good();
+    #ifdef WITH_COMPRESSION
+      out.reset(); //Passes what the compressor still holds on to the file
+    #endif
+    fout.close();  //Passes what the stream still holds on to the file
+    good = good && fout.good();
+    if(!good)
+      throw std::runtime_error("Failed to write cache file '"+cache_filename+"'.");
+
+    from_cache     = true;
+    this->filename = cache_filename;
   }
 
  private:
@@ -249,9 +258,6 @@ class Array2D {
     if(!fin.good())
       throw std::runtime_error("Failed to load native file '" + input_filename +"!");
 
-    this->filename = input_filename;
-    from_cache    = true;
-
     #ifdef WITH_COMPRESSION
       boost::iostreams::filtering_istream in;
       in.push(boost::iostreams::zlib_decompressor());
@@ -260,23 +266,48 @@ class Array2D {
       auto &in = fin;
     #endif
 
-    in.read(reinterpret_cast<char*>(&view_height),    sizeof(xy_t));
-    in.read(reinterpret_cast<char*>(&view_width),     sizeof(xy_t));
-    in.read(reinterpret_cast<char*>(&view_xoff),      sizeof(xy_t));
-    in.read(reinterpret_cast<char*>(&view_yoff),      sizeof(xy_t));
-    in.read(reinterpret_cast<char*>(&num_data_cells), sizeof(i_t));
-    in.read(reinterpret_cast<char*>(&no_data),        sizeof(T  ));
-    geotransform.resize(6);
-    in.read(reinterpret_cast<char*>(geotransform.data()), 6*sizeof(double));
-
-    std::string::size_type projection_size;
+    xy_t height;
+    xy_t width;
+    xy_t xoff;
+    xy_t yoff;
+    i_t  data_cells;
+    T    nodata_value;
+    std::vector<double> transform(6);
+    in.read(reinterpret_cast<char*>(&height),       sizeof(xy_t));
+    in.read(reinterpret_cast<char*>(&width),        sizeof(xy_t));
+    in.read(reinterpret_cast<char*>(&xoff),         sizeof(xy_t));
+    in.read(reinterpret_cast<char*>(&yoff),         sizeof(xy_t));
+    in.read(reinterpret_cast<char*>(&data_cells),   sizeof(i_t));
+    in.read(reinterpret_cast<char*>(&nodata_value), sizeof(T  ));
+    in.read(reinterpret_cast<char*>(transform.data()), 6*sizeof(double));
+
+    std::string::size_type projection_size = 0;
     in.read(reinterpret_cast<char*>(&projection_size), sizeof(std::string::size_type));
-    projection.resize(projection_size,' ');
-    in.read(reinterpret_cast<char*>(&projection[0]), projection.size()*sizeof(char));
+    if(!in.good())
+      throw std::runtime_error("Failed to read all of native file '" + input_filename + "'!");
+    std::string projection_string(projection_size,' ');
+    in.read(reinterpret_cast<char*>(&projection_string[0]), projection_string.size()*sizeof(char));
+    if(!in.good())
+      throw std::runtime_error("Failed to read all of native file '" + input_filename + "'!");
+
+    this->filename = input_filename;
+    from_cache     = true;
+    view_height    = height;
+    view_width     = width;
+    view_xoff      = xoff;
+    view_yoff      = yoff;
+    num_data_cells = data_cells;
+    no_data        = nodata_value;
+    geotransform   = transform;
+    projection     = projection_string;
 
     if(load_data){
       resize(view_width,view_height);
       in.read(reinterpret_cast<char*>(_data.data()), size()*sizeof(T));
+      if(!in.good()){
+        clear();
+        throw std::runtime_error("Failed to read all of native file '" + input_filename + "'!");
+      }
     }
   }
 
-- 
2.43.0


From 7d3c8582c56fb3e5622da5b3d4e2b17bb52625c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 12/58] fix: saving a raster whose data is not in memory wrote
 whatever lay at address zero

---
 include/richdem/common/Array2D.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 6050729..a37d0eb 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -207,6 +207,9 @@ class Array2D {
   //TODO: Should save metadata
  public:
   void saveToCache(const std::string &cache_filename){
+    if(_data.size()!=size())
+      throw std::runtime_error("Cannot save a raster whose data is not in memory to '"+cache_filename+"'.");
+
     std::fstream fout;
 
     fout.open(cache_filename, std::ios_base::binary | std::ios_base::out | std::ios::trunc);
-- 
2.43.0


From 4f12256ae09ea475d6b28e38fb1345d94f5dea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 13/58] fix: saving a raster without a geotransform to a native
 file read past its end

---
 include/richdem/common/Array2D.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index a37d0eb..2dce5b2 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -232,7 +232,14 @@ class Array2D {
     out.write(reinterpret_cast<const char*>(&num_data_cells), sizeof(i_t));
     out.write(reinterpret_cast<const char*>(&no_data),        sizeof(T  ));
 
-    out.write(reinterpret_cast<const char*>(geotransform.data()), 6*sizeof(double));
+    //A raster without a geotransform is marked by six NaNs
+    auto transform = geotransform;
+    if(transform.empty())
+      transform.assign(6, std::numeric_limits<double>::quiet_NaN());
+    else if(transform.size()!=6)
+      throw std::runtime_error("Geotransform of output is not the right size. Found "+std::to_string(transform.size())+" expected 6.");
+
+    out.write(reinterpret_cast<const char*>(transform.data()), 6*sizeof(double));
     std::string::size_type projection_size = projection.size();
     out.write(reinterpret_cast<const char*>(&projection_size), sizeof(std::string::size_type));
     out.write(reinterpret_cast<const char*>(projection.data()), projection.size()*sizeof(const char));
@@ -293,6 +300,10 @@ class Array2D {
     if(!in.good())
       throw std::runtime_error("Failed to read all of native file '" + input_filename + "'!");
 
+    //Six NaNs mark a raster without a geotransform
+    if(std::all_of(transform.begin(), transform.end(), [](const double v){ return std::isnan(v); }))
+      transform.clear();
+
     this->filename = input_filename;
     from_cache     = true;
     view_height    = height;
-- 
2.43.0


From 91bf04283f91d0754688a14786fbb90947fb1a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 14/58] fix: flipHorz swapped cells with the next row and wrote
 past the raster's end

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 2dce5b2..9e3f67a 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -769,7 +769,7 @@ class Array2D {
   void flipHorz(){
     for(xy_t y=0;y<view_height;y++){
       T* start = &_data[xyToI(0,y)];
-      T* end   = &_data[xyToI(view_width,y)];
+      T* end   = start+view_width-1;
       while(start<end){
         std::swap(*start,*end);
         start++;
-- 
2.43.0


From 26e059000f7276a5baa601a7976af659d8254fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 15/58] fix: assigning to a ManagedVector deleted memory it had
 only been lent

---
 include/richdem/common/ManagedVector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/richdem/common/ManagedVector.hpp b/include/richdem/common/ManagedVector.hpp
index 69b9d7c..870228d 100644
--- a/include/richdem/common/ManagedVector.hpp
+++ b/include/richdem/common/ManagedVector.hpp
@@ -111,6 +111,10 @@ class ManagedVector {
   template<class U>
   ManagedVector<T>& operator=(ManagedVector<U>&& other) noexcept {
     //std::cerr<<"ManagedVector move assignment of "<<((void*)other._data.get())<<std::endl;
+    if(static_cast<const void*>(this)==static_cast<const void*>(&other))
+      return *this;
+    if(!_owned)
+      _data.release();            //Not ours to delete
     _size        = other.size();
     _data        = std::move(other._data);
     _owned       = other._owned;
-- 
2.43.0


From be0911ef4194caa7477425bd904a36a4119b85da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 16/58] fix: rasters claimed cells they no longer held after
 running out of memory

---
 include/richdem/common/Array2D.hpp       | 24 ++++++++++++++++++------
 include/richdem/common/ManagedVector.hpp |  1 +
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 9e3f67a..fa6d4af 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -106,11 +106,13 @@ class Array2D {
   template<typename> friend class Array2D;
   template<typename> friend class Array3D;
 
-  std::array<int, 9> _nshift;       ///< Offset to neighbouring cells;
-
   ManagedVector<T> _data;            ///< Holds the raster data in a 1D array
                                     ///< this improves caching versus a 2D array
 
+  //Comes after _data so that an assignment which runs out of memory leaves the
+  //offsets that belong to the data still held
+  std::array<int, 9> _nshift;       ///< Offset to neighbouring cells;
+
   T no_data = -1;                    ///< NoData value of the raster
   mutable i_t num_data_cells = NO_I; ///< Number of cells which are not NoData
 
@@ -898,7 +900,16 @@ class Array2D {
     assert(width0>=0);
     assert(height0>=0);
     assert(width0<=std::numeric_limits<xy_t>::max()-2);
-    _data.resize((uint64_t)width0*(uint64_t)height0);
+    const bool had_data = !_data.empty();
+    try {
+      _data.resize((uint64_t)width0*(uint64_t)height0);
+    } catch (...) {
+      if(had_data && _data.empty()){ //Out of memory: the old data is gone
+        view_width  = 0;
+        view_height = 0;
+      }
+      throw;
+    }
 
     _nshift     = {{0,-1,-width0-1,-width0,-width0+1,1,width0+1,width0,width0-1}};
 
@@ -946,10 +957,11 @@ class Array2D {
     if(new_height<view_height)
       throw std::runtime_error("expand(): new_height<view_height");
 
-    auto old_width  = width();
-    auto old_height = height();
+    const auto old_width  = width();
+    const auto old_height = height();
 
-    auto old_data = std::move(_data);   //This gets the pointer to the old data before it is replaced
+    ManagedVector<T> old_data(new_width*new_height, val); //If there's no memory for this, the raster stays as it is
+    std::swap(old_data, _data);
 
     resize(new_width,new_height,val);
 
diff --git a/include/richdem/common/ManagedVector.hpp b/include/richdem/common/ManagedVector.hpp
index 870228d..44cba52 100644
--- a/include/richdem/common/ManagedVector.hpp
+++ b/include/richdem/common/ManagedVector.hpp
@@ -168,6 +168,7 @@ class ManagedVector {
     //auto oldmem = _data.get();
 
     _data.reset(); //Clear old memory before allocating new memory
+    _size = 0;     //In case the allocation fails
     _data.reset(new T[new_size]);
 
     //std::cerr<<"Resizing ManagedVector from "<<((void*)oldmem)<<" to "<<((void*)_data.get())<<std::endl;
-- 
2.43.0


From f732e619718131bf9a6d2b92ef8656dc9fa810bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 17/58] fix: whether a raster's data lies in the cache was left
 uninitialised

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index fa6d4af..eab5d19 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -128,7 +128,7 @@ class Array2D {
 
   ///If TRUE, loadData() loads data from the cache assuming  the Native format.
   ///Otherwise, it assumes it is loading from a GDAL file.
-  bool from_cache;
+  bool from_cache = false;
 
   #ifdef USEGDAL
   ///TODO
-- 
2.43.0


From 65e1f6b036a631e70cd3b29f6802999e4fcda633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 18/58] fix: three-dimensional rasters claimed cells they no
 longer held after running out of memory

---
 include/richdem/common/Array3D.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Array3D.hpp b/include/richdem/common/Array3D.hpp
index e1d3b47..4878f96 100644
--- a/include/richdem/common/Array3D.hpp
+++ b/include/richdem/common/Array3D.hpp
@@ -297,7 +297,16 @@ class Array3D {
                           raster's template type default value
   */
   void resize(const xy_t width0, const xy_t height0, const T& val0 = T()){
-    data.resize((i_t)9*(i_t)width0*(i_t)height0);
+    const bool had_data = !data.empty();
+    try {
+      data.resize((i_t)9*(i_t)width0*(i_t)height0);
+    } catch (...) {
+      if(had_data && data.empty()){ //Out of memory: the old data is gone
+        view_width  = 0;
+        view_height = 0;
+      }
+      throw;
+    }
 
     view_width  = width0;
     view_height = height0;
-- 
2.43.0


From 69529c41b0ed4c30a07960983d489c26d55fb930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 19/58] fix: layout files lost a last column consisting of
 missing tiles

---
 include/richdem/common/Layoutfile.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index 7fe032c..b132404 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -267,7 +267,9 @@ class LayoutfileWriter {
 
     if(gridx>0)
       flout<<",";
-    flout<<filename;
+    //A null tile is written as a space. If it were nothing at all, a blank at
+    //the end of a row could not be told from a row which ends sooner.
+    flout<<(filename.empty() ? " " : filename);
     gridx++;
   }
 };
-- 
2.43.0


From e128ed687d40e8fcbbd3411f6961e28314dc99b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 20/58] fix: the layout file reader read past the grid of an
 empty layout file

---
 include/richdem/common/Layoutfile.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index b132404..b12c2ca 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -131,6 +131,9 @@ class LayoutfileReader {
     if(!fin_layout.eof())
       throw std::runtime_error("Failed to read the entire layout file!");
 
+    if(fgrid.empty())
+      throw std::runtime_error("Layout file '"+layout_filename+"' is empty!");
+
     //Let's find the longest row
     auto max_row_length = fgrid.front().size();
     for(const auto &row: fgrid)
@@ -141,6 +144,9 @@ class LayoutfileReader {
         row.emplace_back();
       else if(row.size()<max_row_length) //The line was more than one short of max: uh oh
         throw std::runtime_error("Not all of the rows in the layout file had the same number of columns!");
+
+    if(fgrid.front().empty())
+      throw std::runtime_error("Layout file '"+layout_filename+"' is empty!");
   }
 
   ///@brief Advance the reader to the next layoutfile entry.
-- 
2.43.0


From 243b04bd4011897253e9bce83d1b16408331bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 21/58] fix: a period in a directory's name was taken for the
 start of a layout or tile file's extension

---
 include/richdem/common/Layoutfile.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index b12c2ca..e00e103 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -55,7 +55,7 @@ static std::string trimStr(std::string const& str){
 static std::string GetBaseName(std::string filename){
   auto last_slash  = filename.find_last_of(RICHDEM_SLASH_CHAR);
   auto last_period = filename.find_last_of(".");
-  if(last_period!=std::string::npos)
+  if(last_period!=std::string::npos && (last_slash==std::string::npos || last_period>last_slash))
     filename.replace(last_period, std::string::npos, "");
   if(last_slash!=std::string::npos)
     filename.replace(0,last_slash+1,"");
@@ -244,7 +244,7 @@ class LayoutfileWriter {
     std::size_t last_period = layout_filename.find_last_of(".");
     if(last_slash!=std::string::npos)
       path = layout_filename.substr(0,last_slash+1);
-    if(last_period!=std::string::npos)
+    if(last_period!=std::string::npos && (last_slash==std::string::npos || last_period>last_slash))
       layout_filename.replace(last_period+1, std::string::npos, "layout");
 
     flout.open(layout_filename);
-- 
2.43.0


From cedc46cb7c949c228519cfcc8dd4d1fcc0122891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 22/58] fix: failures to write a layout file went unnoticed

---
 include/richdem/common/Layoutfile.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index e00e103..d4ca386 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -230,7 +230,14 @@ class LayoutfileWriter {
   int gridx;           ///Current column being written to
   int gridy;           ///Current row being written to
   std::string path;    ///Path of layoutfile
+  std::string name;    ///Path+Filename of the layoutfile
   std::ofstream flout; ///File output stream for the layout file
+
+  ///Throws an exception if something could not be written
+  void check() const {
+    if(!flout.good())
+      throw std::runtime_error("Problem writing layout file '"+name+"'");
+  }
  public:
 
   ///@brief Constructs a new writer object
@@ -247,11 +254,24 @@ class LayoutfileWriter {
     if(last_period!=std::string::npos && (last_slash==std::string::npos || last_period>last_slash))
       layout_filename.replace(last_period+1, std::string::npos, "layout");
 
+    name = layout_filename;
     flout.open(layout_filename);
+    check();
   }
 
+  ///Finishes the layoutfile if close() has not done so. Since a destructor
+  ///cannot report problems, use close() to learn of them.
   ~LayoutfileWriter(){
+    if(flout.is_open())
+      flout<<std::endl;
+  }
+
+  ///@brief Finishes the layoutfile. Throws an exception if it could not be
+  ///       written completely.
+  void close(){
     flout<<std::endl;
+    flout.close();
+    check();
   }
 
   ///@brief Adds a new row to the layoutfile
@@ -259,6 +279,7 @@ class LayoutfileWriter {
     if(gridx==0 && gridy==0)
       return;
     flout<<std::endl;
+    check();
     gridy++;
     gridx = 0;
   }
@@ -276,6 +297,7 @@ class LayoutfileWriter {
     //A null tile is written as a space. If it were nothing at all, a blank at
     //the end of a row could not be told from a row which ends sooner.
     flout<<(filename.empty() ? " " : filename);
+    check();
     gridx++;
   }
 };
-- 
2.43.0


From 106d54afb55e9c44cd774f738c30d4e2a2caa055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 23/58] fix: the distributed programs did not notice that their
 layout file could not be written

---
 programs/parallel_d8_accum/main.cpp       | 2 ++
 programs/parallel_priority_flood/main.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index a3840c6..d395941 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -1377,6 +1377,8 @@ void Preparer(
     CommAbort(-1);
   }
 
+  lfout.close();
+
   //If a job is on the edge of the raster, mark it as having this property so
   //that it can be handled with elegance later.
   for(auto &e: tiles.front())
diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index fe73795..ab2d1b1 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -1060,6 +1060,8 @@ void Preparer(
     CommAbort(-1);
   }
 
+  lfout.close();
+
   //If a job is on the edge of the raster, mark it as having this property so
   //that it can be handled with elegance later.
   for(auto &e: tiles.front())
-- 
2.43.0


From 7cba7d76ebbb239c0ab872eade32ac4224005c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 24/58] fix: CommRecv could receive another message than the
 one whose size it had asked for

---
 include/richdem/common/communication.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/communication.hpp b/include/richdem/common/communication.hpp
index a44aa49..2e48dd0 100644
--- a/include/richdem/common/communication.hpp
+++ b/include/richdem/common/communication.hpp
@@ -139,7 +139,9 @@ void CommRecv(T* a, U* b, int from){
   char* buf = (char*)malloc(msg_size);
   assert(buf!=NULL);
 
-  MPI_Recv(buf, msg_size, MPI_BYTE, from, MPI_ANY_TAG, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
+  // Receive the very message that was probed: another one which is just as
+  // acceptable may have arrived in the meantime, and it may be larger
+  MPI_Recv(buf, msg_size, MPI_BYTE, status.MPI_SOURCE, status.MPI_TAG, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
 
   bytes_recv += msg_size;
 
-- 
2.43.0


From 55dab25ef6dc3fb00d1fae77418dcaf9595c1ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 25/58] fix: consumers left without receiving the message which
 told them to

---
 programs/parallel_d8_accum/main.cpp       | 4 +++-
 programs/parallel_priority_flood/main.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index d395941..4265b43 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -937,6 +937,8 @@ void Consumer(){
     //This message indicates that everything is done and the Consumer should shut
     //down.
     if(the_job==SYNC_MSG_KILL){
+      int temp;
+      CommRecv(&temp, nullptr, 0); //The Producer's send may wait for this
       return;
 
     //This message indicates that the consumer should prepare to perform the
@@ -1107,7 +1109,7 @@ void Producer(TileGrid &tiles){
   //Send out a message to tell the consumers to politely quit. Their job is
   //done.
   for(int i=1;i<CommSize();i++){
-    int temp;
+    int temp = 0;
     CommSend(&temp,nullptr,i,SYNC_MSG_KILL);
   }
 
diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index ab2d1b1..acc7773 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -615,6 +615,8 @@ void Consumer(){
     //This message indicates that everything is done and the Consumer should shut
     //down.
     if(the_job==SYNC_MSG_KILL){
+      int temp;
+      CommRecv(&temp, nullptr, 0); //The Producer's send may wait for this
       return;
 
     //This message indicates that the consumer should prepare to perform the
@@ -792,7 +794,7 @@ void Producer(TileGrid &tiles){
   //Send out a message to tell the consumers to politely quit. Their job is
   //done.
   for(int i=1;i<CommSize();i++){
-    int temp;
+    int temp = 0;
     CommSend(&temp,nullptr,i,SYNC_MSG_KILL);
   }
 
-- 
2.43.0


From 740e9993a9e28d72960e6dcaa07959bcb45b4eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 26/58] fix: parallel_priority_flood cached its labels on top
 of its elevations

---
 programs/parallel_priority_flood/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index acc7773..42cadb7 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -244,7 +244,7 @@ class ConsumerSpecifics {
   void SaveToCache(const TileInfo &tile){
     timer_io.start();
     dem.setCacheFilename(tile.retention+"dem.dat");
-    labels.setCacheFilename(tile.retention+"dem.dat");
+    labels.setCacheFilename(tile.retention+"labels.dat");
     dem.dumpData();
     labels.dumpData();
     timer_io.stop();
-- 
2.43.0


From 68d7c2326c5b335217a9ecd0d70697d376095b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 27/58] fix: tiles in the first rows and columns did not see
 the missing tiles beside them

---
 programs/parallel_d8_accum/main.cpp       | 8 ++++----
 programs/parallel_priority_flood/main.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 4265b43..099842f 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -1281,13 +1281,13 @@ void Preparer(
     for(int x=0;x<(int)tiles[0].size();x++){
       if(tiles[y][x].nullTile)
         continue;
-      if(y-1>0 && x>0 && tiles[y-1][x].nullTile)
+      if(y>0 && tiles[y-1][x].nullTile)
         tiles[y][x].edge |= GRID_TOP;
-      if(y+1<(int)tiles.size() && x>0 && tiles[y+1][x].nullTile)
+      if(y+1<(int)tiles.size() && tiles[y+1][x].nullTile)
         tiles[y][x].edge |= GRID_BOTTOM;
-      if(y>0 && x-1>0 && tiles[y][x-1].nullTile)
+      if(x>0 && tiles[y][x-1].nullTile)
         tiles[y][x].edge |= GRID_LEFT;
-      if(y>0 && x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
+      if(x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
         tiles[y][x].edge |= GRID_RIGHT;
     }
 
diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index 42cadb7..a4f265e 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -966,13 +966,13 @@ void Preparer(
     for(int x=0;x<(int)tiles[0].size();x++){
       if(tiles[y][x].nullTile)
         continue;
-      if(y-1>0 && x>0 && tiles[y-1][x].nullTile)
+      if(y>0 && tiles[y-1][x].nullTile)
         tiles[y][x].edge |= GRID_TOP;
-      if(y+1<(int)tiles.size() && x>0 && tiles[y+1][x].nullTile)
+      if(y+1<(int)tiles.size() && tiles[y+1][x].nullTile)
         tiles[y][x].edge |= GRID_BOTTOM;
-      if(y>0 && x-1>0 && tiles[y][x-1].nullTile)
+      if(x>0 && tiles[y][x-1].nullTile)
         tiles[y][x].edge |= GRID_LEFT;
-      if(y>0 && x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
+      if(x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
         tiles[y][x].edge |= GRID_RIGHT;
     }
 
-- 
2.43.0


From 24e221f835f145350d4d22e1b68b566136b58a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 28/58] fix: parallel_d8_accum lost flow passing between tiles
 which touch only at a corner

---
 programs/parallel_d8_accum/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 099842f..b6260db 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -544,6 +544,13 @@ class ConsumerSpecifics {
       for(int32_t y=0;y<flowdirs.height();y++)
         FollowPath(flowdirs.width()-1,y,tile,flowdirs,links);
 
+    //There may be a tile diagonally across a corner even if there is none
+    //beside either of the edges which meet there
+    FollowPath(0,                 0,                  tile,flowdirs,links);
+    FollowPath(flowdirs.width()-1,0,                  tile,flowdirs,links);
+    FollowPath(0,                 flowdirs.height()-1,tile,flowdirs,links);
+    FollowPath(flowdirs.width()-1,flowdirs.height()-1,tile,flowdirs,links);
+
     job1.links = std::move(links);
 
     //Construct output arrays
-- 
2.43.0


From 42b99b5bb532b60365f91f954bc019399ff21e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 29/58] fix: parallel_priority_flood ignored missing tiles
 which touch a tile only at a corner

---
 programs/parallel_priority_flood/main.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index a4f265e..eb6307b 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -470,21 +470,31 @@ class ProducerSpecifics {
 
 
       //I wish I had wrote it all in LISP.
+      //A corner which touches a missing tile is connected to Special Watershed
+      //1, the outside of the DEM, as are the edges beside missing tiles.
       //Top left
       if(y>0 && x>0                      && !tiles[y-1][x-1].nullTile)
         HandleCorner(c.top_elev.front(), jobs1[y-1][x-1].bot_elev.back(),  c.top_label.front(), jobs1[y-1][x-1].bot_label.back(),  mastergraph, tiles[y][x].label_offset, tiles[y-1][x-1].label_offset);
+      else if(y>0 && x>0 && tiles[y-1][x-1].nullTile)
+        HandleCorner(c.top_elev.front(), c.top_elev.front(), c.top_label.front(), 1, mastergraph, tiles[y][x].label_offset, 0);
 
       //Bottom right
       if(y<gridheight-1 && x<gridwidth-1 && !tiles[y+1][x+1].nullTile)
         HandleCorner(c.bot_elev.back(),  jobs1[y+1][x+1].top_elev.front(), c.bot_label.back(),  jobs1[y+1][x+1].top_label.front(), mastergraph, tiles[y][x].label_offset, tiles[y+1][x+1].label_offset);
+      else if(y<gridheight-1 && x<gridwidth-1 && tiles[y+1][x+1].nullTile)
+        HandleCorner(c.bot_elev.back(), c.bot_elev.back(), c.bot_label.back(), 1, mastergraph, tiles[y][x].label_offset, 0);
 
       //Top right
       if(y>0 && x<gridwidth-1            && !tiles[y-1][x+1].nullTile)
         HandleCorner(c.top_elev.back(),  jobs1[y-1][x+1].bot_elev.front(), c.top_label.back(),  jobs1[y-1][x+1].bot_label.front(), mastergraph, tiles[y][x].label_offset, tiles[y-1][x+1].label_offset);
+      else if(y>0 && x<gridwidth-1 && tiles[y-1][x+1].nullTile)
+        HandleCorner(c.top_elev.back(), c.top_elev.back(), c.top_label.back(), 1, mastergraph, tiles[y][x].label_offset, 0);
 
       //Bottom left
       if(x>0 && y<gridheight-1           && !tiles[y+1][x-1].nullTile)
         HandleCorner(c.bot_elev.front(), jobs1[y+1][x-1].top_elev.back(),  c.bot_label.front(), jobs1[y+1][x-1].top_label.back(),  mastergraph, tiles[y][x].label_offset, tiles[y+1][x-1].label_offset);
+      else if(x>0 && y<gridheight-1 && tiles[y+1][x-1].nullTile)
+        HandleCorner(c.bot_elev.front(), c.bot_elev.front(), c.bot_label.front(), 1, mastergraph, tiles[y][x].label_offset, 0);
     }
     timer_mg_construct.stop();
 
-- 
2.43.0


From 9fe668c752c0ef59872452029b5ef6af1e28238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 30/58] fix: parallel_d8_accum read outside of tiles which are
 one cell high

---
 programs/parallel_d8_accum/main.cpp       | 16 +++++++++-------
 programs/parallel_d8_accum/perimeters.hpp |  3 ++-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index b6260db..165dda2 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -510,9 +510,15 @@ class ConsumerSpecifics {
   }
 
   void FirstRound(const TileInfo &tile, Job1<T> &job1){
-    //-2 removes duplicate cells on vertical edges which would otherwise
-    //overlap horizontal edges
-    links.resize(2*flowdirs.width()+2*(flowdirs.height()-2), FLOW_TERMINATES);
+    timer_calc.start();
+    //Construct output arrays
+    GridPerimToArray(flowdirs, job1.flowdirs);
+    GridPerimToArray(accum,    job1.accum   );
+    timer_calc.stop();
+
+    //One link for each cell of the perimeter, whichever way it counts the cells
+    //of tiles which are only one cell high
+    links.resize(job1.flowdirs.size(), FLOW_TERMINATES);
 
     //The following considers corner cells more than once. That's okay, though:
     //the repeated effort merely produces the same results in the same places
@@ -552,10 +558,6 @@ class ConsumerSpecifics {
     FollowPath(flowdirs.width()-1,flowdirs.height()-1,tile,flowdirs,links);
 
     job1.links = std::move(links);
-
-    //Construct output arrays
-    GridPerimToArray(flowdirs, job1.flowdirs);
-    GridPerimToArray(accum,    job1.accum   );
     timer_calc.stop();
   }
 
diff --git a/programs/parallel_d8_accum/perimeters.hpp b/programs/parallel_d8_accum/perimeters.hpp
index e5a21ac..fc5bfa7 100644
--- a/programs/parallel_d8_accum/perimeters.hpp
+++ b/programs/parallel_d8_accum/perimeters.hpp
@@ -57,5 +57,6 @@ void GridPerimToArray(const richdem::Array2D<U> &grid, std::vector<U> &vec){
   vec.insert(vec.end(),vec2copy.begin(),vec2copy.end()-1);
 
   vec2copy = grid.getColData(0);                         //Left
-  vec.insert(vec.end(),vec2copy.begin()+1,vec2copy.end()-1);
+  if(grid.height()>2)                                    //Else there is nothing between the corners
+    vec.insert(vec.end(),vec2copy.begin()+1,vec2copy.end()-1);
 }
\ No newline at end of file
-- 
2.43.0


From 33c96b5694f81a246ebd71147e726a1132e73c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 31/58] fix: failures to write the rest of a GeoTIFF when it is
 closed went unnoticed, and failed loads left files open and zeros behind

---
 include/richdem/common/Array2D.hpp | 30 ++++++++++++++--------
 include/richdem/common/gdal.hpp    | 41 +++++++++++++++++++++++++++---
 include/richdem/common/loaders.hpp | 23 ++++++++++-------
 src/gdal.cpp                       |  8 ++----
 4 files changed, 73 insertions(+), 29 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index eab5d19..af9354a 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -141,7 +141,7 @@ class Array2D {
 
     RDLOG_PROGRESS<<"Trying to open file '"<<filename<<"'...";
 
-    GDALDataset *fin = (GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly);
+    GDALDatasetPtr fin((GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly));
     if(fin==NULL)
       throw std::runtime_error("Could not open file '"+filename+"' with GDAL!");
 
@@ -183,7 +183,7 @@ class Array2D {
     view_xoff = xOffset;
     view_yoff = yOffset;
 
-    GDALClose(fin);
+    fin.reset();
 
     if(load_data)
       loadData();
@@ -508,7 +508,7 @@ class Array2D {
       loadNative(filename, true);
     } else {
       #ifdef USEGDAL
-      GDALDataset *fin = (GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly);
+      GDALDatasetPtr fin((GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly));
         if(fin==NULL)
           throw std::runtime_error("Failed to loadData() into tile from '"+filename+"'");
 
@@ -516,10 +516,10 @@ class Array2D {
 
       resize(view_width,view_height);
       auto temp = band->RasterIO( GF_Read, view_xoff, view_yoff, view_width, view_height, _data.data(), view_width, view_height, myGDALType(), 0, 0 );
-      if(temp!=CE_None)
+      if(temp!=CE_None){
+        clear();
         throw std::runtime_error("An error occured while trying to read '"+filename+"' into RAM with GDAL.");
-
-      GDALClose(fin);
+      }
       #else
         throw std::runtime_error("RichDEM was not compiled with GDAL!");
       #endif
@@ -1167,16 +1167,21 @@ class Array2D {
 
   #ifdef USEGDAL
   void saveGDAL(const std::string &input_filename, const std::string &metadata_str="", xy_t xoffset=0, xy_t yoffset=0, bool compress=false){
-    char **papszOptions = NULL;
+    if(_data.size()!=size())
+      throw std::runtime_error("Cannot save a raster whose data is not in memory to '"+input_filename+"'.");
+
+    GDALErrorWatch errors;
+
+    CPLStringList options;
     if(compress){
-      papszOptions = CSLSetNameValue( papszOptions, "COMPRESS", "DEFLATE" );
-      papszOptions = CSLSetNameValue( papszOptions, "ZLEVEL",   "6" );
+      options.SetNameValue("COMPRESS", "DEFLATE");
+      options.SetNameValue("ZLEVEL",   "6"      );
     }
 
     GDALDriver *poDriver = GetGDALDriverManager()->GetDriverByName("GTiff");
     if(poDriver==NULL)
       throw std::runtime_error("Could not open GDAL driver!");
-    GDALDataset *fout    = poDriver->Create(input_filename.c_str(), width(), height(), 1, myGDALType(), papszOptions);
+    GDALDatasetPtr fout(poDriver->Create(input_filename.c_str(), width(), height(), 1, myGDALType(), options.List()));
     if(fout==NULL)
       throw std::runtime_error("Could not open file '"+input_filename+"' for GDAL save!");
 
@@ -1242,7 +1247,10 @@ class Array2D {
     if(temp!=CE_None)
       throw std::runtime_error("Error writing file with saveGDAL()!");
 
-    GDALClose(fout);
+    //Closing the file writes what has not been written yet
+    fout.reset();
+    if(errors.failed())
+      throw std::runtime_error("Error writing file '"+input_filename+"' with saveGDAL()!");
   }
   #endif
 
diff --git a/include/richdem/common/gdal.hpp b/include/richdem/common/gdal.hpp
index 002af52..28bf386 100644
--- a/include/richdem/common/gdal.hpp
+++ b/include/richdem/common/gdal.hpp
@@ -3,7 +3,10 @@
 #ifdef USEGDAL
 
 #include "gdal_priv.h"
+#include "cpl_error.h"
+#include "cpl_string.h"
 #include <iostream>
+#include <memory>
 #include <typeinfo>
 
 namespace richdem {
@@ -21,6 +24,40 @@ inline void RegisterGDALDrivers(){
 
 
 
+///Closes GDAL's datasets
+struct GDALDatasetCloser {
+  void operator()(GDALDataset *dataset) const { GDALClose(dataset); }
+};
+
+///A GDAL dataset which is closed when it goes out of scope
+typedef std::unique_ptr<GDALDataset, GDALDatasetCloser> GDALDatasetPtr;
+
+
+
+/**
+  @brief  Notices the errors GDAL reports while it is in scope
+
+  Much of what is written to a dataset only reaches the disk when the dataset is
+  flushed or closed, whose failures are only known from the errors reported.
+*/
+class GDALErrorWatch {
+ private:
+  bool seen = false;
+  static void CPL_STDCALL handler(CPLErr err_class, CPLErrorNum err_num, const char *msg){
+    if(err_class==CE_Failure || err_class==CE_Fatal)
+      static_cast<GDALErrorWatch*>(CPLGetErrorHandlerUserData())->seen = true;
+    CPLCallPreviousHandler(err_class, err_num, msg);
+  }
+ public:
+  GDALErrorWatch()  { CPLPushErrorHandlerEx(handler, this); }
+  ~GDALErrorWatch() { CPLPopErrorHandler(); }
+  GDALErrorWatch(const GDALErrorWatch&) = delete;
+  GDALErrorWatch& operator=(const GDALErrorWatch&) = delete;
+  bool failed() const { return seen; }
+};
+
+
+
 /**
   @brief  Determine data type of a GDAL file's first layer
   @author Richard Barnes (rbarnes@umn.edu)
@@ -50,7 +87,7 @@ void getGDALHeader(
   double  geotransform[6]
 ){
   RegisterGDALDrivers();
-  GDALDataset *fin = (GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly);
+  const GDALDatasetPtr fin((GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly));
   if(fin==NULL)
     throw std::runtime_error("Could not get GDAL header: file '" + filename + "'' did not open!");
 
@@ -61,8 +98,6 @@ void getGDALHeader(
   width   = band->GetXSize();
 
   fin->GetGeoTransform(geotransform);
-
-  GDALClose(fin);
 }
 
 
diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index 0eec83f..fd59d65 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -21,7 +21,7 @@ void LoadGDAL(
   arr.clear();
   arr.filename = filename;
 
-  GDALDataset *fin = (GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly);
+  const GDALDatasetPtr fin((GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly));
   if(fin==NULL)
     throw std::runtime_error("Could not open file '"+filename+"' with GDAL!");
 
@@ -68,8 +68,10 @@ void LoadGDAL(
   }
 
   auto temp = band->RasterIO( GF_Read, xOffset, yOffset, view_width, view_height, buf, view_width, view_height, NativeTypeToGDAL<T>(), 0, 0 );
-  if(temp!=CE_None)
+  if(temp!=CE_None){
+    arr.clear();
     throw std::runtime_error("An error occured while trying to read '"+filename+"' into RAM with GDAL.");
+  }
 
   if(padx>0 || pady>0){
     for(int y=0;y<view_height;y++)
@@ -86,8 +88,6 @@ void LoadGDAL(
   //   }
   // }
 
-  GDALClose(fin);
-
   //TODO
   // if(exact && (total_width-xOffset!=part_width || total_height-yOffset!=part_height))
     // throw std::runtime_error("Tile dimensions did not match expectations!");
@@ -97,16 +97,18 @@ void LoadGDAL(
 
 template<class T>
 void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::string &metadata_str="", uint64_t xoffset=0, uint64_t yoffset=0, const uint64_t padx=0, const uint64_t pady=0, bool compress=false){
-  char **papszOptions = NULL;
+  GDALErrorWatch errors;
+
+  CPLStringList options;
   if(compress){
-    papszOptions = CSLSetNameValue( papszOptions, "COMPRESS", "DEFLATE" );
-    papszOptions = CSLSetNameValue( papszOptions, "ZLEVEL",   "6" );
+    options.SetNameValue("COMPRESS", "DEFLATE");
+    options.SetNameValue("ZLEVEL",   "6"      );
   }
 
   GDALDriver *poDriver = GetGDALDriverManager()->GetDriverByName("GTiff");
   if(poDriver==NULL)
     throw std::runtime_error("Could not open GDAL driver!");
-  GDALDataset *fout    = poDriver->Create(filename.c_str(), arr.width(), arr.height(), 1, NativeTypeToGDAL<T>(), papszOptions);
+  GDALDatasetPtr fout(poDriver->Create(filename.c_str(), arr.width(), arr.height(), 1, NativeTypeToGDAL<T>(), options.List()));
   if(fout==NULL)
     throw std::runtime_error("Could not open file '"+filename+"' for GDAL save!");
 
@@ -198,7 +200,10 @@ void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::str
   if(temp!=CE_None)
     throw std::runtime_error("Error writing file with saveGDAL()!");
 
-  GDALClose(fout);
+  //Closing the file writes what has not been written yet
+  fout.reset();
+  if(errors.failed())
+    throw std::runtime_error("Error writing file '"+filename+"' with SaveGDAL()!");
 }
 
 #endif
diff --git a/src/gdal.cpp b/src/gdal.cpp
index 05dcf9a..b7e745d 100644
--- a/src/gdal.cpp
+++ b/src/gdal.cpp
@@ -6,7 +6,7 @@ namespace richdem {
 
 GDALDataType peekGDALType(const std::string &filename){
   RegisterGDALDrivers();
-  auto *const fin = static_cast<GDALDataset*>(GDALOpen(filename.c_str(), GA_ReadOnly));
+  const GDALDatasetPtr fin(static_cast<GDALDataset*>(GDALOpen(filename.c_str(), GA_ReadOnly)));
   if(fin==nullptr){
     throw std::runtime_error("Unable to open file '"+filename+"'!");
   }
@@ -14,8 +14,6 @@ GDALDataType peekGDALType(const std::string &filename){
   GDALRasterBand *band   = fin->GetRasterBand(1);
   GDALDataType data_type = band->GetRasterDataType();
 
-  GDALClose(fin);
-
   return data_type;
 }
 
@@ -27,7 +25,7 @@ void getGDALDimensions(
   double geotransform[6]
 ){
   RegisterGDALDrivers();
-  auto *const fin = static_cast<GDALDataset*>(GDALOpen(filename.c_str(), GA_ReadOnly));
+  const GDALDatasetPtr fin(static_cast<GDALDataset*>(GDALOpen(filename.c_str(), GA_ReadOnly)));
   if(fin==nullptr){
     throw std::runtime_error("Could not open file '"+filename+"' to get dimensions.");
   }
@@ -42,8 +40,6 @@ void getGDALDimensions(
 
   height  = band->GetYSize();
   width   = band->GetXSize();
-
-  GDALClose(fin);
 }
 
 }
-- 
2.43.0


From e5c70af14367424d5d570702b765006073620a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 32/58] fix: metadata was never read from files, and so the
 processing history was lost

---
 include/richdem/common/Array2D.hpp | 8 ++++----
 include/richdem/common/loaders.hpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index af9354a..7c0248f 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -45,7 +45,7 @@ inline std::map<std::string, std::string> ProcessMetadata(char **metadata){
   if(metadata==NULL)
     return ret;
 
-  for(int metstri=0;metadata[metstri]==NULL;metstri++){
+  for(int metstri=0;metadata[metstri]!=NULL;metstri++){
     std::string metstr = metadata[metstri];
     const auto equals  = metstr.find("=");
     if(equals==std::string::npos){
@@ -1197,12 +1197,12 @@ class Array2D {
       std::time_t the_time = std::time(nullptr);
       char time_str[64];
       std::strftime(time_str, sizeof(time_str), "%Y-%m-%d %H:%M:%S UTC", std::gmtime(&the_time));
-      fout->SetMetadataItem("TIFFTAG_DATETIME",   time_str);
-      fout->SetMetadataItem("TIFFTAG_SOFTWARE",   program_identifier.c_str());
+      metadata["TIFFTAG_DATETIME"] = time_str;
+      metadata["TIFFTAG_SOFTWARE"] = program_identifier;
 
       //TODO: `metadata_str` may need removing
       metadata["PROCESSING_HISTORY"] += "\n" + std::string(time_str) + " | " + program_identifier + " | ";
-      if(!metadata.empty())
+      if(!metadata_str.empty())
         metadata["PROCESSING_HISTORY"] += metadata_str;
       else
         metadata["PROCESSING_HISTORY"] += "Unspecified Operation";
diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index fd59d65..2b4cfe6 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -144,7 +144,7 @@ void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::str
   }
 
   for(const auto &kv: arr.metadata){
-    if(kv.first!="PROCESSING_HISTORY")
+    if(kv.first!="PROCESSING_HISTORY" && kv.first!="TIFFTAG_DATETIME" && kv.first!="TIFFTAG_SOFTWARE")
       fout->SetMetadataItem(kv.first.c_str(), kv.second.c_str());
   }
 
-- 
2.43.0


From e4b1082e50b7db217f4b103ebf3196de2ac2b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 33/58] fix: SaveGDAL() left a strip of nothing where it had
 removed a raster's padding

---
 include/richdem/common/loaders.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index 2b4cfe6..daab73d 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -108,7 +108,7 @@ void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::str
   GDALDriver *poDriver = GetGDALDriverManager()->GetDriverByName("GTiff");
   if(poDriver==NULL)
     throw std::runtime_error("Could not open GDAL driver!");
-  GDALDatasetPtr fout(poDriver->Create(filename.c_str(), arr.width(), arr.height(), 1, NativeTypeToGDAL<T>(), options.List()));
+  GDALDatasetPtr fout(poDriver->Create(filename.c_str(), arr.width()-2*padx, arr.height()-2*pady, 1, NativeTypeToGDAL<T>(), options.List()));
   if(fout==NULL)
     throw std::runtime_error("Could not open file '"+filename+"' for GDAL save!");
 
-- 
2.43.0


From 59ff834b84bc267202e60b0b23a80236318ba330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:05 +0000
Subject: [PATCH 34/58] fix: the distributed programs looked at a tile through
 a pointer to where it had been

---
 programs/parallel_d8_accum/main.cpp       | 12 ++++++++----
 programs/parallel_priority_flood/main.cpp | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 165dda2..51affa0 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -1261,10 +1261,6 @@ void Preparer(
         analysis
       );
 
-      //Get a representative tile, if we don't already have one
-      if(reptile==nullptr)
-        reptile = &tiles.back().back();
-
       lfout.addEntry(this_output_name);
 
       //Flip tiles if the geotransform demands it
@@ -1405,6 +1401,14 @@ void Preparer(
   timer_overall.stop();
   std::cerr<<"t Preparer time = "<<timer_overall.accumulated()<<" s"<<std::endl;
 
+  //Get a representative tile, now that the tiles will not move again
+  if(many_or_one=="many"){
+    for(auto &row: tiles)
+    for(auto &tile: row)
+      if(reptile==nullptr && !tile.nullTile)
+        reptile = &tile;
+  }
+
   if(reptile!=nullptr){
     std::cerr<<"c Flip horizontal = "<<((reptile->flip & FLIP_HORZ)?"YES":"NO")<<std::endl;
     std::cerr<<"c Flip vertical =   "<<((reptile->flip & FLIP_VERT)?"YES":"NO")<<std::endl;
diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index eb6307b..868c06e 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -947,10 +947,6 @@ void Preparer(
         analysis
       );
 
-      //Get a representative tile, if we don't already have one
-      if(reptile==nullptr)
-        reptile = &tiles.back().back();
-
       lfout.addEntry(this_output_name);
 
       //Flip tiles if the geotransform demands it
@@ -1089,6 +1085,14 @@ void Preparer(
   timer_overall.stop();
   std::cerr<<"t Preparer time = "<<timer_overall.accumulated()<<" s"<<std::endl;
 
+  //Get a representative tile, now that the tiles will not move again
+  if(many_or_one=="many"){
+    for(auto &row: tiles)
+    for(auto &tile: row)
+      if(reptile==nullptr && !tile.nullTile)
+        reptile = &tile;
+  }
+
   if(reptile){
     std::cerr<<"c Flip horizontal = "<<((reptile->flip & FLIP_HORZ)?"YES":"NO")<<std::endl;
     std::cerr<<"c Flip vertical =   "<<((reptile->flip & FLIP_VERT)?"YES":"NO")<<std::endl;
-- 
2.43.0


From 52ac9124deb8864e4a229187867ed5b3af7a76e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 35/58] fix: parallel_priority_flood wrote an empty layout file
 for a single raster

---
 programs/parallel_priority_flood/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index 868c06e..2c4a580 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -1012,6 +1012,7 @@ void Preparer(
     //TODO: Avoid creating extremely narrow or small strips
     for(int32_t y=0,gridy=0;y<total_height; y+=bheight, gridy++){
       tiles.emplace_back(std::vector<TileInfo>());
+      lfout.addRow();
       for(int32_t x=0,gridx=0;x<total_width;x+=bwidth,  gridx++){
         if(total_height-y<100){
           std::cerr<<"At least one tile is <100 cells in height. Please change rectangle size to avoid this!"<<std::endl;
@@ -1047,6 +1048,8 @@ void Preparer(
         }
         this_output_name.replace(this_output_name.find("%n"),2,coord_string);
 
+        lfout.addEntry(this_output_name);
+
         tiles.back().emplace_back(
           input_file,
           this_output_name,
-- 
2.43.0


From 2f567798596229c3a64a6b4a04ffdc5d89ad2b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 36/58] fix: saveGDAL() could not replace a damaged file

---
 include/richdem/common/Array2D.hpp | 6 ++++--
 include/richdem/common/loaders.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 7c0248f..ec676c0 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -1170,8 +1170,6 @@ class Array2D {
     if(_data.size()!=size())
       throw std::runtime_error("Cannot save a raster whose data is not in memory to '"+input_filename+"'.");
 
-    GDALErrorWatch errors;
-
     CPLStringList options;
     if(compress){
       options.SetNameValue("COMPRESS", "DEFLATE");
@@ -1185,6 +1183,10 @@ class Array2D {
     if(fout==NULL)
       throw std::runtime_error("Could not open file '"+input_filename+"' for GDAL save!");
 
+    //Anything which goes wrong from here on is to do with the new file. (Creating
+    //it may also raise complaints about what it replaces.)
+    GDALErrorWatch errors;
+
     GDALRasterBand *oband = fout->GetRasterBand(1);
     oband->SetNoDataValue(no_data);
 
diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index daab73d..cb0c544 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -97,8 +97,6 @@ void LoadGDAL(
 
 template<class T>
 void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::string &metadata_str="", uint64_t xoffset=0, uint64_t yoffset=0, const uint64_t padx=0, const uint64_t pady=0, bool compress=false){
-  GDALErrorWatch errors;
-
   CPLStringList options;
   if(compress){
     options.SetNameValue("COMPRESS", "DEFLATE");
@@ -112,6 +110,10 @@ void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::str
   if(fout==NULL)
     throw std::runtime_error("Could not open file '"+filename+"' for GDAL save!");
 
+  //Anything which goes wrong from here on is to do with the new file. (Creating
+  //it may also raise complaints about what it replaces.)
+  GDALErrorWatch errors;
+
   GDALRasterBand *oband = fout->GetRasterBand(1);
   oband->SetNoDataValue(arr.noData());
 
-- 
2.43.0


From d5a6a0240551cffcacb0a4d5e318e510530eb632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 37/58] fix: a GeoTIFF header which could not be read in full
 was loaded without it

---
 include/richdem/common/Array2D.hpp |  5 +++++
 include/richdem/common/gdal.hpp    | 18 +++++++++++++++++-
 include/richdem/common/loaders.hpp |  3 +++
 src/gdal.cpp                       |  6 ++++++
 4 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index ec676c0..f2f9dc7 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -141,6 +141,7 @@ class Array2D {
 
     RDLOG_PROGRESS<<"Trying to open file '"<<filename<<"'...";
 
+    const GDALErrorWatch errors;
     GDALDatasetPtr fin((GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly));
     if(fin==NULL)
       throw std::runtime_error("Could not open file '"+filename+"' with GDAL!");
@@ -183,6 +184,8 @@ class Array2D {
     view_xoff = xOffset;
     view_yoff = yOffset;
 
+    errors.checkHeader(filename);
+
     fin.reset();
 
     if(load_data)
@@ -508,9 +511,11 @@ class Array2D {
       loadNative(filename, true);
     } else {
       #ifdef USEGDAL
+      const GDALErrorWatch errors;
       GDALDatasetPtr fin((GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly));
         if(fin==NULL)
           throw std::runtime_error("Failed to loadData() into tile from '"+filename+"'");
+      errors.checkHeader(filename);
 
       GDALRasterBand *band = fin->GetRasterBand(1);
 
diff --git a/include/richdem/common/gdal.hpp b/include/richdem/common/gdal.hpp
index 28bf386..9fabea0 100644
--- a/include/richdem/common/gdal.hpp
+++ b/include/richdem/common/gdal.hpp
@@ -5,8 +5,11 @@
 #include "gdal_priv.h"
 #include "cpl_error.h"
 #include "cpl_string.h"
+#include <cstring>
 #include <iostream>
 #include <memory>
+#include <stdexcept>
+#include <string>
 #include <typeinfo>
 
 namespace richdem {
@@ -39,13 +42,19 @@ typedef std::unique_ptr<GDALDataset, GDALDatasetCloser> GDALDatasetPtr;
 
   Much of what is written to a dataset only reaches the disk when the dataset is
   flushed or closed, whose failures are only known from the errors reported.
+  And when a dataset is opened, parts of its header which cannot be read from the
+  disk are left out with no more than a warning.
 */
 class GDALErrorWatch {
  private:
   bool seen = false;
+  bool lost = false;
   static void CPL_STDCALL handler(CPLErr err_class, CPLErrorNum err_num, const char *msg){
+    GDALErrorWatch *const watch = static_cast<GDALErrorWatch*>(CPLGetErrorHandlerUserData());
     if(err_class==CE_Failure || err_class==CE_Fatal)
-      static_cast<GDALErrorWatch*>(CPLGetErrorHandlerUserData())->seen = true;
+      watch->seen = true;
+    else if(err_class==CE_Warning && std::strstr(msg, "IO error during reading")!=nullptr)
+      watch->lost = true;
     CPLCallPreviousHandler(err_class, err_num, msg);
   }
  public:
@@ -54,6 +63,11 @@ class GDALErrorWatch {
   GDALErrorWatch(const GDALErrorWatch&) = delete;
   GDALErrorWatch& operator=(const GDALErrorWatch&) = delete;
   bool failed() const { return seen; }
+  ///Throws an exception if part of the header of the file could not be read
+  void checkHeader(const std::string &filename) const {
+    if(lost)
+      throw std::runtime_error("Could not read all of the header of '"+filename+"'!");
+  }
 };
 
 
@@ -87,6 +101,7 @@ void getGDALHeader(
   double  geotransform[6]
 ){
   RegisterGDALDrivers();
+  const GDALErrorWatch errors;
   const GDALDatasetPtr fin((GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly));
   if(fin==NULL)
     throw std::runtime_error("Could not get GDAL header: file '" + filename + "'' did not open!");
@@ -98,6 +113,7 @@ void getGDALHeader(
   width   = band->GetXSize();
 
   fin->GetGeoTransform(geotransform);
+  errors.checkHeader(filename);
 }
 
 
diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index cb0c544..e598d18 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -21,6 +21,7 @@ void LoadGDAL(
   arr.clear();
   arr.filename = filename;
 
+  const GDALErrorWatch errors;
   const GDALDatasetPtr fin((GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly));
   if(fin==NULL)
     throw std::runtime_error("Could not open file '"+filename+"' with GDAL!");
@@ -41,6 +42,8 @@ void LoadGDAL(
   uint64_t total_height = band->GetYSize();         //Returns an int
   arr.setNoData((T)band->GetNoDataValue());
 
+  errors.checkHeader(filename);
+
   //Ensure that the block we're grabbing doesn't extend outside the data
   if(xOffset+part_width>=total_width)
     part_width  = total_width-xOffset;
diff --git a/src/gdal.cpp b/src/gdal.cpp
index b7e745d..8aa1e4f 100644
--- a/src/gdal.cpp
+++ b/src/gdal.cpp
@@ -6,6 +6,7 @@ namespace richdem {
 
 GDALDataType peekGDALType(const std::string &filename){
   RegisterGDALDrivers();
+  const GDALErrorWatch errors;
   const GDALDatasetPtr fin(static_cast<GDALDataset*>(GDALOpen(filename.c_str(), GA_ReadOnly)));
   if(fin==nullptr){
     throw std::runtime_error("Unable to open file '"+filename+"'!");
@@ -14,6 +15,8 @@ GDALDataType peekGDALType(const std::string &filename){
   GDALRasterBand *band   = fin->GetRasterBand(1);
   GDALDataType data_type = band->GetRasterDataType();
 
+  errors.checkHeader(filename);
+
   return data_type;
 }
 
@@ -25,6 +28,7 @@ void getGDALDimensions(
   double geotransform[6]
 ){
   RegisterGDALDrivers();
+  const GDALErrorWatch errors;
   const GDALDatasetPtr fin(static_cast<GDALDataset*>(GDALOpen(filename.c_str(), GA_ReadOnly)));
   if(fin==nullptr){
     throw std::runtime_error("Could not open file '"+filename+"' to get dimensions.");
@@ -40,6 +44,8 @@ void getGDALDimensions(
 
   height  = band->GetYSize();
   width   = band->GetXSize();
+
+  errors.checkHeader(filename);
 }
 
 }
-- 
2.43.0


From 944d347ebe91879adffcf50fe585db466fbf4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 38/58] fix: a GeoTIFF whose strip table could not be read was
 loaded from the wrong place

---
 include/richdem/common/gdal.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/gdal.hpp b/include/richdem/common/gdal.hpp
index 9fabea0..1141420 100644
--- a/include/richdem/common/gdal.hpp
+++ b/include/richdem/common/gdal.hpp
@@ -3,6 +3,7 @@
 #ifdef USEGDAL
 
 #include "gdal_priv.h"
+#include "cpl_conv.h"
 #include "cpl_error.h"
 #include "cpl_string.h"
 #include <cstring>
@@ -21,7 +22,16 @@ namespace richdem {
   rasters may well be made by several threads at the same time.
 */
 inline void RegisterGDALDrivers(){
-  static const bool registered = [](){ GDALAllRegister(); return true; }();
+  static const bool registered = [](){
+    GDALAllRegister();
+    //By default, the table of where a GeoTIFF's data is gets read piecemeal while
+    //the data is being read. Failures to read it then go unreported and the data
+    //is taken from the wrong place. If it's read when the file is opened, they are
+    //reported.
+    if(CPLGetConfigOption("GTIFF_USE_DEFER_STRILE_LOADING", nullptr)==nullptr)
+      CPLSetConfigOption("GTIFF_USE_DEFER_STRILE_LOADING", "NO");
+    return true;
+  }();
   (void)registered;
 }
 
-- 
2.43.0


From 19552ae96ffe22a7cac49d4f9d33ed2b192cbe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:24 +0000
Subject: [PATCH 39/58] fix: LRU forgot an item which was evicted and inserted
 again

insert() took an item for present if it was the one inserted last, even if it
had been evicted since (and compared the first item with an uninitialised
value). A tile whose replacement could not be loaded was then in memory without
the cache knowing of it.
---
 include/richdem/tiled/lru.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/richdem/tiled/lru.hpp b/include/richdem/tiled/lru.hpp
index a81faf7..90b2edd 100644
--- a/include/richdem/tiled/lru.hpp
+++ b/include/richdem/tiled/lru.hpp
@@ -19,7 +19,6 @@ class LRU {
   typedef std::list<T> cachetype; ///< Container used for storage by the cache
   int len;                        ///< Number of items in the cache
   int maxlen;                     ///< Maximum size the cache is allowed to be
-  T   last;                       ///< Copy of the last inserted item. Speeds up insertion. TODO: This'd be better as a pointer
   std::unordered_map<T, typename std::list<T>::iterator> visited; ///< Used for O(1) access to members
 
  public:
@@ -39,9 +38,8 @@ class LRU {
   ///
   ///@param entry The item to add to the queue.
   void insert(const T &entry){
-    //Used to quickly move on if we've seen this item before (TODO: Should use a
-    //pointer in case T is not a POD.)
-    if(entry==last)
+    //Used to quickly move on if this item is the one we've just seen
+    if(!cache.empty() && entry==cache.front())
       return;
 
     if(visited.count(entry)){                     //Item is already in the queue
@@ -52,8 +50,6 @@ class LRU {
       visited[entry] = cache.begin();             //Make a note of its location
       len++;                                      //Queue just got bigger
     }
-
-    last = entry;                                 //Make a note of the new item
   }
 
   ///@brief Returns the number of itmes in the LRU cache
-- 
2.43.0


From 6329b4a953b96426d76eae927ec0a800c933abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 40/58] fix: A2Array2D knew nothing of tiles which had not been
 loaded yet

A raster made from a prefix and dimensions looked up its missing tiles in an
empty list with an uninitialised width, tiles not used yet had no dimensions (so
a raster templated on such a raster divided by zero), and notNullTiles() was
zero for all rasters but those read from a layout.
---
 include/richdem/tiled/A2Array2D.hpp | 30 ++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 33aa4ac..efe305d 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -231,8 +231,13 @@ class A2Array2D {
     this->per_tile_width  = per_tile_width;
     this->per_tile_height = per_tile_height;
 
-    this->total_width_in_cells  = per_tile_width*width;
-    this->total_height_in_cells = per_tile_height*height;
+    this->total_width_in_cells  = (int64_t)per_tile_width*width;
+    this->total_height_in_cells = (int64_t)per_tile_height*height;
+
+    quick_width_in_tiles  = width;
+    quick_height_in_tiles = height;
+    null_tile_quick.resize((size_t)width*height, false);
+    not_null_tiles        = width*height;
 
     int tile=0;
     for(int y=0;y<height;y++){
@@ -241,7 +246,9 @@ class A2Array2D {
         tile++;
         data.back().emplace_back();
         data.back().back().setCacheFilename(prefix+std::to_string(tile)+".native");
-        data.back().back().created  = false;
+        data.back().back().created            = false;
+        data.back().back().create_with_width  = per_tile_width;
+        data.back().back().create_with_height = per_tile_height;
       }
     }
   }
@@ -252,8 +259,9 @@ class A2Array2D {
 
     readonly = false;
 
-    per_tile_width        = 0;
-    per_tile_height       = 0;
+    not_null_tiles        = other.not_null_tiles;
+    per_tile_width        = other.per_tile_width;
+    per_tile_height       = other.per_tile_height;
     total_width_in_cells  = other.total_width_in_cells;
     total_height_in_cells = other.total_height_in_cells;
     flipV                 = other.flipV;
@@ -273,10 +281,8 @@ class A2Array2D {
         this_tile.templateCopy(other_tile);
         this_tile.filename = filename_template;
         this_tile.filename.replace(data[y][x].filename.find("%f"), 2, data[y][x].basename);
-        per_tile_width               = std::max(per_tile_width, other_tile.width() );
-        per_tile_height              = std::max(per_tile_height,other_tile.height());
-        this_tile.create_with_width  = other_tile.width();
-        this_tile.create_with_height = other_tile.height();
+        this_tile.create_with_width  = other.tileWidth (x,y);
+        this_tile.create_with_height = other.tileHeight(x,y);
         this_tile.null_tile          = other_tile.null_tile;
         this_tile.created            = false;
       }
@@ -406,7 +412,8 @@ class A2Array2D {
     assert(ty>=0);
     assert(tx<(int32_t)data[0].size());
     assert(ty<(int32_t)data.size());
-    return data[ty][tx].width();
+    const auto &tile = data[ty][tx];
+    return tile.created ? tile.width() : tile.create_with_width;
   }
 
   int32_t tileHeight(int32_t tx, int32_t ty) const {
@@ -414,7 +421,8 @@ class A2Array2D {
     assert(ty>=0);
     assert(tx<widthInTiles());
     assert(ty<heightInTiles());
-    return data[ty][tx].height();
+    const auto &tile = data[ty][tx];
+    return tile.created ? tile.height() : tile.create_with_height;
   }
 
   int32_t stdTileHeight() const {
-- 
2.43.0


From 161a4f16431920f5cb2e15075ad65c7c0fea4e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 41/58] fix: A2Array2D::setNoData() was lost on tiles which
 were not in memory

Reloading a tile brought back the NoData value it was evicted with.
---
 include/richdem/tiled/A2Array2D.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index efe305d..c5c0e2d 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -128,7 +128,9 @@ class A2Array2D {
     }
 
     if(tile.created){
+      const T no_data = tile.noData(); //May have been set since the tile was unloaded
       tile.loadData();
+      tile.setNoData(no_data);
       tile.printStamp(5,"Tile load, before reorientating"); //Print stamp before reorientating since this must match parallel_pf.exe
       if(readonly){
         if((tile.geotransform[1]<0) ^ flipH)
-- 
2.43.0


From ca3e0158214c34834a85b27f79fd85f5185ea69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 42/58] fix: A2Array2D read missing tiles as -1 rather than as
 NoData

setNoData() left them out, too. Since saveUnifiedGDAL() compares the NoData
values of all tiles, it refused rasters with missing tiles unless their NoData
value was -1. A layout without any tile is refused instead of dividing by zero.
---
 include/richdem/tiled/A2Array2D.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index c5c0e2d..4e0b82f 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -101,6 +101,15 @@ class A2Array2D {
 
   bool readonly = true;
 
+  ///Returns the first tile which is not missing
+  const WrappedArray2D& firstTile() const {
+    for(const auto &row: data)
+    for(const auto &tile: row)
+      if(!tile.null_tile)
+        return tile;
+    throw std::runtime_error("Raster has no tiles!");
+  }
+
   void _LoadTile(int tile_x, int tile_y){
     if(isNullTile(tile_x,tile_y))
       return;
@@ -212,12 +221,22 @@ class A2Array2D {
       }
     }
 
-    total_width_in_cells  = widthInTiles()*stdTileWidth();
-    total_height_in_cells = heightInTiles()*stdTileHeight();
+    total_width_in_cells  = (int64_t)widthInTiles()*stdTileWidth();
+    total_height_in_cells = (int64_t)heightInTiles()*stdTileHeight();
 
     if(!good)
       throw std::runtime_error("Not all tiles had the same dimensions!");
 
+    if(not_null_tiles==0)
+      throw std::runtime_error("Layout file '"+layoutfile+"' contains no tiles!");
+
+    //Missing tiles look like the other tiles' NoData
+    const T no_data = firstTile().noData();
+    for(auto &row: data)
+    for(auto &tile: row)
+      if(tile.null_tile)
+        tile.setNoData(no_data);
+
     RDLOG_MISC<<"Total width = " <<total_width_in_cells;
     RDLOG_MISC<<"Total height = "<<total_height_in_cells;
 
@@ -580,8 +599,7 @@ class A2Array2D {
   void setNoData(const T &ndval){
     for(auto &row: data)
     for(auto &tile: row)
-      if(!tile.null_tile)
-        tile.setNoData(ndval);
+      tile.setNoData(ndval);
   }
 
   int32_t getEvictions() const {
-- 
2.43.0


From b362c98df2c384d485af991af0c0d39028085cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 43/58] fix: A2Array2D::saveGDAL() could not save anything

It passed the number 0 where saveGDAL() takes a string, which throws; a raster
made from a prefix has neither the geotransform it looked at nor names for its
tiles; and the tiles it orientated for their files stayed that way in the
raster. Failures to write the end of the layout went unnoticed.
---
 include/richdem/tiled/A2Array2D.hpp | 38 ++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 4e0b82f..25904eb 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -110,6 +110,17 @@ class A2Array2D {
     throw std::runtime_error("Raster has no tiles!");
   }
 
+  ///Changes a tile from the orientation of its file to that of this raster, or
+  ///the other way around
+  void orientate(WrappedArray2D &tile) const {
+    if(tile.geotransform.empty()) //Has never been in a file
+      return;
+    if((tile.geotransform[1]<0) ^ flipH)
+      tile.flipHorz();
+    if((tile.geotransform[5]>0) ^ flipV)
+      tile.flipVert();
+  }
+
   void _LoadTile(int tile_x, int tile_y){
     if(isNullTile(tile_x,tile_y))
       return;
@@ -141,12 +152,8 @@ class A2Array2D {
       tile.loadData();
       tile.setNoData(no_data);
       tile.printStamp(5,"Tile load, before reorientating"); //Print stamp before reorientating since this must match parallel_pf.exe
-      if(readonly){
-        if((tile.geotransform[1]<0) ^ flipH)
-          tile.flipHorz();
-        if((tile.geotransform[5]>0) ^ flipV)
-          tile.flipVert();
-      }
+      if(readonly)
+        orientate(tile);
       tile.printStamp(5,"Tile load, after reorientating"); //Print stamp before reorientating since this must match parallel_pf.exe
     } else {
       if(tile.create_with_width!=-1 && tile.create_with_height!=-1)
@@ -267,6 +274,7 @@ class A2Array2D {
         tile++;
         data.back().emplace_back();
         data.back().back().setCacheFilename(prefix+std::to_string(tile)+".native");
+        data.back().back().basename           = std::to_string(tile);
         data.back().back().created            = false;
         data.back().back().create_with_width  = per_tile_width;
         data.back().back().create_with_height = per_tile_height;
@@ -533,10 +541,7 @@ class A2Array2D {
 
         tile.printStamp(5,"Saving, before reorientation");
 
-        if((tile.geotransform[1]<0) ^ flipH)
-          tile.flipHorz();
-        if((tile.geotransform[5]>0) ^ flipV)
-          tile.flipVert();
+        orientate(tile);
 
         tile.printStamp(5,"Saving, after reorientation");
 
@@ -544,12 +549,21 @@ class A2Array2D {
 
         auto temp = outputname_template;
         temp.replace(temp.find("%f"),2,tile.basename);
-        lfout.addEntry(temp);
 
-        tile.saveGDAL(temp, 0, 0);
+        //The tile remains in use, so it has to be put back as it was
+        try {
+          lfout.addEntry(temp);
+          tile.saveGDAL(temp);
+        } catch (...) {
+          orientate(tile);
+          throw;
+        }
+        orientate(tile);
       }
     }
 
+    lfout.close();
+
     RDLOG_MISC<<"Cells with no flow = "<<zero_count;
   }
 
-- 
2.43.0


From 1e64533ffd2ca019370a0ed82eea6ec32348cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 44/58] fix: saveUnifiedGDAL() refused rasters without a first
 tile or geotransform

Whatever went wrong when the file was closed, which is when most of it is
written, was ignored, and the file stayed open if anything went wrong earlier.
---
 include/richdem/tiled/A2Array2D.hpp | 47 ++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 25904eb..ff8e372 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -101,12 +101,12 @@ class A2Array2D {
 
   bool readonly = true;
 
-  ///Returns the first tile which is not missing
-  const WrappedArray2D& firstTile() const {
-    for(const auto &row: data)
-    for(const auto &tile: row)
-      if(!tile.null_tile)
-        return tile;
+  ///Finds the first tile which is not missing
+  void firstTile(int32_t &tx, int32_t &ty) const {
+    for(ty=0;ty<heightInTiles();ty++)
+    for(tx=0;tx<widthInTiles();tx++)
+      if(!data[ty][tx].null_tile)
+        return;
     throw std::runtime_error("Raster has no tiles!");
   }
 
@@ -238,7 +238,9 @@ class A2Array2D {
       throw std::runtime_error("Layout file '"+layoutfile+"' contains no tiles!");
 
     //Missing tiles look like the other tiles' NoData
-    const T no_data = firstTile().noData();
+    int32_t first_x, first_y;
+    firstTile(first_x, first_y);
+    const T no_data = data[first_y][first_x].noData();
     for(auto &row: data)
     for(auto &tile: row)
       if(tile.null_tile)
@@ -571,23 +573,37 @@ class A2Array2D {
     GDALDriver *poDriver = GetGDALDriverManager()->GetDriverByName("GTiff");
     if(poDriver==NULL)
       throw std::runtime_error("Could not open GDAL driver!");
-    GDALDataset *fout    = poDriver->Create(outputname.c_str(), width(), height(), 1, myGDALType(), NULL);
+    GDALDatasetPtr fout(poDriver->Create(outputname.c_str(), width(), height(), 1, myGDALType(), NULL));
     if(fout==NULL)
       throw std::runtime_error("Could not open file '"+outputname+"' for GDAL save!");
 
+    GDALErrorWatch errors;
+
     auto no_data = data[0][0].noData();
     for(int32_t ty=0;ty<heightInTiles();ty++)
     for(int32_t tx=0;tx<widthInTiles();tx++)
       if(data[ty][tx].noData()!=no_data)
         throw std::runtime_error("Files had differing NoData values :-(");
 
-    auto out_geotransform = data[0][0].geotransform;
+    int32_t first_x, first_y;
+    firstTile(first_x, first_y);
+    const auto &first = data[first_y][first_x];
+
+    auto out_geotransform = first.geotransform;
+
+    if(!out_geotransform.empty()){
+      if(out_geotransform.size()!=6)
+        throw std::runtime_error("Geotransform of output is not the right size. Found "+std::to_string(out_geotransform.size())+" expected 6.");
 
-    if(out_geotransform.size()!=6)
-      throw std::runtime_error("Geotransform of output is not the right size. Found "+std::to_string(out_geotransform.size())+" expected 6.");
+      //The first tile need not be the one in the corner
+      out_geotransform[0] -= (double)first_x*stdTileWidth() *out_geotransform[1];
+      out_geotransform[3] -= (double)first_y*stdTileHeight()*out_geotransform[5];
+
+      fout->SetGeoTransform(out_geotransform.data());
+    }
 
-    fout->SetGeoTransform(out_geotransform.data());
-    fout->SetProjection(data[0][0].projection.c_str());
+    if(!first.projection.empty())
+      fout->SetProjection(first.projection.c_str());
 
     GDALRasterBand *oband = fout->GetRasterBand(1);
     oband->SetNoDataValue(no_data);
@@ -607,7 +623,10 @@ class A2Array2D {
         throw std::runtime_error("Error writing file!");
     }
 
-    GDALClose(fout);
+    //Closing the file writes what has not been written yet
+    fout.reset();
+    if(errors.failed())
+      throw std::runtime_error("Error writing file '"+outputname+"'!");
   }
 
   void setNoData(const T &ndval){
-- 
2.43.0


From 0f9fd9e01a1bb6142c1f4dcd776577fba5885c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 45/58] fix: a copy of an A2Array2D managed the original's
 tiles

The copy's cache held pointers to the tiles of the raster it was copied from, so
using either of them evicted tiles of the other. Copying is refused now; rasters
can be moved.
---
 include/richdem/tiled/A2Array2D.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index ff8e372..1fcc9fb 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -170,6 +170,12 @@ class A2Array2D {
 
  public:
 
+  //The cache refers to the tiles of this very raster (which moving preserves)
+  A2Array2D(const A2Array2D&) = delete;
+  A2Array2D& operator=(const A2Array2D&) = delete;
+  A2Array2D(A2Array2D&&) = default;
+  A2Array2D& operator=(A2Array2D&&) = default;
+
   A2Array2D(std::string layoutfile, int cachesize){
     lru.setCapacity(cachesize);
     readonly = true;
-- 
2.43.0


From b619c7319f49ac270088f373a88cfa4d27dc3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 46/58] fix: a tile for which there was no memory upset
 A2Array2D's cache

The cache was told of a tile after the tile had been loaded. If there was no
memory left to note it, the tile stayed in memory without the cache knowing of
it, or the cache held it twice and evicted it when it was no longer in memory.
---
 include/richdem/tiled/A2Array2D.hpp | 45 +++++++++++++++++++----------
 include/richdem/tiled/lru.hpp       | 17 ++++++++++-
 2 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 1fcc9fb..3b4b354 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -121,6 +121,29 @@ class A2Array2D {
       tile.flipVert();
   }
 
+  void _ReadTile(WrappedArray2D &tile){
+    if(tile.created){
+      const T no_data = tile.noData(); //May have been set since the tile was unloaded
+      try {
+        tile.loadData();
+      } catch (...) {
+        tile.setNoData(no_data);
+        throw;
+      }
+      tile.setNoData(no_data);
+      tile.printStamp(5,"Tile load, before reorientating"); //Print stamp before reorientating since this must match parallel_pf.exe
+      if(readonly)
+        orientate(tile);
+      tile.printStamp(5,"Tile load, after reorientating"); //Print stamp before reorientating since this must match parallel_pf.exe
+    } else {
+      if(tile.create_with_width!=-1 && tile.create_with_height!=-1)
+        tile.resize(tile.create_with_width,tile.create_with_height);
+      else
+        tile.resize(per_tile_width,per_tile_height);
+      tile.created = true;
+    }
+  }
+
   void _LoadTile(int tile_x, int tile_y){
     if(isNullTile(tile_x,tile_y))
       return;
@@ -147,23 +170,15 @@ class A2Array2D {
       lru.pop_back();
     }
 
-    if(tile.created){
-      const T no_data = tile.noData(); //May have been set since the tile was unloaded
-      tile.loadData();
-      tile.setNoData(no_data);
-      tile.printStamp(5,"Tile load, before reorientating"); //Print stamp before reorientating since this must match parallel_pf.exe
-      if(readonly)
-        orientate(tile);
-      tile.printStamp(5,"Tile load, after reorientating"); //Print stamp before reorientating since this must match parallel_pf.exe
-    } else {
-      if(tile.create_with_width!=-1 && tile.create_with_height!=-1)
-        tile.resize(tile.create_with_width,tile.create_with_height);
-      else
-        tile.resize(per_tile_width,per_tile_height);
-      tile.created = true;
+    //The cache has to know of all the tiles in memory, and of no others
+    lru.insert(&tile);
+    try {
+      _ReadTile(tile);
+    } catch (...) {
+      lru.erase(&tile);
+      throw;
     }
     tile.loaded = true;
-    lru.insert(&data[tile_y][tile_x]);
 
     tile.lazySetAll();
   }
diff --git a/include/richdem/tiled/lru.hpp b/include/richdem/tiled/lru.hpp
index 90b2edd..62aedd7 100644
--- a/include/richdem/tiled/lru.hpp
+++ b/include/richdem/tiled/lru.hpp
@@ -47,7 +47,12 @@ class LRU {
       cache.splice(cache.begin(),cache,existing_entry); //Move item to the front
     } else {                                      //Item is not in the queue
       cache.push_front(entry);                    //Add item to the front
-      visited[entry] = cache.begin();             //Make a note of its location
+      try {
+        visited[entry] = cache.begin();           //Make a note of its location
+      } catch (...) {
+        cache.pop_front();                        //There's no memory for the note
+        throw;
+      }
       len++;                                      //Queue just got bigger
     }
   }
@@ -88,6 +93,16 @@ class LRU {
     len--;
   }
 
+  ///@brief Remove an item, if it is there, out of the LRU cache.
+  void erase(const T &entry){
+    const auto existing_entry = visited.find(entry);
+    if(existing_entry==visited.end())
+      return;
+    cache.erase(existing_entry->second);
+    visited.erase(existing_entry);
+    len--;
+  }
+
   ///@brief Evict items from the LRU cache until it is within its capacity.
   void prune(){
     if(maxlen == -1) return;
-- 
2.43.0


From 4e2f9822f5da2faea595e5fe533996e96a5d807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 47/58] fix: a raster's history recorded saves which had failed

saveGDAL() added the entry for the save, and its date, to the raster before it
had been saved.
---
 include/richdem/common/Array2D.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index f2f9dc7..e247a48 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -1198,24 +1198,27 @@ class Array2D {
     //This could be used to copy metadata
     //poDstDS->SetMetadata( poSrcDS->GetMetadata() );
 
+    //The raster takes this over once it has been saved
+    auto out_metadata = metadata;
+
     //TIFFTAG_SOFTWARE
     //TIFFTAG_ARTIST
     {
       std::time_t the_time = std::time(nullptr);
       char time_str[64];
       std::strftime(time_str, sizeof(time_str), "%Y-%m-%d %H:%M:%S UTC", std::gmtime(&the_time));
-      metadata["TIFFTAG_DATETIME"] = time_str;
-      metadata["TIFFTAG_SOFTWARE"] = program_identifier;
+      out_metadata["TIFFTAG_DATETIME"] = time_str;
+      out_metadata["TIFFTAG_SOFTWARE"] = program_identifier;
 
       //TODO: `metadata_str` may need removing
-      metadata["PROCESSING_HISTORY"] += "\n" + std::string(time_str) + " | " + program_identifier + " | ";
+      out_metadata["PROCESSING_HISTORY"] += "\n" + std::string(time_str) + " | " + program_identifier + " | ";
       if(!metadata_str.empty())
-        metadata["PROCESSING_HISTORY"] += metadata_str;
+        out_metadata["PROCESSING_HISTORY"] += metadata_str;
       else
-        metadata["PROCESSING_HISTORY"] += "Unspecified Operation";
+        out_metadata["PROCESSING_HISTORY"] += "Unspecified Operation";
     }
 
-    for(const auto &kv: metadata)
+    for(const auto &kv: out_metadata)
       fout->SetMetadataItem(kv.first.c_str(), kv.second.c_str());
 
     //The geotransform maps each grid cell to a point in an affine-transformed
@@ -1258,6 +1261,8 @@ class Array2D {
     fout.reset();
     if(errors.failed())
       throw std::runtime_error("Error writing file '"+input_filename+"' with saveGDAL()!");
+
+    metadata = std::move(out_metadata);
   }
   #endif
 
-- 
2.43.0


From 281b41660021a1b255a7f84a721a4244fa16593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 48/58] fix: SaveGDAL() of a raster whose data is not in memory
 read from address zero

---
 include/richdem/common/loaders.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index e598d18..26e6c0e 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -100,6 +100,9 @@ void LoadGDAL(
 
 template<class T>
 void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::string &metadata_str="", uint64_t xoffset=0, uint64_t yoffset=0, const uint64_t padx=0, const uint64_t pady=0, bool compress=false){
+  if(arr.empty())
+    throw std::runtime_error("Cannot save a raster whose data is not in memory to '"+filename+"'.");
+
   CPLStringList options;
   if(compress){
     options.SetNameValue("COMPRESS", "DEFLATE");
-- 
2.43.0


From baf6f6a0f9b7f439ea4775d90cd74e3e11601169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 49/58] fix: offsets were applied as if no raster were rotated

Saving part of a raster whose geotransform has rotation terms put it in the wrong
place.
---
 include/richdem/common/Array2D.hpp | 4 ++--
 include/richdem/common/loaders.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index e247a48..ada49c8 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -1237,11 +1237,11 @@ class Array2D {
 
       //We shift the top-left pixel of hte image eastward to the appropriate
       //coordinate
-      out_geotransform[0] += xoffset*geotransform[1];
+      out_geotransform[0] += xoffset*geotransform[1] + yoffset*geotransform[2];
 
       //We shift the top-left pixel of the image southward to the appropriate
       //coordinate
-      out_geotransform[3] += yoffset*geotransform[5];
+      out_geotransform[3] += xoffset*geotransform[4] + yoffset*geotransform[5];
 
       fout->SetGeoTransform(out_geotransform.data());
     }
diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index 26e6c0e..c433cc6 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -172,11 +172,11 @@ void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::str
 
     //We shift the top-left pixel of hte image eastward to the appropriate
     //coordinate
-    out_geotransform[0] += xoffset*arr.geotransform[1];
+    out_geotransform[0] += xoffset*arr.geotransform[1] + yoffset*arr.geotransform[2];
 
     //We shift the top-left pixel of the image southward to the appropriate
     //coordinate
-    out_geotransform[3] += yoffset*arr.geotransform[5];
+    out_geotransform[3] += xoffset*arr.geotransform[4] + yoffset*arr.geotransform[5];
 
     fout->SetGeoTransform(out_geotransform.data());
   }
-- 
2.43.0


From f3a9729b4c446c09f8c74fc2cf76ac6934f8673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 50/58] fix: rd_hist printed the values of byte rasters as
 characters

---
 apps/rd_hist.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/rd_hist.cpp b/apps/rd_hist.cpp
index 253f332..93ffb77 100644
--- a/apps/rd_hist.cpp
+++ b/apps/rd_hist.cpp
@@ -14,10 +14,10 @@ int PerformAlgorithm(Array2D<T> rast){
   for(unsigned int i=0;i<rast.size();i++)
     counts[rast(i)]++;
 
-  std::cout<<"Nodata: "<<(int)rast.noData()<<std::endl;
+  std::cout<<"Nodata: "<<+rast.noData()<<std::endl;
 
   for(const auto &x: counts)
-    std::cout<<std::setw(20)<<x.first<<" "<<std::setw(20)<<x.second<<"\n";
+    std::cout<<std::setw(20)<<+x.first<<" "<<std::setw(20)<<x.second<<"\n";
 
   return 0;
 }
-- 
2.43.0


From 6ec862222dd44feae5898b4331d0a1a26d131a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 51/58] fix: nine of the apps reported success after having
 refused to work

---
 apps/rd_compare.cpp            | 4 +---
 apps/rd_d8_flowdirs.cpp        | 4 +---
 apps/rd_expand_dimensions.cpp  | 4 +---
 apps/rd_flood_for_flowdirs.cpp | 4 +---
 apps/rd_geotransform.cpp       | 4 +---
 apps/rd_hist.cpp               | 4 +---
 apps/rd_no_data.cpp            | 2 +-
 apps/rd_projection.cpp         | 4 +---
 apps/rd_raster_display.cpp     | 4 +---
 9 files changed, 9 insertions(+), 25 deletions(-)

diff --git a/apps/rd_compare.cpp b/apps/rd_compare.cpp
index 73a6b0a..c45569f 100644
--- a/apps/rd_compare.cpp
+++ b/apps/rd_compare.cpp
@@ -40,7 +40,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2]);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2]);
 }
\ No newline at end of file
diff --git a/apps/rd_d8_flowdirs.cpp b/apps/rd_d8_flowdirs.cpp
index dcfb251..2fb956e 100644
--- a/apps/rd_d8_flowdirs.cpp
+++ b/apps/rd_d8_flowdirs.cpp
@@ -34,7 +34,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2],analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_expand_dimensions.cpp b/apps/rd_expand_dimensions.cpp
index 4e713a2..1f2459a 100644
--- a/apps/rd_expand_dimensions.cpp
+++ b/apps/rd_expand_dimensions.cpp
@@ -40,7 +40,5 @@ int main(int argc, char **argv){
   int new_width  = std::stoi(argv[3]);
   int new_height = std::stoi(argv[4]);
 
-  PerformAlgorithm(argv[1],argv[2],new_width,new_height,analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],new_width,new_height,analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_flood_for_flowdirs.cpp b/apps/rd_flood_for_flowdirs.cpp
index e53818e..0beb3d0 100644
--- a/apps/rd_flood_for_flowdirs.cpp
+++ b/apps/rd_flood_for_flowdirs.cpp
@@ -69,7 +69,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2],analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_geotransform.cpp b/apps/rd_geotransform.cpp
index 3d3a08b..eeab245 100644
--- a/apps/rd_geotransform.cpp
+++ b/apps/rd_geotransform.cpp
@@ -55,7 +55,7 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(
+  return PerformAlgorithm(
     std::string(argv[1]),
     std::string(argv[2]),
     std::string(argv[3]),
@@ -66,6 +66,4 @@ int main(int argc, char **argv){
     std::string(argv[8]),
     analysis
   );
-
-  return 0;
 }
\ No newline at end of file
diff --git a/apps/rd_hist.cpp b/apps/rd_hist.cpp
index 93ffb77..740c498 100644
--- a/apps/rd_hist.cpp
+++ b/apps/rd_hist.cpp
@@ -34,7 +34,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(std::string(argv[1]));
-
-  return 0;
+  return PerformAlgorithm(std::string(argv[1]));
 }
\ No newline at end of file
diff --git a/apps/rd_no_data.cpp b/apps/rd_no_data.cpp
index 56d8f5a..506a91e 100644
--- a/apps/rd_no_data.cpp
+++ b/apps/rd_no_data.cpp
@@ -31,7 +31,7 @@ int main(int argc, char **argv){
     Array2D<int8_t> temp(argv[1],false,0,0,0,0,false,false); //Data type doesn't matter since we're not loading it
     std::cerr<<temp.noData()<<std::endl;
   } else {
-    PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
+    return PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
   }
 
   return 0;
diff --git a/apps/rd_projection.cpp b/apps/rd_projection.cpp
index 582130b..a8ce70c 100644
--- a/apps/rd_projection.cpp
+++ b/apps/rd_projection.cpp
@@ -36,7 +36,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(std::string(argv[1]),std::string(argv[2]),std::string(argv[3]),analysis);
-
-  return 0;
+  return PerformAlgorithm(std::string(argv[1]),std::string(argv[2]),std::string(argv[3]),analysis);
 }
diff --git a/apps/rd_raster_display.cpp b/apps/rd_raster_display.cpp
index 993376c..0b702a0 100644
--- a/apps/rd_raster_display.cpp
+++ b/apps/rd_raster_display.cpp
@@ -57,7 +57,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2]);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2]);
 }
-- 
2.43.0


From 9f297131d6baa07bb68c869355967d32093f50b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 52/58] fix: rd_no_data cut NoData values down to integers, and
 to single characters when showing them

---
 apps/rd_no_data.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/rd_no_data.cpp b/apps/rd_no_data.cpp
index 506a91e..18fdd9e 100644
--- a/apps/rd_no_data.cpp
+++ b/apps/rd_no_data.cpp
@@ -8,7 +8,7 @@ using namespace richdem;
 template<class T>
 int PerformAlgorithm(std::string outname, char *nodata, std::string analysis, Array2D<T> inp){
   inp.loadData();
-  inp.setNoData((T)std::stoi(nodata)); //TODO
+  inp.setNoData((T)std::stod(nodata)); //TODO
   inp.saveGDAL(outname,analysis);
   return 0;
 }
@@ -28,7 +28,7 @@ int main(int argc, char **argv){
   }
 
   if(argc==2){
-    Array2D<int8_t> temp(argv[1],false,0,0,0,0,false,false); //Data type doesn't matter since we're not loading it
+    Array2D<double> temp(argv[1],false,0,0,0,0,false,false); //Holds the NoData value of any type of raster
     std::cerr<<temp.noData()<<std::endl;
   } else {
     return PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
-- 
2.43.0


From f1ea8b2fa9c69f2c3e4f4a7afe525dedbbdbeab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 53/58] fix: rd_flow_accumulation and rd_terrain_property saved
 rasters of nothing for algorithms they do not have

---
 apps/rd_flow_accumulation.cpp | 8 +++++---
 apps/rd_terrain_property.cpp  | 2 ++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/apps/rd_flow_accumulation.cpp b/apps/rd_flow_accumulation.cpp
index c8ee79d..c2929e1 100644
--- a/apps/rd_flow_accumulation.cpp
+++ b/apps/rd_flow_accumulation.cpp
@@ -26,14 +26,16 @@ int PerformAlgorithm(std::string output, int algorithm, float param, std::string
     case 6: //D∞     - Tarboton (1997)
       FA_Tarboton(dem,accum);                           break;
     case 7: //MD∞    - Seibert & McGlynn (2007)
-      std::cerr<<"This FA is temporarily disabled."; break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl; return -1;
       //FA_SeibertMcGlynn(dem,accum,param);               break;
     case 8: //D8-LTD - Orlandini et al. (2003)
-      std::cerr<<"This FA is temporarily disabled."; break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl; return -1;
       //FA_Orlandini(dem,accum,OrlandiniMode::LTD,param); break;
     case 9: //D8-LAD - Orlandini et al. (2003)
-      std::cerr<<"This FA is temporarily disabled."; break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl; return -1;
       //FA_Orlandini(dem,accum,OrlandiniMode::LAD,param); break;
+    default:
+      std::cerr<<"Unrecognised algorithm!"<<std::endl; return -1;
   }
 
   accum.scale(accum.getCellArea());
diff --git a/apps/rd_terrain_property.cpp b/apps/rd_terrain_property.cpp
index 6c49cb6..cf60579 100644
--- a/apps/rd_terrain_property.cpp
+++ b/apps/rd_terrain_property.cpp
@@ -29,6 +29,8 @@ int PerformAlgorithm(std::string output, int algorithm, float z_scale, std::stri
       TA_planform_curvature(dem,result,z_scale); break;
     case 8: 
       TA_profile_curvature (dem,result,z_scale); break;
+    default:
+      std::cerr<<"Unrecognised algorithm!"<<std::endl; return -1;
   }
 
   result.saveGDAL(output,analysis);
-- 
2.43.0


From dbc405f900d43c2ce143c34c331fe03dec427b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:55 +0000
Subject: [PATCH 54/58] fix: rd_fill_spill_merge and rd_depression_hierarchy
 saved rasters without a place

---
 apps/rd_depression_hierarchy.cpp | 3 ++-
 apps/rd_fill_spill_merge.cpp     | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/rd_depression_hierarchy.cpp b/apps/rd_depression_hierarchy.cpp
index 4e1d17c..964e9f8 100644
--- a/apps/rd_depression_hierarchy.cpp
+++ b/apps/rd_depression_hierarchy.cpp
@@ -61,7 +61,8 @@ int main(int argc, char **argv){
     }
   }
 
-  label.projection = topo.projection;
+  label.geotransform = topo.geotransform;
+  label.projection   = topo.projection;
   label.saveGDAL(out_name+"-label.tif");
 
   timer_io.stop();
diff --git a/apps/rd_fill_spill_merge.cpp b/apps/rd_fill_spill_merge.cpp
index de67af6..dca04c0 100644
--- a/apps/rd_fill_spill_merge.cpp
+++ b/apps/rd_fill_spill_merge.cpp
@@ -58,6 +58,8 @@ int main(int argc, char **argv){
   rd::Array2D<rd::flowdir_t>  flowdirs(topo.width(), topo.height(), rd::NO_FLOW);      //No cells flow anywhere
 
   wtd.setNoData(topo.noData());
+  wtd.geotransform = topo.geotransform;
+  wtd.projection   = topo.projection;
 
   //Label the ocean cells. This is a precondition for using
   //`GetDepressionHierarchy()`.
-- 
2.43.0


From 4182976982ac327f91ea4c9924c7b3c37a90733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 55/58] fix: rd_compare read past the end of rasters of
 different sizes

---
 apps/rd_compare.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/rd_compare.cpp b/apps/rd_compare.cpp
index c45569f..bb6fe93 100644
--- a/apps/rd_compare.cpp
+++ b/apps/rd_compare.cpp
@@ -19,6 +19,11 @@ int PerformAlgorithm(Array2D<T> a, Array2D<U> b){
   if(a.height()!=b.height())
     std::cout<<"Heights differ."<<std::endl;
 
+  if(a.width()!=b.width() || a.height()!=b.height()){
+    std::cout<<"Values cannot be compared."<<std::endl;
+    return 0;
+  }
+
   uint64_t differs = 0;
   for(uint64_t i=0;i<a.size();i++)
     if(a(i)!=b(i))
-- 
2.43.0


From ca7bd10c13556fe8d37b0b2eb448925773a61345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 56/58] fix: rd_depression_hierarchy did not notice that its
 graph could not be written

---
 apps/rd_depression_hierarchy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/rd_depression_hierarchy.cpp b/apps/rd_depression_hierarchy.cpp
index 964e9f8..e5f460d 100644
--- a/apps/rd_depression_hierarchy.cpp
+++ b/apps/rd_depression_hierarchy.cpp
@@ -59,6 +59,9 @@ int main(int argc, char **argv){
       //Is it an ocean link?
       fgraph<<(deps[i].parent!=dh::NO_VALUE && (deps[i].parent==dh::OCEAN || !(deps[deps[i].parent].lchild==i || deps[deps[i].parent].rchild==i)))<<"\n";
     }
+    fgraph.close();
+    if(!fgraph)
+      throw std::runtime_error("Failed to write '"+out_name+"-graph.csv'!");
   }
 
   label.geotransform = topo.geotransform;
-- 
2.43.0


From f4e3131804863f021df349b3ff82fb87a7c7bb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:20 +0000
Subject: [PATCH 57/58] fix: random numbers drawn by more than 32 threads
 corrupted memory

---
 include/richdem/common/random.hpp |  2 +-
 src/random.cpp                    | 32 +++++++++++++++++++++++--------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/richdem/common/random.hpp b/include/richdem/common/random.hpp
index 5da13a8..992bd34 100644
--- a/include/richdem/common/random.hpp
+++ b/include/richdem/common/random.hpp
@@ -13,7 +13,7 @@
 
 namespace richdem {
 
-///Maximum number of threads this class should deal with
+///Number of threads whose engines are always there
 #define PRNG_THREAD_MAX 32
 
 typedef std::string RandomEngineState;
diff --git a/src/random.cpp b/src/random.cpp
index 54c1d30..c002411 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -4,6 +4,7 @@
 #include <array>
 #include <cassert>
 #include <cstdint>
+#include <deque>
 #include <functional>
 #include <iostream>
 #include <limits>
@@ -20,17 +21,34 @@ static int rd_get_thread_num(){
   #endif
 }
 
+//The calling thread's object of a kind. There may be more threads than
+//PRNG_THREAD_MAX; the objects of those are made when they are first needed.
+template<class T>
+static T& of_this_thread(){
+  static std::array<T, PRNG_THREAD_MAX> first;
+  static std::deque<T> others; //References to its elements stay valid while it grows
+  const size_t n = rd_get_thread_num();
+  if(n<first.size())
+    return first[n];
+  T* mine;
+  #pragma omp critical(rd_random_others)
+  {
+    while(others.size()<=n-first.size())
+      others.emplace_back();
+    mine = &others[n-first.size()];
+  }
+  return *mine;
+}
+
 our_random_engine& rand_engine(){
-  static std::array<our_random_engine, PRNG_THREAD_MAX> e;
-  return e[rd_get_thread_num()];
+  return of_this_thread<our_random_engine>();
 }
 
 
 //The normal distribution keeps every second number it makes for its next call,
 //so it is part of a thread's state
 static std::normal_distribution<double>& normal_dist(){
-  static std::array<std::normal_distribution<double>, PRNG_THREAD_MAX> d;
-  return d[rd_get_thread_num()];
+  return of_this_thread< std::normal_distribution<double> >();
 }
 
 
@@ -62,16 +80,14 @@ void seed_rand(uint64_t seed){
 
 
 int uniform_rand_int(int from, int thru){
-  static std::array<std::uniform_int_distribution<>, PRNG_THREAD_MAX> d;
   using parm_t = std::uniform_int_distribution<>::param_type;
-  return d[rd_get_thread_num()]( rand_engine(), parm_t{from, thru} );
+  return of_this_thread< std::uniform_int_distribution<> >()( rand_engine(), parm_t{from, thru} );
 }
 
 
 double uniform_rand_real(double from, double thru){
-  static std::array<std::uniform_real_distribution<>, PRNG_THREAD_MAX> d;
   using parm_t = std::uniform_real_distribution<>::param_type;
-  return d[rd_get_thread_num()]( rand_engine(), parm_t{from, thru} );
+  return of_this_thread< std::uniform_real_distribution<> >()( rand_engine(), parm_t{from, thru} );
 }
 
 
-- 
2.43.0


From 6b395a90e015cd8a69f6d4aaf8778e5a2bc9cd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:41 +0000
Subject: [PATCH 58/58] fix: distributed flow accumulation cropped tiles larger
 than the first one

Tiles of a layout must all have the size of the first one, which the
consumers are meant to verify as they open them. Without the exact flag
the loader cropped a larger tile instead, and the run reported success
with cells missing.
---
 programs/parallel_d8_accum/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 51affa0..474529d 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -471,7 +471,7 @@ class ConsumerSpecifics {
     #endif
 
     timer_io.start();
-    flowdirs = Array2D<pd8_flowdir_t>(tile.filename, false, tile.x, tile.y, tile.width, tile.height);
+    flowdirs = Array2D<pd8_flowdir_t>(tile.filename, false, tile.x, tile.y, tile.width, tile.height, tile.many);
 
     //TODO: Figure out a clever way to allow tiles of different widths/heights
     if(flowdirs.width()!=tile.width){
-- 
2.43.0

