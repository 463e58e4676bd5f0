From 189e9177f17968f4b7515fce7ac357178f284e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:46 +0000
Subject: [PATCH 01/28] fix: batched real-to-complex forward without a second
 reshape used the real box size as the stride of the complex output

---
 src/heffte_compute_transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index 1f425fe..be9faa6 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -155,8 +155,8 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         for(int j=0; j<batch_size; j++){
             if (executor[0] != nullptr) executor[0]->forward(effective_input + j * executor[0]->box_size(),
                                                              output + j * executor[0]->complex_size(), executor_workspace);
-            if (executor[1] != nullptr) executor[1]->forward(output + j * executor[0]->box_size(), executor_workspace);
-            if (executor[2] != nullptr) executor[2]->forward(output + j * executor[0]->box_size(), executor_workspace);
+            if (executor[1] != nullptr) executor[1]->forward(output + j * executor[1]->box_size(), executor_workspace);
+            if (executor[2] != nullptr) executor[2]->forward(output + j * executor[2]->box_size(), executor_workspace);
         }
         return;
     }
-- 
2.43.0


From d900b1c49d80788e194cc409aa6955cf4cdab80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:42 +0000
Subject: [PATCH 02/28] fix: the input was not copied (or a null engine was
 used) when the first engine of a rank is missing

---
 src/heffte_compute_transform.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index be9faa6..77eb87a 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -47,6 +47,19 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
             }
         };
 
+    // copies the input when shaper[0] is missing, i.e., the input boxes are the ones used by the executors before the next reshape
+    // an executor can be missing when the box is empty or the operation is done by another executor
+    auto copy_input = [&](scalar_type destination[])
+        ->void{
+            for(int i=0; i<3; i++){
+                if (shaper[i]) break;
+                if (executor[i] != nullptr){
+                    backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[i]->box_size(), destination);
+                    break;
+                }
+            }
+        };
+
     int num_active = count_active(shaper);
     int last = get_last_active(shaper);
 
@@ -57,8 +70,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         if (last == 0){
             shaper[0]->apply(batch_size, input, output, workspace);
         }else if (input != output){
-            int valid_executor = (executor[0] != nullptr) ? 0 : ((executor[1] != nullptr) ? 1 : 2);
-            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[valid_executor]->box_size(), output);
+            copy_input(output);
         }
         for(int i=0; i<3; i++)
             apply_fft(i, output);
@@ -72,8 +84,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         scalar_type *effective_input = output;
         if (input != output){
             add_trace name("copy");
-            if (executor[0] != nullptr)
-                backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[0]->box_size(), temp_buffer);
+            copy_input(temp_buffer);
             effective_input = temp_buffer;
         }
         for(int i=0; i<last; i++)
@@ -95,7 +106,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
             shaper[0]->apply(batch_size, input, temp_buffer, workspace);
         }else{
             add_trace name("copy");
-            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[0]->box_size(), temp_buffer);
+            copy_input(temp_buffer);
         }
         active_shaper = 1;
     }else{
-- 
2.43.0


From b9e7a922797d23619944de6dd4f7232d8f086cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:02 +0000
Subject: [PATCH 03/28] fix: complex-to-real backward used a null engine on
 ranks without indexes

---
 src/heffte_compute_transform.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index 77eb87a..15e81c8 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -225,9 +225,15 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         shaper[0]->apply(batch_size, input, temp_buffer, workspace);
     }else{
         add_trace name("copy");
-        int valid_executor = (executor[0] != nullptr) ? 0 : ((executor[1] != nullptr) ? 1 : 2);
-        backend::data_manipulator<location_tag>::copy_n(stream, input,
-                                                        batch_size * executor[valid_executor]->box_size(), temp_buffer);
+        // the input boxes are the ones used by the executors before the next reshape, all executors are missing if the box is empty
+        for(int i=0; i<3; i++){
+            if (shaper[i]) break;
+            if (executor[i] != nullptr){
+                size_t const input_size = (i == 2) ? executor[i]->complex_size() : executor[i]->box_size();
+                backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * input_size, temp_buffer);
+                break;
+            }
+        }
     }
 
     for(int i=0; i<2; i++){ // apply the two complex-to-complex ffts
-- 
2.43.0


From bab5c6ba7a04c001823166aa9ada7adbf01fdbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:06 +0000
Subject: [PATCH 04/28] fix: two and three dimensional engines of fftw and mkl
 ignored the memory order of the box

---
 include/heffte_backend_fftw.h | 30 ++++++++++++++++--------------
 include/heffte_backend_mkl.h  | 15 ++++++++-------
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index b501e8b..14438bf 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -230,7 +230,8 @@ public:
     //! \brief Merges two FFTs into one.
     template<typename index>
     fftw_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()), embed({0, 0})
     {
         int odir1 = box.find_order(dir1);
@@ -239,22 +240,22 @@ public:
         if (std::min(odir1, odir2) == 0 and std::max(odir1, odir2) == 1){
             stride = 1;
             dist = size * size2;
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<int>(box.size[2]), static_cast<int>(box.size[1] * box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<int>(box.osize(2)), static_cast<int>(box.osize(1) * box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges three FFTs into one.
     template<typename index>
     fftw_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
@@ -594,7 +595,8 @@ template<typename prepost_processor> struct real2real_executor<backend::fftw, pr
     //! \brief Construct a plan for batch 2D transforms, not implemented currently.
     template<typename index>
     real2real_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()), embed({0, 0})
     {
         int odir1 = box.find_order(dir1);
@@ -603,22 +605,22 @@ template<typename prepost_processor> struct real2real_executor<backend::fftw, pr
         if (std::min(odir1, odir2) == 0 and std::max(odir1, odir2) == 1){
             stride = 1;
             dist = size * size2;
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<int>(box.size[2]), static_cast<int>(box.size[1] * box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<int>(box.osize(2)), static_cast<int>(box.osize(1) * box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Construct a plan for a single 3D transform, not implemented currently.
     template<typename index>
     real2real_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
diff --git a/include/heffte_backend_mkl.h b/include/heffte_backend_mkl.h
index cdbc32c..72957ec 100644
--- a/include/heffte_backend_mkl.h
+++ b/include/heffte_backend_mkl.h
@@ -195,7 +195,8 @@ public:
     //! \brief Merges two FFTs into one.
     template<typename index>
     mkl_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count())
     {
         int odir1 = box.find_order(dir1);
@@ -205,23 +206,23 @@ public:
             stride = 1;
             dist = size * size2;
             embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size)};
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
             embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size) * static_cast<MKL_LONG>(stride)};
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.size[1]) * static_cast<MKL_LONG>(box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.osize(1)) * static_cast<MKL_LONG>(box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges three FFTs into one.
     template<typename index>
     mkl_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
-- 
2.43.0


From 8689ba8229138c3c5eaf8f97fa5beeaa246b4914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:17 +0000
Subject: [PATCH 05/28] fix: fftw plans assumed aligned arrays but are executed
 on arrays of any alignment

---
 include/heffte_backend_fftw.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index 14438bf..e1cdd77 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -111,7 +111,7 @@ struct plan_fftw<std::complex<float>, dir>{
     plan_fftw(int size, int howmanyffts, int stride, int dist) :
         plan(fftwf_plan_many_dft(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
                                                     nullptr, nullptr, stride, dist,
-                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                 ))
         {}
     /*!
@@ -130,12 +130,12 @@ struct plan_fftw<std::complex<float>, dir>{
         if (embed[0] == 0 and embed[1] == 0){
             plan = fftwf_plan_many_dft(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
                                                     nullptr, nullptr, stride, dist,
-                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                       );
         }else{
             plan = fftwf_plan_many_dft(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
                                                     nullptr, embed.data(), stride, dist,
-                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                       );
         }
     }
@@ -143,7 +143,7 @@ struct plan_fftw<std::complex<float>, dir>{
     plan_fftw(int size1, int size2, int size3){
         std::array<int, 3> size = {size3, size2, size1};
         plan = fftwf_plan_many_dft(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1,
-                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE);
+                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED);
     }
     //! \brief Destructor, deletes the plan.
     ~plan_fftw(){ fftwf_destroy_plan(plan); }
@@ -162,7 +162,7 @@ struct plan_fftw<std::complex<double>, dir>{
     plan_fftw(int size, int howmanyffts, int stride, int dist) :
         plan(fftw_plan_many_dft(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
                                                    nullptr, nullptr, stride, dist,
-                                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                ))
         {}
     //! \brief Identical to the float-complex specialization.
@@ -172,12 +172,12 @@ struct plan_fftw<std::complex<double>, dir>{
         if (embed[0] == 0 and embed[1] == 0){
             plan = fftw_plan_many_dft(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
                                                       nullptr, nullptr, stride, dist,
-                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                      );
         }else{
             plan = fftw_plan_many_dft(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
                                                       nullptr, embed.data(), stride, dist,
-                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                      );
         }
     }
@@ -185,7 +185,7 @@ struct plan_fftw<std::complex<double>, dir>{
     plan_fftw(int size1, int size2, int size3){
         std::array<int, 3> size = {size3, size2, size1};
         plan = fftw_plan_many_dft(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1,
-                                  (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE);
+                                  (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED);
     }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftw_destroy_plan(plan); }
@@ -362,11 +362,11 @@ struct plan_fftw<float, dir>{
         plan((dir == direction::forward) ?
              fftwf_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
                                                    nullptr, nullptr, stride, cdist,
-                                                   FFTW_ESTIMATE
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    ) :
              fftwf_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
                                                    nullptr, nullptr, stride, rdist,
-                                                   FFTW_ESTIMATE
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    ))
         {}
     //! \brief Identical to the float-complex specialization.
@@ -387,11 +387,11 @@ struct plan_fftw<double, dir>{
         plan((dir == direction::forward) ?
              fftw_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
                                                    nullptr, nullptr, stride, cdist,
-                                                   FFTW_ESTIMATE
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    ) :
              fftw_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
                                                    nullptr, nullptr, stride, rdist,
-                                                   FFTW_ESTIMATE
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    ))
         {}
     //! \brief Identical to the float-complex specialization.
@@ -536,7 +536,7 @@ struct plan_fftw_r2r{
     plan_fftw_r2r(int size, int howmanyffts, int stride, int dist){
         auto kind = make_kind_array<1>();
         plan = fftw_r2r_types<scalar_type>::plan_many(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
-                                                      nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE);
+                                                      nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE | FFTW_UNALIGNED);
     }
     //! \brief Identical to the float-complex specialization.
     plan_fftw_r2r(int size1, int size2, std::array<int, 2> const &embed, int howmanyffts, int stride, int dist){
@@ -545,17 +545,17 @@ struct plan_fftw_r2r{
 
         if (embed[0] == 0 and embed[1] == 0){
             plan = fftw_r2r_types<scalar_type>::plan_many(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
-                                                          nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE);
+                                                          nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE | FFTW_UNALIGNED);
         }else{
             plan = fftw_r2r_types<scalar_type>::plan_many(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
-                                                          nullptr, embed.data(), stride, dist, kind.data(), FFTW_ESTIMATE);
+                                                          nullptr, embed.data(), stride, dist, kind.data(), FFTW_ESTIMATE | FFTW_UNALIGNED);
         }
     }
     //! \brief Identical to the float-complex specialization.
     plan_fftw_r2r(int size1, int size2, int size3){
         std::array<int, 3> size = {size3, size2, size1};
         auto kind = make_kind_array<3>();
-        plan = fftw_r2r_types<scalar_type>::plan_many(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1, kind.data(), FFTW_ESTIMATE);
+        plan = fftw_r2r_types<scalar_type>::plan_many(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1, kind.data(), FFTW_ESTIMATE | FFTW_UNALIGNED);
     }
     //! \brief Make the array with the kind of the transform.
     template<size_t dims> static std::array<fftw_r2r_kind, dims> make_kind_array() {
-- 
2.43.0


From f0848459b73601afb1cc36bd8b50e121dfe105c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:07 +0000
Subject: [PATCH 06/28] fix: fftw real-to-complex plans were made in-place but
 executed out-of-place

---
 include/heffte_backend_fftw.h | 38 ++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index e1cdd77..44b868c 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -358,17 +358,20 @@ struct plan_fftw<float, dir>{
      * \param rdist is the distance between the first entries of consecutive sequences in the real sequences
      * \param cdist is the distance between the first entries of consecutive sequences in the complex sequences
      */
-    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist) :
-        plan((dir == direction::forward) ?
-             fftwf_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
-                                                   nullptr, nullptr, stride, cdist,
+    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist){
+        // two different addresses make an out-of-place plan, the arrays are not accessed by FFTW_ESTIMATE
+        float rdata[1];
+        fftwf_complex cdata[1];
+        plan = (dir == direction::forward) ?
+             fftwf_plan_many_dft_r2c(1, &size, howmanyffts, rdata, nullptr, stride, rdist,
+                                                   cdata, nullptr, stride, cdist,
                                                    FFTW_ESTIMATE | FFTW_UNALIGNED
                                    ) :
-             fftwf_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
-                                                   nullptr, nullptr, stride, rdist,
+             fftwf_plan_many_dft_c2r(1, &size, howmanyffts, cdata, nullptr, stride, cdist,
+                                                   rdata, nullptr, stride, rdist,
                                                    FFTW_ESTIMATE | FFTW_UNALIGNED
-                                   ))
-        {}
+                                   );
+    }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftwf_destroy_plan(plan); }
     //! \brief Identical to the float-complex specialization.
@@ -383,17 +386,20 @@ struct plan_fftw<float, dir>{
 template<direction dir>
 struct plan_fftw<double, dir>{
     //! \brief Identical to the float-complex specialization.
-    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist) :
-        plan((dir == direction::forward) ?
-             fftw_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
-                                                   nullptr, nullptr, stride, cdist,
+    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist){
+        // two different addresses make an out-of-place plan, the arrays are not accessed by FFTW_ESTIMATE
+        double rdata[1];
+        fftw_complex cdata[1];
+        plan = (dir == direction::forward) ?
+             fftw_plan_many_dft_r2c(1, &size, howmanyffts, rdata, nullptr, stride, rdist,
+                                                   cdata, nullptr, stride, cdist,
                                                    FFTW_ESTIMATE | FFTW_UNALIGNED
                                    ) :
-             fftw_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
-                                                   nullptr, nullptr, stride, rdist,
+             fftw_plan_many_dft_c2r(1, &size, howmanyffts, cdata, nullptr, stride, cdist,
+                                                   rdata, nullptr, stride, rdist,
                                                    FFTW_ESTIMATE | FFTW_UNALIGNED
-                                   ))
-        {}
+                                   );
+    }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftw_destroy_plan(plan); }
     //! \brief Identical to the float-complex specialization.
-- 
2.43.0


From 6857106e2ce834d662a81c554cb4a644420bbfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:19 +0000
Subject: [PATCH 07/28] fix: the stock backend took squares of large primes for
 primes

---
 include/stock_fft/heffte_stock_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stock_fft/heffte_stock_tree.h b/include/stock_fft/heffte_stock_tree.h
index 4ecdc59..c635eef 100644
--- a/include/stock_fft/heffte_stock_tree.h
+++ b/include/stock_fft/heffte_stock_tree.h
@@ -48,7 +48,7 @@ inline size_t factor(const size_t f) {
     }
 
     // If none of those work, turn to odd numbers that are greater than the last index
-    for(k = factors[k - 1]; k*k < f; k+=2) {
+    for(k = factors[k - 1]; k*k <= f; k+=2) {
         if( f % k == 0 ) return k;
     }
 
-- 
2.43.0


From 6edd8ef195de5cc7008b8b330ee716c2385343ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:32 +0000
Subject: [PATCH 08/28] fix: the minimum surface processor grid skipped
 feasible grids

---
 include/heffte_geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index e030715..d9ff603 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -668,7 +668,7 @@ inline std::array<int, 3> proc_setup_min_surface(box3d<index> const world, int n
         if (num_procs % i == 0){
             int const j_max = std::min((index)(num_procs / i), all_indexes[1]);
             for(int j=1; j<=j_max; j++){
-                if (j_max % j == 0){
+                if ((num_procs / i) % j == 0){
                     int const k = num_procs / (i * j);
                     if (k <= all_indexes[2]){
                         if (i * j * k == num_procs) {
-- 
2.43.0


From 977985247171c551dfa11f04c381507f6edf6e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:04 +0000
Subject: [PATCH 09/28] fix: heffte_set_default_options left use_gpu_aware
 uninitialized

---
 src/heffte_c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index 75bf9e1..4a9c72c 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -223,6 +223,7 @@ int heffte_set_default_options(int backend, heffte_plan_options *options){
     options->use_reorder = (opts.use_reorder) ? 1 : 0;
     options->algorithm = Heffte_RESHAPE_ALGORITHM_ALLTOALLV;
     options->use_pencils = (opts.use_pencils) ? 1 : 0;
+    options->use_gpu_aware = (opts.use_gpu_aware) ? 1 : 0;
     return Heffte_SUCCESS;
 }
 
-- 
2.43.0


From 9019d69bd97c1cd0f4d53f3e41fd3941f1cf1a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:04 +0000
Subject: [PATCH 10/28] fix: the C plan create functions let exceptions escape
 and left a dangling plan

---
 src/heffte_c.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index 4a9c72c..42ff063 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -244,9 +244,10 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
         heffte_set_default_options(backend, &c_opts);
         opts = &c_opts;
     }
-    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
 
     try{
+    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
+
     if (backend == Heffte_BACKEND_STOCK){
         (*plan)->fft = reinterpret_cast<void*>(new heffte::fft3d<heffte::backend::stock>(inbox, outbox, comm, cpp_opts));
     }
@@ -271,9 +272,9 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
     }
     #endif
 
-    }catch(std::runtime_error &){
+    }catch(std::exception &){
         delete *plan;
-        plan = nullptr;
+        *plan = nullptr;
         return 2;
     }
 
@@ -298,9 +299,10 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
         heffte_set_default_options(backend, &c_opts);
         opts = &c_opts;
     }
-    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
 
     try{
+    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
+
     if (backend == Heffte_BACKEND_STOCK){
         (*plan)->fft = reinterpret_cast<void*>(new heffte::fft3d_r2c<heffte::backend::stock>(inbox, outbox, r2c_direction, comm, cpp_opts));
     }
@@ -325,9 +327,9 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
     }
     #endif
 
-    }catch(std::runtime_error &){
+    }catch(std::exception &){
         delete *plan;
-        plan = nullptr;
+        *plan = nullptr;
         return 2;
     }
 
-- 
2.43.0


From d5230346c4263137e62e1e80938db17387e1d1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:22 +0000
Subject: [PATCH 11/28] fix: get_scale_factor returned the full factor for no
 scaling

---
 include/heffte_fft3d.h     | 1 +
 include/heffte_fft3d_r2c.h | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/heffte_fft3d.h b/include/heffte_fft3d.h
index 95d22ff..66d0162 100644
--- a/include/heffte_fft3d.h
+++ b/include/heffte_fft3d.h
@@ -543,6 +543,7 @@ public:
 
     //! \brief Returns the scale factor for the given scaling.
     double get_scale_factor(scale scaling) const{
+        if (scaling == scale::none) return 1.0;
         return (scaling == scale::symmetric) ? std::sqrt(scale_factor) : scale_factor;
     }
 
diff --git a/include/heffte_fft3d_r2c.h b/include/heffte_fft3d_r2c.h
index e95ef47..70c7f44 100644
--- a/include/heffte_fft3d_r2c.h
+++ b/include/heffte_fft3d_r2c.h
@@ -294,7 +294,10 @@ public:
     /*!
      * \brief Returns the scale factor for the given scaling.
      */
-    double get_scale_factor(scale scaling) const{ return (scaling == scale::symmetric) ? std::sqrt(scale_factor) : scale_factor; }
+    double get_scale_factor(scale scaling) const{
+        if (scaling == scale::none) return 1.0;
+        return (scaling == scale::symmetric) ? std::sqrt(scale_factor) : scale_factor;
+    }
 
 private:
     //! \brief Same as in the fft3d case.
-- 
2.43.0


From 4e6441e79991bd9975e4c4c6c71ca5583de25066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:22 +0000
Subject: [PATCH 12/28] fix: complex-to-real vector calls read past the end of
 a short input

---
 include/heffte_fft3d.h     | 2 ++
 include/heffte_fft3d_r2c.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/heffte_fft3d.h b/include/heffte_fft3d.h
index 66d0162..a102e49 100644
--- a/include/heffte_fft3d.h
+++ b/include/heffte_fft3d.h
@@ -536,6 +536,8 @@ public:
     real_buffer_container<scalar_type> backward_real(buffer_container<scalar_type> const &input, scale scaling = scale::none){
         static_assert(not backend::uses_fft_types<backend_tag>::value or is_ccomplex<scalar_type>::value or is_zcomplex<scalar_type>::value,
                       "Either calling backward() with non-complex input or using an unknown complex type.");
+        if (input.size() < static_cast<size_t>(size_outbox()))
+            throw std::invalid_argument("The input vector is smaller than size_outbox(), i.e., not enough entries provided to fill the outbox.");
         auto result = make_buffer_container<typename transform_real_type<scalar_type, backend_tag>::type>(this->stream(), size_inbox());
         backward(input.data(), result.data(), scaling);
         return result;
diff --git a/include/heffte_fft3d_r2c.h b/include/heffte_fft3d_r2c.h
index 70c7f44..cad119e 100644
--- a/include/heffte_fft3d_r2c.h
+++ b/include/heffte_fft3d_r2c.h
@@ -286,6 +286,8 @@ public:
     real_buffer_container<scalar_type> backward(buffer_container<scalar_type> const &input, scale scaling = scale::none){
         static_assert(is_ccomplex<scalar_type>::value or is_zcomplex<scalar_type>::value,
                       "Either calling backward() with non-complex input or using an unknown complex type.");
+        if (input.size() < static_cast<size_t>(size_outbox()))
+            throw std::invalid_argument("The input vector is smaller than size_outbox(), i.e., not enough entries provided to fill the outbox.");
         auto result = make_buffer_container<typename define_standard_type<scalar_type>::type::value_type>(this->stream(), size_inbox());
         backward(input.data(), result.data(), scaling);
         return result;
-- 
2.43.0


From 583947da9d221aa38632a67f22a3b597d5d901c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:22 +0000
Subject: [PATCH 13/28] fix: two dimensional boxes with an order did not
 compile for long long indexes

---
 include/heffte_geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index d9ff603..a74f2ea 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -80,7 +80,7 @@ struct box3d{
     //! \brief Constructor for the two dimensional case, order is either (0, 1) or (1, 0).
     box3d(std::array<index, 2> clow, std::array<index, 2> chigh, std::array<int, 2> corder) :
         box3d(std::array<index, 3>{clow[0], clow[1], 0}, std::array<index, 3>{chigh[0], chigh[1], 0},
-              std::array<index, 3>{corder[0], corder[1], 2}){}
+              std::array<int, 3>{corder[0], corder[1], 2}){}
     //! \brief Returns true if the box contains no indexes.
     bool empty() const{ return (size[0] <= 0 or size[1] <= 0 or size[2] <= 0); }
     //! \brief Counts all indexes in the box, i.e., the volume.
-- 
2.43.0


From 0ba2e85ffa592448253852d43cf196a8e29eb644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:22 +0000
Subject: [PATCH 14/28] fix: overlaps of more than two billion indexes
 overflowed in the planning

---
 include/heffte_geometry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index a74f2ea..72c0a25 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -506,10 +506,10 @@ inline std::vector<box3d<index>> maximize_overlap(std::vector<box3d<index>> cons
         }
         // for each box in the result, find the box among the new_boxes
         // that has not been taken and has the largest overlap with the corresponding old box
-        int max_overlap = -1;
+        long long max_overlap = -1;
         size_t max_index = new_boxes.size();
         for(size_t j=0; j<new_boxes.size(); j++){
-            int overlap = old_boxes[i].collide(new_boxes[j]).count();
+            long long overlap = old_boxes[i].collide(new_boxes[j]).count();
             if (not taken[j] and overlap > max_overlap){
                 max_overlap = overlap;
                 max_index = j;
-- 
2.43.0


From 707cd35d92c3e051c2c0b983f9bb5f4d9671f8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:22 +0000
Subject: [PATCH 15/28] fix: documentation of the name of the trace files

---
 include/heffte_trace.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/heffte_trace.h b/include/heffte_trace.h
index a9b1782..5305ad3 100644
--- a/include/heffte_trace.h
+++ b/include/heffte_trace.h
@@ -37,7 +37,7 @@
  * \endcode
  * which must be called before MPI_Finalize().
  * The finalize call will write a number of text files (one per MPI rank)
- * each with name "root-file-name_rank_number.txt"
+ * each with name "root-file-name_rank.log", where rank is the number of the MPI rank,
  * that will hold the list of events encountered during the calls to HeFFTe.
  *
  * \b Note: if tracing is not enabled, all tracing methods are no-op.
-- 
2.43.0


From 7f14545c21529778461fd2933cd6f3dc2585dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:31 +0000
Subject: [PATCH 16/28] fix: stock backend twiddles of the direct and composite
 transforms accumulated round-off of order n^2

---
 include/stock_fft/heffte_stock_algos.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/stock_fft/heffte_stock_algos.h b/include/stock_fft/heffte_stock_algos.h
index 50cfbcd..1586775 100644
--- a/include/stock_fft/heffte_stock_algos.h
+++ b/include/stock_fft/heffte_stock_algos.h
@@ -122,8 +122,8 @@ inline void DFT_helper(size_t size, Complex<F,L>* sig_in, Complex<F,L>* sig_out,
         }
         sig_out[k*s_out] = tmp;
 
-        // "Increment" wk and "reset" wkn
-        wk *= w0;
+        // "Increment" wk and "reset" wkn, repeated multiplication would accumulate the round-off over all k*n steps
+        wk = omega<F,L>::get(k+1, size, dir);
         wkn = wk;
     }
 }
@@ -288,7 +288,6 @@ inline void composite_FFT(Complex<F,L>* x, Complex<F,L>* y, size_t s_in, size_t
     // This isn't optimal and will change as the engine develops
     Complex<F,L>* z  = sRoot->workspace.data();
     // Find the FFT of the "rows" of the input signal and twiddle them accordingly
-    Complex<F,L> w1 = omega<F,L>::get(1, N, dir);
     Complex<F,L> wj1 = Complex<F,L>(1., 0.);
     for(size_t j1 = 0; j1 < N1; j1++) {
         Complex<F,L> wk2 = wj1;
@@ -299,7 +298,7 @@ inline void composite_FFT(Complex<F,L>* x, Complex<F,L>* y, size_t s_in, size_t
                 wk2 *= wj1;
             }
         }
-        wj1 *= w1;
+        wj1 = omega<F,L>::get(j1+1, N, dir);
     }
 
     /* Take the FFT of the "columns" of the output from the above "row" FFTs.
-- 
2.43.0


From 6448b94fc134b22a4e8caa17176d4ec50fa9f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:27 +0000
Subject: [PATCH 17/28] fix: powers of the root in Rader's algorithm were not
 reduced before the conversion to floating point

---
 include/stock_fft/heffte_stock_algos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stock_fft/heffte_stock_algos.h b/include/stock_fft/heffte_stock_algos.h
index 1586775..c0c1770 100644
--- a/include/stock_fft/heffte_stock_algos.h
+++ b/include/stock_fft/heffte_stock_algos.h
@@ -358,7 +358,7 @@ inline void rader_FFT(Complex<F,L>* x, Complex<F,L>* y, size_t s_in, size_t s_ou
         Complex<F,L> Cm = omega<F,L>::get(1, p, dir);
         ak = a;
         for(size_t k = 1; k < (p-1); k++) {
-            Cm = Cm + omega<F,L>::get(p*(k*m+ak) - ak, p*(p-1), dir);
+            Cm = Cm + omega<F,L>::get((p*(k*m+ak) - ak) % (p*(p-1)), p*(p-1), dir);
             ak = (ak*a) % p;
         }
         y[m*s_out] = z[m]*Cm;
-- 
2.43.0


From 9092ed723b4941e0d6e504daf9b2ae345f61bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:13 +0000
Subject: [PATCH 18/28] fix: python fft3d_r2c() must mark the plan as
 real-to-complex

With use_r2c left at False the checks for real arrays never ran and complex
arrays were passed to the C interface, which throws through ctypes.
---
 python/heffte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index 4ffa2b0..0f07faa 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -174,7 +174,7 @@ def fft3d_r2c(backend_tag, inbox, outbox, r2c_direction, comm):
         raise heffte_input_error("fft3d_r2c() called with invalid r2c_direction, must use 0, 1, or 2")
 
     plan = heffte_fft_plan()
-    plan.use_r2c = False
+    plan.use_r2c = True
 
     # Define ctypes API for each library method
     comm_value = MPI_Comm.from_address( mpi._addressof(comm) )
-- 
2.43.0


From cd14de243d1efd14004853ecd021f26f60c4e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:13 +0000
Subject: [PATCH 19/28] fix: python backward() must compare the input with the
 outbox

The sizes were compared the wrong way around, so that backward() refused every
call on a plan whose boxes have different sizes, e.g., all r2c plans.
---
 python/heffte.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index 0f07faa..2558a05 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -316,7 +316,7 @@ class heffte_fft_plan:
         if scaling not in (0, 1, 2):
             raise heffte_input_error("backward() called with invalid scaling")
 
-        if inarray.size != self.size_inbox() or outarray.size != self.size_outbox():
+        if inarray.size != self.size_outbox() or outarray.size != self.size_inbox():
             raise heffte_input_error("backward() called with invalid array size")
 
         if self.use_r2c:
@@ -359,7 +359,7 @@ class heffte_fft_plan:
         if scaling not in (0, 1, 2):
             raise heffte_input_error("backward() called with invalid scaling")
 
-        if inarray.size != self.size_inbox() or outarray.size != self.size_outbox():
+        if inarray.size != self.size_outbox() or outarray.size != self.size_inbox():
             raise heffte_input_error("backward() called with invalid array size")
 
         if self.use_r2c:
-- 
2.43.0


From 8d46db29023af4ce69369debc020ce4299de0f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:13 +0000
Subject: [PATCH 20/28] fix: python backward_buffered() must check the size of
 the workspace

---
 python/heffte.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/heffte.py b/python/heffte.py
index 2558a05..e4c2e7f 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -362,6 +362,9 @@ class heffte_fft_plan:
         if inarray.size != self.size_outbox() or outarray.size != self.size_inbox():
             raise heffte_input_error("backward() called with invalid array size")
 
+        if workspace.size < self.size_workspace():
+            raise heffte_input_error("backward() called with insufficient workspace size")
+
         if self.use_r2c:
             if outarray.dtype == np.complex64 or outarray.dtype == np.complex128:
                 raise heffte_input_error("backward() called with r2c can use only real outarray types")
-- 
2.43.0


From f9d8a5b5d81d11df5c6b568ce912911cdb23fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:13 +0000
Subject: [PATCH 21/28] fix: python plan_options must match the C struct

The C struct has four entries, the library was reading past the end of the
object passed by the python module.
---
 python/heffte.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index e4c2e7f..4566531 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -38,7 +38,7 @@ class heffte_plan(Structure):
 LP_plan = POINTER(heffte_plan)
 
 class plan_options(Structure):
-    _fields_ = [ ("use_reorder", c_int), ("use_alltoall", c_int), ("use_pencils", c_int) ]
+    _fields_ = [ ("use_reorder", c_int), ("algorithm", c_int), ("use_pencils", c_int), ("use_gpu_aware", c_int) ]
 
 # double-check this!
 MPI_Comm = c_int if mpi._sizeof(mpi.COMM_WORLD) == sizeof(c_int) else c_void_p
@@ -150,7 +150,7 @@ def fft3d(backend_tag, inbox, outbox, comm):
     # Initialize
     plan.fft_comm = comm
     plan.plan = LP_plan()
-    options = plan_options(0,1,1)
+    options = plan_options(0,1,1,0)
 
     herr = libheffte.heffte_plan_create(backend_tag, inbox.low, inbox.high, inbox.order,
                                         outbox.low, outbox.high, outbox.order,
@@ -182,7 +182,7 @@ def fft3d_r2c(backend_tag, inbox, outbox, r2c_direction, comm):
     # Initialize
     plan.fft_comm = comm
     plan.plan = LP_plan()
-    options = plan_options(0,1,1)
+    options = plan_options(0,1,1,0)
 
     herr = libheffte.heffte_plan_create_r2c(backend_tag, inbox.low, inbox.high, inbox.order,
                                             outbox.low, outbox.high, outbox.order,
-- 
2.43.0


From bed9630f23931dc1d3a32263d40d365fe09662ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:32 +0000
Subject: [PATCH 22/28] fix: python plans that could not be created must not be
 destroyed

When the library refuses to create a plan, the python object holds a null
pointer and the destructor passed it to heffte_plan_destroy() that reads from it.
---
 python/heffte.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index 4566531..48f7a26 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -202,7 +202,8 @@ class heffte_fft_plan:
         pass
 
     def __del__(self):
-        libheffte.heffte_plan_destroy(self.plan)
+        if self.plan: # null if the plan could not be created
+            libheffte.heffte_plan_destroy(self.plan)
 
     def _get_ctypes_data(self, x, xtype):
         '''
-- 
2.43.0


From 86336aefd21275d49a24cf4ce07428233291244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:32 +0000
Subject: [PATCH 23/28] fix: python print_what() printed an undefined variable

---
 python/heffte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index 48f7a26..fb501a0 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -31,7 +31,7 @@ class heffte_input_error(Exception):
         '''
         Prints the message set by the constructor.
         '''
-        print(message)
+        print(self.message)
 
 class heffte_plan(Structure):
     _fields_ = [ ("backend_type", c_int), ("using_r2c", c_int), ("fft", c_void_p) ]
-- 
2.43.0


From 57bfda6352ff36be79da242bf3867054ff93550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:32 +0000
Subject: [PATCH 24/28] fix: python helpers used to split the world could not
 run

proc_setup() and split_world() need the size and count() of the box and integer
division for the number of ranks and the indexes.
---
 python/heffte.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index fb501a0..936d928 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -130,6 +130,13 @@ class box3d:
         assert self.order.size == 3
         for i in range(3):
             assert self.order[i] in [0, 1, 2]
+        self.size = self.high - self.low + 1
+
+    def count(self):
+        '''
+        Returns the total number of indexes in the box.
+        '''
+        return int(np.prod(np.maximum(self.size, 0)))
 
 def fft3d(backend_tag, inbox, outbox, comm):
     '''
@@ -440,10 +447,10 @@ def proc_setup(world, num_procs):
 
     for i in np.arange(1, num_procs+1):
         if (num_procs % i == 0):
-            remainder = num_procs / i
+            remainder = num_procs // i
             for j in np.arange(1, remainder+1):
                 if (remainder % j == 0):
-                    candidate_grid = [i, j, remainder / j]
+                    candidate_grid = [i, j, remainder // j]
                     candidate_surface = surface(candidate_grid)
                     if (candidate_surface < best_surface):
                         best_surface = candidate_surface
@@ -454,9 +461,9 @@ def proc_setup(world, num_procs):
     return best_grid
 
 def split_world(world, proc_grid):
-    fast = lambda i : world.low[0] + i * (world.size[0] / proc_grid[0]) + min(i, (world.size[0] % proc_grid[0]))
-    mid  = lambda i : world.low[1] + i * (world.size[1] / proc_grid[1]) + min(i, (world.size[1] % proc_grid[1]))
-    slow = lambda i : world.low[2] + i * (world.size[2] / proc_grid[2]) + min(i, (world.size[2] % proc_grid[2]))
+    fast = lambda i : world.low[0] + i * (world.size[0] // proc_grid[0]) + min(i, (world.size[0] % proc_grid[0]))
+    mid  = lambda i : world.low[1] + i * (world.size[1] // proc_grid[1]) + min(i, (world.size[1] % proc_grid[1]))
+    slow = lambda i : world.low[2] + i * (world.size[2] // proc_grid[2]) + min(i, (world.size[2] % proc_grid[2]))
 
     result = []
     for k in np.arange(proc_grid[2]):
-- 
2.43.0


From fba5f817b5046ba18076e545545b86cc1b412d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:48 +0000
Subject: [PATCH 25/28] fix: fortran variables that owned a plan took over
 plans of other variables

Assigning a variable to one that already had a plan copied the ownership,
both destroyed the plan.
---
 fortran/generated/heffte_cufftFORTRAN_wrap.cxx  | 2 +-
 fortran/generated/heffte_fftwFORTRAN_wrap.cxx   | 2 +-
 fortran/generated/heffte_mklFORTRAN_wrap.cxx    | 2 +-
 fortran/generated/heffte_onemklFORTRAN_wrap.cxx | 2 +-
 fortran/generated/heffte_rocfftFORTRAN_wrap.cxx | 2 +-
 fortran/generated/heffte_stockFORTRAN_wrap.cxx  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fortran/generated/heffte_cufftFORTRAN_wrap.cxx b/fortran/generated/heffte_cufftFORTRAN_wrap.cxx
index 1d2ae10..72a3f08 100644
--- a/fortran/generated/heffte_cufftFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_cufftFORTRAN_wrap.cxx
@@ -504,7 +504,7 @@ struct AssignmentPolicy {
     if (self.cmemflags & SWIG_MEM_OWN) {
       destroy(self);
     }
-    return capture(other);
+    return alias(other);
   }
 };
 
diff --git a/fortran/generated/heffte_fftwFORTRAN_wrap.cxx b/fortran/generated/heffte_fftwFORTRAN_wrap.cxx
index fb4a810..f85f3bd 100644
--- a/fortran/generated/heffte_fftwFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_fftwFORTRAN_wrap.cxx
@@ -504,7 +504,7 @@ struct AssignmentPolicy {
     if (self.cmemflags & SWIG_MEM_OWN) {
       destroy(self);
     }
-    return capture(other);
+    return alias(other);
   }
 };
 
diff --git a/fortran/generated/heffte_mklFORTRAN_wrap.cxx b/fortran/generated/heffte_mklFORTRAN_wrap.cxx
index ffddea3..3d193db 100644
--- a/fortran/generated/heffte_mklFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_mklFORTRAN_wrap.cxx
@@ -504,7 +504,7 @@ struct AssignmentPolicy {
     if (self.cmemflags & SWIG_MEM_OWN) {
       destroy(self);
     }
-    return capture(other);
+    return alias(other);
   }
 };
 
diff --git a/fortran/generated/heffte_onemklFORTRAN_wrap.cxx b/fortran/generated/heffte_onemklFORTRAN_wrap.cxx
index 91ca92c..6586040 100644
--- a/fortran/generated/heffte_onemklFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_onemklFORTRAN_wrap.cxx
@@ -504,7 +504,7 @@ struct AssignmentPolicy {
     if (self.cmemflags & SWIG_MEM_OWN) {
       destroy(self);
     }
-    return capture(other);
+    return alias(other);
   }
 };
 
diff --git a/fortran/generated/heffte_rocfftFORTRAN_wrap.cxx b/fortran/generated/heffte_rocfftFORTRAN_wrap.cxx
index 36b07fc..a133ef0 100644
--- a/fortran/generated/heffte_rocfftFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_rocfftFORTRAN_wrap.cxx
@@ -504,7 +504,7 @@ struct AssignmentPolicy {
     if (self.cmemflags & SWIG_MEM_OWN) {
       destroy(self);
     }
-    return capture(other);
+    return alias(other);
   }
 };
 
diff --git a/fortran/generated/heffte_stockFORTRAN_wrap.cxx b/fortran/generated/heffte_stockFORTRAN_wrap.cxx
index 216f845..3b0fa5e 100644
--- a/fortran/generated/heffte_stockFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_stockFORTRAN_wrap.cxx
@@ -504,7 +504,7 @@ struct AssignmentPolicy {
     if (self.cmemflags & SWIG_MEM_OWN) {
       destroy(self);
     }
-    return capture(other);
+    return alias(other);
   }
 };
 
-- 
2.43.0


From c31fc94f780661f3411c0c2d7f7f62dfe9ea6899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:58 +0000
Subject: [PATCH 26/28] fix: a new fortran plan at the address of a destroyed
 one was not owned by anyone

Assigning a new plan to a variable that still referred to a plan destroyed
through another variable was taken for a self-assignment when the memory had
been reused: the plan could not be released.
---
 fortran/generated/heffte_cufftFORTRAN_wrap.cxx  | 4 ++++
 fortran/generated/heffte_fftwFORTRAN_wrap.cxx   | 4 ++++
 fortran/generated/heffte_mklFORTRAN_wrap.cxx    | 4 ++++
 fortran/generated/heffte_onemklFORTRAN_wrap.cxx | 4 ++++
 fortran/generated/heffte_rocfftFORTRAN_wrap.cxx | 4 ++++
 fortran/generated/heffte_stockFORTRAN_wrap.cxx  | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/fortran/generated/heffte_cufftFORTRAN_wrap.cxx b/fortran/generated/heffte_cufftFORTRAN_wrap.cxx
index 72a3f08..eb34b79 100644
--- a/fortran/generated/heffte_cufftFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_cufftFORTRAN_wrap.cxx
@@ -554,6 +554,10 @@ SWIGINTERN void SWIG_assign(SwigClassWrapper* self, SwigClassWrapper other) {
     *self = Policy_t::destroy(*self);
   } else if (self->cptr == other.cptr) {
     /* Self-assignment: ignore */
+    if ((other.cmemflags & SWIG_MEM_RVALUE) && (other.cmemflags & SWIG_MEM_OWN)) {
+      /* New object at the address of one that LHS outlived */
+      *self = swig::capture(other);
+    }
   } else if (other.cmemflags & SWIG_MEM_RVALUE) {
     /* Transferred ownership from a variable that's about to be lost.
      * Move-assign and delete the transient data */
diff --git a/fortran/generated/heffte_fftwFORTRAN_wrap.cxx b/fortran/generated/heffte_fftwFORTRAN_wrap.cxx
index f85f3bd..4b53678 100644
--- a/fortran/generated/heffte_fftwFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_fftwFORTRAN_wrap.cxx
@@ -554,6 +554,10 @@ SWIGINTERN void SWIG_assign(SwigClassWrapper* self, SwigClassWrapper other) {
     *self = Policy_t::destroy(*self);
   } else if (self->cptr == other.cptr) {
     /* Self-assignment: ignore */
+    if ((other.cmemflags & SWIG_MEM_RVALUE) && (other.cmemflags & SWIG_MEM_OWN)) {
+      /* New object at the address of one that LHS outlived */
+      *self = swig::capture(other);
+    }
   } else if (other.cmemflags & SWIG_MEM_RVALUE) {
     /* Transferred ownership from a variable that's about to be lost.
      * Move-assign and delete the transient data */
diff --git a/fortran/generated/heffte_mklFORTRAN_wrap.cxx b/fortran/generated/heffte_mklFORTRAN_wrap.cxx
index 3d193db..443a575 100644
--- a/fortran/generated/heffte_mklFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_mklFORTRAN_wrap.cxx
@@ -554,6 +554,10 @@ SWIGINTERN void SWIG_assign(SwigClassWrapper* self, SwigClassWrapper other) {
     *self = Policy_t::destroy(*self);
   } else if (self->cptr == other.cptr) {
     /* Self-assignment: ignore */
+    if ((other.cmemflags & SWIG_MEM_RVALUE) && (other.cmemflags & SWIG_MEM_OWN)) {
+      /* New object at the address of one that LHS outlived */
+      *self = swig::capture(other);
+    }
   } else if (other.cmemflags & SWIG_MEM_RVALUE) {
     /* Transferred ownership from a variable that's about to be lost.
      * Move-assign and delete the transient data */
diff --git a/fortran/generated/heffte_onemklFORTRAN_wrap.cxx b/fortran/generated/heffte_onemklFORTRAN_wrap.cxx
index 6586040..bfc1325 100644
--- a/fortran/generated/heffte_onemklFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_onemklFORTRAN_wrap.cxx
@@ -554,6 +554,10 @@ SWIGINTERN void SWIG_assign(SwigClassWrapper* self, SwigClassWrapper other) {
     *self = Policy_t::destroy(*self);
   } else if (self->cptr == other.cptr) {
     /* Self-assignment: ignore */
+    if ((other.cmemflags & SWIG_MEM_RVALUE) && (other.cmemflags & SWIG_MEM_OWN)) {
+      /* New object at the address of one that LHS outlived */
+      *self = swig::capture(other);
+    }
   } else if (other.cmemflags & SWIG_MEM_RVALUE) {
     /* Transferred ownership from a variable that's about to be lost.
      * Move-assign and delete the transient data */
diff --git a/fortran/generated/heffte_rocfftFORTRAN_wrap.cxx b/fortran/generated/heffte_rocfftFORTRAN_wrap.cxx
index a133ef0..22542e5 100644
--- a/fortran/generated/heffte_rocfftFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_rocfftFORTRAN_wrap.cxx
@@ -554,6 +554,10 @@ SWIGINTERN void SWIG_assign(SwigClassWrapper* self, SwigClassWrapper other) {
     *self = Policy_t::destroy(*self);
   } else if (self->cptr == other.cptr) {
     /* Self-assignment: ignore */
+    if ((other.cmemflags & SWIG_MEM_RVALUE) && (other.cmemflags & SWIG_MEM_OWN)) {
+      /* New object at the address of one that LHS outlived */
+      *self = swig::capture(other);
+    }
   } else if (other.cmemflags & SWIG_MEM_RVALUE) {
     /* Transferred ownership from a variable that's about to be lost.
      * Move-assign and delete the transient data */
diff --git a/fortran/generated/heffte_stockFORTRAN_wrap.cxx b/fortran/generated/heffte_stockFORTRAN_wrap.cxx
index 3b0fa5e..d6a2377 100644
--- a/fortran/generated/heffte_stockFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_stockFORTRAN_wrap.cxx
@@ -554,6 +554,10 @@ SWIGINTERN void SWIG_assign(SwigClassWrapper* self, SwigClassWrapper other) {
     *self = Policy_t::destroy(*self);
   } else if (self->cptr == other.cptr) {
     /* Self-assignment: ignore */
+    if ((other.cmemflags & SWIG_MEM_RVALUE) && (other.cmemflags & SWIG_MEM_OWN)) {
+      /* New object at the address of one that LHS outlived */
+      *self = swig::capture(other);
+    }
   } else if (other.cmemflags & SWIG_MEM_RVALUE) {
     /* Transferred ownership from a variable that's about to be lost.
      * Move-assign and delete the transient data */
-- 
2.43.0


From 5e4fd7404ae73cb9ee58f0cbda9375dae310d0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:25 +0000
Subject: [PATCH 27/28] fix: assigning a fortran variable without plan
 destroyed plans of other variables

A variable that is a second name of a plan destroyed it when it was assigned
a variable that has none.
---
 fortran/generated/heffte_cufftFORTRAN_wrap.cxx  | 5 ++++-
 fortran/generated/heffte_fftwFORTRAN_wrap.cxx   | 5 ++++-
 fortran/generated/heffte_mklFORTRAN_wrap.cxx    | 5 ++++-
 fortran/generated/heffte_onemklFORTRAN_wrap.cxx | 5 ++++-
 fortran/generated/heffte_rocfftFORTRAN_wrap.cxx | 5 ++++-
 fortran/generated/heffte_stockFORTRAN_wrap.cxx  | 5 ++++-
 6 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/fortran/generated/heffte_cufftFORTRAN_wrap.cxx b/fortran/generated/heffte_cufftFORTRAN_wrap.cxx
index eb34b79..421b62d 100644
--- a/fortran/generated/heffte_cufftFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_cufftFORTRAN_wrap.cxx
@@ -551,7 +551,10 @@ SWIGINTERN void SWIG_assign(SwigClassWrapper* self, SwigClassWrapper other) {
     }
   } else if (other.cptr == NULL) {
     /* Replace LHS with a null pointer */
-    *self = Policy_t::destroy(*self);
+    if (self->cmemflags & SWIG_MEM_OWN) {
+      Policy_t::destroy(*self);
+    }
+    *self = SwigClassWrapper_uninitialized();
   } else if (self->cptr == other.cptr) {
     /* Self-assignment: ignore */
     if ((other.cmemflags & SWIG_MEM_RVALUE) && (other.cmemflags & SWIG_MEM_OWN)) {
diff --git a/fortran/generated/heffte_fftwFORTRAN_wrap.cxx b/fortran/generated/heffte_fftwFORTRAN_wrap.cxx
index 4b53678..ad3c0cc 100644
--- a/fortran/generated/heffte_fftwFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_fftwFORTRAN_wrap.cxx
@@ -551,7 +551,10 @@ SWIGINTERN void SWIG_assign(SwigClassWrapper* self, SwigClassWrapper other) {
     }
   } else if (other.cptr == NULL) {
     /* Replace LHS with a null pointer */
-    *self = Policy_t::destroy(*self);
+    if (self->cmemflags & SWIG_MEM_OWN) {
+      Policy_t::destroy(*self);
+    }
+    *self = SwigClassWrapper_uninitialized();
   } else if (self->cptr == other.cptr) {
     /* Self-assignment: ignore */
     if ((other.cmemflags & SWIG_MEM_RVALUE) && (other.cmemflags & SWIG_MEM_OWN)) {
diff --git a/fortran/generated/heffte_mklFORTRAN_wrap.cxx b/fortran/generated/heffte_mklFORTRAN_wrap.cxx
index 443a575..7c93755 100644
--- a/fortran/generated/heffte_mklFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_mklFORTRAN_wrap.cxx
@@ -551,7 +551,10 @@ SWIGINTERN void SWIG_assign(SwigClassWrapper* self, SwigClassWrapper other) {
     }
   } else if (other.cptr == NULL) {
     /* Replace LHS with a null pointer */
-    *self = Policy_t::destroy(*self);
+    if (self->cmemflags & SWIG_MEM_OWN) {
+      Policy_t::destroy(*self);
+    }
+    *self = SwigClassWrapper_uninitialized();
   } else if (self->cptr == other.cptr) {
     /* Self-assignment: ignore */
     if ((other.cmemflags & SWIG_MEM_RVALUE) && (other.cmemflags & SWIG_MEM_OWN)) {
diff --git a/fortran/generated/heffte_onemklFORTRAN_wrap.cxx b/fortran/generated/heffte_onemklFORTRAN_wrap.cxx
index bfc1325..c55f50b 100644
--- a/fortran/generated/heffte_onemklFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_onemklFORTRAN_wrap.cxx
@@ -551,7 +551,10 @@ SWIGINTERN void SWIG_assign(SwigClassWrapper* self, SwigClassWrapper other) {
     }
   } else if (other.cptr == NULL) {
     /* Replace LHS with a null pointer */
-    *self = Policy_t::destroy(*self);
+    if (self->cmemflags & SWIG_MEM_OWN) {
+      Policy_t::destroy(*self);
+    }
+    *self = SwigClassWrapper_uninitialized();
   } else if (self->cptr == other.cptr) {
     /* Self-assignment: ignore */
     if ((other.cmemflags & SWIG_MEM_RVALUE) && (other.cmemflags & SWIG_MEM_OWN)) {
diff --git a/fortran/generated/heffte_rocfftFORTRAN_wrap.cxx b/fortran/generated/heffte_rocfftFORTRAN_wrap.cxx
index 22542e5..d2ab43d 100644
--- a/fortran/generated/heffte_rocfftFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_rocfftFORTRAN_wrap.cxx
@@ -551,7 +551,10 @@ SWIGINTERN void SWIG_assign(SwigClassWrapper* self, SwigClassWrapper other) {
     }
   } else if (other.cptr == NULL) {
     /* Replace LHS with a null pointer */
-    *self = Policy_t::destroy(*self);
+    if (self->cmemflags & SWIG_MEM_OWN) {
+      Policy_t::destroy(*self);
+    }
+    *self = SwigClassWrapper_uninitialized();
   } else if (self->cptr == other.cptr) {
     /* Self-assignment: ignore */
     if ((other.cmemflags & SWIG_MEM_RVALUE) && (other.cmemflags & SWIG_MEM_OWN)) {
diff --git a/fortran/generated/heffte_stockFORTRAN_wrap.cxx b/fortran/generated/heffte_stockFORTRAN_wrap.cxx
index d6a2377..933b924 100644
--- a/fortran/generated/heffte_stockFORTRAN_wrap.cxx
+++ b/fortran/generated/heffte_stockFORTRAN_wrap.cxx
@@ -551,7 +551,10 @@ SWIGINTERN void SWIG_assign(SwigClassWrapper* self, SwigClassWrapper other) {
     }
   } else if (other.cptr == NULL) {
     /* Replace LHS with a null pointer */
-    *self = Policy_t::destroy(*self);
+    if (self->cmemflags & SWIG_MEM_OWN) {
+      Policy_t::destroy(*self);
+    }
+    *self = SwigClassWrapper_uninitialized();
   } else if (self->cptr == other.cptr) {
     /* Self-assignment: ignore */
     if ((other.cmemflags & SWIG_MEM_RVALUE) && (other.cmemflags & SWIG_MEM_OWN)) {
-- 
2.43.0


From 6bf8313890148cd0ba732bfe76cee3493fb94627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:32 +0000
Subject: [PATCH 28/28] fix: proc_setup_min_surface overflows the index type
 when a face has more than 2^31 indexes

---
 include/heffte_geometry.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index 72c0a25..d0148f7 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -654,14 +654,15 @@ inline std::array<int, 3> proc_setup_min_surface(box3d<index> const world, int n
     // set initial guess
     std::valarray<index> best_grid = {1, 1, 1};
 
-    // internal helper method to compute the surface
+    // internal helper method to compute the surface, uses long long since the area of a face can exceed the range of int
     auto surface = [&](std::valarray<index> const &proc_grid)->
-        index{
-            auto box_size = all_indexes / proc_grid;
+        long long{
+            std::valarray<long long> box_size(3);
+            for(size_t d=0; d<3; d++) box_size[d] = all_indexes[d] / proc_grid[d];
             return ( box_size * box_size.cshift(1) ).sum();
         };
 
-    index best_surface = std::numeric_limits<index>::max();
+    long long best_surface = std::numeric_limits<long long>::max();
 
     int const i_max = std::min((index)num_procs, all_indexes[0]);
     for(int i=1; i<=i_max; i++){
@@ -673,7 +674,7 @@ inline std::array<int, 3> proc_setup_min_surface(box3d<index> const world, int n
                     if (k <= all_indexes[2]){
                         if (i * j * k == num_procs) {
                             std::valarray<index> candidate_grid = {i, j, k};
-                            index const candidate_surface = surface(candidate_grid);
+                            long long const candidate_surface = surface(candidate_grid);
                             if (candidate_surface < best_surface){
                                 best_surface = candidate_surface;
                                 best_grid    = candidate_grid;
-- 
2.43.0

