From 1908bf97c0d810f6ecaae2a5d6d2e427eae5af1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:53 +0000
Subject: [PATCH 01/22] fix: radix-4 FFT plans compute the DFT

The radix-4 butterflies of c2c_dit4_plan, c2c_dif4_plan and
c2c_stockham_dit4_plan used the quarter-turn factor with the opposite sign of
their twiddles, so neither direction was a DFT of the input.
---
 src/neo/fft/reference/c2c_dit4_plan.hpp          | 16 ++++++++--------
 src/neo/fft/reference/c2c_stockham_dit4_plan.hpp |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/neo/fft/reference/c2c_dit4_plan.hpp b/src/neo/fft/reference/c2c_dit4_plan.hpp
index 3a9f7d1..d8c562d 100644
--- a/src/neo/fft/reference/c2c_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_dit4_plan.hpp
@@ -88,9 +88,9 @@ private:
                     auto const d3 = (c1 - c3) * z;
 
                     x[i0] = d0 + d2;
-                    x[i1] = d1 - d3;
+                    x[i1] = d1 + d3;
                     x[i2] = -d2 + d0;
-                    x[i3] = d3 + d1;
+                    x[i3] = d1 - d3;
                 }
 
                 for (auto k{1ULL}; k < krange; ++k) {
@@ -114,9 +114,9 @@ private:
                     auto const d3 = (c1 - c3) * z;
 
                     x[i0] = d0 + d2;
-                    x[i1] = d1 - d3;
+                    x[i1] = d1 + d3;
                     x[i2] = -d2 + d0;
-                    x[i3] = d3 + d1;
+                    x[i3] = d1 - d3;
                 }
 
                 base = base + (4UL * krange);
@@ -163,16 +163,16 @@ private:
                     x[i0]         = d0 + d2;
 
                     if (k == 0) {
-                        x[i1] = d1 - (z * d3);
+                        x[i1] = d1 + (z * d3);
                         x[i2] = d0 - d2;
-                        x[i3] = d1 + (z * d3);
+                        x[i3] = d1 - (z * d3);
                     } else {
                         auto w1 = twiddle[1 * k * w_stride];
                         auto w2 = twiddle[2 * k * w_stride];
                         auto w3 = twiddle[3 * k * w_stride];
-                        x[i1]   = (d1 - (z * d3)) * w1;
+                        x[i1]   = (d1 + (z * d3)) * w1;
                         x[i2]   = (d0 - d2) * w2;
-                        x[i3]   = (d1 + (z * d3)) * w3;
+                        x[i3]   = (d1 - (z * d3)) * w3;
                     }
                 }
 
diff --git a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
index 96af1f8..364acea 100644
--- a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
@@ -81,9 +81,9 @@ struct c2c_stockham_dit4_plan
                     auto const t3 = b - d;
 
                     x[(j + lstar * 0) * r + k] = t0 + t2;
-                    x[(j + lstar * 1) * r + k] = t1 - t3 * i;
+                    x[(j + lstar * 1) * r + k] = t1 + t3 * i;
                     x[(j + lstar * 2) * r + k] = t0 - t2;
-                    x[(j + lstar * 3) * r + k] = t1 + t3 * i;
+                    x[(j + lstar * 3) * r + k] = t1 - t3 * i;
                 }
             }
         }
-- 
2.43.0


From 67e01e468f541c65379b3466acde5a94b385caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:53 +0000
Subject: [PATCH 02/22] fix: Stockham radix-2 plans use the twiddles of the
 requested direction

Forward and backward were swapped in both the recursive and iterative plan.
---
 src/neo/fft/reference/c2c_stockham_dif2_plan.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
index 041fa2b..8e5b800 100644
--- a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
@@ -107,7 +107,7 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 1>>(n / 2);
         for (std::size_t i = 0; i < w.size(); i++) {
-            w(i) = twiddle<Complex>(n, i, fft::direction::backward);
+            w(i) = twiddle<Complex>(n, i, fft::direction::forward);
         }
         return w;
     }
@@ -194,8 +194,8 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>>{2, n / 2};
         for (std::size_t i = 0; i < w.extent(1); i++) {
-            w(0, i) = twiddle<Complex>(n, i, fft::direction::backward);
-            w(1, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(0, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(1, i) = twiddle<Complex>(n, i, fft::direction::backward);
         }
         return w;
     }
-- 
2.43.0


From ce3e5dbc2dff1e69ff5e4af42f2cddb86e3f1f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:53 +0000
Subject: [PATCH 03/22] fix: c2c_dit2_v4 kernel for size 2

Stage 0 already is the last stage of a 2-point transform.
---
 src/neo/fft/reference/kernel/c2c_dit2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/neo/fft/reference/kernel/c2c_dit2.hpp b/src/neo/fft/reference/kernel/c2c_dit2.hpp
index 1ed0ba7..e973564 100644
--- a/src/neo/fft/reference/kernel/c2c_dit2.hpp
+++ b/src/neo/fft/reference/kernel/c2c_dit2.hpp
@@ -194,6 +194,10 @@ struct c2c_dit2_v4
             }
         }
 
+        if (order < 2) {
+            return;
+        }
+
         for (auto stage{1ULL}; stage < order - 1; ++stage) {
 
             auto const stage_length = ipow<2ULL>(stage);
-- 
2.43.0


From 69150d1dccc83b23c139c3cf5ffd08f9fb4c955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:56 +0000
Subject: [PATCH 04/22] fix: one-point transforms no longer read and write past
 their only element

Order 0 plans are accepted; their first butterfly stage touched x[1].
---
 src/neo/fft/experimental/rfft.hpp                | 2 +-
 src/neo/fft/fallback/fallback_split_fft_plan.hpp | 2 +-
 src/neo/fft/reference/kernel/c2c_dit2.hpp        | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/neo/fft/experimental/rfft.hpp b/src/neo/fft/experimental/rfft.hpp
index bb556bb..436e8d8 100644
--- a/src/neo/fft/experimental/rfft.hpp
+++ b/src/neo/fft/experimental/rfft.hpp
@@ -33,7 +33,7 @@ struct c2c_kernel
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
diff --git a/src/neo/fft/fallback/fallback_split_fft_plan.hpp b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
index 65c5074..1c83b10 100644
--- a/src/neo/fft/fallback/fallback_split_fft_plan.hpp
+++ b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
@@ -56,7 +56,7 @@ private:
         static constexpr auto const stage_length = 1;  // ipow<2>(0)
         static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-        for (auto k{0}; k < static_cast<int>(size()); k += stride) {
+        for (auto k{0}; k + stage_length < static_cast<int>(size()); k += stride) {
             auto const i1 = k;
             auto const i2 = k + stage_length;
 
diff --git a/src/neo/fft/reference/kernel/c2c_dit2.hpp b/src/neo/fft/reference/kernel/c2c_dit2.hpp
index e973564..0430adc 100644
--- a/src/neo/fft/reference/kernel/c2c_dit2.hpp
+++ b/src/neo/fft/reference/kernel/c2c_dit2.hpp
@@ -30,7 +30,7 @@ struct c2c_dit2_v1
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -81,7 +81,7 @@ struct c2c_dit2_v2
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -135,7 +135,7 @@ struct c2c_dit2_v3
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -184,7 +184,7 @@ struct c2c_dit2_v4
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
-- 
2.43.0


From ddbf0dd76abd4518b5b5be814b17ed051c3aaa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:32 +0000
Subject: [PATCH 05/22] fix: experimental rfft recombines with the twiddles of
 its half-size FFT

The recombination rotated by exp(+i), but the half-size transform uses exp(-i)
in the forward direction, so all bins but DC and Nyquist were wrong.
---
 src/neo/fft/experimental/rfft.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/neo/fft/experimental/rfft.hpp b/src/neo/fft/experimental/rfft.hpp
index 436e8d8..f7b6a89 100644
--- a/src/neo/fft/experimental/rfft.hpp
+++ b/src/neo/fft/experimental/rfft.hpp
@@ -156,7 +156,7 @@ struct rfft_plan
         auto const c2    = dir == direction::forward ? Float(-0.5) : Float(0.5);
         auto const theta = [=] {
             auto const t = static_cast<Float>(std::numbers::pi) / static_cast<Float>(n >> 1);
-            return dir == direction::forward ? t : -t;
+            return dir == direction::forward ? -t : t;
         }();
 
         if (dir == direction::forward) {
@@ -190,6 +190,10 @@ struct rfft_plan
             wi             = wi * wpr + tmp * wpi + wi;
         }
 
+        if (n >= 4) {
+            x[n / 2 + 1] = -x[n / 2 + 1];
+        }
+
         auto const h1r = x[0];
         if (dir == direction::forward) {
             x[0] = h1r + x[1];
-- 
2.43.0


From 38ee89f070edb25599adf4c8765432fc7e482bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:04 +0000
Subject: [PATCH 06/22] fix: overlap_add for filters and blocks of any size

The tail kept for the next block was limited to one block, so filters longer
than the block lost it and left stale samples in the window; with a transform
shorter than two blocks it was read past the end of the window.
---
 src/neo/convolution/overlap_add.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/neo/convolution/overlap_add.hpp b/src/neo/convolution/overlap_add.hpp
index 0472aeb..841b059 100644
--- a/src/neo/convolution/overlap_add.hpp
+++ b/src/neo/convolution/overlap_add.hpp
@@ -47,7 +47,7 @@ private:
 
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _window{_rfft.size()};
     stdex::mdarray<complex_type, stdex::dextents<size_t, 1>> _spectrum{_rfft.size() / 2 + 1};
-    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_block_size};
+    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_rfft.size()};
 };
 
 template<complex Complex>
@@ -81,7 +81,7 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
 
     auto const window   = _window.to_mdspan();
     auto const signal   = stdex::submdspan(window, std::tuple{0, block_size()});
-    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), block_size() * 2U});
+    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), transform_size()});
     auto const spectrum = _spectrum.to_mdspan();
     auto const overlap  = _overlap.to_mdspan();
 
@@ -99,11 +99,18 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
     irfft(_rfft, spectrum, window);
     scale(1.0F / static_cast<real_type>(_rfft.size()), window);
 
+    // Add overlap from previous blocks
+    add(window, overlap, overlap);
+
     // Copy to output
-    add(signal, overlap, block);
+    copy(stdex::submdspan(overlap, std::tuple{0, block_size()}), block);
 
     // Save overlap for next iteration
-    copy(padding, overlap);
+    auto const keep = transform_size() - block_size();
+    for (size_type i{0}; i < keep; ++i) {
+        overlap[i] = overlap[i + block_size()];
+    }
+    fill(stdex::submdspan(overlap, std::tuple{keep, transform_size()}), real_type(0));
 }
 
 }  // namespace neo::convolution
-- 
2.43.0


From d533e3004886f5bffdfa1e67d6b0e20935aafb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:04 +0000
Subject: [PATCH 07/22] fix: overlap_save history for block sizes that do not
 divide the transform size

The window was moved in whole blocks, which drops the remainder.
---
 src/neo/convolution/overlap_save.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/neo/convolution/overlap_save.hpp b/src/neo/convolution/overlap_save.hpp
index fb2ff9e..dcff260 100644
--- a/src/neo/convolution/overlap_save.hpp
+++ b/src/neo/convolution/overlap_save.hpp
@@ -36,15 +36,9 @@ struct overlap_save
 private:
     auto slide_window_left(auto window) -> void
     {
-        auto const step      = static_cast<int>(block_size());
-        auto const num_steps = static_cast<int>(window.extent(0)) / step;
-        for (auto i{0}; i < num_steps - 1; ++i) {
-            auto const dest_idx = i * step;
-            auto const src_idx  = dest_idx + step;
-
-            auto const src_block  = stdex::submdspan(window, std::tuple{src_idx, src_idx + step});
-            auto const dest_block = stdex::submdspan(window, std::tuple{dest_idx, src_idx});
-            copy(src_block, dest_block);
+        auto const keep = transform_size() - block_size();
+        for (size_type i{0}; i < keep; ++i) {
+            window[i] = window[i + block_size()];
         }
     }
 
-- 
2.43.0


From e4a5191aa75ba4f8daa9a5b3123710d9e40f39f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:04 +0000
Subject: [PATCH 08/22] fix: overlap_add_convolver restarts when a new filter
 is set

The input position and current segment of the old filter were kept, which
with fewer segments indexes past the end of the delay line.
---
 src/neo/convolution/overlap_add_convolver.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index a15fced..431c4ed 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -54,8 +54,10 @@ private:
 template<complex Complex, typename Fdl, typename Filter>
 auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> auto f) -> void
 {
-    _block_size   = f.extent(1) - 1;
-    _num_segments = f.extent(0);
+    _block_size      = f.extent(1) - 1;
+    _num_segments    = f.extent(0);
+    _input_pos       = 0;
+    _current_segment = 0;
 
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
-- 
2.43.0


From 8113fa32c982130a54e7565957f41a1fa2930235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:04 +0000
Subject: [PATCH 09/22] fix: overlap_add_convolver for buffers that are not a
 multiple of the block

The inverse transform overwrote the samples of a partially filled block, so
the rest of the block was convolved with output instead of input.
---
 src/neo/convolution/overlap_add_convolver.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index 431c4ed..6372756 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -40,6 +40,7 @@ private:
 
     fft::rfft_plan<real_type> _rfft{fft::from_order, fft::next_order(size_type(4))};
 
+    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _input{_rfft.size()};
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _real_window{_rfft.size()};
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_rfft.size()};
     stdex::mdarray<Complex, stdex::dextents<size_t, 1>> _complex_window{_rfft.size() / 2 + 1};
@@ -61,6 +62,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> a
 
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
+    _input          = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
     _real_window    = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
     _overlap        = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
 
@@ -78,6 +80,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
     auto const num_samples = inout.extent(0);
     auto num_processed     = size_type(0);
 
+    auto input           = _input.to_mdspan();
     auto real_window     = _real_window.to_mdspan();
     auto complex_window  = _complex_window.to_mdspan();
     auto overlap         = _overlap.to_mdspan();
@@ -90,8 +93,8 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
 
         auto const sub_inout  = stdex::submdspan(inout, std::tuple{num_processed, num_processed + num_to_process});
         auto const sub_window = stdex::submdspan(real_window, std::tuple{_input_pos, _input_pos + num_to_process});
-        copy(sub_inout, sub_window);
-        rfft(_rfft, real_window, complex_window);
+        copy(sub_inout, stdex::submdspan(input, std::tuple{_input_pos, _input_pos + num_to_process}));
+        rfft(_rfft, input, complex_window);
 
         _fdl.insert(complex_window, _current_segment);
 
@@ -128,7 +131,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
                 stdex::submdspan(real_window, std::tuple{_block_size, _block_size * 2}),
                 stdex::submdspan(overlap, std::tuple{0, _block_size})
             );
-            fill(real_window, real_type{});
+            fill(input, real_type{});
 
             _current_segment = (_current_segment > 0) ? (_current_segment - 1) : (_num_segments - 1);
         }
-- 
2.43.0


From 5133be3179f24de09c0dab39251835fab7d3bf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:45 +0000
Subject: [PATCH 10/22] fix: SIMD fixed-point multiplication of negative
 products

The products were shifted logically, which turns negative ones into large
positive values (saturated to the maximum).
---
 src/neo/fixed_point/simd.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neo/fixed_point/simd.hpp b/src/neo/fixed_point/simd.hpp
index c04a7b4..ed5299c 100644
--- a/src/neo/fixed_point/simd.hpp
+++ b/src/neo/fixed_point/simd.hpp
@@ -44,12 +44,12 @@ inline constexpr auto const mul_kernel_s8 = [](__m128i lhs, __m128i rhs) {
     auto const lowLeft    = _mm_cvtepi8_epi16(lhs);
     auto const lowRight   = _mm_cvtepi8_epi16(rhs);
     auto const lowProduct = _mm_mullo_epi16(lowLeft, lowRight);
-    auto const lowShifted = _mm_srli_epi16(lowProduct, FractionalBits);
+    auto const lowShifted = _mm_srai_epi16(lowProduct, FractionalBits);
 
     auto const highLeft    = _mm_cvtepi8_epi16(_mm_srli_si128(lhs, 8));
     auto const highRight   = _mm_cvtepi8_epi16(_mm_srli_si128(rhs, 8));
     auto const highProduct = _mm_mullo_epi16(highLeft, highRight);
-    auto const highShifted = _mm_srli_epi16(highProduct, FractionalBits);
+    auto const highShifted = _mm_srai_epi16(highProduct, FractionalBits);
 
     return _mm_packs_epi16(lowShifted, highShifted);
 };
@@ -62,12 +62,12 @@ inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
         auto const low_left    = _mm_cvtepi16_epi32(lhs);
         auto const low_right   = _mm_cvtepi16_epi32(rhs);
         auto const low_product = _mm_mullo_epi32(low_left, low_right);
-        auto const low_shifted = _mm_srli_epi32(low_product, FractionalBits);
+        auto const low_shifted = _mm_srai_epi32(low_product, FractionalBits);
 
         auto const high_left    = _mm_cvtepi16_epi32(_mm_srli_si128(lhs, 8));
         auto const high_right   = _mm_cvtepi16_epi32(_mm_srli_si128(rhs, 8));
         auto const high_product = _mm_mullo_epi32(high_left, high_right);
-        auto const high_shifted = _mm_srli_epi32(high_product, FractionalBits);
+        auto const high_shifted = _mm_srai_epi32(high_product, FractionalBits);
 
         return _mm_packs_epi32(low_shifted, high_shifted);
     }
-- 
2.43.0


From 71378097f9d4f5dd85364819764c59ed1fe0a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:45 +0000
Subject: [PATCH 11/22] fix: saturate the SIMD product of the two smallest Q15
 values

mulhrs wraps -1 * -1 to -1, the scalar operator saturates it.
---
 src/neo/fixed_point/simd.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/neo/fixed_point/simd.hpp b/src/neo/fixed_point/simd.hpp
index ed5299c..a943808 100644
--- a/src/neo/fixed_point/simd.hpp
+++ b/src/neo/fixed_point/simd.hpp
@@ -19,6 +19,8 @@
 #endif
 
 #include <cassert>
+#include <cstdint>
+#include <limits>
 
 namespace neo {
 
@@ -57,7 +59,10 @@ inline constexpr auto const mul_kernel_s8 = [](__m128i lhs, __m128i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm_mulhrs_epi16(lhs, rhs);
+        // -1 * -1 is the only product out of range, it wraps to the smallest value
+        auto const product = _mm_mulhrs_epi16(lhs, rhs);
+        auto const wrapped = _mm_cmpeq_epi16(product, _mm_set1_epi16(std::numeric_limits<std::int16_t>::min()));
+        return _mm_xor_si128(product, wrapped);
     } else {
         auto const low_left    = _mm_cvtepi16_epi32(lhs);
         auto const low_right   = _mm_cvtepi16_epi32(rhs);
@@ -79,7 +84,9 @@ inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_avx2_s16 = [](__m256i lhs, __m256i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm256_mulhrs_epi16(lhs, rhs);
+        auto const product = _mm256_mulhrs_epi16(lhs, rhs);
+        auto const wrapped = _mm256_cmpeq_epi16(product, _mm256_set1_epi16(std::numeric_limits<std::int16_t>::min()));
+        return _mm256_xor_si256(product, wrapped);
     } else {
         assert(false);
     }
@@ -92,7 +99,10 @@ inline constexpr auto const mul_kernel_avx2_s16 = [](__m256i lhs, __m256i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_avx512_s16 = [](__m512i lhs, __m512i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm512_mulhrs_epi16(lhs, rhs);
+        auto const product = _mm512_mulhrs_epi16(lhs, rhs);
+        auto const min     = _mm512_set1_epi16(std::numeric_limits<std::int16_t>::min());
+        auto const max     = _mm512_set1_epi16(std::numeric_limits<std::int16_t>::max());
+        return _mm512_mask_mov_epi16(product, _mm512_cmpeq_epi16_mask(product, min), max);
     } else {
         assert(false);
     }
-- 
2.43.0


From 6c4924c8172a133fa626c01854675b0dde935a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:45 +0000
Subject: [PATCH 12/22] fix: copy from split_complex to an interleaved complex
 vector compiles

split_complex has no extent member.
---
 src/neo/algorithm/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/algorithm/copy.hpp b/src/neo/algorithm/copy.hpp
index b431dc1..64f6d0c 100644
--- a/src/neo/algorithm/copy.hpp
+++ b/src/neo/algorithm/copy.hpp
@@ -54,7 +54,7 @@ constexpr auto copy(split_complex<InVec> in, OutVec out) noexcept -> void
 
     using Complex = value_type_t<OutVec>;
 
-    for (auto i = std::size_t(0); i < static_cast<std::size_t>(in.extent(0)); ++i) {
+    for (auto i = std::size_t(0); i < static_cast<std::size_t>(in.real.extent(0)); ++i) {
         out[i] = Complex{in.real[i], in.imag[i]};
     }
 }
-- 
2.43.0


From 2cbccee7d650eb800a66e8e85781b1a6dabcb178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:40 +0000
Subject: [PATCH 13/22] fix: fixed_point saturates floats far out of range

The float was converted to a 32-bit integer before clamping, which overflows
for large magnitudes (and gave the smallest value for large positive ones).
---
 src/neo/fixed_point/fixed_point.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/neo/fixed_point/fixed_point.hpp b/src/neo/fixed_point/fixed_point.hpp
index 8103073..ab73f29 100644
--- a/src/neo/fixed_point/fixed_point.hpp
+++ b/src/neo/fixed_point/fixed_point.hpp
@@ -44,7 +44,11 @@ struct fixed_point
 
     template<std::floating_point Float>
     explicit constexpr fixed_point(Float val) noexcept
-        : _value{detail::saturate<storage_type>(static_cast<std::int32_t>(static_cast<float>(val) * scale))}
+        : _value{static_cast<storage_type>(std::clamp(
+            static_cast<float>(val) * scale,
+            static_cast<float>(std::numeric_limits<storage_type>::min()),
+            static_cast<float>(std::numeric_limits<storage_type>::max())
+        ))}
     {}
 
     constexpr fixed_point([[maybe_unused]] underlying_value_t tag, storage_type val) noexcept : _value{val} {}
-- 
2.43.0


From 701d2b19c797804392046b7362c68b66d8d3bf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:56 +0000
Subject: [PATCH 14/22] fix: bit_ceil fallback returns 1 for 0 like
 std::bit_ceil

---
 src/neo/bit/bit_ceil.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/neo/bit/bit_ceil.hpp b/src/neo/bit/bit_ceil.hpp
index ffffddd..61eeabd 100644
--- a/src/neo/bit/bit_ceil.hpp
+++ b/src/neo/bit/bit_ceil.hpp
@@ -12,6 +12,10 @@ namespace detail {
 template<std::unsigned_integral UInt>
 [[nodiscard]] constexpr auto bit_ceil_fallback(UInt x) noexcept -> UInt
 {
+    if (x == UInt(0)) {
+        return UInt(1);
+    }
+
     --x;
     x |= (x >> 1);
     x |= (x >> 2);
-- 
2.43.0


From 2dbd4e01758a5b16ca28bcd2743a9fce3414a0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:17 +0000
Subject: [PATCH 15/22] fix: silent channels must not limit the factor of
 normalize_impulse

---
 src/neo/convolution/normalize_impulse.hpp | 29 +++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/neo/convolution/normalize_impulse.hpp b/src/neo/convolution/normalize_impulse.hpp
index cf5c35e..67851f7 100644
--- a/src/neo/convolution/normalize_impulse.hpp
+++ b/src/neo/convolution/normalize_impulse.hpp
@@ -2,8 +2,15 @@
 
 #pragma once
 
+#include <neo/algorithm/allmatch.hpp>
 #include <neo/algorithm/normalize_energy.hpp>
+#include <neo/algorithm/scale.hpp>
 #include <neo/container/mdspan.hpp>
+#include <neo/math/float_equality.hpp>
+
+#include <algorithm>
+#include <concepts>
+#include <limits>
 
 namespace neo::convolution {
 
@@ -21,11 +28,25 @@ auto normalize_impulse(InOutObj obj) noexcept -> void
             return;
         }
 
-        auto channel0 = stdex::submdspan(obj, 0, stdex::full_extent);
-        auto factor   = normalize_energy_factor(channel0);
-        for (Index ch{1}; ch < obj.extent(0); ++ch) {
+        using Float = value_type_t<InOutObj>;
+
+        // silent channels have no level, they must not limit the factor
+        auto const is_silent = [](auto channel) {
+            return allmatch(channel, [](Float val) { return float_equality::exact(val, Float(0)); });
+        };
+
+        auto factor = std::numeric_limits<Float>::max();
+        auto silent = true;
+        for (Index ch{0}; ch < obj.extent(0); ++ch) {
             auto channel = stdex::submdspan(obj, ch, stdex::full_extent);
-            factor       = std::min(factor, normalize_energy_factor(channel));
+            if (not is_silent(channel)) {
+                factor = std::min(factor, normalize_energy_factor(channel));
+                silent = false;
+            }
+        }
+
+        if (silent) {
+            return;
         }
 
         scale(factor, obj);
-- 
2.43.0


From 9b5b14f978f3a5e74da206dc0d1adb2f16c14967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:15 +0000
Subject: [PATCH 16/22] fix: crop or zero-pad the input of the Python fft and
 ifft to the requested size

With n smaller or larger than the array the transform wrote past the result or
left its tail uninitialised.
---
 extra/python/src/main.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/extra/python/src/main.cpp b/extra/python/src/main.cpp
index 77cebc0..57f32f6 100644
--- a/extra/python/src/main.cpp
+++ b/extra/python/src/main.cpp
@@ -13,11 +13,13 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
+#include <algorithm>
 #include <bit>
 #include <complex>
 #include <cstdio>
 #include <iostream>
 #include <optional>
+#include <tuple>
 #include <typeindex>
 
 namespace py = pybind11;
@@ -144,14 +146,19 @@ auto fft(py::array_t<Complex> array, std::optional<std::size_t> n, neo::fft::nor
         {
             auto no_gil = py::gil_scoped_release{};
 
+            // crop or zero-pad the input to the requested size
+            auto const used = std::tuple{std::size_t(0), std::min<std::size_t>(size, input.extent(0))};
+            neo::fill(out, Complex{});
+            neo::copy(stdex::submdspan(input, used), stdex::submdspan(out, used));
+
             auto plan = neo::fft::fft_plan<Complex>{neo::fft::from_order, order};
             if constexpr (Dir == neo::fft::direction::forward) {
-                neo::fft::fft(plan, input, out);
+                neo::fft::fft(plan, out);
                 if (norm == neo::fft::norm::forward) {
                     neo::scale(Float(1) / Float(size), out);
                 }
             } else {
-                neo::fft::ifft(plan, input, out);
+                neo::fft::ifft(plan, out);
                 if (norm == neo::fft::norm::backward) {
                     neo::scale(Float(1) / Float(size), out);
                 }
-- 
2.43.0


From 6601a75ed859ce1ad9fa4b32da0d5a1c6bdcab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:15 +0000
Subject: [PATCH 17/22] fix: check the dimension of both arrays in the Python
 convolve

---
 extra/python/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/python/src/main.cpp b/extra/python/src/main.cpp
index 57f32f6..7e0060a 100644
--- a/extra/python/src/main.cpp
+++ b/extra/python/src/main.cpp
@@ -177,7 +177,7 @@ template<neo::convolution::method Method, std::floating_point Float>
 [[nodiscard]] auto
 convolve(py::array_t<Float> in1, py::array_t<Float> in2, neo::convolution::mode mode) -> py::array_t<Float>
 {
-    if (in1.ndim() != 1 or in1.ndim() != 1) {
+    if (in1.ndim() != 1 or in2.ndim() != 1) {
         throw std::runtime_error{"unsupported dimension: in1 and in2 must be 1-D"};
     }
 
-- 
2.43.0


From c937328f6328e6e124c480af5e2723406d7c2dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:01 +0000
Subject: [PATCH 18/22] fix: fail in the convolver command when neither file
 can be loaded

Two unreadable files have the same number of channels and sample rate (none), so an
empty output file was written and success reported.
---
 extra/cli/src/convolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extra/cli/src/convolver.cpp b/extra/cli/src/convolver.cpp
index 95579e9..f79e616 100644
--- a/extra/cli/src/convolver.cpp
+++ b/extra/cli/src/convolver.cpp
@@ -72,6 +72,10 @@ auto main(int argc, char** argv) -> int
     auto const output_length_seconds = static_cast<double>(output_length) / signal_sr;
     auto const block_size            = 8192 * 4;
 
+    if (signal.extent(0) == 0 or filter.extent(0) == 0) {
+        fmt::println("Could not load signal and filter");
+        return EXIT_FAILURE;
+    }
     if (signal.extent(0) != filter.extent(0)) {
         fmt::println("Channel mismatch: signal = {} filter = {}", int(signal.extent(0)), int(filter.extent(0)));
         return EXIT_FAILURE;
-- 
2.43.0


From 91ecde5a81acea215a0cd5e80d514ab993961e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:59 +0000
Subject: [PATCH 19/22] fix: clear the overlap-add output when preparing

---
 extra/plugin/src/dsp/ConstantOverlapAdd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extra/plugin/src/dsp/ConstantOverlapAdd.hpp b/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
index a771fe6..d3b71b4 100644
--- a/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
+++ b/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
@@ -65,6 +65,7 @@ void ConstantOverlapAdd<Float>::prepare(juce::dsp::ProcessSpec const& spec)
     int const m  = k * _hopSize + (_frameSize - _hopSize);
 
     _output.setSize((int)spec.numChannels, m + bufferSize - 1);
+    _output.clear();
     _outputOffset     = _frameSize - 1;
     _unusedInputCount = 0;
 
-- 
2.43.0


From 23e9e0fd461feca2ef5b937a9b618e1a6f53be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:59 +0000
Subject: [PATCH 20/22] fix: forget the past in the reset of the plugin's
 convolver

---
 extra/plugin/src/dsp/DenseConvolution.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extra/plugin/src/dsp/DenseConvolution.cpp b/extra/plugin/src/dsp/DenseConvolution.cpp
index fc9f3ca..a9f8ef8 100644
--- a/extra/plugin/src/dsp/DenseConvolution.cpp
+++ b/extra/plugin/src/dsp/DenseConvolution.cpp
@@ -73,7 +73,11 @@ auto DenseConvolution::processFrame(juce::dsp::ProcessContextReplacing<float> co
     }
 }
 
-auto DenseConvolution::resetFrame() -> void {}
+auto DenseConvolution::resetFrame() -> void
+{
+    // setting the filter again clears the delay lines
+    updateImpulseResponse();
+}
 
 auto DenseConvolution::updateImpulseResponse() -> void
 {
-- 
2.43.0


From f3472443c94fe0a481621a4d473b9b94bb4e6d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:59 +0000
Subject: [PATCH 21/22] fix: weight each row of the spectrum image by its own
 frequency

---
 extra/plugin/src/dsp/Spectrum.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extra/plugin/src/dsp/Spectrum.cpp b/extra/plugin/src/dsp/Spectrum.cpp
index 01bf96a..89983bd 100644
--- a/extra/plugin/src/dsp/Spectrum.cpp
+++ b/extra/plugin/src/dsp/Spectrum.cpp
@@ -27,8 +27,8 @@ auto powerSpectrumImage(
         return 1.0F / max;
     }();
 
-    auto const fillPixel = [=](auto& img, int x, int y, auto bin) {
-        auto const weight     = weighting(static_cast<std::size_t>(y));
+    auto const fillPixel = [=](auto& img, int x, int y, auto bin, int binIdx) {
+        auto const weight     = weighting(static_cast<std::size_t>(binIdx));
         auto const power      = bin * bin;
         auto const normalized = power * scale;
         auto const dB         = neo::amplitude_to_db(normalized, -144.0F) * 0.5F + weight;
@@ -44,7 +44,7 @@ auto powerSpectrumImage(
     for (auto frameIdx{0}; frameIdx < numFrames; ++frameIdx) {
         for (auto binIdx{0}; binIdx < numBins; ++binIdx) {
             auto const bin = frames(frameIdx, binIdx);
-            fillPixel(img, frameIdx, numBins - binIdx - 1, std::abs(bin));
+            fillPixel(img, frameIdx, numBins - binIdx - 1, std::abs(bin), binIdx);
         }
     }
 
-- 
2.43.0


From 7adf1de42678c0616485c075c957a5b4173cc00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:47 +0000
Subject: [PATCH 22/22] fix: irfft reads only the first N/2+1 coefficients

Passing more than N coefficients made the fallback plan write behind its internal buffer.
---
 src/neo/fft/fallback/fallback_rfft_plan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/fft/fallback/fallback_rfft_plan.hpp b/src/neo/fft/fallback/fallback_rfft_plan.hpp
index 66aa1e8..dd0bf51 100644
--- a/src/neo/fft/fallback/fallback_rfft_plan.hpp
+++ b/src/neo/fft/fallback/fallback_rfft_plan.hpp
@@ -41,7 +41,7 @@ struct fallback_rfft_plan
         auto const buf    = _buffer.to_mdspan();
         auto const coeffs = size() / 2 + 1;
 
-        copy(in, stdex::submdspan(buf, std::tuple{0, in.extent(0)}));
+        copy(stdex::submdspan(in, std::tuple{0ULL, coeffs}), stdex::submdspan(buf, std::tuple{0ULL, coeffs}));
 
         // Fill upper half with conjugate
         for (auto i{coeffs}; i < size(); ++i) {
-- 
2.43.0

