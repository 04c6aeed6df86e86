From 1b36aa6a238868480eb765da1702cc1612020b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:21 +0000
Subject: [PATCH 1/7] fix: do not read past the input block in Downsampler2xSse

The SSE halfband downsampler loaded four floats for each pair of input
samples, so the last pair of a block read two floats beyond the end of the
caller's buffer. Load exactly two floats and zero the unused lanes.
---
 include/pandaresampler/hiir/Downsampler2xSse.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pandaresampler/hiir/Downsampler2xSse.hpp b/include/pandaresampler/hiir/Downsampler2xSse.hpp
index be91346..0b8c781 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Downsampler2xSse.hpp
@@ -109,7 +109,7 @@ float	Downsampler2xSse <NC>::process_sample (const float in_ptr [2])
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 	x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 	x = _mm_mul_ss (x, _mm_set_ss (0.5f));
@@ -145,7 +145,7 @@ void	Downsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 		x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 		x = _mm_mul_ss (x, half);
@@ -180,7 +180,7 @@ void	Downsampler2xSse <NC>::process_sample_split (float &low, float &high, const
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 	x = _mm_mul_ps (x, _mm_set1_ps (0.5f));
 	const auto     xr = _mm_shuffle_ps (x, x, 1);
@@ -228,7 +228,7 @@ void	Downsampler2xSse <NC>::process_block_split (float out_l_ptr [], float out_h
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 		x = _mm_mul_ps (x, half);
 		const auto     xr = _mm_shuffle_ps (x, x, 1);
-- 
2.43.0


From 66ded4083e5c7d6a1e62d0c13d645a240883739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 2/7] fix: report non-convergence of the IIR group delay design

conv_flag is true while the group delay error is still larger than the
requested precision, but the result check treated it as success: an iteration
that ran out of steps was reported as ResCode_OK.
---
 include/pandaresampler/hiir/PolyphaseIir2Designer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index bf4c479..c5de6bb 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -309,7 +309,7 @@ PolyphaseIir2Designer::ResCode	PolyphaseIir2Designer::compute_coefs_spec_order_g
 		while (conv_flag && nbr_it < max_it);
 
 		// Checks convergence
-		if (nbr_it >= max_it && ! conv_flag)
+		if (nbr_it >= max_it && conv_flag)
 		{
 			ret_val = ResCode_FAIL_CONV;
 		}
-- 
2.43.0


From c6142d1b341ecfe246de4153b0c4debfb9aff508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 3/7] fix: accept empty blocks in the IIR resamplers

The hiir process_block functions require at least one sample: with an empty
block they abort in an assertion, and without assertions the scalar version
processes one sample outside of the caller's buffers.
---
 include/pandaresampler/pandaresampler.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/pandaresampler/pandaresampler.cc b/include/pandaresampler/pandaresampler.cc
index ae6bbd1..75bda55 100644
--- a/include/pandaresampler/pandaresampler.cc
+++ b/include/pandaresampler/pandaresampler.cc
@@ -1086,7 +1086,8 @@ public:
   {
     const uint n_output_samples = n_input_samples / 2;
 
-    downs.process_block (output, input, n_output_samples);
+    if (n_output_samples) /* hiir code needs at least one sample */
+      downs.process_block (output, input, n_output_samples);
   }
   uint
   order() const override
@@ -1123,7 +1124,8 @@ public:
   void
   process_block (const float *input, uint n_input_samples, float *output) override
   {
-    ups.process_block (output, input, n_input_samples);
+    if (n_input_samples) /* hiir code needs at least one sample */
+      ups.process_block (output, input, n_input_samples);
   }
   uint
   order() const override
@@ -1163,7 +1165,8 @@ public:
   {
     const uint n_output_samples = n_input_samples / 2;
 
-    downs.process_block (output, input, n_output_samples);
+    if (n_output_samples) /* hiir code needs at least one sample */
+      downs.process_block (output, input, n_output_samples);
   }
   uint
   order() const override
@@ -1200,7 +1203,8 @@ public:
   void
   process_block (const float *input, uint n_input_samples, float *output) override
   {
-    ups.process_block (output, input, n_input_samples);
+    if (n_input_samples) /* hiir code needs at least one sample */
+      ups.process_block (output, input, n_input_samples);
   }
   uint
   order() const override
-- 
2.43.0


From 4ef64223bca9d4f2e26e53d92e3da437efd7e839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 4/7] fix: do not dereference a missing stage in order() and
 sse_enabled()

With ratio 1 no factor 2 stage is created, so both queries dereferenced a
null pointer.
---
 include/pandaresampler.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index c7fba41..509675d 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -255,6 +255,8 @@ public:
   uint
   order() const
   {
+    if (ratio_ < 2) // no filter stage
+      return 0;
     return impl_x2->order(); // FIXME
   }
   /**
@@ -312,6 +314,8 @@ public:
   bool
   sse_enabled() const
   {
+    if (ratio_ < 2) // no filter stage
+      return false;
     return impl_x2->sse_enabled();
   }
 protected:
-- 
2.43.0


From 38ac74366e873f6b7eae99f86189b9d45309c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 5/7] fix: make AlignedArray non-copyable

The implicit copy constructor and assignment copied the pointers to the
allocated memory, so both objects destroyed the elements and freed the memory.
---
 include/pandaresampler.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index 509675d..21ab39a 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -75,6 +75,10 @@ public:
   {
     std::copy (elements.begin(), elements.end(), data);
   }
+  /* owns raw memory: must not be copied */
+  AlignedArray (const AlignedArray&) = delete;
+  AlignedArray& operator= (const AlignedArray&) = delete;
+
   ~AlignedArray()
   {
     /* C++ destruction order: last allocated element is deleted first */
-- 
2.43.0


From d75a10e8642e1b62c4a8360fe063096df8d25b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:46 +0000
Subject: [PATCH 6/7] fix: never design an IIR filter with less than one
 coefficient

compute_order() can yield an order below 1 for weak attenuation requests
(for instance 0.1 dB), so compute_nbr_coefs_from_proto() and
compute_coefs() returned zero or a negative number of coefficients.
---
 include/pandaresampler/hiir/PolyphaseIir2Designer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index c5de6bb..dd40937 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -492,7 +492,7 @@ int	PolyphaseIir2Designer::compute_order (double attenuation, double q)
 	{
 		++ order;
 	}
-	if (order == 1)
+	if (order < 3)
 	{
 		order = 3;
 	}
-- 
2.43.0


From 8b67a428454678b4f4579a1cca7976daf7bdaaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:06 +0000
Subject: [PATCH 7/7] fix: compute_phase_delay returns the phase delay of the
 documented filter unit

The phase was computed for a section in z^-1 instead of z^-2 and with the
opposite sign, and was 0/0 at frequency 0.
---
 .../pandaresampler/hiir/PolyphaseIir2Designer.cpp    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index dd40937..b26e9a7 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -363,10 +363,16 @@ double	PolyphaseIir2Designer::compute_phase_delay (double a, double f_fs)
 	assert (f_fs < 0.5);
 
 	const double   w  = 2 * hiir::PI * f_fs;
-	const double   c  = cos (w);
-	const double   s  = sin (w);
+	if (w <= 0)
+	{
+		return 2 * (1 - a) / (1 + a);	// limit of the expression below
+	}
+
+	// Phase lag of the unit (a + z^-2) / (1 + az^-2)
+	const double   c  = cos (2 * w);
+	const double   s  = sin (2 * w);
 	const double   x  = a + c + a * (c * (a + c) + s * s);
-	const double   y  = a * a * s - s;
+	const double   y  = s - a * a * s;
 	double         ph = atan2 (y, x);
 	if (ph < 0)
 	{
-- 
2.43.0

