From 5b8cd8409a1f77e2b41ccccf198db07f237f8076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 001/106] fix: reduce the chirp phase of arbitrary-length DFT
 exactly

The phase pi*k^2/n was computed by squaring a linspace in T, so its error grew with n
(a float DFT of size 4404 was off by about 1 percent on targets without FMA).
---
 src/dft/dft-impl.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dft/dft-impl.hpp b/src/dft/dft-impl.hpp
index 21fe447..d12c8dd 100644
--- a/src/dft/dft-impl.hpp
+++ b/src/dft/dft-impl.hpp
@@ -211,8 +211,14 @@ struct dft_arblen_stage_impl : dft_stage<T>
         this->temp_size   = plan.temp_size;
         this->stage_size  = size;
 
-        chirp_ = render(cexp(sqr(linspace(T(1) - size, size - T(1), size * 2 - 1, true, ctrue)) *
-                             complex<T>(0, -1) * c_pi<T> / size));
+        // exp(-i*pi*k^2/size) has period 2*size in k^2, reduce k^2 exactly before converting it to T
+        chirp_.resize(size * 2 - 1);
+        for (size_t i = 0; i < chirp_.size(); ++i)
+        {
+            const uint64_t k     = i < size ? size - 1 - i : i - (size - 1);
+            const uint64_t phase = (k * k) % (2 * static_cast<uint64_t>(size));
+            chirp_[i]            = cexp(complex<T>(0, static_cast<T>(-c_pi<f64> * phase / size)));
+        }
 
         ichirpp_ = render(truncate(padded(1 / slice(chirp_, 0, 2 * size - 1)), fftsize));
 
-- 
2.43.0


From c45a06919c2ec79c72e0c1f51d7d1f8975f0f3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 002/106] fix: keep the scratch data of arbitrary-length DFT
 out of the plan

A const dft_plan is documented to be safe to execute from several threads (and is shared by
dft_cache), but the arbitrary-length stage stored intermediate data in the plan.
---
 src/dft/dft-impl.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/dft/dft-impl.hpp b/src/dft/dft-impl.hpp
index d12c8dd..dc074ce 100644
--- a/src/dft/dft-impl.hpp
+++ b/src/dft/dft-impl.hpp
@@ -208,7 +208,8 @@ struct dft_arblen_stage_impl : dft_stage<T>
         this->repeats     = 1;
         this->recursion   = false;
         this->can_inplace = false;
-        this->temp_size   = plan.temp_size;
+        this->temp_size   = align_up(plan.temp_size, platform<>::native_cache_alignment) +
+                          2 * align_up(sizeof(complex<T>) * fftsize, platform<>::native_cache_alignment);
         this->stage_size  = size;
 
         // exp(-i*pi*k^2/size) has period 2*size in k^2, reduce k^2 exactly before converting it to T
@@ -224,8 +225,6 @@ struct dft_arblen_stage_impl : dft_stage<T>
 
         univector<u8> temp(plan.temp_size);
         plan.execute(ichirpp_, ichirpp_, temp);
-        xp.resize(fftsize, 0);
-        xp_fft.resize(fftsize);
         invN2 = T(1) / fftsize;
     }
 
@@ -237,7 +236,16 @@ struct dft_arblen_stage_impl : dft_stage<T>
 
         auto&& chirp = apply_conj(chirp_, cbool<inverse>);
 
+        // All intermediate data is in temp, the plan itself may be executed in multiple threads
+        u8* scratch = temp + align_up(plan.temp_size, platform<>::native_cache_alignment);
+        auto xp     = make_univector(ptr_cast<complex<T>>(scratch), fftsize);
+        auto xp_fft = make_univector(
+            ptr_cast<complex<T>>(
+                scratch + align_up(sizeof(complex<T>) * fftsize, platform<>::native_cache_alignment)),
+            fftsize);
+
         xp.slice(0, n) = make_univector(in, n) * slice(chirp, n - 1);
+        std::fill(xp.data() + n, xp.data() + fftsize, complex<T>(0));
 
         plan.execute(xp_fft.data(), xp.data(), temp);
 
@@ -256,8 +264,6 @@ struct dft_arblen_stage_impl : dft_stage<T>
     dft_plan<T> plan;
     univector<complex<T>> chirp_;
     univector<complex<T>> ichirpp_;
-    univector<complex<T>> xp;
-    univector<complex<T>> xp_fft;
 };
 
 template <typename T, size_t radix1, size_t radix2, size_t size = radix1 * radix2>
-- 
2.43.0


From 729ae82c1bd96366e5f5ab80a91d540fe861268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 003/106] fix: do not let DCT overlap its data with the scratch
 buffer of the underlying DFT

dct_plan enlarged dft_plan::temp_size, which dft_plan::execute uses to locate its own scratch
data, so both used the same end of temp and sizes that need scratch gave wrong results. Also
allocate temp when it is null, as documented.
---
 include/kfr/dft/fft.hpp | 14 +++++++++++++-
 src/capi/capi.cpp       |  4 ++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index cfc075e..49767f5 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -853,7 +853,14 @@ private:
 template <typename T>
 struct dct_plan : dft_plan<T>
 {
-    dct_plan(size_t size) : dft_plan<T>(size) { this->temp_size += sizeof(complex<T>) * size * 2; }
+    /// Size of the scratch buffer for DCT. Includes the scratch buffer for the underlying DFT
+    /// (dft_plan<T>::temp_size) which must remain unchanged because DFT relies on it
+    size_t temp_size;
+
+    dct_plan(size_t size)
+        : dft_plan<T>(size), temp_size(dft_plan<T>::temp_size + sizeof(complex<T>) * size * 2)
+    {
+    }
 
     [[deprecated("cpu parameter is deprecated. Runtime dispatch is used if built with "
                  "KFR_ENABLE_MULTIARCH")]] dct_plan(cpu_t cpu, size_t size)
@@ -863,6 +870,11 @@ struct dct_plan : dft_plan<T>
 
     KFR_MEM_INTRINSIC void execute(T* out, const T* in, u8* temp, bool inverse = false) const
     {
+        if (temp == nullptr && temp_size > 0)
+        {
+            return call_with_temp(temp_size,
+                                  [this, out, in, inverse](u8* temp) { execute(out, in, temp, inverse); });
+        }
         const size_t size                  = this->size;
         const size_t halfSize              = size / 2;
         univector_ref<complex<T>> mirrored = make_univector(
diff --git a/src/capi/capi.cpp b/src/capi/capi.cpp
index e050d70..14f287c 100644
--- a/src/capi/capi.cpp
+++ b/src/capi/capi.cpp
@@ -514,11 +514,11 @@ KFR_API_SPEC size_t kfr_dct_get_size_f64(KFR_DCT_PLAN_F64* plan)
 
 KFR_API_SPEC size_t kfr_dct_get_temp_size_f32(KFR_DCT_PLAN_F32* plan)
 {
-    return try_fn([&]() { return reinterpret_cast<dft_plan<float>*>(plan)->temp_size; }, 0);
+    return try_fn([&]() { return reinterpret_cast<dct_plan<float>*>(plan)->temp_size; }, 0);
 }
 KFR_API_SPEC size_t kfr_dct_get_temp_size_f64(KFR_DCT_PLAN_F64* plan)
 {
-    return try_fn([&]() { return reinterpret_cast<dft_plan<double>*>(plan)->temp_size; }, 0);
+    return try_fn([&]() { return reinterpret_cast<dct_plan<double>*>(plan)->temp_size; }, 0);
 }
 
 KFR_API_SPEC void kfr_dct_execute_f32(KFR_DCT_PLAN_F32* plan, float* out, const float* in, uint8_t* temp)
-- 
2.43.0


From b0d37d84ce3f46e8d7f9aa55d242d2dfd9fab07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 004/106] fix: accept the right direction in the bool overloads
 of dft_plan_md_real::execute

The checks were swapped: execute(complex out, real in, temp, inverse=false) threw.
---
 include/kfr/dft/fft.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index 49767f5..f938784 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -719,12 +719,12 @@ struct dft_plan_md_real
     }
     void execute(complex<T>* out, const T* in, u8* temp, bool inverse) const
     {
-        KFR_LOGIC_CHECK(inverse, "dft_plan_md_real: incorrect usage");
+        KFR_LOGIC_CHECK(!inverse, "dft_plan_md_real: incorrect usage");
         execute_dft(cfalse, out, in, temp);
     }
     void execute(T* out, const complex<T>* in, u8* temp, bool inverse) const
     {
-        KFR_LOGIC_CHECK(!inverse, "dft_plan_md_real: incorrect usage");
+        KFR_LOGIC_CHECK(inverse, "dft_plan_md_real: incorrect usage");
         execute_dft(ctrue, out, in, temp);
     }
 
-- 
2.43.0


From dc12de4465c73b1380250280067b84e4f2514853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 005/106] fix: keep the imaginary part in convolve and
 correlate of complex data

---
 src/dft/convolution-impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dft/convolution-impl.cpp b/src/dft/convolution-impl.cpp
index 5c58803..e5048b0 100644
--- a/src/dft/convolution-impl.cpp
+++ b/src/dft/convolution-impl.cpp
@@ -121,7 +121,10 @@ univector<T> convolve(const univector_ref<const T>& src1, const univector_ref<co
     src1padded = src1padded * src2padded;
     dft->execute(src1padded, src1padded, temp, true);
     const ST invsize = reciprocal<ST>(static_cast<ST>(size));
-    return truncate(real(src1padded), src1.size() + src2.size() - 1) * invsize;
+    if constexpr (std::is_same_v<T, complex<ST>>)
+        return truncate(src1padded, src1.size() + src2.size() - 1) * invsize;
+    else
+        return truncate(real(src1padded), src1.size() + src2.size() - 1) * invsize;
 }
 template univector<f32> convolve<f32>(const univector_ref<const f32>&, const univector_ref<const f32>&, bool);
 template univector<f64> convolve<f64>(const univector_ref<const f64>&, const univector_ref<const f64>&, bool);
-- 
2.43.0


From 51d12a34592155524979599002ae1fe055564f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 006/106] fix: keep the state of a biquad cascade when a block
 is shorter than the cascade

A block of at most filters-1 samples never saved its state, so its input was lost for the next
block. Also start priming at the start of the pass and forward begin_pass/end_pass to the input,
as other expressions do, so that an iir of an iir works.
---
 include/kfr/dsp/biquad.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index 48b1be8..d9b3bfe 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -301,30 +301,37 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_iir_l<filters, T, E1, Stat
 }
 
 template <typename T, typename E1, bool Stateless>
-KFR_INTRINSIC void begin_pass(const expression_iir<1, T, E1, Stateless>&, shape<1>, shape<1>)
+KFR_INTRINSIC void begin_pass(const expression_iir<1, T, E1, Stateless>& self, shape<1> start, shape<1> stop)
 {
+    begin_pass(self.first(), start, stop);
 }
 template <size_t filters, typename T, typename E1, bool Stateless>
 KFR_INTRINSIC void begin_pass(const expression_iir<filters, T, E1, Stateless>& self, shape<1> start, shape<1> stop)
 {
-    size_t size           = stop.front();
-    self.state->block_end = size;
+    begin_pass(self.first(), start, stop);
+    const size_t size     = stop.front() > start.front() ? stop.front() - start.front() : 0;
+    self.state->block_end = stop.front();
     vec<T, filters - 1> in;
     for (index_t i = 0; i < filters - 1; i++)
     {
-        in[i] = i < size ? get_elements(self.first(), shape<1>{ i }, axis_params_v<0, 1>).front() : 0;
+        in[i] = i < size
+                    ? get_elements(self.first(), shape<1>{ start.front() + i }, axis_params_v<0, 1>).front()
+                    : 0;
     }
-    internal::biquad_process(*self.state, in);
+    // The block may end before the pipeline is filled
+    internal::biquad_process(*self.state, in, size < filters ? size : static_cast<size_t>(-1));
 }
 
 template <typename T, typename E1, bool Stateless>
-KFR_INTRINSIC void end_pass(const expression_iir<1, T, E1, Stateless>&, shape<1>, shape<1>)
+KFR_INTRINSIC void end_pass(const expression_iir<1, T, E1, Stateless>& self, shape<1> start, shape<1> stop)
 {
+    end_pass(self.first(), start, stop);
 }
 template <size_t filters, typename T, typename E1, bool Stateless>
 KFR_INTRINSIC void end_pass(const expression_iir<filters, T, E1, Stateless>& self, shape<1> start, shape<1> stop)
 {
     self.state->state = self.state->saved_state;
+    end_pass(self.first(), start, stop);
 }
 
 template <typename T, typename E1, bool Stateless, size_t N>
-- 
2.43.0


From ee99802527259c855c38c22342903d8335daa4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 007/106] fix: keep the cursor of moving_sum inside a delay
 line of length 1

---
 include/kfr/dsp/fir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/dsp/fir.hpp b/include/kfr/dsp/fir.hpp
index d1a8918..ca0fb7e 100644
--- a/include/kfr/dsp/fir.hpp
+++ b/include/kfr/dsp/fir.hpp
@@ -125,7 +125,7 @@ struct moving_sum_state
 template <typename U>
 struct moving_sum_state<U, tag_dynamic_vector>
 {
-    moving_sum_state(size_t sum_length) : delayline(sum_length, U(0)), head_cursor(0), tail_cursor(1) {}
+    moving_sum_state(size_t sum_length) : delayline(sum_length, U(0)), head_cursor(0), tail_cursor(sum_length > 1 ? 1 : 0) {}
     univector<U> delayline;
     size_t head_cursor, tail_cursor;
 };
-- 
2.43.0


From f2667b9dbd73a8ad1e767285a03af380f1d49573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 008/106] fix: clear the filter state in iir_filter::reset

---
 include/kfr/dsp/biquad.hpp | 6 ++++++
 src/dsp/biquad.cpp         | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index d9b3bfe..008d584 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -516,6 +516,12 @@ public:
         : iir_filter(iir_params<T>(bq, count))
     {
     }
+
+    /// Reset internal filter state
+    void reset() final { this->filter_expr = iir_filter(params).filter_expr; }
+
+protected:
+    iir_params<T> params;
 };
 
 template <typename T>
diff --git a/src/dsp/biquad.cpp b/src/dsp/biquad.cpp
index e8f7ed2..89c7eda 100644
--- a/src/dsp/biquad.cpp
+++ b/src/dsp/biquad.cpp
@@ -52,7 +52,7 @@ template expression_handle<double, 1> create_iir_filter<double>(const iir_params
 #ifdef CMT_MULTI_NEEDS_GATE
 
 template <typename T>
-iir_filter<T>::iir_filter(const iir_params<T>& params)
+iir_filter<T>::iir_filter(const iir_params<T>& params) : params(params)
 {
     CMT_MULTI_GATE(this->filter_expr = ns::impl::create_iir_filter<T>(params));
 }
-- 
2.43.0


From a0a377e8c649b90a4f4a692a2be2fdc160a65879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 009/106] fix: handle ring buffer transfers larger than the
 ring

---
 include/kfr/base/univector.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/kfr/base/univector.hpp b/include/kfr/base/univector.hpp
index 945412d..d9d1a65 100644
--- a/include/kfr/base/univector.hpp
+++ b/include/kfr/base/univector.hpp
@@ -169,8 +169,10 @@ struct univector_base<T, Class, true>
         T* data           = get_data();
         if (srcsize > size)
         {
-            src     = src + srcsize / size;
-            srcsize = srcsize % size;
+            const size_t skip = srcsize - size;
+            src               = src + skip;
+            srcsize           = size;
+            cursor            = (cursor + skip) % size;
         }
         const size_t fsize = size - cursor;
         // one fragment
@@ -217,13 +219,13 @@ struct univector_base<T, Class, true>
     {
         if (CMT_UNLIKELY(destsize == 0))
             return;
-        // skip redundant data
         const size_t size = get_size();
         const T* data     = get_data();
-        if (destsize > size)
+        // whole turns of the ring leave the cursor where it was
+        for (; destsize > size; destsize -= size, dest += size)
         {
-            dest     = dest + destsize / size;
-            destsize = destsize % size;
+            copy(dest, data + cursor, size - cursor);
+            copy(dest + (size - cursor), data, cursor);
         }
         const size_t fsize = size - cursor;
         // one fragment
-- 
2.43.0


From c4163f8c3a134241d3d07ebc1f6fb5933b676d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 010/106] fix: accept a referenced state in delay<1>

---
 include/kfr/dsp/delay.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/kfr/dsp/delay.hpp b/include/kfr/dsp/delay.hpp
index 830be9d..322ccfe 100644
--- a/include/kfr/dsp/delay.hpp
+++ b/include/kfr/dsp/delay.hpp
@@ -115,8 +115,8 @@ struct expression_delay : expression_with_arguments<E>, public expression_traits
     mutable state_holder<delay_state<T, delay, STag>, stateless> state;
 };
 
-template <typename E, bool stateless, univector_tag STag>
-struct expression_delay<1, E, stateless, STag> : expression_with_arguments<E>, expression_traits_defaults
+template <typename E, bool stateless>
+struct expression_delay<1, E, stateless, 1> : expression_with_arguments<E>, expression_traits_defaults
 {
     using ArgTraits = expression_traits<E>;
     static_assert(ArgTraits::dims == 1, "expression_delay requires argument with dims == 1");
@@ -132,8 +132,8 @@ struct expression_delay<1, E, stateless, STag> : expression_with_arguments<E>, e
     using T = value_type;
     using expression_with_arguments<E>::expression_with_arguments;
 
-    expression_delay(E&& e, const delay_state<T, 1, STag>& state)
-        : expression_with_arguments<E>(std::forward<E>(e)), state(state)
+    expression_delay(E&& e, state_holder<delay_state<T, 1, 1>, stateless> state)
+        : expression_with_arguments<E>(std::forward<E>(e)), state(std::move(state))
     {
     }
 
@@ -146,7 +146,7 @@ struct expression_delay<1, E, stateless, STag> : expression_with_arguments<E>, e
         self.state->data    = in[N - 1];
         return out;
     }
-    mutable state_holder<delay_state<T, 1, STag>, stateless> state;
+    mutable state_holder<delay_state<T, 1, 1>, stateless> state;
 };
 
 /**
-- 
2.43.0


From 2f59e1ea2a0c1c6ec78373b1de1478a5b512a047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 011/106] fix: stay inside the range when an expression is
 evaluated from an unaligned start

---
 include/kfr/base/expression.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/expression.hpp b/include/kfr/base/expression.hpp
index 34aea3e..fb5a934 100644
--- a/include/kfr/base/expression.hpp
+++ b/include/kfr/base/expression.hpp
@@ -615,14 +615,14 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
         if constexpr (w > gw)
         {
             CMT_LOOP_NOUNROLL
-            for (; x < stop / w * w; x += w)
+            for (; x + w <= stop; x += w)
             {
                 outidx[OutAxis] = x;
                 set_elements(out, outidx, axis_params_v<OutAxis, w>, repeat<w>(val));
             }
         }
         CMT_LOOP_NOUNROLL
-        for (; x < stop / gw * gw; x += gw)
+        for (; x + gw <= stop; x += gw)
         {
             outidx[OutAxis] = x;
             set_elements(out, outidx, axis_params_v<OutAxis, gw>, repeat<gw>(val));
@@ -635,7 +635,7 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
         if constexpr (w > gw)
         {
             CMT_LOOP_NOUNROLL
-            for (; x < stop / w * w; x += w)
+            for (; x + w <= stop; x += w)
             {
                 outidx[OutAxis] = x;
                 inidx[InAxis]   = std::min(x, insize - 1);
@@ -645,7 +645,7 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
             }
         }
         CMT_LOOP_NOUNROLL
-        for (; x < stop / gw * gw; x += gw)
+        for (; x + gw <= stop; x += gw)
         {
             outidx[OutAxis] = x;
             inidx[InAxis]   = std::min(x, insize - 1);
-- 
2.43.0


From bb54963c1ddcbd0f7ea65754c1b0858b2c954bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 012/106] fix: design biquad_allpass for a normalized frequency
 and Q

---
 include/kfr/dsp/biquad_design.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/kfr/dsp/biquad_design.hpp b/include/kfr/dsp/biquad_design.hpp
index 27f9362..37229c5 100644
--- a/include/kfr/dsp/biquad_design.hpp
+++ b/include/kfr/dsp/biquad_design.hpp
@@ -42,16 +42,17 @@ inline namespace CMT_ARCH_NAME
 template <typename T = fbase>
 KFR_FUNCTION biquad_section<T> biquad_allpass(identity<T> frequency, identity<T> Q)
 {
-    const T alpha = std::sin(frequency) / 2.0 * Q;
-    const T cs    = std::cos(frequency);
-
-    const T b0 = 1.0 / (1.0 + alpha);
-    const T b1 = -2.0 * cs * b0;
-    const T b2 = (1.0 - alpha) * b0;
-    const T a0 = (1.0 - alpha) * b0;
-    const T a1 = -2.0 * cs * b0;
-    const T a2 = (1.0 + alpha) * b0;
-    return { b0, b1, b2, a0, a1, a2 };
+    const T w     = c_pi<T, 2> * frequency;
+    const T alpha = std::sin(w) / (2 * Q);
+    const T cs    = std::cos(w);
+
+    const T norm = 1 / (1 + alpha);
+    const T a0   = (1 - alpha) * norm;
+    const T a1   = -2 * cs * norm;
+    const T a2   = 1;
+    const T b1   = a1;
+    const T b2   = a0;
+    return { 1.0, b1, b2, a0, a1, a2 };
 }
 
 /**
-- 
2.43.0


From 74535dadde46de549c059849498df3b1a65ee766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 013/106] fix: design chebyshev filters in their own precision
 and for every odd order

---
 include/kfr/base/basic_expressions.hpp | 2 +-
 include/kfr/dsp/iir_design.hpp         | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 51be798..0d692e2 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -698,7 +698,7 @@ struct expression_linspace
     T invsize;
 
     expression_linspace(T start, T stop, size_t size, bool endpoint = false)
-        : start(start), stop(stop), size(size), invsize(T(1.0) / T(endpoint ? size - 1 : size))
+        : start(start), stop(stop), size(size), invsize(T(1.0) / T(endpoint && size > 1 ? size - 1 : size))
     {
     }
 
diff --git a/include/kfr/dsp/iir_design.hpp b/include/kfr/dsp/iir_design.hpp
index fe3e076..dab79f0 100644
--- a/include/kfr/dsp/iir_design.hpp
+++ b/include/kfr/dsp/iir_design.hpp
@@ -60,7 +60,7 @@ KFR_FUNCTION zpk<T> chebyshev1(int N, identity<T> rp)
     T eps = sqrt(exp10(T(0.1) * rp) - T(1.0));
     T mu  = T(1.0) / N * std::asinh(1 / eps);
 
-    univector<T> m = linspace(-N + 1, N + 1, N, false, ctrue);
+    univector<T> m = linspace<T>(-N + 1, N + 1, N, false, ctrue);
 
     univector<T> theta      = c_pi<T> * m / (2 * N);
     univector<complex<T>> p = -csinh(make_complex(mu, theta));
@@ -85,17 +85,17 @@ KFR_FUNCTION zpk<T> chebyshev2(int N, identity<T> rs)
 
     if (N % 2)
     {
-        m = concatenate(linspace(-N + 1, -2, N / 2, true, ctrue), linspace(2, N - 1, N / 2, true, ctrue));
+        m = concatenate(linspace<T>(-N + 1, -2, N / 2, true, ctrue), linspace<T>(2, N - 1, N / 2, true, ctrue));
     }
     else
     {
-        m = linspace(-N + 1, N + 1, N, false, ctrue);
+        m = linspace<T>(-N + 1, N + 1, N, false, ctrue);
     }
 
     univector<complex<T>> z = -cconj(complex<T>(0, 1) / sin(m * c_pi<T> / (T(2.0) * N)));
 
     univector<complex<T>> p =
-        -cexp(complex<T>(0, 1) * c_pi<T> * linspace(-N + 1, N + 1, N, false, ctrue) / (2 * N));
+        -cexp(complex<T>(0, 1) * c_pi<T> * linspace<T>(-N + 1, N + 1, N, false, ctrue) / (2 * N));
     p = make_complex(sinh(mu) * real(p), cosh(mu) * imag(p));
     p = T(1.0) / p;
 
-- 
2.43.0


From 5e26278902a45d0d12662c9a156f2030933d3b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 014/106] fix: keep the transfer function when splitting zeros
 and poles into second-order sections

---
 include/kfr/dsp/iir_design.hpp | 60 ++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/include/kfr/dsp/iir_design.hpp b/include/kfr/dsp/iir_design.hpp
index dab79f0..506dc85 100644
--- a/include/kfr/dsp/iir_design.hpp
+++ b/include/kfr/dsp/iir_design.hpp
@@ -900,19 +900,29 @@ KFR_FUNCTION univector<complex<T>> cplxreal(const univector<complex<T>>& list)
     univector<complex<T>> x = list;
     std::sort(x.begin(), x.end(),
               [](const complex<T>& a, const complex<T>& b) { return a.real() < b.real(); });
-    T tol                        = std::numeric_limits<T>::epsilon() * 100;
-    univector<complex<T>> result = x;
-    for (size_t i = result.size(); i > 1; i--)
+    T tol = std::numeric_limits<T>::epsilon() * 100;
+    univector<complex<T>> result;
+    // keep real values and one value of each conjugate pair
+    while (!x.empty())
     {
-        if (!isreal(result[i - 1]) && !isreal(result[i - 2]))
+        complex<T> val = x.back();
+        x.erase(x.end() - 1);
+        if (!isreal(val))
         {
-            if (abs(result[i - 1].real() - result[i - 2].real()) < tol &&
-                abs(result[i - 1].imag() + result[i - 2].imag()) < tol)
+            auto conjugate =
+                std::find_if(x.begin(), x.end(),
+                             [val, tol](const complex<T>& v)
+                             {
+                                 return !isreal(v) && abs(v.real() - val.real()) < tol &&
+                                        abs(v.imag() + val.imag()) < tol;
+                             });
+            if (conjugate != x.end())
             {
-                result.erase(result.begin() + i - 1);
-                result[i - 2].imag(abs(result[i - 2].imag()));
+                x.erase(conjugate);
+                val.imag(abs(val.imag()));
             }
         }
+        result.insert(result.begin(), val);
     }
     return result;
 }
@@ -921,29 +931,20 @@ template <typename T>
 KFR_FUNCTION size_t nearest_real_or_complex(const univector<complex<T>>& list, const complex<T>& val,
                                             bool mustbereal = true)
 {
-    univector<complex<T>> filtered;
-    for (complex<T> v : list)
+    size_t minidx = std::numeric_limits<size_t>::max();
+    T minval      = std::numeric_limits<T>::max();
+    for (size_t i = 0; i < list.size(); i++)
     {
-        if (isreal(v) == mustbereal)
-        {
-            filtered.push_back(v);
-        }
-    }
-    TESTO_ASSERT(!filtered.empty());
-    if (filtered.empty())
-        return std::numeric_limits<size_t>::max();
-
-    size_t minidx = 0;
-    T minval      = cabs(val - filtered[0]);
-    for (size_t i = 1; i < filtered.size(); i++)
-    {
-        T newminval = cabs(val - filtered[i]);
+        if (isreal(list[i]) != mustbereal)
+            continue;
+        T newminval = cabs(val - list[i]);
         if (newminval < minval)
         {
             minval = newminval;
             minidx = i;
         }
     }
+    TESTO_ASSERT(minidx != std::numeric_limits<size_t>::max());
     return minidx;
 }
 
@@ -1113,7 +1114,7 @@ template <typename T>
 KFR_FUNCTION iir_params<T> to_sos(const zpk<T>& filter)
 {
     if (filter.p.empty() && filter.z.empty())
-        return { biquad_section<T>(filter.k, T(0.), T(0.), T(1.), T(0.), 0) };
+        return { biquad_section<T>(T(1.), T(0.), T(0.), filter.k, T(0.), T(0.)) };
 
     zpk<T> filt   = filter;
     size_t length = std::max(filter.p.size(), filter.z.size());
@@ -1202,18 +1203,19 @@ KFR_FUNCTION iir_params<T> to_sos(const zpk<T>& filter)
                 if (!isreal(z1))
                 {
                     z2     = cconj(z1);
-                    p2_idx = internal::nearest_real_or_complex(filt.z, p1, true);
+                    p2_idx = internal::nearest_real_or_complex(filt.p, p1, true);
                     p2     = filt.p[p2_idx];
                     TESTO_ASSERT(isreal(p2));
                 }
                 else
                 {
+                    // the other pole of this section must be real too
                     size_t worstidx = 0;
-                    T worstval      = abs(cabs(filt.p[0]) - 1);
-                    for (size_t i = 1; i < filt.p.size(); i++)
+                    T worstval      = std::numeric_limits<T>::max();
+                    for (size_t i = 0; i < filt.p.size(); i++)
                     {
                         T val = abs(cabs(filt.p[i]) - 1);
-                        if (val < worstval)
+                        if (isreal(filt.p[i]) && val < worstval)
                         {
                             worstidx = i;
                             worstval = val;
-- 
2.43.0


From a95c4a0a0a62c9a77058b468be894c51a4b342f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 015/106] fix: sum modzerobessel term by term so that it does
 not overflow

---
 include/kfr/math/impl/modzerobessel.hpp | 44 ++-----------------------
 1 file changed, 3 insertions(+), 41 deletions(-)

diff --git a/include/kfr/math/impl/modzerobessel.hpp b/include/kfr/math/impl/modzerobessel.hpp
index ec462b6..386ebcb 100644
--- a/include/kfr/math/impl/modzerobessel.hpp
+++ b/include/kfr/math/impl/modzerobessel.hpp
@@ -41,46 +41,6 @@ namespace intrinsics
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> modzerobessel(const vec<T, N>& x)
 {
-    constexpr static T bessel_coef[] = { T(0.25),
-                                         T(0.027777777777777776236),
-                                         T(0.0017361111111111110147),
-                                         T(6.9444444444444444384e-005),
-                                         T(1.9290123456790123911e-006),
-                                         T(3.9367598891408417495e-008),
-                                         T(6.1511873267825652335e-010),
-                                         T(7.5940584281266239246e-012),
-                                         T(7.5940584281266233693e-014),
-                                         T(6.2760813455591932909e-016),
-                                         T(4.3583898233049949985e-018),
-                                         T(2.5789288895295827557e-020),
-                                         T(1.3157800456783586208e-022),
-                                         T(5.8479113141260384983e-025),
-                                         T(2.2843403570804837884e-027),
-                                         T(7.904291893012054025e-030),
-                                         T(2.4395962632753252792e-032),
-                                         T(6.75788438580422547e-035),
-                                         T(1.689471096451056426e-037),
-                                         T(3.8310002187098784929e-040),
-                                         T(7.9152897080782616517e-043),
-                                         T(1.4962740468957016443e-045),
-                                         T(2.5976979980828152196e-048),
-                                         T(4.1563167969325041577e-051),
-                                         T(6.1483976285983795968e-054),
-                                         T(8.434015951438105991e-057),
-                                         T(1.0757673407446563809e-059),
-                                         T(1.2791526049282476926e-062),
-                                         T(1.4212806721424974034e-065),
-                                         T(1.4789601166935457918e-068),
-                                         T(1.4442969889585408123e-071),
-                                         T(1.3262598613026086927e-074),
-                                         T(1.1472836170437790782e-077),
-                                         T(9.3655805472961564331e-081),
-                                         T(7.2265282000741942594e-084),
-                                         T(5.2786911614858977913e-087),
-                                         T(3.6556032974279072401e-090),
-                                         T(2.4034209713529963119e-093),
-                                         T(1.5021381070956226783e-096) };
-
     const vec<T, N> x_2     = x * 0.5;
     const vec<T, N> x_2_sqr = x_2 * x_2;
     vec<T, N> num           = x_2_sqr;
@@ -90,7 +50,9 @@ KFR_INTRINSIC vec<T, N> modzerobessel(const vec<T, N>& x)
     CMT_LOOP_UNROLL
     for (size_t i = 0; i < (sizeof(T) == 4 ? 20 : 39); i++)
     {
-        result = fmadd((num *= x_2_sqr), bessel_coef[i], result);
+        // keep the term itself: a bare power of x overflows long before the sum does
+        num *= x_2_sqr * static_cast<T>(1.0 / ((i + 2.0) * (i + 2.0)));
+        result += num;
     }
     return result;
 }
-- 
2.43.0


From cd90bf210195ecabf14d893ededc1e59daa53a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 016/106] fix: never ask for more input than was given when
 resampling in push mode

---
 docs/docs/src.md                           | 2 +-
 include/kfr/dsp/sample_rate_conversion.hpp | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/docs/docs/src.md b/docs/docs/src.md
index b1beac2..4aad73f 100644
--- a/docs/docs/src.md
+++ b/docs/docs/src.md
@@ -23,7 +23,7 @@ The `process` function accepts two parameters:
 - `output`: Output buffer, provided as a univector with the desired size (512).  
 - `input`: Input buffer, provided as a univector of at least the size returned by `input_size_for_output`. The resampler consumes the necessary number of samples to generate 512 output samples and returns the number of input samples read. The input should be adjusted accordingly to skip these samples.
 
-For the `push` method, call `output_size_for_input` with the size of your input buffer. This function returns the corresponding output buffer size required to receive all pending output.
+For the `push` method, call `output_size_for_input` with the size of your input buffer. This function returns the corresponding output buffer size required to receive all pending output. When downsampling, `process` may consume less than the whole input; keep the remaining samples and pass them again in front of the next chunk.
 
 ### Example (pull)
 
diff --git a/include/kfr/dsp/sample_rate_conversion.hpp b/include/kfr/dsp/sample_rate_conversion.hpp
index 249b132..82b789b 100644
--- a/include/kfr/dsp/sample_rate_conversion.hpp
+++ b/include/kfr/dsp/sample_rate_conversion.hpp
@@ -199,8 +199,10 @@ public:
      */
     KFR_MEM_INTRINSIC itype output_size_for_input(itype input_size) const
     {
-        return input_position_to_output(input_position + input_size - 1) -
-               input_position_to_output(input_position - 1);
+        // the largest output that does not need more than the given input
+        const itype input_end = output_position_to_input(output_position - 1) + input_size + 1;
+        return floor_div(input_position_to_intermediate(input_end) - 1, decimation_factor).quot + 1 -
+               output_position;
     }
 
     /**
-- 
2.43.0


From ce94f9d528a531b5fdf8fd808e39986f5d0085d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 017/106] fix: let saturate_I accept expressions

---
 include/kfr/dsp/waveshaper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/dsp/waveshaper.hpp b/include/kfr/dsp/waveshaper.hpp
index ed8053d..719d70f 100644
--- a/include/kfr/dsp/waveshaper.hpp
+++ b/include/kfr/dsp/waveshaper.hpp
@@ -64,7 +64,7 @@ KFR_FUNCTION flt_type<T1> saturate_II(const T1& x)
 KFR_FN(saturate_II)
 
 template <typename E1, KFR_ACCEPT_EXPRESSIONS(E1)>
-KFR_FUNCTION expression_function<fn::saturate_II, E1> saturate_I(E1&& x)
+KFR_FUNCTION expression_function<fn::saturate_I, E1> saturate_I(E1&& x)
 {
     return { fn::saturate_I(), std::forward<E1>(x) };
 }
-- 
2.43.0


From ffc9c13e87b499663a4ab230cb97538b8d106f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 018/106] fix: construct the filter state in dcremove

---
 include/kfr/dsp/dcremove.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/dsp/dcremove.hpp b/include/kfr/dsp/dcremove.hpp
index 259ae41..794f0ad 100644
--- a/include/kfr/dsp/dcremove.hpp
+++ b/include/kfr/dsp/dcremove.hpp
@@ -35,7 +35,7 @@ template <typename E1, typename T = flt_type<expression_value_type<E1>>>
 KFR_INTRINSIC expression_iir<1, T, E1> dcremove(E1&& e1, double cutoff = 0.00025)
 {
     const biquad_section<T> bqs[1] = { biquad_highpass(cutoff, 0.5) };
-    return expression_iir<1, T, E1>(bqs, std::forward<E1>(e1));
+    return expression_iir<1, T, E1>(std::forward<E1>(e1), iir_state{ iir_params{ bqs } });
 }
 
 } // namespace kfr
-- 
2.43.0


From a56c75a29bd89f98d3d7b5f3441272735ea257ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:08 +0000
Subject: [PATCH 019/106] fix: keep tanh and coth finite for large arguments

---
 include/kfr/math/impl/hyperbolic.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/impl/hyperbolic.hpp b/include/kfr/math/impl/hyperbolic.hpp
index bd1841d..00411d2 100644
--- a/include/kfr/math/impl/hyperbolic.hpp
+++ b/include/kfr/math/impl/hyperbolic.hpp
@@ -55,14 +55,18 @@ KFR_INTRINSIC vec<Tout, N> cosh(const vec<T, N>& x)
 template <typename T, size_t N, typename Tout = flt_type<T>>
 KFR_INTRINSIC vec<Tout, N> tanh(const vec<T, N>& x)
 {
-    const vec<Tout, N> a = exp(2 * x);
+    const vec<Tout, N> xx = static_cast<vec<Tout, N>>(x);
+    // for greater arguments the result is one and exp could overflow
+    const vec<Tout, N> a = exp(2 * select(xx > Tout(20), Tout(20), xx));
     return (a - 1) / (a + 1);
 }
 
 template <typename T, size_t N, typename Tout = flt_type<T>>
 KFR_INTRINSIC vec<Tout, N> coth(const vec<T, N>& x)
 {
-    const vec<Tout, N> a = exp(2 * x);
+    const vec<Tout, N> xx = static_cast<vec<Tout, N>>(x);
+    // for greater arguments the result is one and exp could overflow
+    const vec<Tout, N> a = exp(2 * select(xx > Tout(20), Tout(20), xx));
     return (a + 1) / (a - 1);
 }
 
-- 
2.43.0


From 931ec2840a2ccae26e236f38c92b69957f4b5c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:53 +0000
Subject: [PATCH 020/106] fix: let a reset of the loudness meter discard what
 came before it

---
 include/kfr/dsp/ebu.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/kfr/dsp/ebu.hpp b/include/kfr/dsp/ebu.hpp
index b3cfbcd..28ccc13 100644
--- a/include/kfr/dsp/ebu.hpp
+++ b/include/kfr/dsp/ebu.hpp
@@ -311,6 +311,16 @@ public:
     template <univector_tag Tag>
     void process_packet(const std::vector<univector<T, Tag>>& source)
     {
+        if (m_need_reset)
+        {
+            m_need_reset = false;
+            for (size_t ch = 0; ch < m_channels.size(); ch++)
+            {
+                m_channels[ch].reset();
+            }
+            m_integrated_buffer.reset();
+            m_lra_buffer.reset();
+        }
         T momentary = 0;
         T shortterm = 0;
         for (size_t ch = 0; ch < m_channels.size(); ch++)
@@ -327,16 +337,6 @@ public:
             }
         }
 
-        if (m_need_reset)
-        {
-            m_need_reset = false;
-            for (size_t ch = 0; ch < m_channels.size(); ch++)
-            {
-                m_channels[ch].reset();
-            }
-            m_integrated_buffer.reset();
-            m_lra_buffer.reset();
-        }
         if (m_running)
         {
             m_integrated_buffer.push(momentary);
-- 
2.43.0


From 177370d065bf22fc5ceca387835aa90f3b62b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:52 +0000
Subject: [PATCH 021/106] fix: define the multidimensional real DFT plans of
 the C API in double precision

---
 src/capi/capi.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/capi/capi.cpp b/src/capi/capi.cpp
index 14f287c..5c4debd 100644
--- a/src/capi/capi.cpp
+++ b/src/capi/capi.cpp
@@ -411,6 +411,40 @@ KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_plan_f64(size_t size, KF
         nullptr);
 }
 
+KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_2d_plan_f64(size_t size1, size_t size2,
+                                                                    bool real_out_is_enough)
+{
+    return try_fn(
+        [&]()
+        {
+            return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
+                new var_dft_plan_real_impl<double, 2>(shape{ size1, size2 }, real_out_is_enough));
+        },
+        nullptr);
+}
+KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_3d_plan_f64(size_t size1, size_t size2, size_t size3,
+                                                                    bool real_out_is_enough)
+{
+    return try_fn(
+        [&]()
+        {
+            return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
+                new var_dft_plan_real_impl<double, 3>(shape{ size1, size2, size3 }, real_out_is_enough));
+        },
+        nullptr);
+}
+KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_md_plan_f64(size_t dims, const unsigned* shape,
+                                                                    bool real_out_is_enough)
+{
+    return try_fn(
+        [&]()
+        {
+            return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
+                new var_dft_plan_real_impl<double, dynamic_shape>(init_shape(dims, shape), real_out_is_enough));
+        },
+        nullptr);
+}
+
 KFR_API_SPEC void kfr_dft_real_dump_f32(KFR_DFT_REAL_PLAN_F32* plan)
 {
     try_fn([&]() { reinterpret_cast<var_dft_plan<float>*>(plan)->dump(); });
-- 
2.43.0


From af336edd795c9cc3724776ece1545a78a071fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 022/106] fix: fail an aligned allocation whose size overflows

---
 include/kfr/cometa/memory.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index 26f7d15..01b4f48 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -61,6 +61,8 @@ inline void* aligned_malloc(size_t size, size_t alignment)
 {
     if (alignment == 0 || alignment > 32768)
         return nullptr;
+    if (size > SIZE_MAX - (alignment - 1) - sizeof(mem_header))
+        return nullptr;
     get_memory_statistics().allocation_count++;
     get_memory_statistics().allocation_size += size;
     void* ptr = malloc(size + (alignment - 1) + sizeof(mem_header));
-- 
2.43.0


From a63114ff4108bee8fda350643f259888c27a5fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 023/106] fix: keep the old block when an aligned reallocation
 fails

---
 include/kfr/cometa/memory.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index 01b4f48..cdebb4e 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -100,7 +100,9 @@ inline void* aligned_reallocate(void* ptr, size_t new_size, size_t alignment)
     {
         if (new_size)
         {
-            void* new_ptr   = aligned_malloc(new_size, alignment);
+            void* new_ptr = aligned_malloc(new_size, alignment);
+            if (new_ptr == nullptr)
+                return nullptr; // the old block remains valid
             size_t old_size = aligned_size(ptr);
             memcpy(new_ptr, ptr, std::min(old_size, new_size));
             aligned_release(ptr);
-- 
2.43.0


From 5edf055321715661f17575bb55f2642bc02e3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 024/106] fix: keep histogram counts right at the limits of the
 element type

---
 include/kfr/base/reduce.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/kfr/base/reduce.hpp b/include/kfr/base/reduce.hpp
index 67ba03a..98d46e9 100644
--- a/include/kfr/base/reduce.hpp
+++ b/include/kfr/base/reduce.hpp
@@ -189,12 +189,13 @@ struct histogram_data
         {
             const vec<T, N> x = value * size();
             indices           = cast<uint64_t>(round(clamp(x, 0, size() - 1)));
-            indices           = select(value < 0, 0, select(value > 1, size() + 1, 1 + indices));
+            // not-a-number is counted below, its index is undefined
+            indices = select(value >= 0, select(value > 1, size() + 1, 1 + indices), 0);
         }
         else
         {
-            const vec<T, N> x = 1 + value;
-            indices           = cast<uint64_t>(clamp(x, T(0), T(size() + 1)));
+            // neither 1 + value nor size() + 1 may be representable in T
+            indices = select(value < T(0), 0, 1 + min(cast<uint64_t>(value), uint64_t(size())));
         }
         CMT_LOOP_UNROLL
         for (size_t i = 0; i < N; ++i)
-- 
2.43.0


From 213aa96eae1df2394a533cd4ac606652da8c5308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 025/106] fix: keep both parts when concatenating temporaries
 or an empty expression

---
 include/kfr/base/basic_expressions.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 0d692e2..faa3856 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -780,7 +780,7 @@ struct expression_concatenate : public expression_with_arguments<Arg1, Arg2>
 
     KFR_MEM_INTRINSIC expression_concatenate(Arg1&& arg1, Arg2&& arg2)
         : expression_with_arguments<Arg1, Arg2>{ std::forward<Arg1>(arg1), std::forward<Arg2>(arg2) },
-          size1(expression_traits<Arg1>::get_shape(arg1))
+          size1(expression_traits<Arg1>::get_shape(std::get<0>(this->args))) // arg1 may have been moved from
     {
     }
 };
@@ -806,8 +806,12 @@ struct expression_traits<expression_concatenate<Arg1, Arg2, ConcatAxis>> : expre
     KFR_MEM_INTRINSIC constexpr static shape<dims> get_shape(
         const expression_concatenate<Arg1, Arg2, ConcatAxis>& self)
     {
-        return concat_shape(ArgTraits1::get_shape(std::get<0>(self.args)),
-                            ArgTraits2::get_shape(std::get<1>(self.args)));
+        // the shapes are known here, a zero size means empty, not undefined
+        const shape<dims> sh1 = ArgTraits1::get_shape(std::get<0>(self.args));
+        const shape<dims> sh2 = ArgTraits2::get_shape(std::get<1>(self.args));
+        shape<dims> result    = min(sh1, sh2);
+        result[ConcatAxis]    = add_shape(sh1, sh2)[ConcatAxis];
+        return result;
     }
     KFR_MEM_INTRINSIC constexpr static shape<dims> get_shape()
     {
-- 
2.43.0


From 451a1bbbab1e0b349aa5403dd0c047309f893367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 026/106] fix: make a slice that starts past the end empty

---
 include/kfr/base/shape.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/shape.hpp b/include/kfr/base/shape.hpp
index 2a95757..c3b05f3 100644
--- a/include/kfr/base/shape.hpp
+++ b/include/kfr/base/shape.hpp
@@ -201,7 +201,7 @@ struct shape : static_array_base<index_t, csizeseq_t<Dims>>
     friend constexpr shape sub_shape(const shape& lhs, const shape& rhs)
     {
         return lhs.bin(rhs, [](index_t x, index_t y)
-                       { return std::max(x, y) == infinite_size ? infinite_size : x - y; });
+                       { return std::max(x, y) == infinite_size ? infinite_size : x > y ? x - y : 0; });
     }
     friend constexpr shape add_shape_undef(const shape& lhs, const shape& rhs)
     {
-- 
2.43.0


From 7cacfe3a8df286b2143ffcf36d9532103a80759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 027/106] fix: let gen_cossin be read in pieces of any size

---
 include/kfr/base/generators.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/generators.hpp b/include/kfr/base/generators.hpp
index bc68e0b..9e1553e 100644
--- a/include/kfr/base/generators.hpp
+++ b/include/kfr/base/generators.hpp
@@ -196,21 +196,34 @@ protected:
 };
 
 template <typename T, size_t VecWidth = internal::generator_width<T>(1)>
-struct generator_cossin : public generator<T, VecWidth, generator_cossin<T, VecWidth>>
+struct generator_cossin : public generator<T, VecWidth, generator_cossin<T, VecWidth>, vec<T, 2>>
 {
     static_assert(VecWidth % 2 == 0);
     generator_cossin(T start, T step)
-        : step(step), alpha(2 * sqr(sin(VecWidth / 2 * step / 2))), beta(-sin(VecWidth / 2 * step))
+        : step(step), alpha(2 * sqr(sin(VecWidth / 2 * step / 2))), beta(sin(VecWidth / 2 * step))
     {
         this->resync(start);
     }
-    KFR_MEM_INTRINSIC void sync(T start) const CMT_NOEXCEPT { this->value = init_cossin(step, start); }
+    // Every element is kept together with the one a quarter of a turn behind it (cos and sin, sin and -cos), so
+    // that it can be rotated wherever it is in the vector: reading N < width elements shifts them by N
+    KFR_MEM_INTRINSIC void sync(T start) const CMT_NOEXCEPT
+    {
+        const vec<T, VecWidth> cs = init_cossin(step, start);
+        this->value               = vec<vec<T, 2>, VecWidth>::from_flatten(
+            interleave(cs, addsub(vec<T, VecWidth>(T(0)), swap<2>(cs))));
+    }
 
     KFR_MEM_INTRINSIC void next() const CMT_NOEXCEPT
     {
-        this->value = this->value - subadd(alpha * this->value, beta * swap<2>(this->value));
+        vec<T, 2 * VecWidth> cs = flatten(this->value);
+
+        cs = cs - addsub(alpha * cs, beta * swap<2>(cs));
+
+        this->value = vec<vec<T, 2>, VecWidth>::from_flatten(cs);
     }
 
+    KFR_MEM_INTRINSIC vec<T, VecWidth> get_value() const { return even(flatten(this->value)); }
+
 protected:
     T step;
     T alpha;
-- 
2.43.0


From f715eb738b4067ad10ce09e9a61b617db26cd48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 028/106] fix: count negative bounds of a tensor range from the
 end when its step is negative

---
 include/kfr/base/tensor.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index a0fdacc..db72919 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -431,8 +431,13 @@ public:
         }
         else
         {
-            tstart = iidx.start ? *iidx.start + 1 : tsize;
-            tstop  = iidx.stop ? *iidx.stop + 1 : 0;
+            // one past the first element and one past the last element, negative values count from the end
+            tstart = iidx.start ? std::max(*iidx.start < 0 ? tsize + *iidx.start + 1 : *iidx.start + 1,
+                                           signed_index_t(0))
+                                : tsize;
+            tstop  = iidx.stop ? std::max(*iidx.stop < 0 ? tsize + *iidx.stop + 1 : *iidx.stop + 1,
+                                          signed_index_t(0))
+                               : 0;
         }
         tstart = tstart < 0 ? tsize + tstart : tstart;
         tstart = std::max(std::min(tstart, tsize), signed_index_t(0));
-- 
2.43.0


From a531718b2b22d66dfaacd592b39cdae424f1aec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 029/106] fix: keep the data when a tensor is assigned to
 itself

---
 include/kfr/base/tensor.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index db72919..99b47ed 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -361,14 +361,20 @@ public:
 #if defined(CMT_COMPILER_IS_MSVC) || true
     tensor& operator=(const tensor& src) &
     {
-        this->~tensor();
-        new (this) tensor(src);
+        if (this != &src)
+        {
+            this->~tensor();
+            new (this) tensor(src);
+        }
         return *this;
     }
     tensor& operator=(tensor&& src) &
     {
-        this->~tensor();
-        new (this) tensor(std::move(src));
+        if (this != &src)
+        {
+            this->~tensor();
+            new (this) tensor(std::move(src));
+        }
         return *this;
     }
 #else
-- 
2.43.0


From 8001e0c82a616ea38101a802cd0af1f8dae8a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 030/106] fix: share the data when a tensor is assigned a
 non-const tensor

---
 include/kfr/base/tensor.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index 99b47ed..0ec3b14 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -368,6 +368,7 @@ public:
         }
         return *this;
     }
+    tensor& operator=(tensor& src) & { return *this = const_cast<const tensor&>(src); }
     tensor& operator=(tensor&& src) &
     {
         if (this != &src)
-- 
2.43.0


From 0642468e2a9923274414079ddafdd1165e993905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:39 +0000
Subject: [PATCH 031/106] fix: make type-erased expressions writable

---
 include/kfr/base/handle.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index 7ecd09a..d70b075 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -264,7 +264,8 @@ KFR_INTRINSIC void set_elements(const expression_handle<T, NDims>& self, const s
     }
     else
     {
-        self.vtable->fn_set_elements[Axis][Nsize](self.instance, index, &value.front());
+        const portable_vec<T, N> src = value;
+        self.vtable->fn_set_elements[Axis][Nsize](self.instance, index, src.elem);
     }
 }
 } // namespace CMT_ARCH_NAME
-- 
2.43.0


From cdba118e035cb2e8b22ef772711597665131fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 032/106] fix: let padded take expressions of more than one
 dimension

---
 include/kfr/base/basic_expressions.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index faa3856..948c6a1 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -381,22 +381,24 @@ template <typename Arg, index_t Axis, size_t N, typename Traits = expression_tra
 KFR_INTRINSIC vec<T, N> get_elements(const expression_padded<Arg>& self, const shape<Traits::dims>& index,
                                      const axis_params<Axis, N>& sh)
 {
-    if (index.ge(self.input_shape))
+    const index_t size = self.input_shape[Axis];
+    bool outside       = index[Axis] >= size;
+    for (index_t i = 0; i < Traits::dims; ++i)
+        outside = outside || (i != Axis && index[i] >= self.input_shape[i]);
+    if (outside)
     {
         return self.fill_value;
     }
-    else if (CMT_LIKELY(index.add(N).le(self.input_shape)))
+    else if (CMT_LIKELY(N <= size - index[Axis]))
     {
         return get_elements(self.first(), index, sh);
     }
     else
     {
         vec<T, N> x = self.fill_value;
-        for (size_t i = 0; i < N; i++)
+        for (size_t i = 0; i < size - index[Axis]; i++)
         {
-            shape ish = index.add(i);
-            if (ish.back() < self.input_shape.back())
-                x[i] = get_elements(self.first(), ish, axis_params_v<Axis, 1>).front();
+            x[i] = get_elements(self.first(), index.add_at(i, cindex<Axis>), axis_params_v<Axis, 1>).front();
         }
         return x;
     }
-- 
2.43.0


From e96a05535ce2da20c367d66cf8a6c22eff0dc21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 033/106] fix: repeat the right axis of an argument when an
 expression is evaluated along another axis

---
 include/kfr/base/basic_expressions.hpp |  2 +-
 include/kfr/base/expression.hpp        | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 948c6a1..7e52bfe 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -316,7 +316,7 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_lambda<T, Dims, Fn, Rnd>&
         for (index_t i = 0; i < N; ++i)
         {
             result[i] = self.fn(cur_index);
-            ++cur_index.back();
+            ++cur_index[Axis];
         }
         return result;
     }
diff --git a/include/kfr/base/expression.hpp b/include/kfr/base/expression.hpp
index fb5a934..bb0e019 100644
--- a/include/kfr/base/expression.hpp
+++ b/include/kfr/base/expression.hpp
@@ -550,21 +550,23 @@ KFR_MEM_INTRINSIC vec<typename Traits::value_type, N> get_arg(const expression_f
     }
     else
     {
-        constexpr size_t NewVecAxis = Traits::dims - (Dims - VecAxis);
-        auto indices                = internal_generic::adapt<Traits::dims>(index, self.getmask(csize<idx>));
-        constexpr index_t last_dim  = Traits::get_shape().back();
-        if constexpr (last_dim != undefined_size)
+        // position of the vector axis from the last axis, the argument is repeated if it has no such axis
+        constexpr index_t RevVecAxis = Dims - 1 - VecAxis;
+        constexpr size_t NewVecAxis  = RevVecAxis < Traits::dims ? Traits::dims - 1 - RevVecAxis : 0;
+        auto indices                 = internal_generic::adapt<Traits::dims>(index, self.getmask(csize<idx>));
+        constexpr index_t vec_dim    = Traits::get_shape().revindex(RevVecAxis);
+        if constexpr (vec_dim != undefined_size)
         {
-            constexpr index_t last_dim_pot = prev_poweroftwo(last_dim);
-            return repeat<N / std::min(last_dim_pot, static_cast<index_t>(N))>(
+            constexpr index_t vec_dim_pot = prev_poweroftwo(vec_dim);
+            return repeat<N / std::min(vec_dim_pot, static_cast<index_t>(N))>(
                 get_elements(std::get<idx>(self.args), indices,
-                             axis_params<NewVecAxis, std::min(last_dim_pot, static_cast<index_t>(N))>{}));
+                             axis_params<NewVecAxis, std::min(vec_dim_pot, static_cast<index_t>(N))>{}));
         }
         else
         {
             if constexpr (sizeof...(Args) > 1 && N > 1)
             {
-                if (CMT_UNLIKELY(self.masks[idx].back() == 0))
+                if (CMT_UNLIKELY(self.masks[idx][maximum_dims - 1 - RevVecAxis] == 0))
                     return get_elements(std::get<idx>(self.args), indices, axis_params<NewVecAxis, 1>{})
                         .front();
                 else
-- 
2.43.0


From 71a20c3feff6a1d3482031a131c6410eecccd6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 034/106] fix: reverse expressions of more than one dimension
 along every axis

---
 include/kfr/base/basic_expressions.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 7e52bfe..018b69b 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -452,7 +452,9 @@ template <typename Arg, index_t Axis, size_t N, typename Traits = expression_tra
 KFR_INTRINSIC vec<T, N> get_elements(const expression_reverse<Arg>& self, const shape<Traits::dims>& index,
                                      const axis_params<Axis, N>& sh)
 {
-    return reverse(get_elements(self.first(), self.input_shape.sub(index).sub(shape<Traits::dims>(N)), sh));
+    shape<Traits::dims> mirrored = self.input_shape.sub(index).sub(shape<Traits::dims>(1));
+    mirrored[Axis] -= N - 1;
+    return reverse(get_elements(self.first(), mirrored, sh));
 }
 
 } // namespace CMT_ARCH_NAME
-- 
2.43.0


From a12cce03887117dd99ae3aaaad74411a7a8cc62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 035/106] fix: store vectors of three elements in arrays as
 they are laid out

vec<T, 3> occupies four elements in memory, while read, write and
element assignment in vec<vec<T, 3>, N> took it for three.
---
 include/kfr/simd/read_write.hpp | 32 +++++++++++++++++++++++++++++---
 include/kfr/simd/vec.hpp        |  6 +++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/include/kfr/simd/read_write.hpp b/include/kfr/simd/read_write.hpp
index 1337e17..1b06daf 100644
--- a/include/kfr/simd/read_write.hpp
+++ b/include/kfr/simd/read_write.hpp
@@ -33,17 +33,43 @@ namespace kfr
 inline namespace CMT_ARCH_NAME
 {
 
+namespace internal
+{
+/// vectors of sizes other than powers of two are padded in memory
+template <typename T>
+constexpr inline bool is_padded_compound =
+    sizeof(T) != sizeof(deep_subtype<T>) * compound_type_traits<T>::deep_width;
+} // namespace internal
+
 template <size_t N, bool A = false, typename T>
 KFR_INTRINSIC vec<T, N> read(const T* src)
 {
-    return vec<T, N>::from_flatten(intrinsics::read(cbool<A>, csize<N * compound_type_traits<T>::deep_width>,
-                                                    ptr_cast<deep_subtype<T>>(src)));
+    if constexpr (internal::is_padded_compound<T>)
+    {
+        vec<T, N> result;
+        for (size_t i = 0; i < N; ++i)
+            result[i] = src[i];
+        return result;
+    }
+    else
+    {
+        return vec<T, N>::from_flatten(intrinsics::read(
+            cbool<A>, csize<N * compound_type_traits<T>::deep_width>, ptr_cast<deep_subtype<T>>(src)));
+    }
 }
 
 template <bool A = false, size_t N, typename T>
 KFR_INTRINSIC void write(T* dest, const vec<T, N>& value)
 {
-    intrinsics::write(cbool<A>, ptr_cast<deep_subtype<T>>(dest), value.flatten());
+    if constexpr (internal::is_padded_compound<T>)
+    {
+        for (size_t i = 0; i < N; ++i)
+            dest[i] = value[i];
+    }
+    else
+    {
+        intrinsics::write(cbool<A>, ptr_cast<deep_subtype<T>>(dest), value.flatten());
+    }
 }
 
 namespace internal
diff --git a/include/kfr/simd/vec.hpp b/include/kfr/simd/vec.hpp
index 3e361f3..3a1ce23 100644
--- a/include/kfr/simd/vec.hpp
+++ b/include/kfr/simd/vec.hpp
@@ -495,10 +495,10 @@ struct alignas(internal::vec_alignment<T, N_>) vec
         union
         {
             simd_type v;
-            T s[N];
+            ST s[SN];
         } u{ this->v };
-        u.s[index] = s;
-        this->v    = u.v;
+        memcpy(&u.s[index * (SN / N)], &s, sizeof(ST) * (SN / N));
+        this->v = u.v;
     }
 
     template <size_t index, KFR_ENABLE_IF(index < 1024 && compound_type_traits<T>::is_scalar)>
-- 
2.43.0


From e895393b4b8c2d9a3150d5ac5c477eb95d1f377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 036/106] fix: take the shape of a temporary before reshape
 moves it away

---
 include/kfr/base/basic_expressions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 018b69b..18c31d2 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -550,8 +550,8 @@ struct expression_reshape : public expression_with_arguments<Arg>
     shape<OutDims> out_shape;
 
     KFR_MEM_INTRINSIC expression_reshape(Arg&& arg, const shape<OutDims>& out_shape)
-        : expression_with_arguments<Arg>{ std::forward<Arg>(arg) }, in_shape(ArgTraits::get_shape(arg)),
-          out_shape(out_shape)
+        : expression_with_arguments<Arg>{ std::forward<Arg>(arg) },
+          in_shape(ArgTraits::get_shape(this->first())), out_shape(out_shape)
     {
     }
 };
-- 
2.43.0


From afc118af25447cafbf7a54e105510dba66926ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 037/106] fix: reshape reads and writes elements as a vector
 only when they adjoin along an axis

---
 include/kfr/base/basic_expressions.hpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 18c31d2..228acdb 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -605,19 +605,16 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_reshape<Arg, outdims>& sel
         vec<T, N> result;
         bool done = false;
 
-        if (diff_idx.sum() == N - 1)
-        {
-            cforeach(cvalseq_t<index_t, indims, 0>{},
-                     [&](auto n) CMT_INLINE_LAMBDA
+        cforeach(cvalseq_t<index_t, indims, 0>{},
+                 [&](auto n) CMT_INLINE_LAMBDA
+                 {
+                     constexpr index_t axis = val_of<decltype(n)>({});
+                     if (!done && diff_idx == shape<indims>(0).add_at(N - 1, cindex<axis>))
                      {
-                         constexpr index_t axis = val_of<decltype(n)>({});
-                         if (!done && diff_idx[axis] == N - 1)
-                         {
-                             result = get_elements(self.first(), first_idx, axis_params<axis, N>{});
-                             done   = true;
-                         }
-                     });
-        }
+                         result = get_elements(self.first(), first_idx, axis_params<axis, N>{});
+                         done   = true;
+                     }
+                 });
 
         if (!done)
         {
@@ -663,7 +660,7 @@ KFR_INTRINSIC void set_elements(expression_reshape<Arg, outdims>& self, const sh
                  [&](auto n) CMT_INLINE_LAMBDA
                  {
                      constexpr index_t axis = val_of<decltype(n)>({});
-                     if (!done && diff_idx[axis] == N - 1)
+                     if (!done && diff_idx == shape<indims>(0).add_at(N - 1, cindex<axis>))
                      {
                          set_elements(self.first(), first_idx, axis_params<axis, N>{}, value);
                          done = true;
-- 
2.43.0


From 9dcd29276ed36bedd3a8a6aa389b8f2575e9035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 038/106] fix: map the vector axis to the argument's own axis
 in dimensions()

---
 include/kfr/base/basic_expressions.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 228acdb..f75dc5b 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -1055,14 +1055,15 @@ struct expression_dimensions : public expression_with_traits<E>
     KFR_INTRINSIC friend vec<value_type, N> get_elements(const expression_dimensions& self, shape<dims> index,
                                                          axis_params<VecAxis, N> sh)
     {
+        // the new axes precede the axes of the argument
         shape<in_dims> inindex = index.template trim<in_dims>();
-        if constexpr (VecAxis >= in_dims)
+        if constexpr (VecAxis + in_dims < dims)
         {
             return repeat<N>(get_elements(self.first(), inindex, axis_params_v<0, 1>));
         }
         else
         {
-            return get_elements(self.first(), inindex, sh);
+            return get_elements(self.first(), inindex, axis_params_v<VecAxis + in_dims - dims, N>);
         }
     }
 };
-- 
2.43.0


From 40caafc1ee7f848bf8fb1e96535e59d9c8059404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 039/106] fix: saturate to the limit of the right sign in
 satadd and satsub of 32- and 64-bit integers

---
 include/kfr/simd/impl/saturation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/saturation.hpp b/include/kfr/simd/impl/saturation.hpp
index 57da206..551acad 100644
--- a/include/kfr/simd/impl/saturation.hpp
+++ b/include/kfr/simd/impl/saturation.hpp
@@ -45,7 +45,7 @@ KFR_INTRINSIC vec<T, N> saturated_signed_add(const vec<T, N>& a, const vec<T, N>
     const vec<UT, N> sum   = aa + bb;
     aa                     = (aa >> shift) + static_cast<UT>(std::numeric_limits<T>::max());
 
-    return select(bitcast<T>((aa ^ bb) | ~(bb ^ sum)) >= T(), a, bitcast<T>(sum));
+    return select(bitcast<T>((aa ^ bb) | ~(bb ^ sum)) >= T(), bitcast<T>(aa), bitcast<T>(sum));
 }
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> saturated_signed_sub(const vec<T, N>& a, const vec<T, N>& b)
@@ -57,7 +57,7 @@ KFR_INTRINSIC vec<T, N> saturated_signed_sub(const vec<T, N>& a, const vec<T, N>
     const vec<UT, N> diff  = aa - bb;
     aa                     = (aa >> shift) + static_cast<UT>(std::numeric_limits<T>::max());
 
-    return select(bitcast<T>((aa ^ bb) & (aa ^ diff)) < T(), a, bitcast<T>(diff));
+    return select(bitcast<T>((aa ^ bb) & (aa ^ diff)) < T(), bitcast<T>(aa), bitcast<T>(diff));
 }
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> saturated_unsigned_add(const vec<T, N>& a, const vec<T, N>& b)
-- 
2.43.0


From cb40d8407d65b6eaa6ddd69e800cbdece5ad19fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 040/106] fix: round halves and large values correctly and keep
 NaN without SSE4.1

---
 include/kfr/simd/impl/round.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/kfr/simd/impl/round.hpp b/include/kfr/simd/impl/round.hpp
index d20ad45..b4c01a2 100644
--- a/include/kfr/simd/impl/round.hpp
+++ b/include/kfr/simd/impl/round.hpp
@@ -141,47 +141,49 @@ template <size_t N>
 KFR_INTRINSIC vec<f32, N> floor(const vec<f32, N>& x)
 {
     vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
-    return select(abs(x) >= fp_precision_limit<f32>, x, t - select(x < t, 1.f, 0.f));
+    return select(abs(x) < fp_precision_limit<f32>, t - select(x < t, 1.f, 0.f), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> floor(const vec<f64, N>& x)
 {
     vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
-    return select(abs(x) >= fp_precision_limit<f64>, x, t - select(x < t, 1., 0.));
+    return select(abs(x) < fp_precision_limit<f64>, t - select(x < t, 1., 0.), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> ceil(const vec<f32, N>& x)
 {
     vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
-    return select(abs(x) >= fp_precision_limit<f32>, x, t + select(x > t, 1.f, 0.f));
+    return select(abs(x) < fp_precision_limit<f32>, t + select(x > t, 1.f, 0.f), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> ceil(const vec<f64, N>& x)
 {
     vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
-    return select(abs(x) >= fp_precision_limit<f64>, x, t + select(x > t, 1., 0.));
+    return select(abs(x) < fp_precision_limit<f64>, t + select(x > t, 1., 0.), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> round(const vec<f32, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f32>, x,
-                  broadcastto<f32>(broadcastto<i32>(x + mulsign(broadcast<N>(0.5f), x))));
+    vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
+    return select(abs(x) < fp_precision_limit<f32>,
+                  t + select(abs(x - t) >= 0.5f, mulsign(broadcast<N>(1.f), x), 0.f), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> round(const vec<f64, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f64>, x,
-                  broadcastto<f64>(broadcastto<i64>(x + mulsign(broadcast<N>(0.5), x))));
+    vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
+    return select(abs(x) < fp_precision_limit<f64>,
+                  t + select(abs(x - t) >= 0.5, mulsign(broadcast<N>(1.), x), 0.), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> trunc(const vec<f32, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f32>, x, broadcastto<f32>(broadcastto<i32>(x)));
+    return select(abs(x) < fp_precision_limit<f32>, broadcastto<f32>(broadcastto<i32>(x)), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> trunc(const vec<f64, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f64>, x, broadcastto<f64>(broadcastto<i64>(x)));
+    return select(abs(x) < fp_precision_limit<f64>, broadcastto<f64>(broadcastto<i64>(x)), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> fract(const vec<f32, N>& x)
-- 
2.43.0


From fb2c7f0679f3d5700c71accdf40d22d8e2dedc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 041/106] fix: isnegative of floating point looks at the sign
 bit

---
 include/kfr/simd/comparison.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/simd/comparison.hpp b/include/kfr/simd/comparison.hpp
index 573090c..e149fb5 100644
--- a/include/kfr/simd/comparison.hpp
+++ b/include/kfr/simd/comparison.hpp
@@ -92,7 +92,7 @@ KFR_INTRINSIC mask<T, N> isfinite(const vec<T, N>& x)
 template <typename T, size_t N>
 KFR_INTRINSIC mask<T, N> isnegative(const vec<T, N>& x)
 {
-    return (x & special_constants<T>::highbitmask()) != 0;
+    return bitcast<T>((bitcast<itype<T>>(x) < itype<T>(0)).asvec()).asmask();
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 84f86f2d6275bd5fbb46aa44dd166a61505f496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 042/106] fix: havg of signed integers divides as signed

---
 include/kfr/simd/horizontal.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/kfr/simd/horizontal.hpp b/include/kfr/simd/horizontal.hpp
index 38d7e43..a070e13 100644
--- a/include/kfr/simd/horizontal.hpp
+++ b/include/kfr/simd/horizontal.hpp
@@ -203,7 +203,10 @@ KFR_FN(hdot)
 template <typename T, size_t N>
 KFR_INTRINSIC T havg(const vec<T, N>& value)
 {
-    return hadd(value) / N;
+    if constexpr (std::is_integral_v<T> && std::is_signed_v<T>)
+        return hadd(value) / static_cast<std::ptrdiff_t>(N);
+    else
+        return hadd(value) / N;
 }
 KFR_FN(havg)
 
-- 
2.43.0


From 5fbec1d45de5eafaca0450510782a9c375dfcbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 043/106] fix: rol and ror by zero positions

---
 include/kfr/simd/operators.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/operators.hpp b/include/kfr/simd/operators.hpp
index 2b0c9bb..d70a21a 100644
--- a/include/kfr/simd/operators.hpp
+++ b/include/kfr/simd/operators.hpp
@@ -281,7 +281,8 @@ KFR_FN(shr)
 template <typename T1, typename T2>
 KFR_INTRINSIC T1 rol(const T1& left, const T2& right)
 {
-    return shl(left, right) | shr(left, (static_cast<subtype<T1>>(typebits<T1>::bits) - right));
+    return shl(left, right) | shr(left, (static_cast<subtype<T1>>(typebits<T1>::bits) - right) &
+                                            static_cast<subtype<T1>>(typebits<T1>::bits - 1));
 }
 KFR_FN(rol)
 
@@ -289,7 +290,8 @@ KFR_FN(rol)
 template <typename T1, typename T2>
 KFR_INTRINSIC T1 ror(const T1& left, const T2& right)
 {
-    return shr(left, right) | shl(left, (static_cast<subtype<T1>>(typebits<T1>::bits) - right));
+    return shr(left, right) | shl(left, (static_cast<subtype<T1>>(typebits<T1>::bits) - right) &
+                                            static_cast<subtype<T1>>(typebits<T1>::bits - 1));
 }
 KFR_FN(ror)
 
-- 
2.43.0


From fa000a11c8f4e2848b1a5d9b2d32adecbd0811fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 044/106] fix: copysign keeps the magnitude of its first
 argument

---
 include/kfr/simd/operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/simd/operators.hpp b/include/kfr/simd/operators.hpp
index d70a21a..0c2a6a0 100644
--- a/include/kfr/simd/operators.hpp
+++ b/include/kfr/simd/operators.hpp
@@ -595,7 +595,7 @@ KFR_FN(mulsign)
 template <typename T, size_t N>
 constexpr KFR_INTRINSIC vec<T, N> copysign(const vec<T, N>& x, const vec<T, N>& y)
 {
-    return (x & special_constants<T>::highbitmask()) | (y & special_constants<T>::highbitmask());
+    return (x & special_constants<T>::invhighbitmask()) | (y & special_constants<T>::highbitmask());
 }
 
 /// @brief Swap byte order
-- 
2.43.0


From c8a9938dab659ca45cc23710be01197998ef7dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 045/106] fix: all() of a full AVX-512 floating point mask

The 16- and 8-bit masks were promoted to int before the complement, so all() was always false.
---
 include/kfr/simd/impl/logical.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/logical.hpp b/include/kfr/simd/impl/logical.hpp
index a511088..89019de 100644
--- a/include/kfr/simd/impl/logical.hpp
+++ b/include/kfr/simd/impl/logical.hpp
@@ -108,11 +108,11 @@ KFR_INTRINSIC bool bittestany(const mi64avx512& x) { return _mm512_movepi64_mask
 // horizontal AND
 KFR_INTRINSIC bool bittestall(const mf32avx512& x)
 {
-    return !~_mm512_movepi32_mask(_mm512_castps_si512(x.v));
+    return !uint16_t(~_mm512_movepi32_mask(_mm512_castps_si512(x.v)));
 }
 KFR_INTRINSIC bool bittestall(const mf64avx512& x)
 {
-    return !~_mm512_movepi64_mask(_mm512_castpd_si512(x.v));
+    return !uint8_t(~_mm512_movepi64_mask(_mm512_castpd_si512(x.v)));
 }
 KFR_INTRINSIC bool bittestall(const mu8avx512& x) { return !~_mm512_movepi8_mask(x.v); }
 KFR_INTRINSIC bool bittestall(const mu16avx512& x) { return !~_mm512_movepi16_mask(x.v); }
-- 
2.43.0


From 5becf78f1fa90c8de7e05e5b048b300bd9159816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 046/106] fix: free the cycle bitmap of matrix_transpose as the
 array it is

In-place transposition of matrices with more than 65536 square blocks (2 x 140001) released a new[] block with delete.
---
 include/kfr/base/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/transpose.hpp b/include/kfr/base/transpose.hpp
index edace25..c89585d 100644
--- a/include/kfr/base/transpose.hpp
+++ b/include/kfr/base/transpose.hpp
@@ -329,7 +329,7 @@ public:
     ~matrix_cycles()
     {
         if (data != on_stack)
-            delete data;
+            delete[] data;
     }
 
     size_t next_cycle_origin(size_t origin = 0)
-- 
2.43.0


From 9b6fea8732ae4adb267d08cb36113359c86dca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 047/106] fix: let replace() of vectors compile

The mask was multiplied by a plain integer, which index sequences do not support, so no call compiled.
---
 include/kfr/simd/shuffle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/simd/shuffle.hpp b/include/kfr/simd/shuffle.hpp
index a83f9f8..58d92e5 100644
--- a/include/kfr/simd/shuffle.hpp
+++ b/include/kfr/simd/shuffle.hpp
@@ -215,7 +215,7 @@ KFR_FN(slice)
 template <size_t start, size_t count, typename T, size_t N>
 KFR_INTRINSIC vec<T, N> replace(const vec<T, N>& x, const vec<T, N>& y)
 {
-    return x.shuffle(y, csizeseq<N> + (csizeseq<N> >= csize<start> && csizeseq<N> < csize<start + count>)*N);
+    return x.shuffle(y, csizeseq<N> + (csizeseq<N> >= csize<start> && csizeseq<N> < csize<start + count>)*csize<N>);
 }
 KFR_FN(replace)
 
-- 
2.43.0


From d41cdde4a692110cbfde6099c8e7e91b3071cd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:39 +0000
Subject: [PATCH 048/106] fix: let gather_stride and scatter_stride move groups
 of elements

With a group size above one they did not compile, and the second half started at the wrong element.
---
 include/kfr/simd/read_write.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/kfr/simd/read_write.hpp b/include/kfr/simd/read_write.hpp
index 1b06daf..eb1bc63 100644
--- a/include/kfr/simd/read_write.hpp
+++ b/include/kfr/simd/read_write.hpp
@@ -132,7 +132,7 @@ KFR_INTRINSIC vec<T, Nout> gather_stride(const T* base, csizes_t<Indices...>)
     return make_vector(base[Indices * Stride]...);
 }
 template <size_t Nout, size_t groupsize, typename T, size_t... Indices>
-KFR_INTRINSIC vec<T, Nout> gather_stride_s(const T* base, size_t stride, csizes_t<Indices...>)
+KFR_INTRINSIC vec<T, Nout * groupsize> gather_stride_s(const T* base, size_t stride, csizes_t<Indices...>)
 {
     return concat(read<groupsize>(base + Indices * groupsize * stride)...);
 }
@@ -151,8 +151,8 @@ KFR_INTRINSIC vec<T, Nout * groupsize> gather_stride(const T* base, size_t strid
     {
         constexpr size_t Nlow = prev_poweroftwo(Nout - 1);
         return concat(internal::gather_stride_s<Nlow, groupsize>(base, stride, csizeseq<Nlow>),
-                      internal::gather_stride_s<Nout - Nlow, groupsize>(base + Nlow * stride, stride,
-                                                                        csizeseq<Nout - Nlow>));
+                      internal::gather_stride_s<Nout - Nlow, groupsize>(
+                          base + Nlow * groupsize * stride, stride, csizeseq<Nout - Nlow>));
     }
     else
         return internal::gather_stride_s<Nout, groupsize>(base, stride, csizeseq<Nout>);
@@ -209,9 +209,11 @@ KFR_INTRINSIC void scatter_stride(T* base, const vec<T, N>& value, size_t stride
     if constexpr (Nout > 2)
     {
         constexpr size_t Nlow = prev_poweroftwo(Nout - 1);
-        internal::scatter_helper_s<groupsize>(base, stride, slice<0, Nlow>(value), csizeseq<Nlow>);
-        internal::scatter_helper_s<groupsize>(base + Nlow * stride, stride, slice<Nlow, Nout - Nlow>(value),
-                                              csizeseq<(Nout - Nlow)>);
+        internal::scatter_helper_s<groupsize>(base, stride, slice<0, Nlow * groupsize>(value),
+                                              csizeseq<Nlow>);
+        internal::scatter_helper_s<groupsize>(
+            base + Nlow * groupsize * stride, stride,
+            slice<Nlow * groupsize, (Nout - Nlow) * groupsize>(value), csizeseq<(Nout - Nlow)>);
     }
     else
         return internal::scatter_helper_s<groupsize>(base, stride, value, csizeseq<Nout>);
-- 
2.43.0


From a3396dd6a2722534ced8ecbdaceae6d8ac868eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:39 +0000
Subject: [PATCH 049/106] fix: v[i]++ and v[i]-- return the old value

---
 include/kfr/simd/vec.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/simd/vec.hpp b/include/kfr/simd/vec.hpp
index 3a1ce23..2abacfe 100644
--- a/include/kfr/simd/vec.hpp
+++ b/include/kfr/simd/vec.hpp
@@ -564,14 +564,14 @@ struct alignas(internal::vec_alignment<T, N_>) vec
         }
         KFR_MEM_INTRINSIC value_type operator++(int) CMT_NOEXCEPT
         {
-            value_type val = v.get(index) + 1;
-            v.set(index, val);
+            value_type val = v.get(index);
+            v.set(index, val + 1);
             return val;
         }
         KFR_MEM_INTRINSIC value_type operator--(int) CMT_NOEXCEPT
         {
-            value_type val = v.get(index) - 1;
-            v.set(index, val);
+            value_type val = v.get(index);
+            v.set(index, val - 1);
             return val;
         }
 
-- 
2.43.0


From 4cfeda23bb24972b48bfb301558c43b5b24599da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:47 +0000
Subject: [PATCH 050/106] fix: construct and write vectors of three-element
 vectors as they are laid out

The constructor from a pointer and vec::write took an array of padded vectors for a packed one, as read() and write() did.
---
 include/kfr/simd/read_write.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/kfr/simd/read_write.hpp b/include/kfr/simd/read_write.hpp
index eb1bc63..571d539 100644
--- a/include/kfr/simd/read_write.hpp
+++ b/include/kfr/simd/read_write.hpp
@@ -331,9 +331,7 @@ KFR_INTRINSIC vec<T, N> partial_mask(size_t index, vec_shape<T, N>)
 template <typename T, size_t N>
 template <bool aligned>
 KFR_MEM_INTRINSIC constexpr vec<T, N>::vec(const value_type* src, cbool_t<aligned>) CMT_NOEXCEPT
-    : vec(vec<T, N>::from_flatten(intrinsics::read(cbool<aligned>,
-                                                   csize<N * compound_type_traits<T>::deep_width>,
-                                                   ptr_cast<deep_subtype<T>>(src))))
+    : vec(kfr::read<N, aligned>(src))
 {
 }
 
@@ -341,7 +339,7 @@ template <typename T, size_t N>
 template <bool aligned>
 KFR_MEM_INTRINSIC const vec<T, N>& vec<T, N>::write(value_type* dest, cbool_t<aligned>) const CMT_NOEXCEPT
 {
-    intrinsics::write(cbool<aligned>, ptr_cast<deep_subtype<T>>(dest), flatten());
+    kfr::write<aligned>(dest, *this);
     return *this;
 }
 
-- 
2.43.0


From b8ffb1a0293dd8e24203f62b9028bfd3dd91ed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 051/106] fix: keep aligned loads and stores of vectors of
 other sizes than powers of two in bounds

An aligned store of three lanes wrote four.
---
 include/kfr/simd/impl/read_write.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/read_write.hpp b/include/kfr/simd/impl/read_write.hpp
index e5cb538..c2431a4 100644
--- a/include/kfr/simd/impl/read_write.hpp
+++ b/include/kfr/simd/impl/read_write.hpp
@@ -387,13 +387,20 @@ KFR_INTRINSIC void write(cunaligned_t, T* dest, const vec<T, N>& x) CMT_NOEXCEPT
 template <size_t N, typename T>
 KFR_INTRINSIC vec<T, N> read(caligned_t, csize_t<N>, const T* __restrict ptr) CMT_NOEXCEPT
 {
-    return *reinterpret_cast<const typename vec<T, N>::simd_type*>(ptr);
+    // the register of other sizes is padded
+    if constexpr (is_poweroftwo(N))
+        return *reinterpret_cast<const typename vec<T, N>::simd_type*>(ptr);
+    else
+        return read(cunaligned, csize<N>, ptr);
 }
 
 template <size_t N, typename T>
 KFR_INTRINSIC void write(caligned_t, T* __restrict ptr, const vec<T, N>& __restrict x) CMT_NOEXCEPT
 {
-    *reinterpret_cast<typename vec<T, N>::simd_type*>(ptr) = x.v;
+    if constexpr (is_poweroftwo(N))
+        *reinterpret_cast<typename vec<T, N>::simd_type*>(ptr) = x.v;
+    else
+        write(cunaligned, ptr, x);
 }
 
 } // namespace intrinsics
-- 
2.43.0


From daa50b8619ebc493c3bae14cc2a7e827c483f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 052/106] fix: audio_writer_wav::write counts frames when no
 conversion is needed

---
 src/io/audiofile-impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index 4f54076..aa3d1f9 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -150,7 +150,7 @@ size_t audio_writer_wav<T>::write(const T* data, size_t size)
         return 0;
     if (fmt.type == audio_sample_traits<T>::type)
     {
-        const size_t sz = drwav_write_pcm_frames_le(f.get(), size, data);
+        const size_t sz = drwav_write_pcm_frames_le(f.get(), size / fmt.channels, data);
         fmt.length += sz;
         return sz * fmt.channels;
     }
-- 
2.43.0


From a79ca8199ec697064e77df0310489f9ce4538d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 053/106] fix: seeking in audio readers moves the position and
 rejects targets before the beginning

---
 src/io/audiofile-impl.cpp | 76 +++++++++++++++++++++++----------------
 src/io/dr/dr_wav.h        |  4 +--
 2 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index aa3d1f9..f82e8dd 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -119,6 +119,37 @@ void mp3_file_deleter::operator()(mp3_file* f)
     delete f;
 }
 
+#ifndef KFR_DISABLE_WAV
+/// 8-bit samples are signed in KFR but stored as unsigned offset binary in WAV files
+void wav_convert_8bit(uint8_t* data, size_t size, audio_sample_type type)
+{
+    if (type == audio_sample_type::i8)
+    {
+        for (size_t i = 0; i < size; ++i)
+            data[i] ^= 0x80;
+    }
+}
+#endif
+
+/// Resolves the seek target (in PCM frames), performs the seek and updates the position on success
+template <typename Fn>
+bool audio_seek(imax& position, imax length, imax offset, seek_origin origin, Fn&& seek_to_frame)
+{
+    imax target = offset;
+    if (origin == seek_origin::current)
+        target += position;
+    else if (origin == seek_origin::end)
+        target += length;
+    if (target < 0)
+        return false;
+    if (target > length)
+        target = length;
+    if (!seek_to_frame(target))
+        return false;
+    position = target;
+    return true;
+}
+
 } // namespace internal_generic
 
 template <typename T>
@@ -264,16 +295,11 @@ size_t audio_reader_wav<T>::read(T* data, size_t size)
 template <typename T>
 bool audio_reader_wav<T>::seek(imax offset, seek_origin origin)
 {
-    switch (origin)
-    {
-    case seek_origin::current:
-        return drwav_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(this->position + offset));
-    case seek_origin::begin:
-        return drwav_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(offset));
-    case seek_origin::end:
-        return drwav_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(fmt.length + offset));
-    }
-    return false;
+    if (fmt.type == audio_sample_type::unknown)
+        return false;
+    return internal_generic::audio_seek(
+        position, fmt.length, offset, origin,
+        [this](imax frame) { return drwav_seek_to_pcm_frame(f.get(), static_cast<drwav_uint64>(frame)); });
 }
 
 template struct audio_reader_wav<i16>;
@@ -324,16 +350,11 @@ size_t audio_reader_flac<T>::read(T* data, size_t size)
 template <typename T>
 bool audio_reader_flac<T>::seek(imax offset, seek_origin origin)
 {
-    switch (origin)
-    {
-    case seek_origin::current:
-        return drflac_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(this->position + offset));
-    case seek_origin::begin:
-        return drflac_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(offset));
-    case seek_origin::end:
-        return drflac_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(fmt.length + offset));
-    }
-    return false;
+    if (fmt.type == audio_sample_type::unknown)
+        return false;
+    return internal_generic::audio_seek(
+        position, fmt.length, offset, origin,
+        [this](imax frame) { return drflac_seek_to_pcm_frame(f.get(), static_cast<drflac_uint64>(frame)); });
 }
 
 template struct audio_reader_flac<i16>;
@@ -387,16 +408,11 @@ size_t audio_reader_mp3<T>::read(T* data, size_t size)
 template <typename T>
 bool audio_reader_mp3<T>::seek(imax offset, seek_origin origin)
 {
-    switch (origin)
-    {
-    case seek_origin::current:
-        return drmp3_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(this->position + offset));
-    case seek_origin::begin:
-        return drmp3_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(offset));
-    case seek_origin::end:
-        return drmp3_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(fmt.length + offset));
-    }
-    return false;
+    if (fmt.type == audio_sample_type::unknown)
+        return false;
+    return internal_generic::audio_seek(
+        position, fmt.length, offset, origin,
+        [this](imax frame) { return drmp3_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(frame)); });
 }
 
 template struct audio_reader_mp3<i16>;
diff --git a/src/io/dr/dr_wav.h b/src/io/dr/dr_wav.h
index 44fc774..d3250f4 100644
--- a/src/io/dr/dr_wav.h
+++ b/src/io/dr/dr_wav.h
@@ -2940,8 +2940,8 @@ drwav_bool32 drwav_seek_to_pcm_frame(drwav* pWav, drwav_uint64 targetFrameIndex)
     }
 
     /* Make sure the sample is clamped. */
-    if (targetFrameIndex >= pWav->totalPCMFrameCount) {
-        targetFrameIndex  = pWav->totalPCMFrameCount - 1;
+    if (targetFrameIndex > pWav->totalPCMFrameCount) {
+        targetFrameIndex = pWav->totalPCMFrameCount;
     }
 
     /*
-- 
2.43.0


From 075b14298c47c80fc1e57ec93694d31a3ca94b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 054/106] fix: audio readers of streams that cannot be opened
 read nothing

---
 src/io/audiofile-impl.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index f82e8dd..1710d25 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -217,8 +217,12 @@ template <typename T>
 audio_reader_wav<T>::audio_reader_wav(std::shared_ptr<abstract_reader<>>&& reader) : reader(std::move(reader))
 {
     f.reset(new internal_generic::wav_file());
-    drwav_init(f.get(), (drwav_read_proc)&internal_generic::drwav_reader_read_proc,
-               (drwav_seek_proc)&internal_generic::drwav_reader_seek_proc, this->reader.get(), nullptr);
+    if (!drwav_init(f.get(), (drwav_read_proc)&internal_generic::drwav_reader_read_proc,
+                    (drwav_seek_proc)&internal_generic::drwav_reader_seek_proc, this->reader.get(), nullptr))
+    {
+        fmt.type = audio_sample_type::unknown;
+        return;
+    }
     fmt.channels   = f->channels;
     fmt.samplerate = f->sampleRate;
     fmt.length     = static_cast<imax>(f->totalPCMFrameCount);
@@ -315,6 +319,11 @@ audio_reader_flac<T>::audio_reader_flac(std::shared_ptr<abstract_reader<>>&& rea
     f.reset(reinterpret_cast<internal_generic::flac_file*>(drflac_open(
         (drflac_read_proc)&internal_generic::drflac_reader_read_proc,
         (drflac_seek_proc)&internal_generic::drflac_reader_seek_proc, this->reader.get(), nullptr)));
+    if (!f)
+    {
+        fmt.type = audio_sample_type::unknown;
+        return;
+    }
     fmt.channels   = f->channels;
     fmt.samplerate = f->sampleRate;
     fmt.length     = static_cast<imax>(f->totalPCMFrameCount);
@@ -370,9 +379,14 @@ template <typename T>
 audio_reader_mp3<T>::audio_reader_mp3(std::shared_ptr<abstract_reader<>>&& reader) : reader(std::move(reader))
 {
     f.reset(new internal_generic::mp3_file());
-    drmp3_init(f.get(), (drmp3_read_proc)&internal_generic::drmp3_reader_read_proc,
-               (drmp3_seek_proc)&internal_generic::drmp3_reader_seek_proc, this->reader.get(),
-               reinterpret_cast<const drmp3_config*>(&config), nullptr);
+    if (!drmp3_init(f.get(), (drmp3_read_proc)&internal_generic::drmp3_reader_read_proc,
+                    (drmp3_seek_proc)&internal_generic::drmp3_reader_seek_proc, this->reader.get(),
+                    reinterpret_cast<const drmp3_config*>(&config), nullptr))
+    {
+        delete f.release();
+        fmt.type = audio_sample_type::unknown;
+        return;
+    }
     fmt.channels   = f->channels;
     fmt.samplerate = f->sampleRate;
     fmt.length     = static_cast<imax>(drmp3_get_pcm_frame_count(f.get()));
-- 
2.43.0


From a4de78419aae3cf7780f716482a674500ae75d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 055/106] fix: store 8-bit samples in WAV files as unsigned

---
 src/io/audiofile-impl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index 1710d25..ee99dfe 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -189,6 +189,7 @@ size_t audio_writer_wav<T>::write(const T* data, size_t size)
     {
         univector<uint8_t> native(size * audio_sample_sizeof(fmt.type));
         convert(native.data(), fmt.type, data, size);
+        internal_generic::wav_convert_8bit(native.data(), size, fmt.type);
         const size_t sz = drwav_write_pcm_frames_le(f.get(), size / fmt.channels, native.data());
         fmt.length += sz;
         return sz * fmt.channels;
@@ -291,6 +292,7 @@ size_t audio_reader_wav<T>::read(T* data, size_t size)
         univector<uint8_t> native(size * audio_sample_sizeof(fmt.type));
         const size_t sz = drwav_read_pcm_frames(f.get(), size / fmt.channels, native.data());
         position += sz;
+        internal_generic::wav_convert_8bit(native.data(), sz * fmt.channels, fmt.type);
         convert(data, native.data(), fmt.type, sz * fmt.channels);
         return sz * fmt.channels;
     }
-- 
2.43.0


From 87180307f33f868e0258aaa39e4cf7b63731f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 056/106] fix: size of padding of W64 chunks

---
 src/io/dr/dr_wav.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/dr/dr_wav.h b/src/io/dr/dr_wav.h
index d3250f4..6dbf2e0 100644
--- a/src/io/dr/dr_wav.h
+++ b/src/io/dr/dr_wav.h
@@ -1498,7 +1498,7 @@ static unsigned int drwav__chunk_padding_size_riff(drwav_uint64 chunkSize)
 
 static unsigned int drwav__chunk_padding_size_w64(drwav_uint64 chunkSize)
 {
-    return (unsigned int)(chunkSize % 8);
+    return (unsigned int)((8 - chunkSize % 8) % 8);
 }
 
 drwav_uint64 drwav_read_pcm_frames_s16__msadpcm(drwav* pWav, drwav_uint64 samplesToRead, drwav_int16* pBufferOut);
-- 
2.43.0


From f4d3dc2af8f03c7de167601d37553c858fed16aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 057/106] fix: seek within WAV files whose last frame is
 incomplete

---
 src/io/dr/dr_wav.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/dr/dr_wav.h b/src/io/dr/dr_wav.h
index 6dbf2e0..61b7a23 100644
--- a/src/io/dr/dr_wav.h
+++ b/src/io/dr/dr_wav.h
@@ -2993,7 +2993,7 @@ drwav_bool32 drwav_seek_to_pcm_frame(drwav* pWav, drwav_uint64 targetFrameIndex)
         drwav_uint64 targetBytePos;
         drwav_uint64 offset;
 
-        totalSizeInBytes = pWav->totalPCMFrameCount * drwav_get_bytes_per_pcm_frame(pWav);
+        totalSizeInBytes = pWav->dataChunkDataSize;
         DRWAV_ASSERT(totalSizeInBytes >= pWav->bytesRemaining);
 
         currentBytePos = totalSizeInBytes - pWav->bytesRemaining;
-- 
2.43.0


From 8dfc834c091059101b156b777f8fa92379e9f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 058/106] fix: conversion of full-scale samples to i64
 overflows

---
 include/kfr/base/conversion.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/conversion.hpp b/include/kfr/base/conversion.hpp
index 32f1b80..4d8956a 100644
--- a/include/kfr/base/conversion.hpp
+++ b/include/kfr/base/conversion.hpp
@@ -153,7 +153,8 @@ struct audio_sample_traits<i32>
 template <>
 struct audio_sample_traits<i64>
 {
-    constexpr static f64 scale              = 9223372036854775807.0;
+    // largest f64 value that is less than 2^63, so the clamped value always fits into i64
+    constexpr static f64 scale              = 9223372036854774784.0;
     constexpr static audio_sample_type type = audio_sample_type::i64;
 };
 
-- 
2.43.0


From 70693fd9efd05ef99b9d20c66e285dafe0e54820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 059/106] fix: npy format of bool

---
 include/kfr/base/npy.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index 7971a24..75584d3 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -40,7 +40,11 @@ std::string_view npy_format()
 {
     using namespace cometa;
     static_assert(is_poweroftwo(sizeof(T)) && is_between(sizeof(T), 1, 16));
-    if constexpr (std::is_floating_point_v<T>)
+    if constexpr (std::is_same_v<T, bool>)
+    {
+        return "|b1";
+    }
+    else if constexpr (std::is_floating_point_v<T>)
     {
         const std::string_view fmts[] = { "|f1", "<f2", "<f4", "<f8" };
         static_assert(sizeof(T) <= 8);
@@ -64,10 +68,6 @@ std::string_view npy_format()
         static_assert(sizeof(T) <= 16);
         return fmts[ilog2(sizeof(T))];
     }
-    else if constexpr (std::is_same_v<T, bool>)
-    {
-        return "|b1";
-    }
     else
     {
         static_assert("Cannot save type to python");
-- 
2.43.0


From 9f541183c30a6c2e44eca450ffa7184fb17aaca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 060/106] fix: load_from_npy reports truncated data and
 unrepresentable shapes

---
 include/kfr/base/npy.hpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index 75584d3..d6a9c0e 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -242,13 +242,19 @@ inline bool npy_parse_bool(std::string_view& data, bool& content)
 }
 inline bool npy_parse_integer(std::string_view& data, index_t& content)
 {
-    const char* orig = data.data();
-    if (data[0] < '0' || data[0] > '9')
+    if (data.empty() || data[0] < '0' || data[0] > '9')
         return false;
 
-    while (data[0] >= '0' && data[0] <= '9')
+    uint64_t value = 0;
+    while (!data.empty() && data[0] >= '0' && data[0] <= '9')
+    {
+        const uint64_t digit = static_cast<uint64_t>(data[0] - '0');
+        if (value > (max_index_t - digit) / 10)
+            return false;
+        value = value * 10 + digit;
         data = data.substr(1);
-    content = std::stoll(std::string(orig, data.data() - orig));
+    }
+    content = static_cast<index_t>(value);
     return true;
 }
 inline bool npy_parse_shape(std::string_view& data, std::vector<index_t>& content)
@@ -467,12 +473,19 @@ npy_decode_result load_from_npy(tensor<T, Dims>& result, Fn&& read_callback)
 
     shape<Dims> sh;
     std::copy(hdr.shape.begin(), hdr.shape.end(), sh.begin());
-    if (sh.product() == 0)
-        return npy_decode_result::invalid_shape;
+    uint64_t total = 1;
+    for (index_t dim : sh)
+    {
+        // the size of the data must be representable
+        if (dim == 0 || total > max_index_t / sizeof(T) / dim)
+            return npy_decode_result::invalid_shape;
+        total *= dim;
+    }
 
     tensor<T, 1> buffer(shape<1>{ sh.product() });
 
-    rd(ctype<T>, buffer.data(), buffer.size());
+    if (!rd(ctype<T>, buffer.data(), buffer.size()))
+        return npy_decode_result::cannot_read;
     if (convert_endianness)
     {
         convert_endianess(buffer.data(), buffer.size());
-- 
2.43.0


From 3628c351b2af2ef86b4a78bbd5793b76a1d487f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 061/106] fix: npy header values with nested brackets, and
 spaces before commas

---
 include/kfr/base/npy.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index d6a9c0e..1c21f27 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -200,15 +200,18 @@ inline bool npy_skip_value(std::string_view& data, char close = '}', std::string
         case '(':
         case '[':
         case '{':
-            context += data[0];
+            context += data[0] == '(' ? ')' : data[0] == '[' ? ']' : '}';
+            data = data.substr(1);
             break;
         case ')':
         case ']':
         case '}':
             if (context.empty())
                 return data[0] == close;
-            if (context.back() == data[0])
-                context.pop_back();
+            if (context.back() != data[0])
+                return false;
+            context.pop_back();
+            data = data.substr(1);
             break;
         case ',':
             if (context.empty())
@@ -259,7 +262,7 @@ inline bool npy_parse_integer(std::string_view& data, index_t& content)
 }
 inline bool npy_parse_shape(std::string_view& data, std::vector<index_t>& content)
 {
-    if (data[0] != '(')
+    if (data.empty() || data[0] != '(')
         return false;
     data = data.substr(1);
     if (!npy_skip_whitespace(data))
@@ -323,13 +326,6 @@ inline bool npy_decode_field(std::string_view& data, npy_header& hdr)
     {
         return npy_skip_value(data);
     }
-
-    if (!npy_skip_whitespace(data))
-        return false;
-    if (data.empty() || data[0] != ',')
-        return false;
-    data = data.substr(1);
-    return true;
 }
 
 inline bool npy_decode_dict(std::string_view data, npy_header& hdr)
@@ -343,9 +339,11 @@ inline bool npy_decode_dict(std::string_view data, npy_header& hdr)
         {
             return false;
         }
+        if (!npy_skip_whitespace(data))
+            return false;
         if (data[0] == '}')
             return true;
-        if (data.empty() || data[0] != ',')
+        if (data[0] != ',')
             return false;
         data = data.substr(1);
         if (!npy_skip_whitespace(data))
-- 
2.43.0


From 65c4e8e4f9ab040865f46c65fc1b6700b8af7d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 062/106] fix: FLAC predictions that need more than 32 bits

---
 src/io/dr/dr_flac.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/io/dr/dr_flac.h b/src/io/dr/dr_flac.h
index a38abf9..5f651d0 100644
--- a/src/io/dr/dr_flac.h
+++ b/src/io/dr/dr_flac.h
@@ -4268,7 +4268,7 @@ static drflac_bool32 drflac__decode_samples_with_residual__unencoded(drflac_bs*
             pSamplesOut[i] = 0;
         }
 
-        if (bitsPerSample >= 24) {
+        if (bitsPerSample >= 24 || bitsPerSample+shift > 32) {
             pSamplesOut[i] += drflac__calculate_prediction_64(order, shift, coefficients, pSamplesOut + i);
         } else {
             pSamplesOut[i] += drflac__calculate_prediction_32(order, shift, coefficients, pSamplesOut + i);
@@ -4534,6 +4534,7 @@ static drflac_bool32 drflac__decode_samples__lpc(drflac_bs* bs, drflac_uint32 bl
     drflac_uint8 i;
     drflac_uint8 lpcPrecision;
     drflac_int8 lpcShift;
+    drflac_uint32 predictionBits;
     drflac_int32 coefficients[32];
 
     /* Warm up samples. */
@@ -4565,6 +4566,15 @@ static drflac_bool32 drflac__decode_samples__lpc(drflac_bs* bs, drflac_uint32 bl
         }
     }
 
+    /* The sum of products needs this many bits. 64-bit prediction is selected by bitsPerSample+shift > 32 below. */
+    predictionBits = bitsPerSample + lpcPrecision;
+    for (i = lpcOrder; i > 1; i >>= 1) {
+        predictionBits += 1;
+    }
+    if (predictionBits > 32 && lpcShift >= 0 && bitsPerSample + lpcShift <= 32) {
+        bitsPerSample = 33 - lpcShift;
+    }
+
     if (!drflac__decode_samples_with_residual(bs, bitsPerSample, blockSize, lpcOrder, lpcShift, coefficients, pDecodedSamples)) {
         return DRFLAC_FALSE;
     }
-- 
2.43.0


From 2e39eee72fb317a09b4142bb0ce8bcf04eacb1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 063/106] fix: MP3 samples of -1 read as 0 depending on the
 position in the read

---
 src/io/dr/dr_mp3.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/io/dr/dr_mp3.h b/src/io/dr/dr_mp3.h
index 98592e2..d2c30f3 100644
--- a/src/io/dr/dr_mp3.h
+++ b/src/io/dr/dr_mp3.h
@@ -2291,9 +2291,7 @@ void drmp3dec_f32_to_s16(const float *in, drmp3_int16 *out, int num_samples)
                 out[i] = (drmp3_int16)-32768;
             else
             {
-                short s = (drmp3_int16)(sample + .5f);
-                s -= (s < 0);   /* away from zero, to be compliant */
-                out[i] = s;
+                out[i] = (drmp3_int16)(sample < 0 ? sample - .5f : sample + .5f);   /* away from zero, as the vector code does for whole numbers */
             }
         }
     }
-- 
2.43.0


From 6ee0e5a7da4b224ce7cdc7778060112064912a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 064/106] fix: decoding of damaged MP3 frames uses
 uninitialised memory

---
 src/io/dr/dr_mp3.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/dr/dr_mp3.h b/src/io/dr/dr_mp3.h
index d2c30f3..96caf85 100644
--- a/src/io/dr/dr_mp3.h
+++ b/src/io/dr/dr_mp3.h
@@ -1222,7 +1222,7 @@ static void drmp3_L3_huffman(float *dst, drmp3_bs *bs, const drmp3_L3_gr_info *g
     int pairs_to_decode, np, bs_sh = (bs->pos & 7) - 8;
     bs_next_ptr += 4;
 
-    while (big_val_cnt > 0)
+    while (big_val_cnt > 0 && DRMP3_BSPOS <= layer3gr_limit)
     {
         int tab_num = gr_info->table_select[ireg];
         int sfb_cnt = gr_info->region_count[ireg++];
@@ -1264,7 +1264,7 @@ static void drmp3_L3_huffman(float *dst, drmp3_bs *bs, const drmp3_L3_gr_info *g
                     }
                     DRMP3_CHECK_BITS;
                 } while (--pairs_to_decode);
-            } while ((big_val_cnt -= np) > 0 && --sfb_cnt >= 0);
+            } while ((big_val_cnt -= np) > 0 && --sfb_cnt >= 0 && DRMP3_BSPOS <= layer3gr_limit);
         } else
         {
             do
@@ -1292,7 +1292,7 @@ static void drmp3_L3_huffman(float *dst, drmp3_bs *bs, const drmp3_L3_gr_info *g
                     }
                     DRMP3_CHECK_BITS;
                 } while (--pairs_to_decode);
-            } while ((big_val_cnt -= np) > 0 && --sfb_cnt >= 0);
+            } while ((big_val_cnt -= np) > 0 && --sfb_cnt >= 0 && DRMP3_BSPOS <= layer3gr_limit);
         }
     }
 
@@ -2152,6 +2152,9 @@ int drmp3dec_decode_frame(drmp3dec *dec, const unsigned char *mp3, int mp3_bytes
     drmp3_bs bs_frame[1];
     drmp3dec_scratch scratch;
 
+    /* A damaged frame can use main data or intensity positions that it does not contain. */
+    memset(&scratch, 0, sizeof(scratch));
+
     if (mp3_bytes > 4 && dec->header[0] == 0xff && drmp3_hdr_compare(dec->header, mp3))
     {
         frame_size = drmp3_hdr_frame_bytes(mp3, dec->free_format_bytes) + drmp3_hdr_padding(mp3);
-- 
2.43.0


From 871087cac48b4668647052be024c53d83ed5b825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:14 +0000
Subject: [PATCH 065/106] fix: seeking in damaged FLAC streams can run forever

---
 src/io/dr/dr_flac.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/io/dr/dr_flac.h b/src/io/dr/dr_flac.h
index 5f651d0..de16f6e 100644
--- a/src/io/dr/dr_flac.h
+++ b/src/io/dr/dr_flac.h
@@ -5077,6 +5077,10 @@ static drflac_bool32 drflac__read_and_decode_next_flac_frame(drflac* pFlac)
 
         return DRFLAC_TRUE;
     }
+
+    /* There are no decoded samples, so make sure that seeking backward within the frame is not attempted. */
+    DRFLAC_ZERO_MEMORY(&pFlac->currentFLACFrame, sizeof(pFlac->currentFLACFrame));
+    return DRFLAC_FALSE;
 }
 
 static void drflac__get_pcm_frame_range_of_current_flac_frame(drflac* pFlac, drflac_uint64* pFirstPCMFrame, drflac_uint64* pLastPCMFrame)
@@ -5281,6 +5285,8 @@ static drflac_bool32 drflac__seek_to_approximate_flac_frame_to_byte(drflac* pFla
     *pLastSuccessfulSeekOffset = pFlac->firstFLACFramePosInBytes;
 
     for (;;) {
+        drflac_uint64 lastTargetByte = targetByte;
+
         /* When seeking to a byte, failure probably means we've attempted to seek beyond the end of the stream. To counter this we just halve it each attempt. */
         if (!drflac__seek_to_byte(&pFlac->bs, targetByte)) {
             /* If we couldn't even seek to the first byte in the stream we have a problem. Just abandon the whole thing. */
@@ -5321,6 +5327,12 @@ static drflac_bool32 drflac__seek_to_approximate_flac_frame_to_byte(drflac* pFla
             }
 #endif
         }
+
+        if (targetByte == rangeLo && lastTargetByte == rangeLo) {
+            /* There is nothing left to try. */
+            drflac__seek_to_first_frame(pFlac); /* Try to recover. */
+            return DRFLAC_FALSE;
+        }
     }
 
     /* The current PCM frame needs to be updated based on the frame we just seeked to. */
@@ -5352,6 +5364,7 @@ static drflac_bool32 drflac__seek_to_pcm_frame__binary_search_internal(drflac* p
 {
     /* This assumes pFlac->currentPCMFrame is sitting on byteRangeLo upon entry. */
 
+    drflac_uint32 attempt;
     drflac_uint64 targetByte;
     drflac_uint64 pcmRangeLo = pFlac->totalPCMFrameCount;
     drflac_uint64 pcmRangeHi = 0;
@@ -5364,7 +5377,8 @@ static drflac_bool32 drflac__seek_to_pcm_frame__binary_search_internal(drflac* p
         targetByte = byteRangeHi;
     }
 
-    for (;;) {
+    /* A stream that lacks frames or has them out of order can keep the search from converging. */
+    for (attempt = 0; attempt < 64; attempt += 1) {
         if (drflac__seek_to_approximate_flac_frame_to_byte(pFlac, targetByte, byteRangeLo, byteRangeHi, &lastSuccessfulSeekOffset)) {
             /* We found a FLAC frame. We need to check if it contains the sample we're looking for. */
             drflac_uint64 newPCMRangeLo;
-- 
2.43.0


From 95c410727f2f94301d62a56bfadd4b78dda37834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:14 +0000
Subject: [PATCH 066/106] fix: reading of a number at the end of a FLAC stream
 consumes bits that do not exist

---
 src/io/dr/dr_flac.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/dr/dr_flac.h b/src/io/dr/dr_flac.h
index de16f6e..644be7f 100644
--- a/src/io/dr/dr_flac.h
+++ b/src/io/dr/dr_flac.h
@@ -1916,7 +1916,7 @@ static DRFLAC_INLINE drflac_bool32 drflac__read_uint32(drflac_bs* bs, unsigned i
     DRFLAC_ASSERT(bitCount > 0);
     DRFLAC_ASSERT(bitCount <= 32);
 
-    if (bs->consumedBits == DRFLAC_CACHE_L1_SIZE_BITS(bs)) {
+    if (bs->consumedBits >= DRFLAC_CACHE_L1_SIZE_BITS(bs)) {
         if (!drflac__reload_cache(bs)) {
             return DRFLAC_FALSE;
         }
@@ -1955,6 +1955,9 @@ static DRFLAC_INLINE drflac_bool32 drflac__read_uint32(drflac_bs* bs, unsigned i
         if (!drflac__reload_cache(bs)) {
             return DRFLAC_FALSE;
         }
+        if (bitCountLo > DRFLAC_CACHE_L1_BITS_REMAINING(bs)) {
+            return DRFLAC_FALSE;    /* The stream ends within the number. */
+        }
 
         *pResultOut = (resultHi << bitCountLo) | (drflac_uint32)DRFLAC_CACHE_L1_SELECT_AND_SHIFT(bs, bitCountLo);
         bs->consumedBits += bitCountLo;
-- 
2.43.0


From 23e87c37fb459c5b5e9863b921ad9711e8aa62d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:14 +0000
Subject: [PATCH 067/106] fix: decoding of damaged FLAC frames uses
 uninitialised memory

---
 src/io/dr/dr_flac.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/dr/dr_flac.h b/src/io/dr/dr_flac.h
index 644be7f..697d858 100644
--- a/src/io/dr/dr_flac.h
+++ b/src/io/dr/dr_flac.h
@@ -7307,6 +7307,11 @@ drflac* drflac_open_with_metadata_private(drflac_read_proc onRead, drflac_seek_p
 
 
     pFlac = (drflac*)drflac__malloc_from_callbacks(allocationSize, &allocationCallbacks);
+    if (pFlac == NULL) {
+        return NULL;
+    }
+    /* Damaged frames and seek tables can leave parts of this memory unset. */
+    DRFLAC_ZERO_MEMORY(pFlac, allocationSize);
     drflac__init_from_info(pFlac, &init);
     pFlac->allocationCallbacks = allocationCallbacks;
     pFlac->pDecodedSamples = (drflac_int32*)drflac_align((size_t)pFlac->pExtraData, DRFLAC_MAX_SIMD_VECTOR_SIZE);
-- 
2.43.0


From 1861885dbd360bb54e0a2827e690e005f1b17376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:14 +0000
Subject: [PATCH 068/106] fix: seeking from FLAC frames that are not decoded
 dereferences null

---
 src/io/dr/dr_flac.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/io/dr/dr_flac.h b/src/io/dr/dr_flac.h
index 697d858..fbc2749 100644
--- a/src/io/dr/dr_flac.h
+++ b/src/io/dr/dr_flac.h
@@ -5066,7 +5066,7 @@ static drflac_bool32 drflac__read_and_decode_next_flac_frame(drflac* pFlac)
         drflac_result result;
 
         if (!drflac__read_next_flac_frame_header(&pFlac->bs, pFlac->bitsPerSample, &pFlac->currentFLACFrame.header)) {
-            return DRFLAC_FALSE;
+            break;
         }
 
         result = drflac__decode_flac_frame(pFlac);
@@ -5074,7 +5074,7 @@ static drflac_bool32 drflac__read_and_decode_next_flac_frame(drflac* pFlac)
             if (result == DRFLAC_CRC_MISMATCH) {
                 continue;   /* CRC mismatch. Skip to the next frame. */
             } else {
-                return DRFLAC_FALSE;
+                break;
             }
         }
 
@@ -5257,6 +5257,8 @@ static drflac_bool32 drflac__seek_to_pcm_frame__brute_force(drflac* pFlac, drfla
 
             /* If we are seeking to the end of the file and we've just hit it, we're done. */
             if (pcmFrameIndex == pFlac->totalPCMFrameCount && runningPCMFrameCount == pFlac->totalPCMFrameCount) {
+                /* The last frame was skipped, not decoded. */
+                DRFLAC_ZERO_MEMORY(&pFlac->currentFLACFrame, sizeof(pFlac->currentFLACFrame));
                 return DRFLAC_TRUE;
             }
         }
@@ -5633,6 +5635,8 @@ static drflac_bool32 drflac__seek_to_pcm_frame__seek_table(drflac* pFlac, drflac
 
             /* If we are seeking to the end of the file and we've just hit it, we're done. */
             if (pcmFrameIndex == pFlac->totalPCMFrameCount && runningPCMFrameCount == pFlac->totalPCMFrameCount) {
+                /* The last frame was skipped, not decoded. */
+                DRFLAC_ZERO_MEMORY(&pFlac->currentFLACFrame, sizeof(pFlac->currentFLACFrame));
                 return DRFLAC_TRUE;
             }
         }
@@ -10301,19 +10305,19 @@ drflac_bool32 drflac_seek_to_pcm_frame(drflac* pFlac, drflac_uint64 pcmFrameInde
         /* If the target sample and the current sample are in the same frame we just move the position forward. */
         if (pcmFrameIndex > pFlac->currentPCMFrame) {
             /* Forward. */
-            drflac_uint32 offset = (drflac_uint32)(pcmFrameIndex - pFlac->currentPCMFrame);
+            drflac_uint64 offset = pcmFrameIndex - pFlac->currentPCMFrame;
             if (pFlac->currentFLACFrame.pcmFramesRemaining >  offset) {
-                pFlac->currentFLACFrame.pcmFramesRemaining -= offset;
+                pFlac->currentFLACFrame.pcmFramesRemaining -= (drflac_uint32)offset;
                 pFlac->currentPCMFrame = pcmFrameIndex;
                 return DRFLAC_TRUE;
             }
         } else {
             /* Backward. */
-            drflac_uint32 offsetAbs = (drflac_uint32)(pFlac->currentPCMFrame - pcmFrameIndex);
+            drflac_uint64 offsetAbs = pFlac->currentPCMFrame - pcmFrameIndex;
             drflac_uint32 currentFLACFramePCMFrameCount = pFlac->currentFLACFrame.header.blockSizeInPCMFrames;
             drflac_uint32 currentFLACFramePCMFramesConsumed = currentFLACFramePCMFrameCount - pFlac->currentFLACFrame.pcmFramesRemaining;
             if (currentFLACFramePCMFramesConsumed > offsetAbs) {
-                pFlac->currentFLACFrame.pcmFramesRemaining += offsetAbs;
+                pFlac->currentFLACFrame.pcmFramesRemaining += (drflac_uint32)offsetAbs;
                 pFlac->currentPCMFrame = pcmFrameIndex;
                 return DRFLAC_TRUE;
             }
@@ -10349,7 +10353,11 @@ drflac_bool32 drflac_seek_to_pcm_frame(drflac* pFlac, drflac_uint64 pcmFrameInde
             }
         }
 
-        pFlac->currentPCMFrame = pcmFrameIndex;
+        if (wasSuccessful) {
+            pFlac->currentPCMFrame = pcmFrameIndex;
+        } else {
+            drflac__seek_to_first_frame(pFlac); /* Leave the decoder in a valid state. */
+        }
         return wasSuccessful;
     }
 }
-- 
2.43.0


From c140fdd6cf7803c2dc134736020500d52e0874cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 069/106] fix: a tensor whose memory cannot be allocated throws
 std::bad_alloc

---
 include/kfr/base/tensor.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index 0ec3b14..3cfe541 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -184,7 +184,13 @@ public:
     {
     }
 
-    KFR_INTRINSIC static T* allocate(size_t size) { return aligned_allocate<T>(size, 64); }
+    KFR_INTRINSIC static T* allocate(size_t size)
+    {
+        T* ptr = aligned_allocate<T>(size, 64);
+        if (!ptr)
+            CMT_THROW(std::bad_alloc());
+        return ptr;
+    }
 
     KFR_INTRINSIC static void deallocate(T* ptr) { aligned_deallocate(ptr); }
 
-- 
2.43.0


From acc31ae128a8f2277f19a27309e0ae0a5369b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 070/106] fix: memory of a tensor allocated with strides that
 leave gaps is too small

---
 include/kfr/base/tensor.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index 3cfe541..06d2a81 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -210,7 +210,11 @@ public:
           m_is_contiguous(strides == internal_generic::strides_for_shape(shape)), m_shape(shape),
           m_strides(strides)
     {
-        T* ptr      = allocate(m_size);
+        // offset of the last element, strides may leave gaps
+        index_t extent = m_size ? 1 : 0;
+        for (index_t i = 0; i < dims && m_size; ++i)
+            extent += (shape[i] - 1) * strides[i];
+        T* ptr      = allocate(extent);
         m_data      = ptr;
         m_finalizer = make_memory_finalizer([ptr]() { deallocate(ptr); });
     }
-- 
2.43.0


From da81f89ddfdb693ca2a41c9376b337106d1ae1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 071/106] fix: tensor ranges with a zero step and the end
 before the start

---
 include/kfr/base/tensor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index 06d2a81..af4a0bf 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -461,7 +461,7 @@ public:
         if (tstep == 0)
         {
             start = tstart;
-            shape = tstop - tstart;
+            shape = std::max(tstop - tstart, signed_index_t(0));
             step  = 0;
         }
         else
-- 
2.43.0


From 8ddc8b4399e298fd06611878d0ab7829529da0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 072/106] fix: log of denormal numbers is NaN

---
 include/kfr/math/impl/log_exp.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index 57109b8..df40720 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -65,8 +65,9 @@ KFR_INTRINSIC vec<f32, N> vldexpk(const vec<f32, N>& x, const vec<i32, N>& q)
     m                    = (((m + q) >> 6) - m) << 4;
     const vec<i32, N> qq = q - (m << 2);
     m                    = clamp(m + 0x7f, vec<i32, N>(0xff));
-    vec<f32, N> u        = pow4(bitcast<f32>(broadcastto<i32>(m) << 23));
-    return x * u * bitcast<f32>((broadcastto<i32>(qq + 0x7f)) << 23);
+    const vec<f32, N> u  = bitcast<f32>(broadcastto<i32>(m) << 23);
+    // u to the fourth power could overflow where the result does not
+    return x * u * u * u * u * bitcast<f32>((broadcastto<i32>(qq + 0x7f)) << 23);
 }
 
 template <size_t N>
@@ -76,8 +77,9 @@ KFR_INTRINSIC vec<f64, N> vldexpk(const vec<f64, N>& x, const vec<i64, N>& q)
     m                    = (((m + q) >> 9) - m) << 7;
     const vec<i64, N> qq = q - (m << 2);
     m                    = clamp(m + 0x3ff, i64(0x7ff));
-    vec<f64, N> u        = pow4(bitcast<f64>(broadcastto<i64>(m) << 52));
-    return x * u * bitcast<f64>((broadcastto<i64>(qq + 0x3ff)) << 52);
+    const vec<f64, N> u  = bitcast<f64>(broadcastto<i64>(m) << 52);
+    // u to the fourth power could overflow where the result does not
+    return x * u * u * u * u * bitcast<f64>((broadcastto<i64>(qq + 0x3ff)) << 52);
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 4e3112c48642b0edea03b1d3e86d3903f0386c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 073/106] fix: log of infinity and NaN

---
 include/kfr/math/impl/log_exp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index df40720..197d268 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -97,7 +97,7 @@ KFR_INTRINSIC vec<f32, N> log(const vec<f32, N>& d)
     vec<f32, N> x  = (m - 1.0f) / (m + 1.0f);
     vec<f32, N> x2 = x * x;
 
-    vec<f32, N> sp = select(d < 0, constants<f32>::qnan, constants<f32>::neginfinity);
+    vec<f32, N> sp = select(d == 0, constants<f32>::neginfinity, constants<f32>::qnan);
 
     vec<f32, N> t;
     t = fmadd(0.2371599674224853515625f, x2, 0.285279005765914916992188f);
@@ -107,6 +107,7 @@ KFR_INTRINSIC vec<f32, N> log(const vec<f32, N>& d)
 
     x = x * t + c_log_2<f32> * broadcastto<f32>(e);
     x = select(d > 0, x, sp);
+    x = select(d == constants<f32>::infinity, d, x);
 
     return x;
 }
@@ -120,7 +121,7 @@ KFR_INTRINSIC vec<f64, N> log(const vec<f64, N>& d)
     vec<f64, N> x  = (m - 1.0) / (m + 1.0);
     vec<f64, N> x2 = x * x;
 
-    vec<f64, N> sp = select(d < 0, constants<f64>::qnan, constants<f64>::neginfinity);
+    vec<f64, N> sp = select(d == 0, constants<f64>::neginfinity, constants<f64>::qnan);
 
     vec<f64, N> t;
     t = fmadd(0.148197055177935105296783, x2, 0.153108178020442575739679);
@@ -133,6 +134,7 @@ KFR_INTRINSIC vec<f64, N> log(const vec<f64, N>& d)
 
     x = x * t + constants<f64>::log_2 * broadcastto<f64>(e);
     x = select(d > 0, x, sp);
+    x = select(d == constants<f64>::infinity, d, x);
 
     return x;
 }
-- 
2.43.0


From d41c4c7845edc6f03f2700ab10e0755f42dda7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 074/106] fix: exp of very large and infinite numbers

---
 include/kfr/math/impl/log_exp.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index 197d268..92d2870 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -178,7 +178,9 @@ KFR_INTRINSIC vec<f32, N> exp(const vec<f32, N>& d)
     u = s * s * u + s + 1.0f;
     u = vldexpk(u, q);
 
-    u = select(d == constants<f32>::neginfinity, 0.f, u);
+    // far beyond the range of the result (q does not hold these exponents)
+    u = select(d < -200.f, 0.f, u);
+    u = select(d > 200.f, constants<f32>::infinity, u);
 
     return u;
 }
@@ -219,7 +221,9 @@ KFR_INTRINSIC vec<f64, N> exp(const vec<f64, N>& d)
     u = s * s * u + s + 1.0;
     u = vldexpk(u, q);
 
-    u = select(d == constants<f64>::neginfinity, 0.0, u);
+    // far beyond the range of the result (q does not hold these exponents)
+    u = select(d < -1000.0, 0.0, u);
+    u = select(d > 1000.0, constants<f64>::infinity, u);
 
     return u;
 }
-- 
2.43.0


From df848cdc592a703daa8bceac1df61aafb14a2560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 075/106] fix: exp of large numbers in double precision loses
 accuracy

---
 include/kfr/math/impl/log_exp.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index 92d2870..fe3c602 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -188,8 +188,9 @@ KFR_INTRINSIC vec<f32, N> exp(const vec<f32, N>& d)
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> exp(const vec<f64, N>& d)
 {
-    const f64 ln2_part1 = 0.69314717501401901245;
-    const f64 ln2_part2 = 5.545926273775592108e-009;
+    // the product of the first part and an exponent is exact
+    const f64 ln2_part1 = 0.69314718055966295651160180568695068359375;
+    const f64 ln2_part2 = .28235290563031577122588448175013436025525412068e-12;
 
     vec<i64, N> q = broadcastto<i64>(floor(d * constants<f64>::recip_log_2));
     vec<f64, N> s, u;
-- 
2.43.0


From 1b52ea5eb1856804a6cf456a88c5262e716e38db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 076/106] fix: logb of negative numbers

---
 include/kfr/math/impl/log_exp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index fe3c602..a4e54cc 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -85,7 +85,7 @@ KFR_INTRINSIC vec<f64, N> vldexpk(const vec<f64, N>& x, const vec<i64, N>& q)
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> logb(const vec<T, N>& x)
 {
-    return select(x == T(), -c_infinity<T>, static_cast<vec<T, N>>(vilogbp1(x) - 1));
+    return select(x == T(), -c_infinity<T>, static_cast<vec<T, N>>(vilogbp1(abs(x)) - 1));
 }
 
 template <size_t N>
-- 
2.43.0


From 5ed7177d92e0e45b69844b5e7d3120e513858961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 077/106] fix: zero to the power of zero and of negative
 numbers

---
 include/kfr/math/impl/log_exp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index a4e54cc..cac1e5c 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -245,9 +245,11 @@ KFR_INTRINSIC vec<T, N> pow(const vec<T, N>& a, const vec<T, N>& b)
     const vec<T, N> t       = exp(b * log(abs(a)));
     const mask<T, N> isint  = floor(b) == b;
     const mask<T, N> iseven = (broadcastto<itype<T>>(b) & 1) == 0;
+    const vec<T, N> zero =
+        select(b == T(), T(1), select(b < T(), broadcast<N>(constants<T>::infinity), T()));
     return select(
         a > T(), t,
-        select(a == T(), T(), select(isint, select(iseven, t, -t), broadcast<N>(constants<T>::qnan))));
+        select(a == T(), zero, select(isint, select(iseven, t, -t), broadcast<N>(constants<T>::qnan))));
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 6210a1462f408d4d013010e64b85233e8dc33976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 078/106] fix: atan2 of infinite numbers and negative zero

---
 include/kfr/math/impl/atan.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/math/impl/atan.hpp b/include/kfr/math/impl/atan.hpp
index 9a783b4..9e8e562 100644
--- a/include/kfr/math/impl/atan.hpp
+++ b/include/kfr/math/impl/atan.hpp
@@ -111,8 +111,8 @@ KFR_INTRINSIC vec<f32, N> atan2(const vec<f32, N>& y, const vec<f32, N>& x)
     constexpr f32 pi_over_2 = 1.5707963267948966192313216916398f;
     constexpr f32 pi_over_4 = 0.78539816339744830961566084581988f;
     r                       = mulsign(r, x);
-    r = select(isinf(x) || x == 0.0f, pi_over_2 - select(x.asmask(), mulsign(pi_over_2, x), 0.0f), r);
-    r = select(isinf(y), pi_over_2 - select(x.asmask(), mulsign(pi_over_4, x), 0.0f), r);
+    r = select(isinf(x) || x == 0.0f, pi_over_2 - select(isinf(x), mulsign(pi_over_2, x), 0.0f), r);
+    r = select(isinf(y), pi_over_2 - select(isinf(x), mulsign(pi_over_4, x), 0.0f), r);
     r = select(y == 0.0f, select(x < 0.f, pi, 0.f), r);
     r = (isnan(x) || isnan(y)).asvec() | mulsign(r, y);
     return r;
@@ -126,8 +126,8 @@ KFR_INTRINSIC vec<f64, N> atan2(const vec<f64, N>& y, const vec<f64, N>& x)
     constexpr f64 pi_over_2 = 1.5707963267948966192313216916398;
     constexpr f64 pi_over_4 = 0.78539816339744830961566084581988;
     r                       = mulsign(r, x);
-    r = select(isinf(x) || x == 0.0, pi_over_2 - select(x.asmask(), mulsign(pi_over_2, x), 0.0), r);
-    r = select(isinf(y), pi_over_2 - select(x.asmask(), mulsign(pi_over_4, x), 0.0), r);
+    r = select(isinf(x) || x == 0.0, pi_over_2 - select(isinf(x), mulsign(pi_over_2, x), 0.0), r);
+    r = select(isinf(y), pi_over_2 - select(isinf(x), mulsign(pi_over_4, x), 0.0), r);
     r = select(y == 0.0, select(x < 0., pi, 0.), r);
     r = (isnan(x) || isnan(y)).asvec() | mulsign(r, y);
     return r;
-- 
2.43.0


From 32a9fea8cb1fd58d9a66f5e56ae58576e01d041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 079/106] fix: fastcos does not compile

---
 include/kfr/math/impl/sin_cos.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/kfr/math/impl/sin_cos.hpp b/include/kfr/math/impl/sin_cos.hpp
index 7065169..3b104f3 100644
--- a/include/kfr/math/impl/sin_cos.hpp
+++ b/include/kfr/math/impl/sin_cos.hpp
@@ -215,9 +215,9 @@ KFR_INTRINSIC vec<T, N> fastsin(const vec<T, N>& x)
 template <typename T, size_t N, KFR_ENABLE_IF(is_f_class<T>)>
 KFR_INTRINSIC vec<T, N> fastcos(const vec<T, N>& x)
 {
-    x += c_pi<T, 1, 2>;
-    x = select(x >= c_pi<T, 2>, x - c_pi<T, 2>, x);
-    return fastsin(x);
+    vec<T, N> xx = x + c_pi<T, 1, 2>;
+    xx           = select(xx >= c_pi<T, 2>, xx - c_pi<T, 2>, xx);
+    return fastsin(xx);
 }
 
 template <typename T, size_t N, KFR_ENABLE_IF(N > 1 && is_f_class<T>)>
-- 
2.43.0


From a2d4b5866685739a0367fe04204a14c057f73108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 080/106] fix: cubic and Catmull-Rom interpolation use the
 coefficients in reverse

---
 include/kfr/math/interpolation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/interpolation.hpp b/include/kfr/math/interpolation.hpp
index 180a4a3..4f80dd6 100644
--- a/include/kfr/math/interpolation.hpp
+++ b/include/kfr/math/interpolation.hpp
@@ -78,7 +78,7 @@ KFR_FUNCTION T cubic(M mu, T x0, T x1, T x2, T x3)
     const T a1 = x0 - x1 - a0;
     const T a2 = x2 - x0;
     const T a3 = x1;
-    return horner(mu, a0, a1, a2, a3);
+    return horner(mu, a3, a2, a1, a0);
 }
 
 /**
@@ -93,7 +93,7 @@ KFR_FUNCTION T catmullrom(M mu, T x0, T x1, T x2, T x3)
     const T a1 = x0 - T(2.5) * x1 + T(2) * x2 - T(0.5) * x3;
     const T a2 = T(0.5) * (x2 - x0);
     const T a3 = x1;
-    return horner(mu, a0, a1, a2, a3);
+    return horner(mu, a3, a2, a1, a0);
 }
 
 } // namespace CMT_ARCH_NAME
-- 
2.43.0


From b9ce95bc19cdecdde1137d7bd04f4be4f2b16a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 081/106] fix: compile-time sine of negative numbers

---
 include/kfr/math/compiletime.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kfr/math/compiletime.hpp b/include/kfr/math/compiletime.hpp
index 83280cd..e890f98 100644
--- a/include/kfr/math/compiletime.hpp
+++ b/include/kfr/math/compiletime.hpp
@@ -58,6 +58,7 @@ template <typename T>
 constexpr inline T sin(T x)
 {
     x              = x - trunc(x / c_pi<T, 2>) * c_pi<T, 2>;
+    x              = select(x < T(), x + c_pi<T, 2>, x);
     constexpr T c2 = -0.16665853559970855712890625;
     constexpr T c4 = +8.31427983939647674560546875e-3;
     constexpr T c6 = -1.85423981747590005397796630859375e-4;
-- 
2.43.0


From 0f5f3b8f28087560ecdba18d59dadcd8c52f6a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:08 +0000
Subject: [PATCH 082/106] fix: exp of NaN known at compile time is a number

---
 include/kfr/math/impl/log_exp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index cac1e5c..ee93082 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -181,6 +181,7 @@ KFR_INTRINSIC vec<f32, N> exp(const vec<f32, N>& d)
     // far beyond the range of the result (q does not hold these exponents)
     u = select(d < -200.f, 0.f, u);
     u = select(d > 200.f, constants<f32>::infinity, u);
+    u = select(d == d, u, d);
 
     return u;
 }
@@ -225,6 +226,7 @@ KFR_INTRINSIC vec<f64, N> exp(const vec<f64, N>& d)
     // far beyond the range of the result (q does not hold these exponents)
     u = select(d < -1000.0, 0.0, u);
     u = select(d > 1000.0, constants<f64>::infinity, u);
+    u = select(d == d, u, d);
 
     return u;
 }
-- 
2.43.0


From 0746637d09b9c4f049c79c1ff1e9b34deb1aa39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:34 +0000
Subject: [PATCH 083/106] fix: sine, cosine and tangent of NaN and infinity
 known at compile time are numbers

---
 include/kfr/math/impl/sin_cos.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/math/impl/sin_cos.hpp b/include/kfr/math/impl/sin_cos.hpp
index 3b104f3..843a1cb 100644
--- a/include/kfr/math/impl/sin_cos.hpp
+++ b/include/kfr/math/impl/sin_cos.hpp
@@ -62,7 +62,9 @@ KFR_INTRINSIC vec<T, N> trig_fold(const vec<T, N>& x, vec<itype<T>, N>& quadrant
     const vec<T, N> xabs = abs(x);
     constexpr T div      = constants<T>::fold_constant_div;
     vec<T, N> y          = floor(xabs / div);
-    quadrant             = broadcastto<itype<T>>(broadcastto<int>(y - floor(y * T(1.0 / 16.0)) * T(16.0)));
+    const vec<T, N> q    = y - floor(y * T(1.0 / 16.0)) * T(16.0);
+    // NaN (as q is for infinite angles too) has no integer value
+    quadrant = broadcastto<itype<T>>(broadcastto<int>(select(q == q, q, T(0))));
 
     const vec<itype<T>, N> odd = (quadrant & 1);
     quadrant                   = (quadrant + odd) & itype<T>(7);
-- 
2.43.0


From 9d98e41c6a24af1c2ac45fe4d58e0c1b4187cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:26 +0000
Subject: [PATCH 084/106] fix: floor, ceil, round and trunc of large numbers
 known at compile time on SSE2

---
 include/kfr/simd/impl/round.hpp | 36 ++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/kfr/simd/impl/round.hpp b/include/kfr/simd/impl/round.hpp
index b4c01a2..ea62aa0 100644
--- a/include/kfr/simd/impl/round.hpp
+++ b/include/kfr/simd/impl/round.hpp
@@ -137,55 +137,59 @@ constexpr inline T fp_precision_limit = 4503599627370496.0;
 template <>
 constexpr inline f32 fp_precision_limit<f32> = 16777216.0f;
 
+template <size_t N>
+KFR_INTRINSIC vec<f32, N> trunc(const vec<f32, N>& x)
+{
+    // greater numbers, infinity and NaN have no i32 value
+    const mask<f32, N> m = abs(x) < fp_precision_limit<f32>;
+    return select(m, broadcastto<f32>(broadcastto<i32>(select(m, x, 0))), x);
+}
+template <size_t N>
+KFR_INTRINSIC vec<f64, N> trunc(const vec<f64, N>& x)
+{
+    // greater numbers, infinity and NaN have no i64 value
+    const mask<f64, N> m = abs(x) < fp_precision_limit<f64>;
+    return select(m, broadcastto<f64>(broadcastto<i64>(select(m, x, 0))), x);
+}
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> floor(const vec<f32, N>& x)
 {
-    vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
+    vec<f32, N> t = trunc(x);
     return select(abs(x) < fp_precision_limit<f32>, t - select(x < t, 1.f, 0.f), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> floor(const vec<f64, N>& x)
 {
-    vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
+    vec<f64, N> t = trunc(x);
     return select(abs(x) < fp_precision_limit<f64>, t - select(x < t, 1., 0.), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> ceil(const vec<f32, N>& x)
 {
-    vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
+    vec<f32, N> t = trunc(x);
     return select(abs(x) < fp_precision_limit<f32>, t + select(x > t, 1.f, 0.f), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> ceil(const vec<f64, N>& x)
 {
-    vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
+    vec<f64, N> t = trunc(x);
     return select(abs(x) < fp_precision_limit<f64>, t + select(x > t, 1., 0.), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> round(const vec<f32, N>& x)
 {
-    vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
+    vec<f32, N> t = trunc(x);
     return select(abs(x) < fp_precision_limit<f32>,
                   t + select(abs(x - t) >= 0.5f, mulsign(broadcast<N>(1.f), x), 0.f), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> round(const vec<f64, N>& x)
 {
-    vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
+    vec<f64, N> t = trunc(x);
     return select(abs(x) < fp_precision_limit<f64>,
                   t + select(abs(x - t) >= 0.5, mulsign(broadcast<N>(1.), x), 0.), x);
 }
 template <size_t N>
-KFR_INTRINSIC vec<f32, N> trunc(const vec<f32, N>& x)
-{
-    return select(abs(x) < fp_precision_limit<f32>, broadcastto<f32>(broadcastto<i32>(x)), x);
-}
-template <size_t N>
-KFR_INTRINSIC vec<f64, N> trunc(const vec<f64, N>& x)
-{
-    return select(abs(x) < fp_precision_limit<f64>, broadcastto<f64>(broadcastto<i64>(x)), x);
-}
-template <size_t N>
 KFR_INTRINSIC vec<f32, N> fract(const vec<f32, N>& x)
 {
     return x - floor(x);
-- 
2.43.0


From d25cb1894a9e0be22e3ebadede272a113dcadc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 085/106] fix: cartesian multiplies by a complex number instead
 of the magnitude

---
 include/kfr/math/complex_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/math/complex_math.hpp b/include/kfr/math/complex_math.hpp
index d03acb4..7ae740e 100644
--- a/include/kfr/math/complex_math.hpp
+++ b/include/kfr/math/complex_math.hpp
@@ -122,7 +122,7 @@ KFR_INTRINSIC vec<complex<T>, N> polar(const vec<complex<T>, N>& x)
 template <typename T, size_t N>
 KFR_INTRINSIC vec<complex<T>, N> cartesian(const vec<complex<T>, N>& x)
 {
-    return cdupreal(x) * ccomp(cossin(cdecom(cdupimag(x))));
+    return ccomp(cdecom(cdupreal(x)) * cossin(cdecom(cdupimag(x))));
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 21eb778d35e26d07809487df27224f5fc9cf4d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 086/106] fix: csqrt of zero is NaN

---
 include/kfr/math/complex_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/math/complex_math.hpp b/include/kfr/math/complex_math.hpp
index 7ae740e..e767752 100644
--- a/include/kfr/math/complex_math.hpp
+++ b/include/kfr/math/complex_math.hpp
@@ -136,7 +136,7 @@ template <typename T, size_t N>
 KFR_INTRINSIC vec<complex<T>, N> csqrt(const vec<complex<T>, N>& x)
 {
     const vec<T, N> s        = sqrt((abs(real(x)) + cabs(x)) * 0.5);
-    const vec<T, N> d        = abs(imag(x)) * 0.5 / s;
+    const vec<T, N> d        = select(s == T(0), T(0), abs(imag(x)) * 0.5 / s);
     const mask<T, N> posreal = real(x) >= T(0);
     const vec<T, N> imagsign = imag(x) & special_constants<T>::highbitmask();
     return make_complex(select(posreal, s, d), select(posreal, d ^ imagsign, s ^ imagsign));
-- 
2.43.0


From e5d4abb5c21886f46357ec3c7fbaa503bb58b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 087/106] fix: expressions of uniform random values do not
 compile or convert to ranges of zero width

---
 include/kfr/base/random.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index 72295a8..00d708c 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -154,7 +154,7 @@ struct expression_random_uniform : expression_traits_defaults
     friend KFR_INTRINSIC vec<T, N> get_elements(const expression_random_uniform& self, shape<Dims>,
                                                 axis_params<VecAxis, N>)
     {
-        return random_uniform<N, T>(*self.state);
+        return random_uniform<T, N>(*self.state);
     }
 };
 
@@ -218,7 +218,7 @@ KFR_FUNCTION expression_random_uniform<T, Dims> gen_random_uniform(const random_
  * Use std::ref(gen) to use this overload.
  */
 template <typename T, index_t Dims = 1>
-KFR_FUNCTION expression_random_range<T, Dims, true> gen_random_uniform(
+KFR_FUNCTION expression_random_uniform<T, Dims, true> gen_random_uniform(
     std::reference_wrapper<random_state> state)
 {
     return { {}, state };
@@ -227,9 +227,9 @@ KFR_FUNCTION expression_random_range<T, Dims, true> gen_random_uniform(
 #ifndef KFR_DISABLE_READCYCLECOUNTER
 /// @brief Returns expression that produces uniform pseudorandom values using cycle counter entropy.
 template <typename T, index_t Dims = 1>
-KFR_FUNCTION expression_random_range<T, Dims> gen_random_uniform()
+KFR_FUNCTION expression_random_uniform<T, Dims> gen_random_uniform()
 {
-    return expression_random_uniform<T, Dims>{ random_init() };
+    return { {}, random_init() };
 }
 #endif
 
-- 
2.43.0


From 7c8d363a855af27bc6d1532a11908c9ed51535f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 088/106] fix: random integers ignore the lower bound of the
 range

---
 include/kfr/base/random.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index 00d708c..ffc4609 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -104,11 +104,15 @@ KFR_INTRINSIC vec<T, N> random_range(random_state& state, T min, T max)
 template <size_t N, typename T, KFR_ENABLE_IF(!is_f_class<T>)>
 KFR_INTRINSIC vec<T, N> random_range(random_state& state, T min, T max)
 {
-    using big_type = findinttype<sqr(std::numeric_limits<T>::min()), sqr(std::numeric_limits<T>::max())>;
-
-    vec<T, N> u                = random_uniform<T, N>(state);
-    const vec<big_type, N> tmp = u;
-    return (tmp * (max - min) + min) >> typebits<T>::bits;
+    static_assert(sizeof(T) <= 4, "random_range requires integers of up to 32 bits");
+    using uint_type = std::make_unsigned_t<T>;
+    using big_type  = unsigned_type<typebits<T>::bits * 2>;
+
+    // The difference of any two values of type T fits into the unsigned type
+    const big_type range       = static_cast<uint_type>(static_cast<uint_type>(max) - static_cast<uint_type>(min));
+    const vec<big_type, N> tmp = broadcastto<big_type>(random_uniform<uint_type, N>(state));
+    const vec<uint_type, N> offset = broadcastto<uint_type>((tmp * range) >> typebits<T>::bits);
+    return bitcast<T>(offset + static_cast<uint_type>(min));
 }
 
 /**
-- 
2.43.0


From 3998d4a9df9c0de3d7a9baa60a369ea388945371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 089/106] fix: normally distributed random values are infinite
 when the uniform value is zero

---
 include/kfr/base/random.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index ffc4609..e5d11c9 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -136,7 +136,8 @@ KFR_INTRINSIC vec<T, N> random_normal(random_state& state, T mu, T sigma)
 
     vec<T, M> u = random_uniform<T, M>(state);
 
-    vec<T, M / 2> mag = sigma * sqrt(T(-2.0) * log(even(u)));
+    // u is in [0, 1), so the argument of the logarithm is in (0, 1]
+    vec<T, M / 2> mag = sigma * sqrt(T(-2.0) * log(T(1.0) - even(u)));
     vec<T, M> z       = dup(mag) * cossin(c_pi<T, 2> * dupodd(u)) + mu;
     return slice<0, N>(z);
 }
-- 
2.43.0


From a92914005615927c3f93f1bb72fae39e0ae72149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 090/106] fix: inline vectors of different sizes compare equal

---
 include/kfr/base/inline_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/inline_vector.hpp b/include/kfr/base/inline_vector.hpp
index b559c2f..9be468c 100644
--- a/include/kfr/base/inline_vector.hpp
+++ b/include/kfr/base/inline_vector.hpp
@@ -121,7 +121,7 @@ struct inline_vector
 
     constexpr bool operator==(const inline_vector& other) const
     {
-        return std::equal(begin(), end(), other.begin());
+        return std::equal(begin(), end(), other.begin(), other.end());
     }
     constexpr bool operator!=(const inline_vector& other) const { return !operator==(other); }
 
-- 
2.43.0


From ebe884b01b7aa5393b3434956ff0e303240dad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 091/106] fix: small_buffer writes to a null pointer when
 memory is exhausted

---
 include/kfr/base/small_buffer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kfr/base/small_buffer.hpp b/include/kfr/base/small_buffer.hpp
index 4633774..ef54c33 100644
--- a/include/kfr/base/small_buffer.hpp
+++ b/include/kfr/base/small_buffer.hpp
@@ -76,6 +76,8 @@ public:
         else
         {
             m_newdata = aligned_allocate<T>(newsize);
+            if (!m_newdata)
+                CMT_THROW(std::bad_alloc());
         }
         if (m_newdata != m_data)
         {
-- 
2.43.0


From 88f7fe8aa987b6b8fafd030c7c5ec24d59a85889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 092/106] fix: small_buffer::push_back of an element of the
 buffer reads freed memory

---
 include/kfr/base/small_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/small_buffer.hpp b/include/kfr/base/small_buffer.hpp
index ef54c33..0ab88fc 100644
--- a/include/kfr/base/small_buffer.hpp
+++ b/include/kfr/base/small_buffer.hpp
@@ -108,8 +108,9 @@ public:
     const T& operator[](std::size_t i) const { return m_data[i]; }
     void push_back(const T& value)
     {
+        T copy = value; // value may be an element of this buffer
         resize(m_size + 1);
-        m_data[m_size - 1] = value;
+        m_data[m_size - 1] = std::move(copy);
     }
 
 protected:
-- 
2.43.0


From 4ee8055f507cd42dae275d073ad8b72a31f57e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 093/106] fix: aligned_allocate returns a short block when the
 size in bytes overflows

---
 include/kfr/cometa/memory.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index cdebb4e..98111a2 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -130,12 +130,22 @@ inline void* aligned_reallocate(void* ptr, size_t new_size, size_t alignment)
 
 constexpr inline size_t default_memory_alignment = 64;
 
+namespace details
+{
+/// @brief Size in bytes of n elements, or SIZE_MAX (which is never allocated) if it cannot be represented
+template <typename T>
+constexpr size_t allocation_size(size_t n)
+{
+    return n > SIZE_MAX / elementsize<T>() ? SIZE_MAX : n * elementsize<T>();
+}
+} // namespace details
+
 /// @brief Allocates aligned memory
 template <typename T = void, size_t alignment = default_memory_alignment>
 CMT_INTRINSIC T* aligned_allocate(size_t size = 1)
 {
     T* ptr = static_cast<T*>(CMT_ASSUME_ALIGNED(
-        details::aligned_malloc(std::max(alignment, size * details::elementsize<T>()), alignment),
+        details::aligned_malloc(std::max(alignment, details::allocation_size<T>(size)), alignment),
         alignment));
     return ptr;
 }
@@ -144,7 +154,7 @@ template <typename T = void>
 CMT_INTRINSIC T* aligned_allocate(size_t size, size_t alignment)
 {
     T* ptr = static_cast<T*>(CMT_ASSUME_ALIGNED(
-        details::aligned_malloc(std::max(alignment, size * details::elementsize<T>()), alignment),
+        details::aligned_malloc(std::max(alignment, details::allocation_size<T>(size)), alignment),
         alignment));
     return ptr;
 }
-- 
2.43.0


From 3857f375fc6f1cf7b0cfa5b429047f8ff560c66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:14 +0000
Subject: [PATCH 094/106] fix: formatted values represented by strings read
 freed memory

---
 include/kfr/cometa/string.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/kfr/cometa/string.hpp b/include/kfr/cometa/string.hpp
index d91371c..92a96d9 100644
--- a/include/kfr/cometa/string.hpp
+++ b/include/kfr/cometa/string.hpp
@@ -250,6 +250,17 @@ struct representation
     static constexpr auto get(const T& value) CMT_NOEXCEPT { return details::pack_value(value); }
 };
 
+template <typename T, char t, int width, int prec>
+struct representation<fmt_t<T, t, width, prec>>
+{
+    using type = fmt_t<T, t, width, prec>;
+    // may return std::string which has to outlive the call that uses its characters
+    static constexpr auto get(const fmt_t<T, t, width, prec>& value)
+    {
+        return representation<T>::get(value.value);
+    }
+};
+
 template <char t, int width = -1, int prec = -1, typename T>
 CMT_INLINE fmt_t<T, t, width, prec> fmt(const T& value)
 {
-- 
2.43.0


From e364dcf1b0362023a5cc3c60b45f7ad650d3090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:14 +0000
Subject: [PATCH 095/106] fix: _format and _print take the size or the text
 from the name of the type

---
 include/kfr/cometa/string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kfr/cometa/string.hpp b/include/kfr/cometa/string.hpp
index 92a96d9..81b7d5b 100644
--- a/include/kfr/cometa/string.hpp
+++ b/include/kfr/cometa/string.hpp
@@ -302,7 +302,8 @@ struct format_t
         constexpr auto format_str = build_fmt_str(cchars_t<chars...>(), ctypes_t<repr_type<Args>...>());
 
         std::string result;
-        const int size = std::snprintf(nullptr, 0, format_str.data(), details::pack_value(args)...);
+        const int size = std::snprintf(nullptr, 0, format_str.data(),
+                                       details::pack_value(representation<Args>::get(args))...);
         if (size <= 0)
             return result;
         result.resize(size_t(size + 1));
@@ -320,7 +321,7 @@ struct print_t
     {
         constexpr auto format_str = build_fmt_str(cchars_t<chars...>(), ctypes_t<repr_type<Args>...>());
 
-        std::printf(format_str.data(), details::pack_value(args)...);
+        std::printf(format_str.data(), details::pack_value(representation<Args>::get(args))...);
     }
 };
 
-- 
2.43.0


From 84f164f6c8c3c61ec9ea4c6c6c98fb2b500115df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:57 +0000
Subject: [PATCH 096/106] fix: restore the constants of exp in double precision
 that exp2, cbrt and gamma are tuned for

---
 include/kfr/math/impl/log_exp.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index ee93082..6d7ca61 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -189,9 +189,8 @@ KFR_INTRINSIC vec<f32, N> exp(const vec<f32, N>& d)
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> exp(const vec<f64, N>& d)
 {
-    // the product of the first part and an exponent is exact
-    const f64 ln2_part1 = 0.69314718055966295651160180568695068359375;
-    const f64 ln2_part2 = .28235290563031577122588448175013436025525412068e-12;
+    const f64 ln2_part1 = 0.69314717501401901245;
+    const f64 ln2_part2 = 5.545926273775592108e-009;
 
     vec<i64, N> q = broadcastto<i64>(floor(d * constants<f64>::recip_log_2));
     vec<f64, N> s, u;
-- 
2.43.0


From 0e29613165830ab46e468b12f4d6ec27d0ab41ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:49 +0000
Subject: [PATCH 097/106] fix: apply a filter to handles and expressions of any
 kind, longer than the destination or not

---
 include/kfr/base/filter.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/filter.hpp b/include/kfr/base/filter.hpp
index 3a662b6..4730198 100644
--- a/include/kfr/base/filter.hpp
+++ b/include/kfr/base/filter.hpp
@@ -80,25 +80,30 @@ public:
     template <univector_tag Tag>
     void apply(univector<T, Tag>& dest, const expression_handle<T, 1>& src)
     {
-        process_expression(dest.data(), src, size_min(dest.size(), src.size()));
+        apply(dest.data(), src, dest.size());
     }
 
     void apply(T* dest, const expression_handle<T, 1>& src, size_t size)
     {
-        process_expression(dest, src, size_min(size, src.size()));
+        const size_t src_size = get_shape(src).front();
+        if (src_size > size && src_size != infinite_size)
+            process_expression(dest, to_handle(truncate(expression_handle<T, 1>(src), size)), size);
+        else
+            process_expression(dest, src, size_min(size, src_size));
     }
 
     template <univector_tag Tag, typename Expr, KFR_ENABLE_IF(is_input_expression<Expr>)>
     void apply(univector<T, Tag>& dest, const Expr& src)
     {
         static_assert(expression_dims<Expr> == 1);
-        process_expression(dest.data(), to_handle(src), size_min(dest.size(), get_shape(src).front()));
+        apply(dest.data(), to_handle(src), dest.size());
     }
 
     template <typename Expr, KFR_ENABLE_IF(is_input_expression<Expr>)>
     void apply(T* dest, const Expr& src, size_t size)
     {
-        process_expression(dest, to_handle(src), size_min(size, src.size()));
+        static_assert(expression_dims<Expr> == 1);
+        apply(dest, to_handle(src), size);
     }
 
 protected:
-- 
2.43.0


From e8f3601a481504adddd476c981583430be5cf11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:49 +0000
Subject: [PATCH 098/106] fix: destroy the expression owned by a handle when
 the last handle goes

---
 include/kfr/base/handle.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index d70b075..e67abff 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -173,7 +173,11 @@ KFR_INTRINSIC std::shared_ptr<expression_resource> make_resource(E&& e)
 {
     using T = expression_resource_impl<std::decay_t<E>>;
     return std::static_pointer_cast<expression_resource>(std::shared_ptr<T>(
-        new (aligned_allocate<T>()) T(std::move(e)), [](T* pi) { aligned_deallocate<T>(pi); }));
+        new (aligned_allocate<T>()) T(std::move(e)), [](T* pi)
+        {
+            pi->~T();
+            aligned_deallocate<T>(pi);
+        }));
 }
 
 template <typename T, index_t Dims = 1>
-- 
2.43.0


From be54ce74c3fb1414d9612775efc4515243af80ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:49 +0000
Subject: [PATCH 099/106] fix: make handles of expressions of several
 dimensions by reference

---
 include/kfr/base/handle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index e67abff..8c1bd3b 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -297,7 +297,7 @@ KFR_INTRINSIC expression_vtable<T, Dims>* make_expression_vtable()
 template <typename E, typename T = expression_value_type<E>, index_t Dims = expression_dims<E>>
 KFR_INTRINSIC expression_handle<T, Dims> to_handle(E& expr)
 {
-    return expression_handle<T>(std::addressof(expr), internal::make_expression_vtable<T, Dims, E>());
+    return expression_handle<T, Dims>(std::addressof(expr), internal::make_expression_vtable<T, Dims, E>());
 }
 
 /** @brief Converts the given expression into an opaque object.
-- 
2.43.0


From 131be9af1491b6ce6c34ab0c090d221989bb7772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:49 +0000
Subject: [PATCH 100/106] fix: begin and end a pass of the expression in a
 placeholder

---
 include/kfr/base/handle.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index 8c1bd3b..783e37e 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -343,6 +343,22 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_placeholder<T, Dims, Key>&
 {
     return self.handle ? get_elements(self.handle, index, sh) : 0;
 }
+
+template <typename T, index_t Dims, size_t Key>
+KFR_INTRINSIC void begin_pass(const expression_placeholder<T, Dims, Key>& self, shape<Dims> start,
+                              shape<Dims> stop)
+{
+    if (self.handle)
+        begin_pass(self.handle, start, stop);
+}
+
+template <typename T, index_t Dims, size_t Key>
+KFR_INTRINSIC void end_pass(const expression_placeholder<T, Dims, Key>& self, shape<Dims> start,
+                            shape<Dims> stop)
+{
+    if (self.handle)
+        end_pass(self.handle, start, stop);
+}
 } // namespace CMT_ARCH_NAME
 
 template <typename T, index_t Dims = 1, size_t Key = 0>
-- 
2.43.0


From 7f03bb4ea64d7cd3bbda2cb95e4b0fc4eb76b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:49 +0000
Subject: [PATCH 101/106] fix: substitute a placeholder that follows a compound
 argument

---
 include/kfr/base/handle.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index 783e37e..b462a51 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -417,7 +417,8 @@ KFR_INTRINSIC bool substitute_helper(expression_with_arguments<Args...>& expr,
                                      expression_handle<T, Dims> new_handle, csize_t<Key>,
                                      csizes_t<indices...>)
 {
-    return (substitute(std::get<indices>(expr.args), std::move(new_handle), csize_t<Key>()) || ...);
+    // the handle is needed again when an argument has no placeholder
+    return (substitute(std::get<indices>(expr.args), new_handle, csize_t<Key>()) || ...);
 }
 
 template <typename Expression, typename T, index_t Dims, size_t Key>
-- 
2.43.0


From 399530bff734d1fc343ed06c463d7090a56628fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:09 +0000
Subject: [PATCH 102/106] fix: gcd and lcm of zero, and lcm when only the
 product overflows

---
 include/kfr/cometa.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/cometa.hpp b/include/kfr/cometa.hpp
index 70b7b06..7b3ed69 100644
--- a/include/kfr/cometa.hpp
+++ b/include/kfr/cometa.hpp
@@ -948,7 +948,7 @@ constexpr CMT_INTRINSIC T gcd(T a)
 template <typename T>
 constexpr inline T gcd(T a, T b)
 {
-    return a < b ? gcd(b, a) : ((a % b == 0) ? b : gcd(b, a % b));
+    return b == 0 ? a : gcd(b, static_cast<T>(a % b));
 }
 
 /// @brief Greatest common divisor
@@ -969,7 +969,7 @@ constexpr CMT_INTRINSIC T lcm(T a)
 template <typename T>
 constexpr CMT_INTRINSIC T lcm(T a, T b)
 {
-    return a * b / gcd(a, b);
+    return a == 0 || b == 0 ? T(0) : static_cast<T>(a / gcd(a, b) * b);
 }
 
 /// @brief Least common multiple
-- 
2.43.0


From 75eea64003b15b90ac9ee85fd6fd1fc17d87feb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:09 +0000
Subject: [PATCH 103/106] fix: floor_div rounds down for negative divisors

---
 include/kfr/cometa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/cometa.hpp b/include/kfr/cometa.hpp
index 7b3ed69..f8f7188 100644
--- a/include/kfr/cometa.hpp
+++ b/include/kfr/cometa.hpp
@@ -982,7 +982,7 @@ constexpr CMT_INTRINSIC T lcm(T a, T b, T c, Ts... rest)
 CMT_INTRINSIC std::lldiv_t floor_div(long long a, long long b)
 {
     std::lldiv_t d = std::lldiv(a, b);
-    if (d.rem < 0)
+    if (d.rem != 0 && (d.rem < 0) != (b < 0))
     {
         d.rem += b;
         --d.quot;
-- 
2.43.0


From 1b202cce0101666850140f9628685ff43d459282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:09 +0000
Subject: [PATCH 104/106] fix: compare all characters of constant strings

---
 include/kfr/cometa/cstring.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/cometa/cstring.hpp b/include/kfr/cometa/cstring.hpp
index 3e25000..7a7710c 100644
--- a/include/kfr/cometa/cstring.hpp
+++ b/include/kfr/cometa/cstring.hpp
@@ -45,7 +45,7 @@ struct cstring
 
     constexpr friend bool operator==(const cstring& left, const cstring& right) CMT_NOEXCEPT
     {
-        for (size_t i = 0; i < 1; i++)
+        for (size_t i = 0; i < N; i++)
             if (left.value[i] != right.value[i])
                 return false;
         return true;
-- 
2.43.0


From c2082e4222f101ded2cc09262cc0bed47bee2b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:10 +0000
Subject: [PATCH 105/106] fix: str_find misses an occurrence that follows a
 partial match

---
 include/kfr/cometa/cstring.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/kfr/cometa/cstring.hpp b/include/kfr/cometa/cstring.hpp
index 7a7710c..0ad6312 100644
--- a/include/kfr/cometa/cstring.hpp
+++ b/include/kfr/cometa/cstring.hpp
@@ -141,15 +141,13 @@ CMT_INTRINSIC constexpr cstring<sizeof...(chars) + 1> make_cstring(cchars_t<char
 template <size_t N1, size_t Nneedle>
 CMT_INTRINSIC size_t str_find(const cstring<N1>& str, const cstring<Nneedle>& needle)
 {
-    size_t count = 0;
-    for (size_t i = 0; i < N1; i++)
+    for (size_t i = 0; i + Nneedle <= N1; i++)
     {
-        if (str[i] == needle[count])
+        size_t count = 0;
+        while (count < Nneedle - 1 && str[i + count] == needle[count])
             count++;
-        else
-            count = 0;
         if (count == Nneedle - 1)
-            return i + 1 - (Nneedle - 1);
+            return i;
     }
     return size_t(-1);
 }
-- 
2.43.0


From 843c6143d465600848effeeba14289b2646704b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 106/106] fix: align_up overflows before the subtraction for
 the largest values

---
 include/kfr/cometa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/cometa.hpp b/include/kfr/cometa.hpp
index f8f7188..f5a8941 100644
--- a/include/kfr/cometa.hpp
+++ b/include/kfr/cometa.hpp
@@ -1794,7 +1794,7 @@ constexpr CMT_INTRINSIC T* align_down(T* x, size_t alignment)
 template <typename T>
 constexpr CMT_INTRINSIC T align_up(T x, identity<T> alignment)
 {
-    return (x + alignment - 1) & ~(alignment - 1);
+    return (x + (alignment - 1)) & ~(alignment - 1);
 }
 template <typename T>
 constexpr CMT_INTRINSIC T* align_up(T* x, size_t alignment)
-- 
2.43.0

