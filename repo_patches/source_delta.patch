From caffee21af997aeb3ba1bd0bd777b214e9ad377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:04 +0000
Subject: [PATCH 01/23] fix: vectorized modular kernels must only be used for
 the modulus they implement

The SSE/AVX kernels for 16-bit and 32-bit elements hardcode the moduli 257 and
65537. They were applied to every ring over these types, e.g. RsFnt<uint32_t>
with one-byte words (which quadiron_fnt32_new(1, ...) builds) computed modulo
65537 instead of 257 and decoded to wrong data. Other moduli now go through the
scalar loops.
---
 src/fft_2n.h    |  2 +-
 src/simd/simd.h | 15 +++++++++++++++
 src/simd_ring.h | 10 +++++-----
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index 559df84..90dc641 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -202,7 +202,7 @@ Radix2<T>::Radix2(const gf::Field<T>& gf, int n, int data_len, size_t pkt_size)
 
     // Indices used for accelerated functions
     const unsigned ratio = simd::countof<T>();
-    simd_vec_len = this->pkt_size / ratio;
+    simd_vec_len = simd::mod_vecs_nb<T>(this->pkt_size, card);
     simd_trailing_len = this->pkt_size - simd_vec_len * ratio;
     simd_offset = simd_vec_len * ratio;
 }
diff --git a/src/simd/simd.h b/src/simd/simd.h
index f4d1cdf..4c8ee0f 100644
--- a/src/simd/simd.h
+++ b/src/simd/simd.h
@@ -54,6 +54,21 @@ static constexpr std::size_t countof()
     return REG_BITSZ / (sizeof(T) * CHAR_BIT);
 }
 
+/** Return the number of full registers that vectorized modular operations can
+ * process in a buffer of `len` elements.
+ *
+ * The vectorized kernels only implement the arithmetic modulo the Fermat number
+ * attached to the type T (257 for 16-bit elements, 65537 for 32-bit elements).
+ * For every other modulus there is none: all elements must be processed by the
+ * scalar code.
+ */
+template <typename T>
+inline std::size_t mod_vecs_nb(std::size_t len, T card)
+{
+    const T fermat = (T(1) << (sizeof(T) * CHAR_BIT / 2)) + 1;
+    return (card == fermat) ? len / countof<T>() : 0;
+}
+
 } // namespace simd
 } // namespace quadiron
 
diff --git a/src/simd_ring.h b/src/simd_ring.h
index a25176a..94ac7ce 100644
--- a/src/simd_ring.h
+++ b/src/simd_ring.h
@@ -50,7 +50,7 @@ inline void mul_coef_to_buf(const T a, T* src, T* dest, size_t len, T card)
     VecType* _src = reinterpret_cast<VecType*>(src);
     VecType* _dest = reinterpret_cast<VecType*>(dest);
     const unsigned ratio = sizeof(*_src) / sizeof(*src);
-    const size_t _len = len / ratio;
+    const size_t _len = mod_vecs_nb<T>(len, card);
     const size_t _last_len = len - _len * ratio;
 
     size_t i = 0;
@@ -79,7 +79,7 @@ inline void add_two_bufs(T* src, T* dest, size_t len, T card)
     VecType* _src = reinterpret_cast<VecType*>(src);
     VecType* _dest = reinterpret_cast<VecType*>(dest);
     const unsigned ratio = sizeof(*_src) / sizeof(*src);
-    const size_t _len = len / ratio;
+    const size_t _len = mod_vecs_nb<T>(len, card);
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
@@ -101,7 +101,7 @@ inline void sub_two_bufs(T* bufa, T* bufb, T* res, size_t len, T card)
     VecType* _bufb = reinterpret_cast<VecType*>(bufb);
     VecType* _res = reinterpret_cast<VecType*>(res);
     const unsigned ratio = sizeof(*_bufa) / sizeof(*bufa);
-    const size_t _len = len / ratio;
+    const size_t _len = mod_vecs_nb<T>(len, card);
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
@@ -127,7 +127,7 @@ inline void mul_two_bufs(T* src, T* dest, size_t len, T card)
     VecType* _src = reinterpret_cast<VecType*>(src);
     VecType* _dest = reinterpret_cast<VecType*>(dest);
     const unsigned ratio = sizeof(*_src) / sizeof(*src);
-    const size_t _len = len / ratio;
+    const size_t _len = mod_vecs_nb<T>(len, card);
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
@@ -150,7 +150,7 @@ inline void neg(size_t len, T* buf, T card)
 {
     VecType* _buf = reinterpret_cast<VecType*>(buf);
     const unsigned ratio = sizeof(*_buf) / sizeof(*buf);
-    const size_t _len = len / ratio;
+    const size_t _len = mod_vecs_nb<T>(len, card);
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
-- 
2.43.0


From 943eda2c887181fdb10881ea5d863b6faf4257d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:58 +0000
Subject: [PATCH 02/23] fix: fnt_serialize must clear exactly the unused dwords

The end of the range was one short: the last dword was never written and, when
the markers fill the area exactly, the start lay behind the end and the fill ran
through the memory after the buffer.
---
 src/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.h b/src/property.h
index 2fc6a56..aa146fa 100644
--- a/src/property.h
+++ b/src/property.h
@@ -112,7 +112,7 @@ class Properties {
             dwords[i++] = htonl(narrow_cast<uint32_t>(item.first));
         }
         dwords[1] = htonl(i - 2);
-        std::fill(dwords + i, dwords + n_dwords - 1, htonl(0));
+        std::fill(dwords + i, dwords + n_dwords, htonl(0));
 
         return 0;
     }
-- 
2.43.0


From b89eb22063779ca7ff9f1b7e7b4a882ed2ef5180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:58 +0000
Subject: [PATCH 03/23] fix: fnt_deserialize must reject counts close to 2^32

`2 + _n_dwords` wrapped around, so that a damaged header with such a count was
accepted and read far outside of the buffer.
---
 src/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.h b/src/property.h
index aa146fa..fe86d99 100644
--- a/src/property.h
+++ b/src/property.h
@@ -132,7 +132,7 @@ class Properties {
             return -1;
         }
         uint32_t _n_dwords = ntohl(dwords[1]);
-        if ((2 + _n_dwords) > n_dwords) {
+        if (_n_dwords > n_dwords - 2) {
             return -1;
         }
         for (unsigned i = 0; i < _n_dwords; i++) {
-- 
2.43.0


From 288d56a68fdf21e3d54359774452d08035725249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:58 +0000
Subject: [PATCH 04/23] fix: quadiron_fnt32_decode indexed the n_outputs
 properties by data index

With a systematic code that has less parities than data fragments this cleared
and serialized properties behind the end of the vector.
---
 src/quadiron_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 3400eeb..8e00d6c 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -217,9 +217,9 @@ int quadiron_fnt32_decode(
 
     // reset metadata of data
     for (unsigned i = 0; i < fec->n_data; i++) {
-        parities_props[i].clear();
+        quadiron::Properties null_prop;
         uint32_t* metadata = reinterpret_cast<uint32_t*>(data[i]);
-        int ret = parities_props[i].fnt_serialize(metadata, metadata_size / 4);
+        int ret = null_prop.fnt_serialize(metadata, metadata_size / 4);
         if (ret == -1) {
             return -1;
         }
-- 
2.43.0


From 613c7f6051b16af7bc8891d254cd66b48e8aa3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:58 +0000
Subject: [PATCH 05/23] fix: quadiron_fnt32_reconstruct of a data fragment must
 flag wanted data

It flagged the destination in the vector of wanted outputs, whose length is
n_parities: out of bounds when there are less parities than data fragments.
---
 src/quadiron_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 8e00d6c..a79bc04 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -292,13 +292,13 @@ int quadiron_fnt32_reconstruct(
          * Easy case where the target is a data then simply decode
          */
         if (destination_idx < fec->n_data) {
-            wanted_idxs_vec[destination_idx] = true;
+            wanted_data_vec[destination_idx] = true;
             res = fec->decode_blocks_vertical(
                 data_vec,
                 parities_vec,
                 parities_props,
                 missing_idxs_vec,
-                wanted_idxs_vec,
+                wanted_data_vec,
                 block_size);
             if (!res) {
                 return -1;
-- 
2.43.0


From 19d576ef94338cfc1b5883a78e64236cabb228b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:58 +0000
Subject: [PATCH 06/23] fix: quadiron_fnt32_encode must not write metadata of
 unwanted parities

The documented way of not asking for a parity is a NULL entry; its metadata was
written nevertheless.
---
 src/quadiron_c.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index a79bc04..f8bc3e4 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -120,6 +120,9 @@ int quadiron_fnt32_encode(
             }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
+            if (!wanted_idxs[i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(parity[i]);
             int ret =
                 parities_props[i].fnt_serialize(metadata, metadata_size / 4);
@@ -137,6 +140,9 @@ int quadiron_fnt32_encode(
             }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
+            if (!wanted_idxs[fec->n_data + i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(parity[i]);
             int ret = parities_props[fec->n_data + i].fnt_serialize(
                 metadata, metadata_size / 4);
-- 
2.43.0


From c9dcad8b584c6b18fd82c9377b51794731e4761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:51 +0000
Subject: [PATCH 07/23] fix: Cauchy matrix normalisation divided by already
 overwritten pivots

The first row and column were set to 1 without scaling the rest of the
matrix, which is then no longer MDS: some sets of k fragments (e.g. k=4,
m=3) could not be decoded. Fragments encoded with the previous matrix
cannot be mixed with new ones.
---
 src/vec_matrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec_matrix.h b/src/vec_matrix.h
index f3a7e5c..0b9e978 100644
--- a/src/vec_matrix.h
+++ b/src/vec_matrix.h
@@ -417,14 +417,16 @@ void Matrix<T>::cauchy()
     /* do optimise */
     // convert 1st row to all 1s
     for (j = 0; j < n_cols; j++) {
+        const T pivot = get(0, j);
         for (i = 0; i < n_rows; i++) {
-            set(i, j, rn->div(get(i, j), get(0, j)));
+            set(i, j, rn->div(get(i, j), pivot));
         }
     }
     // convert 1st element of each row to 1
     for (i = 1; i < n_rows; i++) {
+        const T pivot = get(i, 0);
         for (j = 0; j < n_cols; j++) {
-            set(i, j, rn->div(get(i, j), get(i, 0)));
+            set(i, j, rn->div(get(i, j), pivot));
         }
     }
 }
-- 
2.43.0


From 4783b0f110abbde271ca517303d6e3fe0285db1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:12 +0000
Subject: [PATCH 08/23] fix: inverse FFT of a short input read stale output
 rows

Rows between ceil2(input_len) and n/2 were multiplied before being
written, i.e. with whatever the buffers held; the values are overwritten
later, but the range assertion of the multiplication fires.
---
 src/fft_2n.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index 90dc641..952fd85 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -31,6 +31,8 @@
 #ifndef __QUAD_FFT_2N_H__
 #define __QUAD_FFT_2N_H__
 
+#include <algorithm>
+
 #include "arith.h"
 #include "fft_2.h"
 #include "fft_base.h"
@@ -532,8 +534,10 @@ void Radix2<T>::fft_inv(vec::Buffers<T>& output, vec::Buffers<T>& input)
     unsigned m = len / 2;
 
     if (input_len < len) {
-        const unsigned input_len_power_2 = arith::ceil2<unsigned>(input_len);
-        for (; i < input_len_power_2; ++i) {
+        // the first step reads the first half of output whatever `input_len`
+        const unsigned zeroed_len =
+            std::max<unsigned>(arith::ceil2<unsigned>(input_len), m);
+        for (; i < zeroed_len; ++i) {
             memset(o_mem[i], 0, buf_size);
         }
 
-- 
2.43.0


From f5984888791a3d406eafd46fa8eb2613055c62db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:25 +0000
Subject: [PATCH 09/23] fix: modular addition wrapped around for large moduli

---
 src/gf_ring.h   | 3 ++-
 src/simd_ring.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index 935edce..063d694 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -217,7 +217,8 @@ inline T RingModN<T>::add(T a, T b) const
     assert(check(b));
 
     T c = a + b;
-    if (c >= this->_card)
+    // The sum may also have wrapped around.
+    if (c >= this->_card || c < a)
         c -= this->_card;
     return c;
 }
diff --git a/src/simd_ring.h b/src/simd_ring.h
index 94ac7ce..5efc9bf 100644
--- a/src/simd_ring.h
+++ b/src/simd_ring.h
@@ -89,7 +89,8 @@ inline void add_two_bufs(T* src, T* dest, size_t len, T card)
     if (_last_len > 0) {
         for (i = _len * ratio; i < len; i++) {
             const T tmp = src[i] + dest[i];
-            dest[i] = (tmp >= card) ? (tmp - card) : tmp;
+            // The sum may also have wrapped around.
+            dest[i] = (tmp >= card || tmp < src[i]) ? (tmp - card) : tmp;
         }
     }
 }
-- 
2.43.0


From 573e0eee9d5fda439173341b0d9267e3da459f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:25 +0000
Subject: [PATCH 10/23] fix: get_code_len_high_compo returned 0 when the lower
 bound is 1

---
 src/arith.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arith.h b/src/arith.h
index fab8c64..88146db 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -705,6 +705,8 @@ T get_code_len_high_compo(const std::vector<T>& factors, T n)
                     return x * factors[j];
                 }
             }
+            // every factor can be removed: `n` is 1
+            return x;
         }
     }
     assert(false);
-- 
2.43.0


From b0003ed6ce5db25f9834db6e692553ca6f39dbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:25 +0000
Subject: [PATCH 11/23] fix: check_order_naive missed the order just below the
 one given

---
 src/gf_ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index 063d694..93db23d 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -761,7 +761,7 @@ bool RingModN<T>::check_order_naive(T nb, T order) const
 
     T i = 1;
     T tmp = nb;
-    while (i < order - 1) {
+    while (i < order) {
         // std::cout << i << ":" << tmp << std::endl;
         if (tmp == 1)
             return false;
-- 
2.43.0


From fa601c71c1d7bf474a0cbf71ea727dc246e926f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:25 +0000
Subject: [PATCH 12/23] fix: get_code_len did not return the smallest code
 length

---
 src/arith.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/arith.h b/src/arith.h
index 88146db..3b4af17 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -665,6 +665,13 @@ T get_code_len(T order, T n)
             return i;
         }
     }
+    // no divisor in [n, sqrt(order)]: the smallest one above sqrt(order) is the
+    // cofactor of the largest one below it
+    for (i = nb_sqrt; i > 1; i--) {
+        if (order % i == 0) {
+            return order / i;
+        }
+    }
     // order is prime
     return order;
 }
-- 
2.43.0


From 9dbd6dcfdac4d9b77dd1bad19816dcced8f4a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:25 +0000
Subject: [PATCH 13/23] fix: get_all_divisors listed the root of a perfect
 square twice

---
 src/arith.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arith.h b/src/arith.h
index 3b4af17..b9ab8a2 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -625,7 +625,9 @@ std::vector<T> get_all_divisors(T n)
         // While `i` divides `nb`, get `i` and divide `nb/i`.
         if (n % i == 0) {
             divisors.push_back(i);
-            n_div_i.push_back(n / i);
+            if (i != n / i) {
+                n_div_i.push_back(n / i);
+            }
         }
     }
     divisors.insert(divisors.end(), n_div_i.rbegin(), n_div_i.rend());
-- 
2.43.0


From 9edbee6f9e24a8064c5bae98cee63248c93aa8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:25 +0000
Subject: [PATCH 14/23] fix: is_prime accepted 1

---
 src/arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arith.h b/src/arith.h
index b9ab8a2..2c090bf 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -470,8 +470,8 @@ bool solovay_strassen(T n, T (*rand_func)(T n))
 template <typename T>
 bool is_prime(T n)
 {
-    if (n == 2)
-        return true;
+    if (n < 2)
+        return false;
 
     T root = sqrt<T>(n);
     for (T i = 2; i <= root; i++) {
-- 
2.43.0


From 92057f0022dc04dfbf57f35cb74ac7f739c61482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:25 +0000
Subject: [PATCH 15/23] fix: exp_mod overflowed for moduli above the square
 root of the range

---
 src/arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arith.h b/src/arith.h
index 2c090bf..542a414 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -183,10 +183,10 @@ T exp_mod(T base, T exponent, T modulus)
     base = base % modulus;
     while (exponent > 0) {
         if (exponent % 2 == 1) {
-            result = (result * base) % modulus;
+            result = (DoubleSizeVal<T>(result) * base) % modulus;
         }
         exponent = exponent >> 1;
-        base = (base * base) % modulus;
+        base = (DoubleSizeVal<T>(base) * base) % modulus;
     }
 
     return result;
-- 
2.43.0


From f385fa29d1971ad0a3497bce3c4edab33de13084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:53 +0000
Subject: [PATCH 16/23] fix: radix-2 FFT left output rows unset for lengths not
 power of two

---
 src/fft_2n.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index 952fd85..53ecfc5 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -272,9 +272,11 @@ void Radix2<T>::fft(vec::Vector<T>& output, vec::Vector<T>& input)
 {
     const unsigned len = this->n;
     const unsigned input_len = input.get_n();
-    // to support FFT on input vectors of length greater than from `data_len`
-    const unsigned group_len =
-        (input_len > data_len) ? len / input_len : len / data_len;
+    // to support FFT on input vectors of length greater than from `data_len`;
+    // groups must have a length of power of 2
+    const unsigned padded_len =
+        arith::ceil2<unsigned>(std::max<unsigned>(input_len, data_len));
+    const unsigned group_len = len / padded_len;
 
     for (unsigned idx = 0; idx < input_len; ++idx) {
         // set output  = scramble(input), i.e. bit reversal ordering
@@ -284,7 +286,7 @@ void Radix2<T>::fft(vec::Vector<T>& output, vec::Vector<T>& input)
             output.set(i, a);
         }
     }
-    for (unsigned idx = input_len; idx < data_len; ++idx) {
+    for (unsigned idx = input_len; idx < padded_len; ++idx) {
         // set output  = scramble(input), i.e. bit reversal ordering
         const unsigned end = rev[idx] + group_len;
         for (unsigned i = rev[idx]; i < end; ++i) {
@@ -368,9 +370,11 @@ void Radix2<T>::fft(vec::Buffers<T>& output, vec::Buffers<T>& input)
     assert(input_len > 0);
     assert(data_len > 0);
 
-    // to support FFT on input vectors of length greater than from `data_len`
-    const unsigned group_len =
-        (input_len > data_len) ? len / input_len : len / data_len;
+    // to support FFT on input vectors of length greater than from `data_len`;
+    // groups must have a length of power of 2
+    const unsigned padded_len =
+        arith::ceil2<unsigned>(std::max<unsigned>(input_len, data_len));
+    const unsigned group_len = len / padded_len;
 
     const std::vector<T*>& i_mem = input.get_mem();
     const std::vector<T*>& o_mem = output.get_mem();
@@ -381,7 +385,7 @@ void Radix2<T>::fft(vec::Buffers<T>& output, vec::Buffers<T>& input)
             memcpy(o_mem[i], i_mem[idx], buf_size);
         }
     }
-    for (unsigned idx = input_len; idx < data_len; ++idx) {
+    for (unsigned idx = input_len; idx < padded_len; ++idx) {
         // set output  = scramble(input), i.e. bit reversal ordering
         for (unsigned i = rev[idx]; i < rev[idx] + group_len; ++i) {
             memset(o_mem[i], 0, buf_size);
-- 
2.43.0


From 02a954a8bdbe0aacaaee24023983e98fd2b5d321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:53 +0000
Subject: [PATCH 17/23] fix: inverse of a transform length was taken outside
 the prime subfield

---
 src/gf_base.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gf_base.h b/src/gf_base.h
index 71fd592..3ae85df 100644
--- a/src/gf_base.h
+++ b/src/gf_base.h
@@ -115,6 +115,9 @@ int Field<T>::get_n() const
 template <typename T>
 T Field<T>::get_inv_n_mod_p(int n) const
 {
+    // `n` times the unit is in the prime subfield
+    if (this->sub_field)
+        return this->sub_field->inv(n % p);
     return this->inv(n) % p;
 }
 
-- 
2.43.0


From 448c7abfb4b2d58b40fabfabc1613308bcfcf6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:20 +0000
Subject: [PATCH 18/23] fix: get_code_len_high_compo failed for an order of 1

---
 src/arith.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arith.h b/src/arith.h
index 542a414..3b59f9e 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -701,6 +701,10 @@ T get_code_len_high_compo(T order, T n)
 template <typename T>
 T get_code_len_high_compo(const std::vector<T>& factors, T n)
 {
+    if (n <= 1) {
+        return 1;
+    }
+
     T x = 1;
     typename std::vector<T>::size_type i, j;
     // forward to get a divisor of (q-1) >= n and of highly composited
@@ -714,8 +718,6 @@ T get_code_len_high_compo(const std::vector<T>& factors, T n)
                     return x * factors[j];
                 }
             }
-            // every factor can be removed: `n` is 1
-            return x;
         }
     }
     assert(false);
-- 
2.43.0


From e3ea50c035c584c350bb8832f3b1188128f368db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:30 +0000
Subject: [PATCH 19/23] fix: Int256 compared negative values as unsigned

---
 src/big_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/big_int.h b/src/big_int.h
index d6b3627..713d6e9 100644
--- a/src/big_int.h
+++ b/src/big_int.h
@@ -70,7 +70,7 @@ struct Int256 {
 
     bool operator<(int x)
     {
-        return lo < static_cast<__uint128_t>(x);
+        return static_cast<__int128_t>(lo) < x;
     }
 
     bool operator!=(__uint128_t x)
-- 
2.43.0


From 56bf4737cb82f9d97e49e54a5227fc5f16865eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:52 +0000
Subject: [PATCH 20/23] fix: assignment of vectors did not compile

---
 src/vec_vector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vec_vector.h b/src/vec_vector.h
index a0ddc0e..dc85364 100644
--- a/src/vec_vector.h
+++ b/src/vec_vector.h
@@ -184,6 +184,8 @@ Vector<T>::Vector(Vector&& other) noexcept
 template <typename T>
 Vector<T>& Vector<T>::operator=(const Vector<T>& other)
 {
+    using std::swap;
+
     Vector<T> tmp(other);
     swap(*this, tmp);
     return *this;
@@ -194,7 +196,7 @@ Vector<T>& Vector<T>::operator=(Vector<T>&& other) noexcept
 {
     this->destroy();
     this->rn = other.rn;
-    this->n = other.rn;
+    this->n = other.n;
     this->mem = std::exchange(other.mem, nullptr);
     this->mem_len = other.mem_len;
     this->new_mem = other.new_mem;
-- 
2.43.0


From a7ad191c157b63803ce70081f0960bb89bb16596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:52 +0000
Subject: [PATCH 21/23] fix: a clone of buffers reported an empty memory

---
 src/vec_buffers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index d31c69d..c7f9c88 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -189,11 +189,11 @@ Buffers<T>::Buffers(const Buffers<T>& vec, int n)
 
     this->size = vec.get_size();
     this->n = (n == 0) ? vec_n : n;
-    this->mem_len = n * size;
+    this->mem_len = this->n * size;
 
     this->mem_alloc_case = BufMemAlloc::FULL;
 
-    mem.reserve(n);
+    mem.reserve(this->n);
     for (i = 0; i < this->n; i++) {
         mem.push_back(this->allocator.allocate(size));
     }
-- 
2.43.0


From 39b5ded192ea7eabd4f511082c2e5b8838dc412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:52 +0000
Subject: [PATCH 22/23] fix: shuffling buffers wrote past the end of an empty
 vector

---
 src/vec_buffers.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index c7f9c88..0ba7e84 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -311,6 +311,7 @@ Buffers<T>::Buffers(
     mem.reserve(this->n);
     if (vec_n >= n) {
         this->mem_alloc_case = BufMemAlloc::SLICE;
+        mem.resize(n);
     } else { // output is zero-extended & shuffled from `vec`
         this->mem_alloc_case = BufMemAlloc::ZERO_EXTEND;
 
-- 
2.43.0


From 1e9e13ee1913c0c52fc2f4887e30de5d0c95fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:46 +0000
Subject: [PATCH 23/23] fix: decoding with the additive FFT failed for more
 than half of the field

The decoding context computed the length of the FFT of size 2k, which does
not exist for k above half of the group's order, though the additive FFT
does not use it. It also bound a reference to a null pointer.
---
 src/fec_base.h            | 2 +-
 src/fec_context.h         | 9 ++++++---
 src/fec_rs_gf2n_fft_add.h | 2 +-
 src/fec_rs_nf4.h          | 2 +-
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/fec_base.h b/src/fec_base.h
index 4dcf7f0..9e67ac9 100644
--- a/src/fec_base.h
+++ b/src/fec_base.h
@@ -781,7 +781,7 @@ std::unique_ptr<DecodeContext<T>> FecCode<T>::init_context_dec(
     return std::make_unique<DecodeContext<T>>(
         *gf,
         *fft,
-        *fft_2k,
+        fft_2k.get(),
         fragments_ids,
         input_props,
         vx,
diff --git a/src/fec_context.h b/src/fec_context.h
index 0e15326..c533035 100644
--- a/src/fec_context.h
+++ b/src/fec_context.h
@@ -66,7 +66,7 @@ class DecodeContext {
     DecodeContext(
         const gf::Field<T>& gf,
         fft::FourierTransform<T>& fft,
-        fft::FourierTransform<T>& fft_2k,
+        fft::FourierTransform<T>* fft_2k,
         const vec::Vector<T>& fragments_ids,
         std::vector<Properties>& input_props,
         const vec::Vector<T>& vx,
@@ -82,10 +82,13 @@ class DecodeContext {
         this->size = size;
         this->gf = &gf;
         this->fft = &fft;
-        this->fft_2k = &fft_2k;
+        this->fft_2k = fft_2k;
         this->vx_zero = vx_zero;
 
-        this->len_2k = this->gf->get_code_len_high_compo(2 * this->k);
+        // The FFT of length `2k` is only used with multiplicative FFTs. Without
+        // it, `k` can be more than half of the group's order.
+        this->len_2k =
+            fft_2k ? this->gf->get_code_len_high_compo(2 * this->k) : 0;
         this->max_n_2k = (this->n > this->len_2k) ? this->n : this->len_2k;
 
         this->fragments_ids = &fragments_ids;
diff --git a/src/fec_rs_gf2n_fft_add.h b/src/fec_rs_gf2n_fft_add.h
index 80f8f6b..ceaa070 100644
--- a/src/fec_rs_gf2n_fft_add.h
+++ b/src/fec_rs_gf2n_fft_add.h
@@ -148,7 +148,7 @@ class RsGf2nFftAdd : public FecCode<T> {
             std::unique_ptr<DecodeContext<T>>(new DecodeContext<T>(
                 *(this->gf),
                 *fft,
-                *(this->fft_2k),
+                this->fft_2k.get(),
                 fragments_ids,
                 input_props,
                 vx,
diff --git a/src/fec_rs_nf4.h b/src/fec_rs_nf4.h
index 6789340..7263187 100644
--- a/src/fec_rs_nf4.h
+++ b/src/fec_rs_nf4.h
@@ -202,7 +202,7 @@ class RsNf4 : public FecCode<T> {
             std::unique_ptr<DecodeContext<T>>(new DecodeContext<T>(
                 *(this->gf),
                 *(this->fft),
-                *(this->fft_2k),
+                this->fft_2k.get(),
                 fragments_ids,
                 input_props,
                 vx,
-- 
2.43.0

