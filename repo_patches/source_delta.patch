From 17300b34cd1f38579e4a7b50dbfd39558987d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:21 +0000
Subject: [PATCH 01/35] fix: logical pack builders recurse on packl for unroll
 factors > 1

set1l, loadlu, loadla and mask_for_loop_tail on packl<T, N> with N > 1
passed a pack to the recursive call, which has no matching overload.
---
 egg/gen_adv_cxx_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 0f0f275..41410bd 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -32,7 +32,7 @@ def get_cxx_advanced_generic(operator):
         if param in ['v', 'vi']:
             return 'pack'
         elif param == 'l':
-            return 'pack'
+            return 'packl'
         else:
             return 'pack{}'.format(param[1:])
     args_list = common.enum(operator.params[1:])
-- 
2.43.0


From 79c983c7bca8bbee04a2ded97a2a8b76447a86d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:21 +0000
Subject: [PATCH 02/35] fix: conversions and reinterpretations of packs with
 unroll factor > 1

The recursive call passed a scalar where the destination pack of N - 1
registers is expected, so cvt, upcvt, downcvt, reinterpret and
reinterpretl (hence the masked loads and stores built on it) did not
compile for N > 1.
---
 egg/gen_adv_cxx_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 41410bd..cf929c5 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -57,7 +57,8 @@ def get_cxx_advanced_generic(operator):
     if other_varsN != '':
         other_varsN = ', ' + other_varsN
     if not operator.closed:
-        varsN = ['typename ToPackType::value_type()'] + varsN
+        varsN = ['{}<typename ToPackType::value_type, N - 1, SimdExt>()'. \
+                 format(get_pack(operator.params[0]))] + varsN
     if need_tmpl_pack != None:
         varsN = ['{}<T, N - 1, SimdExt>()'.format(need_tmpl_pack)] + varsN
     vars1 = ', '.join(vars1)
@@ -91,7 +92,9 @@ def get_cxx_advanced_generic(operator):
             ret_car = \
                 '''typename simd_traits<typename ToPackType::value_type,
                        SimdExt>::simd_vectorx{} car = '''.format(num)
-        ret_cdr = 'packx{}<T, N - 1, SimdExt> cdr = '.format(num)
+        ret_cdr = 'packx{}<{}, N - 1, SimdExt> cdr = '. \
+                  format(num, 'T' if operator.closed \
+                              else 'typename ToPackType::value_type')
         post_car = '; ret.set_car({})'.format(', '.join( \
             ['car.v{}'.format(i) for i in range(0, int(num))]))
         post_cdr = '; ret.set_cdr({})'.format(', '.join( \
-- 
2.43.0


From e2d0c786e16ee256c855806bfdacaa795548b814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:53 +0000
Subject: [PATCH 03/35] fix: gather/scatter addressing for packs with unroll
 factor > 1

The base pointer was advanced by one register length for each register of
the pack: offsets of gather/scatter must stay relative to the given base
and the linear variants must advance by step * length.
---
 egg/gen_adv_cxx_api.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index cf929c5..b0c11ec 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -45,7 +45,8 @@ def get_cxx_advanced_generic(operator):
         member = 'car' if N == '1' else 'cdr'
         if arg[1] in ['vi', 'v', 'l']:
             return 'a{}.{}'.format(arg[0], member)
-        elif (arg[1] in ['*', 'c*']) and N != '1':
+        elif (arg[1] in ['*', 'c*']) and N != '1' and \
+             operator.name not in ['gather', 'scatter']:
             return 'a{} + len_'.format(arg[0])
         else:
             return 'a{}'.format(arg[0])
@@ -109,7 +110,8 @@ def get_cxx_advanced_generic(operator):
         post_cdr = ''
         pack1_ret = ''
         packN_ret = ''
-    if '*' in operator.params[1:] or 'c*' in operator.params[1:]:
+    if ('*' in operator.params[1:] or 'c*' in operator.params[1:]) and \
+       operator.name not in ['gather', 'scatter']:
         # store*[au] does not contain any packx* argument, therefore the offset
         # cannot be correctly computed
         if operator.name in ['store2u', 'store2a']:
@@ -118,6 +120,8 @@ def get_cxx_advanced_generic(operator):
             multiplier = '3 * '
         elif operator.name in ['store4u', 'store4a']:
             multiplier = '4 * '
+        elif operator.name in ['gather_linear', 'scatter_linear']:
+            multiplier = 'a1 * '
         else:
             multiplier = ''
         int_len = 'int len_ = {}len({}<T, 1, SimdExt>());'. \
-- 
2.43.0


From bc5ba2cc12c4d1ea5cd3eb14edc80ce472617786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:53 +0000
Subject: [PATCH 04/35] fix: iota and mask_for_loop_tail for packs with unroll
 factor > 1

Every register of the pack got the values of the first one, so lane
numbers restarted from zero and the loop tail mask repeated.
---
 egg/gen_adv_cxx_api.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index b0c11ec..fa697a9 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -48,6 +48,9 @@ def get_cxx_advanced_generic(operator):
         elif (arg[1] in ['*', 'c*']) and N != '1' and \
              operator.name not in ['gather', 'scatter']:
             return 'a{} + len_'.format(arg[0])
+        elif operator.name == 'mask_for_loop_tail' and arg[0] == 0 and \
+             N != '1':
+            return 'a{} + len_'.format(arg[0])
         else:
             return 'a{}'.format(arg[0])
     vars1 = [var(i, '1') for i in args_list] + ['T()'] + \
@@ -127,8 +130,15 @@ def get_cxx_advanced_generic(operator):
         int_len = 'int len_ = {}len({}<T, 1, SimdExt>());'. \
                   format(multiplier, get_pack(inter[0]) if inter != [] \
                                      else need_tmpl_pack)
+    elif operator.name in ['iota', 'mask_for_loop_tail']:
+        # the first lane of the tail is not the first lane of the whole pack
+        int_len = 'int len_ = len({}<T, 1, SimdExt>());'.format(need_tmpl_pack)
     else:
         int_len = ''
+    if operator.name == 'iota':
+        ret_cdr += 'add(set1({}<T, N - 1, SimdExt>(), to<T>(len_)), '. \
+                   format(need_tmpl_pack)
+        post_cdr += ')'
 
     sig = operator.get_generic_signature('cxx_adv')
     for k in sig:
-- 
2.43.0


From 64836931c81506915d8bf2453a675f3de9021026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:12 +0000
Subject: [PATCH 05/35] fix: signed saturated subtraction when the subtrahend
 is the smallest integer

---
 egg/platform_x86.py | 10 +++++++---
 egg/scalar.py       |  5 +++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index a84ccc5..2a91420 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -276,7 +276,7 @@ def get_additional_include(func, platform, simd_ext):
                       '''.format(simd_ext=simd_ext)
     if func == 'subs':
         ret += '''#include <nsimd/x86/{simd_ext}/adds.h>
-                  #include <nsimd/x86/{simd_ext}/neg.h>
+                  #include <nsimd/x86/{simd_ext}/notb.h>
                   #include <nsimd/x86/{simd_ext}/sub.h>
                   #include <nsimd/x86/{simd_ext}/gt.h>
                   #include <nsimd/x86/{simd_ext}/set1.h>
@@ -3224,8 +3224,12 @@ def subs(simd_ext, typ):
                    'subs', simd_ext, typ)
 
     if typ in common.itypes:
-        return 'return nsimd_adds_{simd_ext}_{typ}({in0}, ' \
-               'nsimd_neg_{simd_ext}_{typ}({in1}));'.format(**fmtspec)
+        # Negating {in1} would overflow for the smallest integer so we use
+        # a - b = ~(~a + b) which saturates properly.
+        return '''return nsimd_notb_{simd_ext}_{typ}(
+                             nsimd_adds_{simd_ext}_{typ}(
+                                 nsimd_notb_{simd_ext}_{typ}({in0}), {in1}));
+                                 '''.format(**fmtspec)
 
     min_ = common.limits[typ]['min']
 
diff --git a/egg/scalar.py b/egg/scalar.py
index 1545a84..b8e3d59 100644
--- a/egg/scalar.py
+++ b/egg/scalar.py
@@ -333,8 +333,9 @@ def subs(typ):
                     return ({typ})({in0} - {in1});
                   }}
                   '''.format(**fmtspec)
-    # Getting here means typ is signed
-    return 'return nsimd_scalar_adds_{typ}({in0}, ({typ})(-{in1}));'. \
+    # Getting here means typ is signed. Negating {in1} would overflow for the
+    # smallest integer so we use a - b = ~(~a + b) which saturates properly.
+    return 'return ({typ})(~nsimd_scalar_adds_{typ}(({typ})(~{in0}), {in1}));'. \
            format(**fmtspec)
 
 # -----------------------------------------------------------------------------
-- 
2.43.0


From 3b14ff2a05094f8d05ae357fdbdb9afd7b51caa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:12 +0000
Subject: [PATCH 06/35] fix: scalar absolute value of -0.0 is +0.0

---
 egg/scalar.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/egg/scalar.py b/egg/scalar.py
index b8e3d59..9ad0272 100644
--- a/egg/scalar.py
+++ b/egg/scalar.py
@@ -372,10 +372,16 @@ def get_impl(operator, totyp, typ):
     if operator.name == 'abs':
         if typ == 'f16':
             return '''f32 tmp = nsimd_f16_to_f32({in0});
-                      return nsimd_f32_to_f16(tmp >= 0.0f ? tmp : -tmp);'''. \
+                      return nsimd_f32_to_f16(tmp > 0.0f ? tmp
+                                                         : 0.0f - tmp);'''. \
                       format(**fmtspec)
         elif typ in common.utypes:
             return 'return {in0};'.format(**fmtspec)
+        elif typ in common.ftypes:
+            # 0 - x and not -x so that the absolute value of -0 is +0
+            return '''return {in0} > ({typ})0 ? {in0}
+                                              : ({typ})0 - {in0};'''. \
+                                              format(**fmtspec)
         else:
             return 'return ({typ})({in0} >= ({typ})0 ? {in0} : -{in0});'. \
                    format(**fmtspec)
-- 
2.43.0


From c3d42e5b7550a824c8573d843b021bec8a606a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:02 +0000
Subject: [PATCH 07/35] fix: u64 <-> f64 conversions on avx512_skylake for
 values above 2^63

---
 egg/platform_x86.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 2a91420..b2078f0 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2356,8 +2356,10 @@ def convert1(simd_ext, from_typ, to_typ):
                  format(**fmtspec)
     if to_typ == 'f64' or from_typ == 'f64':
         if simd_ext == 'avx512_skylake':
-            return 'return _mm512_cvt{from_suf}{to_suf}({in0});'. \
-                   format(from_suf=suf_ep(from_typ)[1:], to_suf=suf_ep(to_typ),
+            # For conversions, unlike most operators, signedness matters
+            suf = {'f64': 'pd', 'i64': 'epi64', 'u64': 'epu64'}
+            return 'return _mm512_cvt{from_suf}_{to_suf}({in0});'. \
+                   format(from_suf=suf[from_typ], to_suf=suf[to_typ],
                           **fmtspec)
         else:
             return emulate
-- 
2.43.0


From 87aae5b7c4981721a2cbe84e7640d38615cc4059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:02 +0000
Subject: [PATCH 08/35] fix: downcvt i64 to f32 on avx512 must not go through
 i32

---
 egg/platform_x86.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index b2078f0..8b9cb16 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2999,12 +2999,6 @@ def downcvt1(opts, simd_ext, from_typ, to_typ):
             return 'return {};'.format(setr(simd_ext, to_typ,
                    '{pre}cvtep{from_typ}_ep{to_typ}({in0})'.format(**fmtspec),
                    '{pre}cvtep{from_typ}_ep{to_typ}({in1})'.format(**fmtspec)))
-        elif from_typ == 'i64' and to_typ == 'f32':
-            return 'return nsimd_cvt_{simd_ext}_f32_i32({});'. \
-                   format(setr(simd_ext, from_typ,
-                          '{pre}cvtepi64_epi32({in0})'.format(**fmtspec),
-                          '{pre}cvtepi64_epi32({in1})'.format(**fmtspec)),
-                          **fmtspec)
 
     # and then emulation
     le_to_typ = 2 * int(fmtspec['le'])
-- 
2.43.0


From 9a21e8f615440cea63791b468eec296c75201305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:02 +0000
Subject: [PATCH 09/35] fix: upcvt f32 to i64 and u64 must not go through
 32-bits integers

---
 egg/platform_x86.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 8b9cb16..255e06c 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2853,9 +2853,9 @@ def upcvt1(simd_ext, from_typ, to_typ):
     else:
         from_typ2 = from_typ[0] + str(int(fmtspec['typnbits']) * 2)
         if from_typ not in common.iutypes:
-            # getting here means that from_typ=f32 and to_typ=f64
+            # getting here means that from_typ=f32 and to_typ=i64 or u64
             with_intrinsic = \
-            '''nsimd_{simd_ext}_vf64x2 ret;
+            '''nsimd_{simd_ext}_v{to_typ}x2 ret;
                ret.v0 = nsimd_cvt_{simd_ext}_{to_typ}_f64({pre}cvtps_pd(
                             {lower_half}));
                ret.v1 = nsimd_cvt_{simd_ext}_{to_typ}_f64({pre}cvtps_pd(
@@ -2902,6 +2902,9 @@ def upcvt1(simd_ext, from_typ, to_typ):
     # return C code
     if from_typ == 'i32' and to_typ == 'f64':
         return with_intrinsic
+    if from_typ == 'f32' and to_typ in ['i64', 'u64']:
+        # going through 32-bits integers would lose values above 2^31
+        return with_intrinsic
     if (from_typ in common.ftypes and to_typ in common.iutypes) or \
        (from_typ in common.iutypes and to_typ in common.ftypes):
         return int_float
-- 
2.43.0


From 87dbf2f415b8e30e987e1cfb17dd53a21b79ba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:39 +0000
Subject: [PATCH 10/35] fix: isnan and isinf for f16 must only look at the
 mantissa bits

---
 include/nsimd/nsimd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 36c6dd1..bbdc5a7 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -2115,7 +2115,7 @@ void storel(T *ptr, NSIMD_NSV(T, SimdExt) a1, T, SimdExt, unaligned) {
 NSIMD_INLINE int nsimd_isnan_f16(f16 a) {
   /* We assume IEEE representation for f16's */
   u16 b = nsimd_scalar_reinterpret_u16_f16(a);
-  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) << 6) != 0u)) {
+  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((b & 0x3FF) != 0)) {
     return 1;
   } else {
     return 0;
@@ -2145,7 +2145,7 @@ NSIMD_INLINE int nsimd_isnan_f64(f64 a) {
 NSIMD_INLINE int nsimd_isinf_f16(f16 a) {
   /* We assume IEEE representation for f16's */
   u16 b = nsimd_scalar_reinterpret_u16_f16(a);
-  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) << 6) == 0u)) {
+  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((b & 0x3FF) == 0)) {
     return 1;
   } else {
     return 0;
-- 
2.43.0


From 51c54c623cab10034f1ba9afffc819f47cb193f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:59 +0000
Subject: [PATCH 11/35] fix: C macros for logical, structure stores and if_else
 named functions that do not exist

---
 include/nsimd/nsimd.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index bbdc5a7..3e2857f 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1749,12 +1749,12 @@ T to(S value) {
 
 #define vif_else(a0, a1, a2, typel, type)                                     \
   NSIMD_PP_CAT_4(nsimd_if_else1_, NSIMD_SIMD, _, type)                        \
-  (NSIMD_PP_CAT_6(nsimd_vreinterpretl_, NSIMD_SIMD, _, type, _, typel)(a0),   \
+  (NSIMD_PP_CAT_6(nsimd_reinterpretl_, NSIMD_SIMD, _, type, _, typel)(a0),   \
    a1, a2)
 
 #define vif_else_e(a0, a1, a2, typel, type, simd_ext)                         \
   NSIMD_PP_CAT_4(nsimd_if_else1_, simd_ext, _, type)                          \
-  (NSIMD_PP_CAT_6(nsimd_vreinterpretl_, simd_ext, _, type, _, typel)(a0), a1, \
+  (NSIMD_PP_CAT_6(nsimd_reinterpretl_, simd_ext, _, type, _, typel)(a0), a1, \
    a2)
 
 #if NSIMD_CXX > 0
@@ -1813,10 +1813,10 @@ if_else(NSIMD_NSVL(L, SimdExt) a0, NSIMD_NSV(T, SimdExt) a1,
   NSIMD_PP_CAT_6(nsimd_load4, alignment, _, simd_ext, _, type)(a0)
 
 #define vloadl(a0, type, alignment)                                           \
-  NSIMD_PP_CAT_6(nsimd_loadl, alignment_, NSIMD_SIMD, _, type)(a0)
+  NSIMD_PP_CAT_6(nsimd_loadl, alignment, _, NSIMD_SIMD, _, type)(a0)
 
 #define vloadl_e(a0, type, simd_ext, alignment)                               \
-  NSIMD_PP_CAT_6(nsimd_loadl, alignment_, simd_ext, _, type)(a0)
+  NSIMD_PP_CAT_6(nsimd_loadl, alignment, _, simd_ext, _, type)(a0)
 
 #define vstore(a0, a1, type, alignment)                                       \
   NSIMD_PP_CAT_6(nsimd_store, alignment, _, NSIMD_SIMD, _, type)(a0, a1)
@@ -1825,24 +1825,24 @@ if_else(NSIMD_NSVL(L, SimdExt) a0, NSIMD_NSV(T, SimdExt) a1,
   NSIMD_PP_CAT_6(nsimd_store, alignment, _, simd_ext, _, type)(a0, a1)
 
 #define vstore2(a0, a1, a2, type, alignment)                                  \
-  NSIMD_PP_CAT_4(nsimd_store2, alignment, _, NSIMD_SIMD, _, type)(a0, a1, a2)
+  NSIMD_PP_CAT_6(nsimd_store2, alignment, _, NSIMD_SIMD, _, type)(a0, a1, a2)
 
 #define vstore2_e(a0, a1, a2, type, simd_ext, alignment)                      \
-  NSIMD_PP_CAT_4(nsimd_store2, alignment, _, simd_ext, _, type)(a0, a1, a2)
+  NSIMD_PP_CAT_6(nsimd_store2, alignment, _, simd_ext, _, type)(a0, a1, a2)
 
 #define vstore3(a0, a1, a2, a3, type, alignment)                              \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, NSIMD_SIMD, _, type)             \
+  NSIMD_PP_CAT_6(nsimd_store3, alignment, _, NSIMD_SIMD, _, type)             \
   (a0, a1, a2, a3)
 
 #define vstore3_e(a0, a1, a2, a3, type, simd_ext, alignment)                  \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, simd_ext, _, type)(a0, a1, a2, a3)
+  NSIMD_PP_CAT_6(nsimd_store3, alignment, _, simd_ext, _, type)(a0, a1, a2, a3)
 
 #define vstore4(a0, a1, a2, a3, a4, type, alignment)                          \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, NSIMD_SIMD, _, type)             \
+  NSIMD_PP_CAT_6(nsimd_store4, alignment, _, NSIMD_SIMD, _, type)             \
   (a0, a1, a2, a3, a4)
 
 #define vstore4_e(a0, a1, a2, a3, a4, type, simd_ext, alignment)              \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, simd_ext, _, type)               \
+  NSIMD_PP_CAT_6(nsimd_store4, alignment, _, simd_ext, _, type)               \
   (a0, a1, a2, a3, a4)
 
 #define vstorel(a0, a1, type, alignment)                                      \
-- 
2.43.0


From d41447c8aaacb0ae5276054faa34b1153187fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:59 +0000
Subject: [PATCH 12/35] fix: C++ loadl and storel templated on the alignment

---
 include/nsimd/nsimd.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 3e2857f..178a1ed 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1952,25 +1952,25 @@ load4(const T *ptr, T, SimdExt, unaligned) {
 
 template <NSIMD_CONCEPT_VALUE_TYPE T>
 NSIMD_NSVL(T, NSIMD_SIMD)
-loadlu(const T *ptr, T, aligned) {
+loadl(const T *ptr, T, aligned) {
   return loadla(ptr, T(), NSIMD_SIMD());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T>
 NSIMD_NSVL(T, NSIMD_SIMD)
-loadlu(const T *ptr, T, unaligned) {
+loadl(const T *ptr, T, unaligned) {
   return loadlu(ptr, T(), NSIMD_SIMD());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
-NSIMD_NSVL(T, NSIMD_SIMD)
-loadlu(const T *ptr, T, SimdExt, aligned) {
+NSIMD_NSVL(T, SimdExt)
+loadl(const T *ptr, T, SimdExt, aligned) {
   return loadla(ptr, T(), SimdExt());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
-NSIMD_NSVL(T, NSIMD_SIMD)
-loadlu(const T *ptr, T, SimdExt, unaligned) {
+NSIMD_NSVL(T, SimdExt)
+loadl(const T *ptr, T, SimdExt, unaligned) {
   return loadlu(ptr, T(), SimdExt());
 }
 
@@ -2071,22 +2071,22 @@ void store4(T *ptr, NSIMD_NSV(T, SimdExt) a1, NSIMD_NSV(T, SimdExt) a2,
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T>
-void storel(T *ptr, NSIMD_NSV(T, NSIMD_SIMD) a1, T, aligned) {
+void storel(T *ptr, NSIMD_NSVL(T, NSIMD_SIMD) a1, T, aligned) {
   storela(ptr, a1, T(), NSIMD_SIMD());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T>
-void storel(T *ptr, NSIMD_NSV(T, NSIMD_SIMD) a1, T, unaligned) {
+void storel(T *ptr, NSIMD_NSVL(T, NSIMD_SIMD) a1, T, unaligned) {
   storelu(ptr, a1, T(), NSIMD_SIMD());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
-void storel(T *ptr, NSIMD_NSV(T, SimdExt) a1, T, SimdExt, aligned) {
+void storel(T *ptr, NSIMD_NSVL(T, SimdExt) a1, T, SimdExt, aligned) {
   storela(ptr, a1, T(), SimdExt());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
-void storel(T *ptr, NSIMD_NSV(T, SimdExt) a1, T, SimdExt, unaligned) {
+void storel(T *ptr, NSIMD_NSVL(T, SimdExt) a1, T, SimdExt, unaligned) {
   storelu(ptr, a1, T(), SimdExt());
 }
 
-- 
2.43.0


From d2886eb31e81b386e14942c44a5e60ac5dea4392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:10 +0000
Subject: [PATCH 13/35] fix: C++20 concepts of loadl and storel templated on
 the alignment

---
 include/nsimd/cxx_adv_api.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index 242837c..6489a80 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -878,7 +878,8 @@ template <> struct store_helper<aligned> {
     mask_storea(a0, a1, a2);
   }
 
-  template <NSIMD_CONCEPT_PACK P> static void storel(NSIMD_T *a0, P const &a1) {
+  template <NSIMD_CONCEPT_PACKL P>
+  static void storel(NSIMD_T *a0, P const &a1) {
     storela(a0, a1);
   }
 
@@ -912,7 +913,8 @@ template <> struct store_helper<unaligned> {
     mask_storeu(a0, a1, a2);
   }
 
-  template <NSIMD_CONCEPT_PACK P> static void storel(NSIMD_T *a0, P const &a1) {
+  template <NSIMD_CONCEPT_PACKL P>
+  static void storel(NSIMD_T *a0, P const &a1) {
     storelu(a0, a1);
   }
 
@@ -957,7 +959,7 @@ Pack masko_load(Packl const &pl, const typename Pack::value_type *ptr,
   return detail::load_helper<Pack, Alignment>::masko_load(pl, ptr, p);
 }
 
-template <NSIMD_CONCEPT_PACK SimdVector, NSIMD_CONCEPT_ALIGNMENT Alignment>
+template <NSIMD_CONCEPT_PACKL SimdVector, NSIMD_CONCEPT_ALIGNMENT Alignment>
 SimdVector loadl(const typename SimdVector::value_type *ptr) {
   return detail::load_helper<SimdVector, Alignment>::loadl(ptr);
 }
-- 
2.43.0


From 39a5b7e34de2b9740a9845a78dcc3d0e058dfa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:53 +0000
Subject: [PATCH 14/35] fix: loadl for f16 on avx512 must load -0.0 as false

---
 egg/platform_x86.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 255e06c..1090b3d 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -1861,10 +1861,16 @@ def loadl(simd_ext, typ, aligned):
         if typ == 'f16':
             return '''/* This can surely be improved but it is not our
                          priority. Note that we take advantage of the fact that
-                         floating zero is represented as integer zero to
-                         simplify code. */
+                         floating zero is represented as integer zero, sign
+                         bit apart, to simplify code. */
+                      int i;
                       nsimd_{simd_ext}_vlf16 ret;
-                      __mmask32 tmp = nsimd_loadlu_{simd_ext}_u16((u16*){in0});
+                      __mmask32 tmp = 0;
+                      for (i = 0; i < {le}; i++) {{
+                        if ((((u16*){in0})[i] & 0x7FFF) != 0) {{
+                          tmp |= (__mmask32)((__mmask32)1 << i);
+                        }}
+                      }}
                       ret.v0 = (__mmask16)(tmp & 0xFFFF);
                       ret.v1 = (__mmask16)((tmp >> 16) & 0xFFFF);
                       return ret;'''.format(**fmtspec)
-- 
2.43.0


From 1e4b15ac85a315313934005137dcd2ae090fa923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:55 +0000
Subject: [PATCH 15/35] fix: masked stores on SSE must not access inactive
 elements

---
 egg/platform_x86.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 1090b3d..54aa18e 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -1079,14 +1079,21 @@ def mask_store(simd_ext, typ, aligned):
                   }}'''.format(store_mask=store_mask, le2=le2, **fmtspec)
     suf2 = 'ps' if typ[1:] == '32' else 'pd'
     if simd_ext in sse:
-        if typ in common.iutypes:
-            return '_mm_maskmoveu_si128({in2}, {in0}, (char *){in1});'. \
-                   format(**fmtspec)
-        else:
-            return '''_mm_maskmoveu_si128(_mm_cast{suf2}_si128({in2}),
-                                          _mm_cast{suf2}_si128({in0}),
-                                          (char *){in1});'''. \
-                                          format(suf2=suf2, **fmtspec)
+        # _mm_maskmoveu_si128 may fault on inactive elements
+        return \
+        '''int i;
+           {typ} buf[{le}];
+           {utyp} mask[{le}];
+           _mm_storeu{sufsi}({cast}buf, {in2});
+           _mm_storeu_si128((__m128i *)mask, {mask});
+           for (i = 0; i < {le}; i++) {{
+             if (mask[i] != ({utyp})0) {{
+               {in1}[i] = buf[i];
+             }}
+           }}'''.format(utyp='u' + typ[1:], cast=castsi(simd_ext, typ),
+                        mask=('{in0}' if typ in common.iutypes else
+                              '_mm_cast{suf2}_si128({in0})'). \
+                              format(suf2=suf2, **fmtspec), **fmtspec)
     if typ in ['i8', 'u8', 'i16', 'u16'] and simd_ext != 'avx512_skylake':
         if simd_ext == 'avx512_knl':
             return \
-- 
2.43.0


From 555e6976c2bc565a73a0abdc1f125b431d7c6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:59 +0000
Subject: [PATCH 16/35] fix: aligned_alloc_for must refuse sizes that overflow

---
 include/nsimd/nsimd.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 178a1ed..bd8d239 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1450,6 +1450,9 @@ NSIMD_INLINE void aligned_free(void *ptr) {
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T> T *aligned_alloc_for(nsimd_nat n) {
+  if (n < 0 || (std::size_t)n > std::size_t(-1) / 2 / sizeof(T)) {
+    return NULL;
+  }
   return (T *)aligned_alloc(n * (nsimd_nat)sizeof(T));
 }
 
-- 
2.43.0


From c6740eaf68b1852af8f6464cb54861e761133a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:59 +0000
Subject: [PATCH 17/35] fix: C++98 allocator must throw when memory is
 exhausted

---
 include/nsimd/nsimd.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index bd8d239..fcec0ed 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1493,7 +1493,11 @@ public:
   const_pointer address(const_reference r) { return &r; }
 
   pointer allocate(size_type n) {
-    return reinterpret_cast<pointer>(aligned_alloc_for<T>((nsimd_nat)n));
+    pointer ptr = reinterpret_cast<pointer>(aligned_alloc_for<T>((nsimd_nat)n));
+    if (ptr == NULL) {
+      throw std::bad_alloc();
+    }
+    return ptr;
   }
 
   pointer allocate(size_type n, const void *) { return allocate(n); }
-- 
2.43.0


From f5aa31bde40b14ffd9e4571f471c61fbee6e8f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:45 +0000
Subject: [PATCH 18/35] fix: comparison operators of fixed-point packs return
 logical packs

---
 include/nsimd/modules/fixed_point.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nsimd/modules/fixed_point.hpp b/include/nsimd/modules/fixed_point.hpp
index 88e9dbb..17b17d3 100644
--- a/include/nsimd/modules/fixed_point.hpp
+++ b/include/nsimd/modules/fixed_point.hpp
@@ -162,7 +162,7 @@ NSIMD_INLINE packl<T> eq(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator==(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator==(const pack<T> &a0, const pack<T> &a1) {
   return eq( a0 , a1 );
 }
 
@@ -174,7 +174,7 @@ NSIMD_INLINE packl<T> ne(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator!=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator!=(const pack<T> &a0, const pack<T> &a1) {
   return ne( a0 , a1 );
 }
 
@@ -186,7 +186,7 @@ NSIMD_INLINE packl<T> le(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator<=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator<=(const pack<T> &a0, const pack<T> &a1) {
   return le( a0 , a1 );
 }
 
@@ -198,7 +198,7 @@ NSIMD_INLINE packl<T> lt(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator<(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator<(const pack<T> &a0, const pack<T> &a1) {
   return lt( a0 , a1 );
 }
 
@@ -210,7 +210,7 @@ NSIMD_INLINE packl<T> ge(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator>=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator>=(const pack<T> &a0, const pack<T> &a1) {
   return ge( a0 , a1 );
 }
 
@@ -222,7 +222,7 @@ NSIMD_INLINE packl<T> gt(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator>(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator>(const pack<T> &a0, const pack<T> &a1) {
   return gt( a0 , a1 );
 }
 
-- 
2.43.0


From e759fbfffb8a09819ae6746222ac73db51b7b425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:39 +0000
Subject: [PATCH 19/35] fix: scalar fixed-point comparisons must compare all
 the bits

---
 include/nsimd/modules/fixed_point/function/eq.hpp    |  6 +-----
 .../nsimd/modules/fixed_point/function/eq_ulp.hpp    |  6 +-----
 .../nsimd/modules/fixed_point/function/greater.hpp   | 12 ++----------
 include/nsimd/modules/fixed_point/function/less.hpp  | 12 ++----------
 4 files changed, 6 insertions(+), 30 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/function/eq.hpp b/include/nsimd/modules/fixed_point/function/eq.hpp
index cb62c6f..b1cc916 100644
--- a/include/nsimd/modules/fixed_point/function/eq.hpp
+++ b/include/nsimd/modules/fixed_point/function/eq.hpp
@@ -31,11 +31,7 @@ namespace nsimd {
 namespace fixed_point {
 template <u8 _lf, u8 _rt>
 bool operator==(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) == (b._raw & mask));
+  return (a._raw == b._raw);
 }
 
 } // namespace fixed_point
diff --git a/include/nsimd/modules/fixed_point/function/eq_ulp.hpp b/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
index 2518f5a..0d00c58 100644
--- a/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
+++ b/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
@@ -33,11 +33,7 @@ template <u8 _lf, u8 _rt>
 bool equal_ulp(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b,
                const int &ulp) {
   typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  raw_type diff = (a._raw & mask) - (b._raw & mask);
-  diff = diff >> shift_size;
+  raw_type diff = a._raw - b._raw;
   return (diff <= ulp & diff >= -ulp);
 }
 
diff --git a/include/nsimd/modules/fixed_point/function/greater.hpp b/include/nsimd/modules/fixed_point/function/greater.hpp
index 22e75fa..7efed00 100644
--- a/include/nsimd/modules/fixed_point/function/greater.hpp
+++ b/include/nsimd/modules/fixed_point/function/greater.hpp
@@ -32,11 +32,7 @@ namespace fixed_point {
 
 template <u8 _lf, u8 _rt>
 bool gt(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) > (b._raw & mask));
+  return (a._raw > b._raw);
 }
 
 template <u8 _lf, u8 _rt>
@@ -56,11 +52,7 @@ bool operator>(const T &a, const fp_t<_lf, _rt> &b) {
 
 template <u8 _lf, u8 _rt>
 bool gte(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) >= (b._raw & mask));
+  return (a._raw >= b._raw);
 }
 
 template <u8 _lf, u8 _rt>
diff --git a/include/nsimd/modules/fixed_point/function/less.hpp b/include/nsimd/modules/fixed_point/function/less.hpp
index b22f07c..b713553 100644
--- a/include/nsimd/modules/fixed_point/function/less.hpp
+++ b/include/nsimd/modules/fixed_point/function/less.hpp
@@ -31,11 +31,7 @@ namespace nsimd {
 namespace fixed_point {
 template <u8 _lf, u8 _rt>
 bool lt(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) < (b._raw & mask));
+  return (a._raw < b._raw);
 }
 
 template <u8 _lf, u8 _rt>
@@ -55,11 +51,7 @@ bool operator<(const T &a, const fp_t<_lf, _rt> &b) {
 
 template <u8 _lf, u8 _rt>
 bool lte(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) <= (b._raw & mask));
+  return (a._raw <= b._raw);
 }
 
 template <u8 _lf, u8 _rt>
-- 
2.43.0


From 45a61e912999e9469de4e65cee521193a09910b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:35 +0000
Subject: [PATCH 20/35] fix: fixed-point conversions with 31 fractional bits

---
 include/nsimd/modules/fixed_point/fixed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/fixed.hpp b/include/nsimd/modules/fixed_point/fixed.hpp
index a85cf34..321db62 100644
--- a/include/nsimd/modules/fixed_point/fixed.hpp
+++ b/include/nsimd/modules/fixed_point/fixed.hpp
@@ -35,11 +35,11 @@ namespace nsimd {
 namespace fixed_point {
 
 template <typename T, u8 rt> static inline T float2int(const float val) {
-  return (T)roundf(val * (float)(1 << rt));
+  return (T)roundf(val * (float)(1u << rt));
 }
 
 template <typename T, u8 rt> static inline float int2float(const T val) {
-  return (float)val / (float)(1 << rt);
+  return (float)val / (float)(1u << rt);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 29da3010b7b9c6d76cb59312a96b1497978e32c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:20 +0000
Subject: [PATCH 21/35] fix: tet1d literals next to a conversion take the type
 of the result

---
 egg/modules/tet1d/hatch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/egg/modules/tet1d/hatch.py b/egg/modules/tet1d/hatch.py
index fcab484..9a3d143 100644
--- a/egg/modules/tet1d/hatch.py
+++ b/egg/modules/tet1d/hatch.py
@@ -818,21 +818,21 @@ def gen_functions(opts):
                       typename Extra, typename T>
             node<{op_name}_t, node<Op, Left, Right, Extra>,
                  node<scalar_t, none_t, none_t,
-                      typename node<Op, Left, Right, Extra>::in_type>, none_t>
+                      typename node<Op, Left, Right, Extra>::out_type>, none_t>
             operator{cxx_operator}(node<Op, Left, Right, Extra> const &node,
                                    T a) {{
-              typedef typename tet1d::node<Op, Left, Right, Extra>::in_type S;
+              typedef typename tet1d::node<Op, Left, Right, Extra>::out_type S;
               return tet1d::{op_name}(node, literal_to<S>::impl(a));
             }}
 
             template <typename T, typename Op, typename Left, typename Right,
                       typename Extra>
             node<{op_name}_t, node<scalar_t, none_t, none_t,
-                              typename node<Op, Left, Right, Extra>::in_type>,
+                              typename node<Op, Left, Right, Extra>::out_type>,
                  node<Op, Left, Right, Extra>, none_t>
             operator{cxx_operator}(T a,
                                    node<Op, Left, Right, Extra> const &node) {{
-              typedef typename tet1d::node<Op, Left, Right, Extra>::in_type S;
+              typedef typename tet1d::node<Op, Left, Right, Extra>::out_type S;
               return tet1d::{op_name}(literal_to<S>::impl(a), node);
             }}
 
-- 
2.43.0


From b9dc2c4b71373050f931f7fad65486a0114b349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:20 +0000
Subject: [PATCH 22/35] fix: tet1d infix shift operators take the number of
 bits

---
 egg/modules/tet1d/hatch.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/egg/modules/tet1d/hatch.py b/egg/modules/tet1d/hatch.py
index 9a3d143..0eff555 100644
--- a/egg/modules/tet1d/hatch.py
+++ b/egg/modules/tet1d/hatch.py
@@ -811,7 +811,19 @@ def gen_functions(opts):
               return tet1d::{op_name}(node);
             }}'''.format(op_name=op_name,
                          cxx_operator=operator.cxx_operator);
-        if operator.cxx_operator != None and len(operator.params) == 3:
+        if operator.cxx_operator != None and operator.params[2:] == ['p']:
+            functions += \
+            '''
+
+            template <typename Op, typename Left, typename Right,
+                      typename Extra>
+            node<{op_name}_t, node<Op, Left, Right, Extra>, none_t, none_t>
+            operator{cxx_operator}(node<Op, Left, Right, Extra> const &node,
+                                   int s) {{
+              return tet1d::{op_name}(node, s);
+            }}'''.format(op_name=op_name,
+                         cxx_operator=operator.cxx_operator);
+        elif operator.cxx_operator != None and len(operator.params) == 3:
             functions += '''
 
             template <typename Op, typename Left, typename Right,
-- 
2.43.0


From c60fbfb245201a4225c4ad96e683fe1934c25a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:20 +0000
Subject: [PATCH 23/35] fix: tet1d ranges of a single element are valid

---
 include/nsimd/modules/tet1d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/modules/tet1d.hpp b/include/nsimd/modules/tet1d.hpp
index 1bd3c56..cfafd4b 100644
--- a/include/nsimd/modules/tet1d.hpp
+++ b/include/nsimd/modules/tet1d.hpp
@@ -309,7 +309,7 @@ template <typename T> struct node<in_t, none_t, none_t, T> {
     nsimd::nat i1 = nsimd::nat(i1_);
     i0 = i0 >= 0 ? i0 : sz + i0;
     i1 = i1 >= 0 ? i1 : sz + i1;
-    assert(0 <= i0 && i0 < i1 && i1 < sz);
+    assert(0 <= i0 && i0 <= i1 && i1 < sz);
     ret.data = &data[i0];
     ret.sz = i1 - i0 + 1;
     return ret;
-- 
2.43.0


From 268f85347a062ec03659553a1d45415909c435e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:20 +0000
Subject: [PATCH 24/35] fix: tet1d header can be included in several
 translation units

---
 include/nsimd/modules/tet1d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/modules/tet1d.hpp b/include/nsimd/modules/tet1d.hpp
index cfafd4b..09c4735 100644
--- a/include/nsimd/modules/tet1d.hpp
+++ b/include/nsimd/modules/tet1d.hpp
@@ -169,7 +169,7 @@ void cpu_kernel_component_wise_mask(T *dst, Mask const &mask, Expr const &expr,
 // ----------------------------------------------------------------------------
 // helper for computing sizes of 1D vectors
 
-nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
+inline nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
   assert(sz1 >= 0 || sz2 >= 0);
   assert((sz1 < 0 && sz2 >= 0) || (sz1 >= 0 && sz2 < 0) || (sz1 == sz2));
   if (sz1 < 0) {
@@ -179,7 +179,7 @@ nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
   }
 }
 
-nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2, nsimd::nat sz3) {
+inline nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2, nsimd::nat sz3) {
   return compute_size(compute_size(sz1, sz2), sz3);
 }
 
-- 
2.43.0


From 585c4bae8b874c54c5279a63adb2c815056e0632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:20 +0000
Subject: [PATCH 25/35] fix: k_while must stop lanes that left the loop and end
 with the last one

---
 include/nsimd/modules/spmd.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 10eb3d9..462c500 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -639,17 +639,23 @@ inline bool any(bool a) { return a; }
     k_bool spmd_middle_mask_ = spmd_mask_;                                    \
     k_bool spmd_off_lanes_break_(false);                                      \
     (void)spmd_off_lanes_break_;                                              \
-    k_bool spmd_off_lanes_continue_(false);                                   \
-    (void)spmd_off_lanes_continue_;                                           \
     {                                                                         \
-      while (spmd::any(cond)) {                                               \
+      for (;;) {                                                              \
+        k_bool spmd_off_lanes_continue_(false);                               \
+        (void)spmd_off_lanes_continue_;                                       \
         k_bool spmd_cond_ =                                                   \
             spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(    \
                 cond);                                                        \
+        spmd_middle_mask_ = spmd_cond_ && spmd_middle_mask_;                  \
+        spmd_middle_mask_ =                                                   \
+            spmd::clear_lanes(spmd_middle_mask_, spmd_off_lanes_break_);      \
+        spmd_middle_mask_ =                                                   \
+            spmd::clear_lanes(spmd_middle_mask_, spmd_off_lanes_return_);     \
+        if (!spmd::any(spmd_middle_mask_)) {                                  \
+          break;                                                              \
+        }                                                                     \
         {                                                                     \
-          k_bool spmd_mask_ = spmd_cond_ && spmd_middle_mask_;                \
-          spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_break_);  \
-          spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_return_);
+          k_bool spmd_mask_ = spmd_middle_mask_;
 
 // break statement (k_break)
 #define k_break                                                               \
-- 
2.43.0


From a4766f6bafa7b25c7d79f45e0f1abce3f4d21385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:20 +0000
Subject: [PATCH 26/35] fix: k_set on booleans must keep inactive lanes

---
 include/nsimd/modules/spmd.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 462c500..3544b1f 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -594,16 +594,18 @@ void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
 
 template <typename T, typename S, int N, typename SimdExt, typename U>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
-            nsimd::packl<S, N, SimdExt> &var, U value) {
-  var = nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(
-      mask && nsimd::pack<S, N, SimdExt>(int(value)));
+            nsimd::packl<S, N, SimdExt> &var,
+            nsimd::packl<U, N, SimdExt> const &value) {
+  typedef nsimd::packl<S, N, SimdExt> packl;
+  packl m = nsimd::reinterpretl<packl>(mask);
+  var = nsimd::orl(nsimd::andl(m, nsimd::reinterpretl<packl>(value)),
+                   nsimd::andnotl(var, m));
 }
 
 template <typename T, typename S, int N, typename SimdExt, typename U>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
-            nsimd::packl<S, N, SimdExt> &var,
-            nsimd::packl<U, N, SimdExt> const &value) {
-  var = nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(mask && value);
+            nsimd::packl<S, N, SimdExt> &var, U value) {
+  k_set_(mask, var, nsimd::packl<S, N, SimdExt>(int(value)));
 }
 
 #define k_set(var, value) spmd::k_set_(spmd_mask_, var, value)
-- 
2.43.0


From 3b9e9cc28fe30ed31aa0b5b591e8d24d849933e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:19 +0000
Subject: [PATCH 27/35] fix: nsimd.h misspells NSIMD_CXX, SSE4.2 unusable in
 C++20

---
 include/nsimd/nsimd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index fcec0ed..dcea8be 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -414,7 +414,7 @@ namespace nsimd {
       struct cpu {};
       struct sse2 {};
       struct sse42 {};
-      #if nsIMD_CXX >= 2020
+      #if NSIMD_CXX >= 2020
         template <typename T>
         concept simd_ext_c = std::is_same_v<T, nsimd::cpu> ||
                              std::is_same_v<T, nsimd::sse2> ||
-- 
2.43.0


From 382a0042e93319eddd52df010b373c54be4f9927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:19 +0000
Subject: [PATCH 28/35] fix: packl of several registers can be built from a
 bool in C++20

---
 include/nsimd/cxx_adv_api.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index 6489a80..14f1f1b 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -205,7 +205,7 @@ NSIMD_STRUCT packl {
   packl() {}
 
   // Ctor that splats
-  template <NSIMD_CONCEPT_VALUE_TYPE S> packl(S const &s) : cdr(s) {
+  template <NSIMD_CONCEPT_VALUE_TYPE_OR_BOOL S> packl(S const &s) : cdr(s) {
     car = set1l(int(s), T(), SimdExt());
   }
 
-- 
2.43.0


From 83af3177001694adc76b31d04c2c7ed91e6cb8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:19 +0000
Subject: [PATCH 29/35] fix: scalar || packl and scalar && packl must build a
 packl

---
 egg/gen_friendly_but_not_optimized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egg/gen_friendly_but_not_optimized.py b/egg/gen_friendly_but_not_optimized.py
index 5ffbe5f..2999929 100644
--- a/egg/gen_friendly_but_not_optimized.py
+++ b/egg/gen_friendly_but_not_optimized.py
@@ -54,7 +54,7 @@ def get_impl(operator):
         template <typename S, typename T, int N, typename SimdExt>
         packl<T, N, SimdExt>
         operator{cxx_op}(S s, packl<T, N, SimdExt> const &v) {{
-          return {op_name}(pack<T, N, SimdExt>(bool(s)), v);
+          return {op_name}(packl<T, N, SimdExt>(bool(s)), v);
         }}
 
         template <typename T, typename S, int N, typename SimdExt>
-- 
2.43.0


From f7f1eab9102f8d0c0aa60ab1111eaf80b1bfc0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:19 +0000
Subject: [PATCH 30/35] fix: stream output of packl prints 8-bit lanes as
 numbers and compiles for f16

---
 include/nsimd/cxx_adv_api.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index 14f1f1b..352a741 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -182,7 +182,7 @@ NSIMD_STRUCT packl<T, 1, SimdExt> {
     os << "{ ";
     int n = len(a0);
     for (int i = 0; i < n; i++) {
-      os << buf[i];
+      os << to_biggest(buf[i]);
       if (i < n - 1) {
         os << ", ";
       }
-- 
2.43.0


From f4bed4356f325181401d9456a12a15070174258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:19 +0000
Subject: [PATCH 31/35] fix: functions of the random module can be included in
 several translation units

---
 egg/modules/random/hatch.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/egg/modules/random/hatch.py b/egg/modules/random/hatch.py
index 911499c..f433df4 100644
--- a/egg/modules/random/hatch.py
+++ b/egg/modules/random/hatch.py
@@ -194,7 +194,7 @@ class Philox(Rand):
 
     mullohi='''
 #if 1
-void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
+inline void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
   nsimd::packx2<u64> a64 = nsimd::upcvt(nsimd::packx2<u64>(), a);
   nsimd::packx2<u64> b64 = nsimd::upcvt(nsimd::packx2<u64>(), b);
 
@@ -209,7 +209,7 @@ void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
 
 #else
 
-void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
+inline void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
   nsimd::pack<u32> ah = nsimd::shr(a, 16);
   nsimd::pack<u32> bh = nsimd::shr(b, 16);
 
@@ -241,7 +241,7 @@ void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
 #endif
 
 #if 0
-void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
+inline void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
   u64 a_buf[8];
   u64 b_buf[8];
   u64 low_buf[8];
@@ -262,7 +262,7 @@ void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
 
 #else
 
-void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
+inline void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
   nsimd::pack<u64> ah = nsimd::shr(a, 32);
   nsimd::pack<u64> bh = nsimd::shr(b, 32);
 
@@ -295,7 +295,7 @@ void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
     '''
 
     def gen_signature(self, nwords, word_size, nrounds):
-        return ('nsimd::packx{nwords}<u{word_size}> {fun_name}' \
+        return ('inline nsimd::packx{nwords}<u{word_size}> {fun_name}' \
                 '(nsimd::packx{nwords}<u{word_size}> in, ' \
                 'nsimd::packx{key_size}<u{word_size}> key)'). \
                 format(nwords = nwords, word_size = word_size,
@@ -477,7 +477,7 @@ class ThreeFry(Rand):
                                     4: [12, 20, 72]}}
 
     def gen_signature(self, nwords, word_size, nrounds):
-        return '''nsimd::packx{nwords}<u{word_size}> \
+        return '''inline nsimd::packx{nwords}<u{word_size}> \
             {fun_name} \
             (nsimd::packx{nwords}<u{word_size}> in, \
             nsimd::packx{nwords}<u{word_size}> key)'''. \
-- 
2.43.0


From 4d54aa208aa234cc971473c60f9364ecb53cb688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:05 +0000
Subject: [PATCH 32/35] fix: device allocation of sizes that overflow must fail

---
 include/nsimd/modules/memory_management.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nsimd/modules/memory_management.hpp b/include/nsimd/modules/memory_management.hpp
index 57ede59..54601e5 100644
--- a/include/nsimd/modules/memory_management.hpp
+++ b/include/nsimd/modules/memory_management.hpp
@@ -205,11 +205,14 @@ void copy_to_host(T *const host_ptr, const T *const device_ptr, size_t sz) {
 #else
 
 template <typename T> T *device_malloc(size_t sz) {
+  if (sz > (size_t)-1 / sizeof(T)) {
+    return NULL;
+  }
   return (T *)malloc(sz * sizeof(T));
 }
 
 template <typename T> T *device_calloc(size_t sz) {
-  return (T *)calloc(sz * sizeof(T), 1);
+  return (T *)calloc(sz, sizeof(T));
 }
 
 template <typename T> void device_free(T *ptr) { free((void *)ptr); }
-- 
2.43.0


From bb15cb3af5a588b98950efbd78d87ef87ddfa468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:09 +0000
Subject: [PATCH 33/35] fix: f64 sin, cos and tan lose up to 14000 ulps near
 large multiples of pi/2

---
 src/misc.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/misc.h b/src/misc.h
index c13765c..e53417d 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -60,16 +60,17 @@
   The argument of a trig function is multiplied by 1/PI, and the
   integral part is divided into two parts, each has at most 28
   bits. So, the maximum argument that could be correctly reduced
-  should be 2^(28*2-1) PI = 1.1e+17. However, due to internal
-  double precision calculation, the actual maximum argument that can
-  be correctly reduced is around 2^47.
+  should be 2^(28*2-1) PI = 1.1e+17. However, due to internal double
+  precision calculation, arguments close to a multiple of PI/2 lose
+  bits as soon as the upper part is not zero, i.e. from 2^23 PI on.
+  Larger arguments must go through the Payne-Hanek reduction.
  */
 
 #define PI_A 3.1415926218032836914
 #define PI_B 3.1786509424591713469e-08
 #define PI_C 1.2246467864107188502e-16
 #define PI_D 1.2736634327021899816e-24
-#define TRIGRANGEMAX 1e+14
+#define TRIGRANGEMAX 1e+7
 
 /*
   PI_A2 and PI_B2 are constants that satisfy the following two conditions.
-- 
2.43.0


From 83be6938357d6c74ac56b367034e796521eb45c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:55 +0000
Subject: [PATCH 34/35] fix: k_unmasked_store accepts scalars as k_store does

---
 include/nsimd/modules/spmd.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 3544b1f..728261b 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -482,8 +482,8 @@ template <typename KernelType> struct load_helper {};
   spmd::store_helper<spmd_KernelType_>::impl(spmd_mask_, &base_addr[spmd_i_], \
                                              value)
 #define k_unmasked_store(base_addr, value)                                    \
-  spmd::store_helper<spmd_KernelType_>::unmasked_impl(&base_addr[spmd_i_],    \
-                                                      value)
+  spmd::store_helper<spmd_KernelType_>::template unmasked_impl<spmd_N_>(      \
+      &base_addr[spmd_i_], value)
 
 #define k_load(base_addr)                                                     \
   spmd::load_helper<spmd_KernelType_>::impl(spmd_mask_, &base_addr[spmd_i_])
@@ -500,7 +500,7 @@ template <> struct store_helper<KernelScalar> {
     }
   }
 
-  template <typename T, typename S>
+  template <int N, typename T, typename S>
   static void unmasked_impl(T *addr, S value) {
     *addr = nsimd::to<T>(value);
   }
@@ -534,14 +534,14 @@ template <> struct store_helper<KernelSIMD> {
                        nsimd::pack<S, N, SimdExt>(nsimd::to<S>(value)));
   }
 
-  template <typename T, int N, typename SimdExt>
+  template <int N, typename T, typename SimdExt>
   static void unmasked_impl(T *addr, nsimd::pack<T, N, SimdExt> const &value) {
     nsimd::storeu(addr, value);
   }
 
-  template <typename T, typename S, int N, typename SimdExt>
+  template <int N, typename T, typename S>
   static void unmasked_impl(T *addr, S value) {
-    nsimd::storeu(addr, nsimd::pack<T, N, SimdExt>(nsimd::to<T>(value)));
+    nsimd::storeu(addr, nsimd::pack<T, N>(nsimd::to<T>(value)));
   }
 };
 
-- 
2.43.0


From 6ec7416ebe7539fe884a2bfdbd28f29784639f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:02 +0000
Subject: [PATCH 35/35] fix: listing files and unforced runs do not rewrite
 module files

---
 egg/modules/fixed_point/gen_doc.py | 6 ++++++
 egg/modules/random/hatch.py        | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/egg/modules/fixed_point/gen_doc.py b/egg/modules/fixed_point/gen_doc.py
index a7251a3..f0eb656 100644
--- a/egg/modules/fixed_point/gen_doc.py
+++ b/egg/modules/fixed_point/gen_doc.py
@@ -37,6 +37,8 @@ import operators
 
 def gen_overview(opts):
     filename = common.get_markdown_file(opts, 'overview', 'fixed_point')
+    if not common.can_create_filename(opts, filename):
+        return
     with common.open_utf8(opts, filename) as fout:
         fout.write('''
 # NSIMD fixed point module
@@ -200,6 +202,8 @@ def gen_api(opts, op_list):
                 api[c].append(operator)
 
     filename = common.get_markdown_file(opts, 'api', 'fixed_point')
+    if not common.can_create_filename(opts, filename):
+        return
     with common.open_utf8(opts, filename) as fout:
         fout.write('''# NSIMD fixed point API\n''')
         for c, ops in api.items():
@@ -218,6 +222,8 @@ def gen_doc(opts, op_list):
         if op.name not in op_list:
             continue
         filename = common.get_markdown_api_file(opts, op.name, 'fixed_point')
+        if not common.can_create_filename(opts, filename):
+            continue
         with common.open_utf8(opts, filename) as fout:
             fout.write(api_template.format(full_name=op.full_name,
                                            desc=op.desc, decl=gen_decl(op)))
diff --git a/egg/modules/random/hatch.py b/egg/modules/random/hatch.py
index f433df4..80e2ef4 100644
--- a/egg/modules/random/hatch.py
+++ b/egg/modules/random/hatch.py
@@ -588,6 +588,8 @@ def gen_functions(opts):
     dirname = os.path.join(opts.include_dir, 'modules', 'random')
     common.mkdir_p(dirname)
     filename = os.path.join(dirname, 'functions.hpp')
+    if not common.can_create_filename(opts, filename):
+        return
     with common.open_utf8(opts, filename) as out:
         out.write(
         '''#ifndef NSIMD_MODULES_RANDOM_FUNCTIONS_HPP
@@ -651,6 +653,8 @@ def gen_tests(opts):
                     filename = os.path.join(dirname, '{}.cpp'. \
                                format(func.gen_function_name(nwords, word_size,
                                                              nrounds)))
+                    if not common.can_create_filename(opts, filename):
+                        continue
                     with common.open_utf8(opts, filename) as out:
                         out.write(func.gen_tests(opts, nrounds, word_size,
                                   nwords))
-- 
2.43.0

