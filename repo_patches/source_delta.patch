From e7d2000d04dda9caf5f4c3f6d8a5814b763882c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:57 +0000
Subject: [PATCH 01/86] fix: choose a shared SEG-Y scaler every one of its
 values fits under

A scaler picked for the value with most decimals could make a larger
value that shares it overflow 32 bits, storing garbage in the header.
---
 src/segy_utils.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/segy_utils.cc b/src/segy_utils.cc
index a501e12..85ab6e0 100644
--- a/src/segy_utils.cc
+++ b/src/segy_utils.cc
@@ -7,6 +7,10 @@
 #include "ExSeisDat/PIOL/segy_utils.hh"
 #include "ExSeisDat/utils/encoding/number_encoding.hh"
 
+#include <algorithm>
+#include <cmath>
+#include <limits>
+
 using namespace exseis::utils;
 
 namespace exseis {
@@ -103,6 +107,19 @@ void insertParam(
             }
         }
 
+        // A scaler is shared by several values, so it must be coarse enough for
+        // the largest of them to be stored.
+        for (const auto* t : rule) {
+            const auto val = prm->f[(i + skip) * r->numFloat + t->num];
+            int16_t& s     = scal[static_cast<Tr>(t->scalLoc)];
+
+            while (s < 10000
+                   && std::abs(std::round(val / parse_scalar(s)))
+                        > std::numeric_limits<int32_t>::max()) {
+                s = (s < -10 ? s / 10 : (s < 0 ? 1 : std::max<int>(s, 1) * 10));
+            }
+        }
+
         // Finish off the floats. Floats are inherently annoying in SEG-Y
         for (const auto& s : scal) {
             const auto be = to_big_endian(s.second);
-- 
2.43.0


From d6dd440f402a759fb1aef5d9dc5d6eaab9484e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 02/86] fix: decode IBM samples from the file's own four bytes

The bytes were first converted to a double, whose leading bytes were then
decoded, so every IBM sample read was garbage.
---
 src/ReadSEGY.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 4a76b1d..91bbf37 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -185,10 +185,8 @@ void readTraceT(
         // Convert trace values from SEGY floating point format to host format
         if (number_format == SEGYNumberFormat::IBM) {
             for (size_t i = 0; i < ns * sz; i++) {
-                const exseis::utils::Floating_point be_trc_i = trc[i];
-
                 const unsigned char* be_trc_i_bytes =
-                  reinterpret_cast<const unsigned char*>(&be_trc_i);
+                  &tbuf[i * sizeof(exseis::utils::Trace_value)];
 
                 std::array<unsigned char, 4> be_bytes_array = {
                   {be_trc_i_bytes[0], be_trc_i_bytes[1], be_trc_i_bytes[2],
-- 
2.43.0


From cf635ef48743cf4ff0e277852f10b32b6f9a3f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 03/86] fix: let a process ask readTraceNonMonotonic for no
 traces

The first element of an empty offset list was dereferenced.
---
 src/ReadSEGY.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 91bbf37..c6e211f 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -248,9 +248,8 @@ void ReadSEGY::readTraceNonMonotonic(
     // Sort the initial offset and make a new offset without duplicates
     auto idx = getSortIndex(sz, offset);
     std::vector<size_t> nodups;
-    nodups.push_back(offset[idx[0]]);
-    for (size_t j = 1; j < sz; j++) {
-        if (offset[idx[j - 1]] != offset[idx[j]]) {
+    for (size_t j = 0; j < sz; j++) {
+        if (j == 0 || offset[idx[j - 1]] != offset[idx[j]]) {
             nodups.push_back(offset[idx[j]]);
         }
     }
-- 
2.43.0


From 59491d7385cd97e204945dc1a6d1c4014695cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 04/86] fix: do not dereference PIOL_PARAM_NULL in
 readTraceNonMonotonic

Reading samples alone in any order crashed.
---
 src/ReadSEGY.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index c6e211f..5aa8d93 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -254,7 +254,8 @@ void ReadSEGY::readTraceNonMonotonic(
         }
     }
 
-    Param sprm(prm->r, (prm != PIOL_PARAM_NULL ? nodups.size() : 0LU));
+    Param sprm =
+      (prm != PIOL_PARAM_NULL ? Param(prm->r, nodups.size()) : Param(0LU));
     std::vector<exseis::utils::Trace_value> strc(
       ns * (trc != TRACE_NULL ? nodups.size() : 0LU));
 
-- 
2.43.0


From c0ecf0bafdfed0d55002bb02e2ae25be71cad600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 05/86] fix: read nothing when readTrace starts past the last
 trace

The number of traces left in the file wrapped round for offset > nt.
---
 src/ReadSEGY.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 5aa8d93..133fd9b 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -214,7 +214,7 @@ void ReadSEGY::readTrace(
   Param* prm,
   const size_t skip) const
 {
-    size_t ntz = ((sz == 0) ? sz : (offset + sz > nt ? nt - offset : sz));
+    const size_t ntz = (offset >= nt ? 0LU : std::min(sz, nt - offset));
     if (offset >= nt && sz != 0) {
         // Nothing to be read.
         piol->log->record(
-- 
2.43.0


From 0437ee3e2aafc6672fdfb36c16683a13b13f2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 06/86] fix: read the number of samples as an unsigned value

A count with its top bit set was sign extended to a huge number, which
could make the trace size zero and the trace count a division by zero.
---
 src/ReadSEGY.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 133fd9b..0996765 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -53,7 +53,7 @@ ReadSEGY::ReadSEGY(
 
         // Parse the number of samples, traces, the increment and the format
         // from header_buffer.
-        ns = from_big_endian<int16_t>(
+        ns = from_big_endian<uint16_t>(
           header_buffer[SEGYFileHeaderByte::NumSample + 0],
           header_buffer[SEGYFileHeaderByte::NumSample + 1]);
 
-- 
2.43.0


From 12193b43c48f9e540d613b74eed8223488e1b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:50 +0000
Subject: [PATCH 07/86] fix: do not extend a file for a process that writes no
 traces

A zero-trace writeTrace at an offset past the end added traces.
---
 src/WriteSEGY.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index 4852eb7..e4da398 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -291,7 +291,9 @@ void WriteSEGY::writeTrace(
 
     writeTraceT(obj.get(), ns, offset, sz, trc, prm, skip);
     state.stalent = true;
-    nt            = std::max(offset + sz, nt);
+    if (sz != 0) {
+        nt = std::max(offset + sz, nt);
+    }
 }
 
 void WriteSEGY::writeTraceNonContiguous(
-- 
2.43.0


From d424dbdf89e21fe49642e8256bf9ac5b9acb1a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:50 +0000
Subject: [PATCH 08/86] fix: report a sample interval that SEG-Y can not hold

It was silently wrapped to 16 bits.
---
 src/WriteSEGY.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index e4da398..4609d28 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -180,6 +180,17 @@ void WriteSEGY::writeInc(const exseis::utils::Floating_point inc_)
         return;
     }
 
+    if (
+      std::abs(inc_ / incFactor)
+      >= exseis::utils::Floating_point(std::numeric_limits<int16_t>::max())
+           + 0.5) {
+        piol->log->record(
+          name, Logger::Layer::File, Logger::Status::Error,
+          "The interval " + std::to_string(inc_) + " is too large for SEG-Y",
+          PIOL_VERBOSITY_NONE);
+        return;
+    }
+
     if (inc != inc_) {
         inc           = inc_;
         state.writeHO = true;
-- 
2.43.0


From a4f3a61937879a4153be489102a514ed1e693f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 09/86] fix: map characters with no counterpart to SUB

They were given the counterpart of the next character that has one, which
also made ASCII text headers count as printable EBCDIC.
---
 src/utils/encoding/character_encoding.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/encoding/character_encoding.cc b/src/utils/encoding/character_encoding.cc
index a9afe29..92ab880 100644
--- a/src/utils/encoding/character_encoding.cc
+++ b/src/utils/encoding/character_encoding.cc
@@ -185,7 +185,9 @@ unsigned char to_ASCII_from_EBCDIC(unsigned char ebcdic_char)
       std::begin(ebcdic_sorted_array), std::end(ebcdic_sorted_array),
       ebcdic_char, compare_ebcdic);
 
-    if (ebcdic_char_it == std::end(ebcdic_sorted_array)) {
+    if (
+      ebcdic_char_it == std::end(ebcdic_sorted_array)
+      || ebcdic_char_it->ebcdic != ebcdic_char) {
         return char_sub.ascii;
     }
     return ebcdic_char_it->ascii;
@@ -203,7 +205,9 @@ unsigned char to_EBCDIC_from_ASCII(unsigned char ascii_char)
       std::begin(ascii_sorted_array), std::end(ascii_sorted_array), ascii_char,
       compare_ascii);
 
-    if (ascii_char_it == std::end(ascii_sorted_array)) {
+    if (
+      ascii_char_it == std::end(ascii_sorted_array)
+      || ascii_char_it->ascii != ascii_char) {
         return char_sub.ebcdic;
     }
     return ascii_char_it->ebcdic;
-- 
2.43.0


From 3e3b190904229f3a5989ee3d3574180d50486c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 10/86] fix: decode unnormalised IBM floats

Only up to three leading zero bits of the fraction were accounted for.
---
 src/utils/encoding/number_encoding.cc | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/utils/encoding/number_encoding.cc b/src/utils/encoding/number_encoding.cc
index 0eaee29..566b947 100644
--- a/src/utils/encoding/number_encoding.cc
+++ b/src/utils/encoding/number_encoding.cc
@@ -73,18 +73,12 @@ Float_components from_IBM(
     // bits of the fraction can be zero.
     // We therefore, need to shift it left by 8 bits, plus those leading zeros.
     //
-    // We use a sneaky trick here: we use the 3 rightmost bits of the IBM
-    // fraction as a lookup for a table listing the offsets. Interpreted as an
-    // integer, these have the values:
-    //  000 -> 0  ---> needs offset of 3
-    //  001 -> 1  ---> needs offset of 2
-    //  010 -> 2  ---> needs offset of 1
-    //  011 -> 3  ---> needs offset of 1
-    // and so on.
+    // An unnormalised IBM number can have any number of further leading zeros.
     //
-    const uint32_t offsets[]         = {3, 2, 1, 1, 0, 0, 0, 0};
-    const uint32_t leading_frac_bits = frac >> 21;
-    const int32_t shift              = offsets[leading_frac_bits];
+    int32_t shift = 0;
+    while (((frac << shift) & 0x00800000) == 0) {
+        shift++;
+    }
 
     const uint32_t shifted_frac = frac << (8 + shift);
 
-- 
2.43.0


From c397a0f3b19c3234de92292319a08e26fd417f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 11/86] fix: round IBM floats at and below the smallest IEEE
 numbers correctly

Shifts wider than the type were undefined, and a number that rounded up
to the smallest normal value became zero.
---
 src/utils/encoding/number_encoding.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/utils/encoding/number_encoding.cc b/src/utils/encoding/number_encoding.cc
index 566b947..95a6ce9 100644
--- a/src/utils/encoding/number_encoding.cc
+++ b/src/utils/encoding/number_encoding.cc
@@ -100,18 +100,22 @@ Float_components from_IBM(
 /// @returns The result of \c value >> \c shift, with round-half-even applied.
 static uint32_t rshift_with_rounding(uint32_t value, uint32_t shift)
 {
+    // Every bit is shifted out, and the value is less than a half.
+    if (shift > 32) {
+        return 0;
+    }
 
     // Get the part of the `value` that will be truncated. This will be the
     // last `shift` bits
 
     // mask is 0000 0000 ... 1111, where the 1s are `shift` bits wide
-    const uint32_t mask = (1UL << shift) - 1;
+    const uint32_t mask = (UINT64_C(1) << shift) - 1;
 
     // trunc is the last `shift` bits of `value`
     const uint32_t trunc = value & mask;
 
     // Shift and truncate `value`.
-    uint32_t truncated_value = value >> shift;
+    uint32_t truncated_value = uint64_t(value) >> shift;
 
     // Apply rounding
 
@@ -133,7 +137,7 @@ static uint32_t rshift_with_rounding(uint32_t value, uint32_t shift)
 
     // half is the value 0000...1000... representing when the truncated
     // part is exactly half, i.e. 0b0.1000...
-    const uint32_t half = (1UL << (shift - 1));
+    const uint32_t half = (UINT64_C(1) << (shift - 1));
 
     // If the truncated part is > 0b0.1000, round up. When it's < 0b0.1000,
     // round down, i.e. just allow the number to be truncated.
@@ -214,7 +218,9 @@ float to_float(Float_components components)
         // form 0.bbbb... rather than 1.bbbb... for regular numbers.
 
         frac = rshift_with_rounding(frac, -exp + 1);
-        exp  = 0;
+
+        // Rounding up can give the smallest normal number.
+        exp = (frac == 0x800000 ? 1 : 0);
     }
 
     // Overflow
-- 
2.43.0


From 52c1a7c49ec5bd7bdea7e7d582e67d3c01c63b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:17 +0000
Subject: [PATCH 12/86] fix: decode an IBM zero as zero

A zero fraction was given an exponent, so zero samples became 0.5.
---
 src/utils/encoding/number_encoding.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/encoding/number_encoding.cc b/src/utils/encoding/number_encoding.cc
index 95a6ce9..fab5d1a 100644
--- a/src/utils/encoding/number_encoding.cc
+++ b/src/utils/encoding/number_encoding.cc
@@ -189,6 +189,12 @@ float to_float(Float_components components)
     exp = exp + 127 - 1;
 
 
+    // Zero has no leading 1, and is represented by an exponent of zero.
+    if (frac == 0) {
+        exp = 0;
+    }
+
+
     // Denormalized numbers
     //
     // In IEEE, denormalized numbers are values of 2^-126 or smaller.
-- 
2.43.0


From 0605a3f9e36c583c2879878adaaab273553b0cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 13/86] fix: do not add an empty rule when asked for one that
 is absent

Rule::getEntry left a null entry behind, which later calls dereferenced
and which stopped the rule from being added.
---
 src/Rule.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Rule.cc b/src/Rule.cc
index ad9ac23..04012d4 100644
--- a/src/Rule.cc
+++ b/src/Rule.cc
@@ -357,7 +357,8 @@ void Rule::rmRule(Meta m)
 
 RuleEntry* Rule::getEntry(Meta entry)
 {
-    return translate[entry];
+    const auto iter = translate.find(entry);
+    return (iter != translate.end() ? iter->second : nullptr);
 }
 
 size_t Rule::memUsage(void) const
-- 
2.43.0


From e0736f1ed52a8161fecdf07977f4f13d2dd4174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 14/86] fix: recalculate the extent of a rule set a raw copy is
 added to

---
 src/Rule.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Rule.cc b/src/Rule.cc
index 04012d4..d8ebddf 100644
--- a/src/Rule.cc
+++ b/src/Rule.cc
@@ -307,6 +307,8 @@ void Rule::addCopy(void)
     if (numCopy == 0) {
         translate[PIOL_META_COPY] = new SEGYCopyRuleEntry();
         numCopy++;
+
+        flag.badextent = (!flag.fullextent);
     }
 }
 
-- 
2.43.0


From 0efb1d89364b494c8863562587f36768f89ddf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 15/86] fix: use the right header bytes under rules with a
 partial extent

Headers are always read and written whole, but the first covered byte was
taken as byte one less than the start of the buffer, and later traces
were looked for at multiples of the extent.
---
 src/segy_utils.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/segy_utils.cc b/src/segy_utils.cc
index 85ab6e0..2c36202 100644
--- a/src/segy_utils.cc
+++ b/src/segy_utils.cc
@@ -24,8 +24,10 @@ void insertParam(
         return;
     }
 
-    auto r       = prm->r;
-    size_t start = r->start;
+    auto r = prm->r;
+
+    // The buffer holds complete headers, whatever part of them the rules cover.
+    const size_t start = 0LU;
 
     if (r->numCopy != 0) {
         if (stride == 0) {
@@ -44,7 +46,7 @@ void insertParam(
     }
 
     for (size_t i = 0; i < sz; i++) {
-        unsigned char* md = &buf[(r->extent() + stride) * i];
+        unsigned char* md = &buf[(SEGY_utils::getMDSz() + stride) * i];
 
 // Compiler defects
 #if defined(__INTEL_COMPILER) || __GNUC__ < 6
@@ -168,20 +170,19 @@ void extractParam(
 
     for (size_t i = 0; i < sz; i++) {
 
-        const unsigned char* md = &buf[(r->extent() + stride) * i];
+        const unsigned char* md = &buf[(SEGY_utils::getMDSz() + stride) * i];
 
         // Loop through each rule and extract data
         for (const auto v : r->translate) {
 
             const auto t = v.second;
-            size_t loc   = t->loc - r->start - 1LU;
+            size_t loc   = t->loc - 1LU;
 
             switch (t->type()) {
                 case RuleEntry::MdType::Float: {
 
                     const size_t scalar_offset =
-                      dynamic_cast<SEGYFloatRuleEntry*>(t)->scalLoc - r->start
-                      - 1LU;
+                      dynamic_cast<SEGYFloatRuleEntry*>(t)->scalLoc - 1LU;
 
                     const auto parsed_scalar =
                       parse_scalar(from_big_endian<int16_t>(
-- 
2.43.0


From 3f09603e5bb467baeeeb0feb51ecf4a4c5307bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 16/86] fix: sort by the header's offset as the signed value it
 is

---
 src/sort.cc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index c9a3a02..5a7e543 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -148,7 +148,8 @@ static bool lessSrcOff(const Param* prm, const size_t i, const size_t j)
               i, PIOL_META_yRcv, prm);
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
 
             auto e2rx = param_utils::getPrm<exseis::utils::Floating_point>(
               j, PIOL_META_xRcv, prm);
@@ -156,7 +157,8 @@ static bool lessSrcOff(const Param* prm, const size_t i, const size_t j)
               j, PIOL_META_yRcv, prm);
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
 
             return (
               off1 < off2
@@ -208,7 +210,8 @@ static bool lessRcvOff(const Param* prm, const size_t i, const size_t j)
               i, PIOL_META_ySrc, prm);
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
 
             auto e2sx = param_utils::getPrm<exseis::utils::Floating_point>(
               j, PIOL_META_xSrc, prm);
@@ -216,7 +219,8 @@ static bool lessRcvOff(const Param* prm, const size_t i, const size_t j)
               j, PIOL_META_ySrc, prm);
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
 
             return (
               off1 < off2
@@ -279,10 +283,12 @@ static bool lessLineOff(const Param* prm, const size_t i, const size_t j)
 
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
             return (
               off1 < off2
               || (off1 == off2
@@ -319,7 +325,8 @@ static bool lessOffLine(const Param* prm, const size_t i, const size_t j)
       i, PIOL_META_yRcv, prm);
     auto off1 =
       (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                 param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                 param_utils::getPrm<exseis::utils::Integer>(
+                   i, PIOL_META_Offset, prm));
 
     auto e2sx = param_utils::getPrm<exseis::utils::Floating_point>(
       j, PIOL_META_xSrc, prm);
@@ -331,7 +338,8 @@ static bool lessOffLine(const Param* prm, const size_t i, const size_t j)
       j, PIOL_META_yRcv, prm);
     auto off2 =
       (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                 param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                 param_utils::getPrm<exseis::utils::Integer>(
+                   j, PIOL_META_Offset, prm));
 
     if (off1 < off2) {
         return true;
-- 
2.43.0


From 985d777a3baeb16c61c8117d8caa4ffd7f7c08d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 17/86] fix: exchange the raw copies of the headers being
 sorted

---
 src/sort.cc | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index 5a7e543..4bfcfe5 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -714,8 +714,8 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
     Param rprm(prm->r, regionSz);
 
     size_t rank = piol->comm->getRank();
-    std::vector<MPI_Request> rsnd(4);
-    std::vector<MPI_Request> rrcv(4);
+    std::vector<MPI_Request> rsnd(5);
+    std::vector<MPI_Request> rrcv(5);
 
     // Lambda for wrapping an MPI call with logging.
     auto log_on_error = [&piol](auto mpi_function, std::string function_name) {
@@ -751,6 +751,10 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Irecv, "Sort right size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 0,
           MPI_COMM_WORLD, &rrcv[3]);
+
+        log_on_error(MPI_Irecv, "Sort right raw copy MPI_Irecv")(
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD,
+          &rrcv[4]);
     }
 
     if (rank != piol->comm->getNumRank() - 1) {
@@ -776,6 +780,10 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Isend, "Sort right size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 0,
           MPI_COMM_WORLD, &rsnd[3]);
+
+        log_on_error(MPI_Isend, "Sort right raw copy MPI_Isend")(
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD,
+          &rsnd[4]);
     }
 
     Wait(piol, rsnd, rrcv);
@@ -800,8 +808,8 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
     Param rprm(prm->r, regionSz);
 
     size_t rank = piol->comm->getRank();
-    std::vector<MPI_Request> rsnd(4);
-    std::vector<MPI_Request> rrcv(4);
+    std::vector<MPI_Request> rsnd(5);
+    std::vector<MPI_Request> rrcv(5);
 
     // Lambda for wrapping an MPI call with logging.
     auto log_on_error = [&piol](auto mpi_function, std::string function_name) {
@@ -839,6 +847,10 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Isend, "Sort left size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 1,
           MPI_COMM_WORLD, &rsnd[3]);
+
+        log_on_error(MPI_Isend, "Sort left raw copy MPI_Isend")(
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD,
+          &rsnd[4]);
     }
 
     if (rank != piol->comm->getNumRank() - 1) {
@@ -858,6 +870,10 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Irecv, "Sort left size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 1,
           MPI_COMM_WORLD, &rrcv[3]);
+
+        log_on_error(MPI_Irecv, "Sort left raw copy MPI_Irecv")(
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD,
+          &rrcv[4]);
     }
 
     Wait(piol, rrcv, rsnd);
-- 
2.43.0


From 64493ed6bdf89005455ef543ee53eaf418d37964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 18/86] fix: communicate on the communicator the library was
 given

---
 src/CommunicatorMPI.cc |  3 +--
 src/sort.cc            | 52 +++++++++++++++++++++---------------------
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/src/CommunicatorMPI.cc b/src/CommunicatorMPI.cc
index 6427fd7..0be63b6 100644
--- a/src/CommunicatorMPI.cc
+++ b/src/CommunicatorMPI.cc
@@ -226,8 +226,7 @@ size_t CommunicatorMPI::offset(size_t val)
 {
     size_t offset = 0LU;
     MPI_Exscan(
-      &val, &offset, 1LU, exseis::utils::MPI_type<size_t>(), MPI_SUM,
-      MPI_COMM_WORLD);
+      &val, &offset, 1LU, exseis::utils::MPI_type<size_t>(), MPI_SUM, comm);
     return (rank == 0 ? 0LU : offset);
 }
 
diff --git a/src/sort.cc b/src/sort.cc
index 4bfcfe5..c266ccf 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -493,7 +493,7 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     // TODO: Move to the communication layer?
     if (rank) {
         int err = MPI_Irecv(
-          dat.data(), cnt, MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rrcv[0]);
+          dat.data(), cnt, MPI_CHAR, rank - 1, 1, piol->comm->getComm(), &rrcv[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -507,7 +507,7 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     if (rank != piol->comm->getNumRank() - 1) {
         int err = MPI_Isend(
           &dat[dat.size() - regionSz], cnt, MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rsnd[0]);
+          piol->comm->getComm(), &rsnd[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -540,7 +540,7 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
 
     if (rank) {
         int err = MPI_Isend(
-          dat.data(), cnt, MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rsnd[0]);
+          dat.data(), cnt, MPI_CHAR, rank - 1, 0, piol->comm->getComm(), &rsnd[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -554,7 +554,7 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     if (rank != piol->comm->getNumRank() - 1) {
         int err = MPI_Irecv(
           &dat[dat.size() - regionSz], cnt, MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rrcv[0]);
+          piol->comm->getComm(), &rrcv[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -635,7 +635,7 @@ void sort(
         int greduced = 1;
 
         int err = MPI_Allreduce(
-          &reduced, &greduced, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
+          &reduced, &greduced, 1, MPI_INT, MPI_SUM, piol->comm->getComm());
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -738,22 +738,22 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Irecv, "Sort right exseis::utils::Floating_point MPI_Irecv")(
           rprm.f.data(), rprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rrcv[0]);
+          MPI_CHAR, rank - 1, 0, piol->comm->getComm(), &rrcv[0]);
 
         log_on_error(MPI_Irecv, "Sort right exseis::utils::Integer MPI_Irecv")(
           rprm.i.data(), rprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rrcv[1]);
+          MPI_CHAR, rank - 1, 0, piol->comm->getComm(), &rrcv[1]);
 
         log_on_error(MPI_Irecv, "Sort right short MPI_Irecv")(
           rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, rank - 1, 0,
-          MPI_COMM_WORLD, &rrcv[2]);
+          piol->comm->getComm(), &rrcv[2]);
 
         log_on_error(MPI_Irecv, "Sort right size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 0,
-          MPI_COMM_WORLD, &rrcv[3]);
+          piol->comm->getComm(), &rrcv[3]);
 
         log_on_error(MPI_Irecv, "Sort right raw copy MPI_Irecv")(
-          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD,
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank - 1, 0, piol->comm->getComm(),
           &rrcv[4]);
     }
 
@@ -767,22 +767,22 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Isend, "Sort right exseis::utils::Floating_point MPI_Isend")(
           sprm.f.data(), sprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD, &rsnd[0]);
+          MPI_CHAR, rank + 1, 0, piol->comm->getComm(), &rsnd[0]);
 
         log_on_error(MPI_Isend, "Sort right exseis::utils::Integer MPI_Isend")(
           sprm.i.data(), sprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD, &rsnd[1]);
+          MPI_CHAR, rank + 1, 0, piol->comm->getComm(), &rsnd[1]);
 
         log_on_error(MPI_Isend, "Sort right short MPI_Isend")(
           sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rsnd[2]);
+          piol->comm->getComm(), &rsnd[2]);
 
         log_on_error(MPI_Isend, "Sort right size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rsnd[3]);
+          piol->comm->getComm(), &rsnd[3]);
 
         log_on_error(MPI_Isend, "Sort right raw copy MPI_Isend")(
-          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD,
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank + 1, 0, piol->comm->getComm(),
           &rsnd[4]);
     }
 
@@ -834,22 +834,22 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Isend, "Sort left exseis::utils::Floating_point MPI_Isend")(
           sprm.f.data(), sprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rsnd[0]);
+          MPI_CHAR, rank - 1, 1, piol->comm->getComm(), &rsnd[0]);
 
         log_on_error(MPI_Isend, "Sort left exseis::utils::Integer MPI_Isend")(
           sprm.i.data(), sprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rsnd[1]);
+          MPI_CHAR, rank - 1, 1, piol->comm->getComm(), &rsnd[1]);
 
         log_on_error(MPI_Isend, "Sort left short MPI_Isend")(
           sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, rank - 1, 1,
-          MPI_COMM_WORLD, &rsnd[2]);
+          piol->comm->getComm(), &rsnd[2]);
 
         log_on_error(MPI_Isend, "Sort left size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 1,
-          MPI_COMM_WORLD, &rsnd[3]);
+          piol->comm->getComm(), &rsnd[3]);
 
         log_on_error(MPI_Isend, "Sort left raw copy MPI_Isend")(
-          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD,
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank - 1, 1, piol->comm->getComm(),
           &rsnd[4]);
     }
 
@@ -857,22 +857,22 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Irecv, "Sort left exseis::utils::Floating_point MPI_Irecv")(
           rprm.f.data(), rprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD, &rrcv[0]);
+          MPI_CHAR, rank + 1, 1, piol->comm->getComm(), &rrcv[0]);
 
         log_on_error(MPI_Irecv, "Sort left exseis::utils::Integer MPI_Irecv")(
           rprm.i.data(), rprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD, &rrcv[1]);
+          MPI_CHAR, rank + 1, 1, piol->comm->getComm(), &rrcv[1]);
 
         log_on_error(MPI_Irecv, "Sort left short MPI_Irecv")(
           rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rrcv[2]);
+          piol->comm->getComm(), &rrcv[2]);
 
         log_on_error(MPI_Irecv, "Sort left size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rrcv[3]);
+          piol->comm->getComm(), &rrcv[3]);
 
         log_on_error(MPI_Irecv, "Sort left raw copy MPI_Irecv")(
-          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD,
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank + 1, 1, piol->comm->getComm(),
           &rrcv[4]);
     }
 
@@ -970,7 +970,7 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
         int greduced = 1;
 
         int err = MPI_Allreduce(
-          &reduced, &greduced, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
+          &reduced, &greduced, 1, MPI_INT, MPI_SUM, piol->comm->getComm());
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
-- 
2.43.0


From 09b73969ba97cee6648935a441b308b2be06ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:23 +0000
Subject: [PATCH 19/86] fix: sort when a process holds fewer than four entries

---
 src/sort.cc | 81 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 81 insertions(+)

diff --git a/src/sort.cc b/src/sort.cc
index c266ccf..61bfd7e 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -473,6 +473,46 @@ void Wait(
     }
 }
 
+/*! Collect the elements of every process, in rank order, on all processes.
+ *  @tparam T Type of vector
+ *  @param[in] piol The PIOL object.
+ *  @param[in] dat The local elements
+ *  @return Return the elements of all processes.
+ */
+template<class T>
+std::vector<T> gatherAll(ExSeisPIOL* piol, const std::vector<T>& dat)
+{
+    std::vector<int> counts(piol->comm->getNumRank());
+    std::vector<int> offsets(counts.size());
+    int count = dat.size() * sizeof(T);
+
+    int err = MPI_Allgather(
+      &count, 1, MPI_INT, counts.data(), 1, MPI_INT, piol->comm->getComm());
+
+    size_t total = 0;
+    for (size_t i = 0; i < counts.size(); i++) {
+        offsets[i] = total;
+        total += counts[i];
+    }
+
+    std::vector<T> all(total / sizeof(T));
+    if (err == MPI_SUCCESS) {
+        err = MPI_Allgatherv(
+          dat.data(), count, MPI_CHAR, all.data(), counts.data(),
+          offsets.data(), MPI_CHAR, piol->comm->getComm());
+    }
+
+    if (err != MPI_SUCCESS) {
+        piol->log->record(
+          "", Logger::Layer::Ops, Logger::Status::Error,
+          "Sort MPI_Allgather error: "s
+            + exseis::utils::MPI_error_to_string(err),
+          PIOL_VERBOSITY_NONE);
+    }
+
+    return all;
+}
+
 /*! Send objects from the current processes to the process one rank higher if
  *  such a process exists. Objects are taken from the end of a vector.
  *  Receiving processes put the objects at the start of their vector.
@@ -600,6 +640,24 @@ void sort(
         std::sort(dat.begin(), dat.begin() + lnt);
     }
 
+    // Some process has too little to exchange with its neighbours.
+    if (numRank > 1 && regionSz == 0) {
+        std::vector<T> all = gatherAll(piol, dat);
+
+        if (comp != nullptr) {
+            std::sort(all.begin(), all.end(), [comp](auto& a, auto& b) -> bool {
+                return comp(a, b);
+            });
+        }
+        else {
+            std::sort(all.begin(), all.end());
+        }
+
+        auto first = all.begin() + piol->comm->offset(lnt);
+        std::copy(first, first + lnt, dat.begin());
+        return;
+    }
+
     std::copy(dat.begin(), dat.end(), temp1.begin());
     std::vector<T> temp2;
     // Infinite loop if there is more than one process, otherwise no loop
@@ -904,6 +962,29 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
         return comp(prm, a, b);
     });
 
+    // Some process has too little to exchange with its neighbours.
+    if (numRank > 1 && regionSz == 0) {
+        Param all(prm->r, piol->comm->sum(lnt));
+        all.f = gatherAll(piol, prm->f);
+        all.i = gatherAll(piol, prm->i);
+        all.s = gatherAll(piol, prm->s);
+        all.t = gatherAll(piol, prm->t);
+        all.c = gatherAll(piol, prm->c);
+
+        std::vector<size_t> index(all.size());
+        std::iota(index.begin(), index.end(), 0LU);
+        std::sort(
+          index.begin(), index.end(), [&all, comp](size_t a, size_t b) -> bool {
+              return comp(&all, a, b);
+          });
+
+        size_t offset = piol->comm->offset(lnt);
+        for (size_t i = 0; i < lnt; i++) {
+            param_utils::cpyPrm(index[offset + i], &all, i, prm);
+        }
+        return;
+    }
+
     Param temp1(prm->r, lnt + edge2);
     Param temp2(temp1.r, temp1.size());
     Param temp3(prm->r, temp1.size());
-- 
2.43.0


From 6ed6edc919f224f58aadfd3764b64924ba12850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 20/86] fix: number the traces of a set of several files
 without gaps or repeats

---
 src/Flow/Cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Cache.cc b/src/Flow/Cache.cc
index 7ea3d87..2897789 100644
--- a/src/Flow/Cache.cc
+++ b/src/Flow/Cache.cc
@@ -44,7 +44,7 @@ std::shared_ptr<TraceBlock> Cache::getCache(
               f->ilst.size(), f->ilst.data(), prm.get(), loff);
             for (size_t i = 0LU; i < f->ilst.size(); i++) {
                 param_utils::setPrm(
-                  loff + i, PIOL_META_gtn, off + loff + f->ilst[i], prm.get());
+                  loff + i, PIOL_META_gtn, off + loff + i, prm.get());
                 param_utils::setPrm(
                   loff + i, PIOL_META_ltn, f->ilst[i] * desc.size() + c,
                   prm.get());
-- 
2.43.0


From 4660f57fab17dbe6829e8646c3cc361e68617950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 21/86] fix: do not use parameters cached under other rules

---
 src/Flow/Cache.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Cache.cc b/src/Flow/Cache.cc
index 2897789..12f613f 100644
--- a/src/Flow/Cache.cc
+++ b/src/Flow/Cache.cc
@@ -25,7 +25,9 @@ std::shared_ptr<TraceBlock> Cache::getCache(
     auto it = std::find_if(
       cache.begin(), cache.end(),
       [desc](const CacheElem& elem) -> bool { return elem.desc == desc; });
-    if (it == cache.end() || !it->block || !it->block->prm) {
+    if (
+      it == cache.end() || !it->block || !it->block->prm
+      || it->block->prm->r != rule) {
         size_t lnt = 0LU;
         size_t nt  = 0LU;
         for (auto& f : desc) {
-- 
2.43.0


From a0cec6db5c865ca880ba1199dcb7881f93c99694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 22/86] fix: sort sets of which some process holds fewer than
 three traces

---
 src/Flow/Set.cc | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 3681fb3..b3f9779 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -421,7 +421,9 @@ Set::FuncLst::iterator Set::calcFuncS(
 
     size_t j = 0;
     for (auto& f : fQue) {
-        std::copy(&trlist[j], &trlist[j + f->olst.size()], f->olst.begin());
+        std::copy(
+          trlist.begin() + j, trlist.begin() + j + f->olst.size(),
+          f->olst.begin());
         j += f->olst.size();
     }
 
@@ -589,17 +591,7 @@ void Set::sort(std::shared_ptr<Rule> r, CompareP sortFunc)
 
     func.push_back(std::make_shared<Op<InPlaceMod>>(
       opt, r, nullptr, [this, sortFunc](TraceBlock* in) -> std::vector<size_t> {
-          // TODO: It will eventually be necessary to support this use case.
-          if (piol->comm->min(in->prm->size()) < 3LU) {
-              piol->log->record(
-                "", Logger::Layer::Set, Logger::Status::Error,
-                "Email cathal@ichec.ie if you want to sort -very- small sets of files with multiple processes.",
-                PIOL_VERBOSITY_NONE);
-              return std::vector<size_t>{};
-          }
-          else {
-              return PIOL::sort(piol.get(), in->prm.get(), sortFunc);
-          }
+          return PIOL::sort(piol.get(), in->prm.get(), sortFunc);
       }));
 }
 
-- 
2.43.0


From c7a7262ec9134eac0453f90d38ac221f15e54192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 23/86] fix: give the output of every group of a set its own
 name

---
 src/Flow/Set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index b3f9779..cdf8ace 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -183,7 +183,7 @@ std::vector<std::string> Set::startSingle(
         size_t ns                         = fQue[0]->ifc->readNs();
         exseis::utils::Floating_point inc = fQue[0]->ifc->readInc();
 
-        if (fQue.size() == 1) {
+        if (fQue.size() == 1 && fmap.size() == 1) {
             name = outfix + ".segy";
         }
         else {
-- 
2.43.0


From a5f994b3edbac02d3019e74b9f33c107df5fe6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 24/86] fix: return the names of the files written after a sort

---
 src/Flow/Set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index cdf8ace..1d5b912 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -495,7 +495,7 @@ std::vector<std::string> Set::calcFunc(
             ++fCurr;
         }
 
-        calcFunc(fCurr, fEnd);
+        return calcFunc(fCurr, fEnd);
     }
 
     return std::vector<std::string>{};
-- 
2.43.0


From 409dd2c0601117be6b25bb43288d0edbd7fa2e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 25/86] fix: do not overwrite a set's output with unprocessed
 traces when it is destroyed

---
 src/Flow/Set.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 1d5b912..0ea557c 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -512,6 +512,7 @@ std::vector<std::string> Set::output(std::string oname)
     outfix                       = oname;
     std::vector<std::string> out = calcFunc(func.begin(), func.end());
     func.clear();
+    outfix.clear();
 
     return out;
 }
-- 
2.43.0


From 692486829b27d0f155747805536e2c5420522d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:20 +0000
Subject: [PATCH 26/86] fix: keep the text of a set files are added to

---
 src/Flow/Set.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 0ea557c..341d963 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -86,7 +86,9 @@ void Set::add(std::unique_ptr<ReadInterface> in)
 
 void Set::add(std::string pattern)
 {
-    outmsg = "ExSeisPIOL: Set layer output\n";
+    if (outmsg.empty()) {
+        outmsg = "ExSeisPIOL: Set layer output\n";
+    }
     glob_t globs;
     int err = glob(pattern.c_str(), GLOB_TILDE | GLOB_MARK, NULL, &globs);
     if (err != 0) {
-- 
2.43.0


From 29f5e4b44632ab378544781f45e75b7a1bfa8d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 27/86] fix: reuse cached parameters read under rules which
 cover those asked for

---
 include/ExSeisDat/Flow/CacheElem.hh |  3 +++
 src/Flow/Cache.cc                   | 35 ++++++++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/include/ExSeisDat/Flow/CacheElem.hh b/include/ExSeisDat/Flow/CacheElem.hh
index 20fa245..3e425e8 100644
--- a/include/ExSeisDat/Flow/CacheElem.hh
+++ b/include/ExSeisDat/Flow/CacheElem.hh
@@ -27,6 +27,9 @@ struct CacheElem {
     /// The cached data
     std::shared_ptr<TraceBlock> block;
 
+    /// The rules the cached parameters were asked for under
+    std::shared_ptr<exseis::PIOL::Rule> rule;
+
     /*! Construct the cache element with the given parameter structure.
      *  @param[in] desc_ A deque of unique pointers to file descriptors
      *  @param[inout] prm_ A unique_ptr to the parameter structure. The cache
diff --git a/src/Flow/Cache.cc b/src/Flow/Cache.cc
index 12f613f..3eedce0 100644
--- a/src/Flow/Cache.cc
+++ b/src/Flow/Cache.cc
@@ -7,6 +7,7 @@
 #include "ExSeisDat/Flow/Cache.hh"
 
 #include "ExSeisDat/PIOL/Param.h"
+#include "ExSeisDat/PIOL/SEGYRuleEntry.hh"
 #include "ExSeisDat/PIOL/operations/sort.hh"
 #include "ExSeisDat/PIOL/param_utils.hh"
 
@@ -18,6 +19,37 @@ using namespace exseis::PIOL;
 namespace exseis {
 namespace Flow {
 
+/*! Check if parameters read under one set of rules hold everything another set
+ *  of rules asks for.
+ *  @param[in] have The rules the parameters were read under.
+ *  @param[in] want The rules asked for.
+ *  @return Return true if every entry of \c want is in \c have
+ */
+static bool holdsRules(const Rule* have, const Rule* want)
+{
+    if (have == nullptr || want == nullptr) {
+        return have == want;
+    }
+
+    return std::all_of(
+      want->translate.begin(), want->translate.end(), [have](const auto& w) {
+          auto h = have->translate.find(w.first);
+          if (h == have->translate.end()) {
+              return false;
+          }
+
+          RuleEntry* he = h->second;
+          RuleEntry* we = w.second;
+          if (he->type() != we->type() || he->loc != we->loc) {
+              return false;
+          }
+
+          return we->type() != RuleEntry::MdType::Float
+                 || dynamic_cast<SEGYFloatRuleEntry*>(he)->scalLoc
+                      == dynamic_cast<SEGYFloatRuleEntry*>(we)->scalLoc;
+      });
+}
+
 // TODO: Generalise this for parameters and traces
 std::shared_ptr<TraceBlock> Cache::getCache(
   std::shared_ptr<Rule> rule, FileDeque& desc, bool, bool)
@@ -27,7 +59,7 @@ std::shared_ptr<TraceBlock> Cache::getCache(
       [desc](const CacheElem& elem) -> bool { return elem.desc == desc; });
     if (
       it == cache.end() || !it->block || !it->block->prm
-      || it->block->prm->r != rule) {
+      || !holdsRules(it->rule.get(), rule.get())) {
         size_t lnt = 0LU;
         size_t nt  = 0LU;
         for (auto& f : desc) {
@@ -66,6 +98,7 @@ std::shared_ptr<TraceBlock> Cache::getCache(
             it->block->prm = std::move(prm);
         }
 
+        it->rule       = rule;
         it->block->nt  = nt;
         it->block->ns  = desc[0]->ifc->readNs();
         it->block->inc = desc[0]->ifc->readInc();
-- 
2.43.0


From c8c7dab2020cf6ffad8f669bd72dd73ec6f3f04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 28/86] fix: carry out the operations asked for after single
 trace operations

---
 src/Flow/Set.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 341d963..bd3c03f 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -174,6 +174,17 @@ std::vector<std::string> Set::startSingle(
   FuncLst::iterator fCurr, const FuncLst::iterator fEnd)
 {
     std::vector<std::string> names;
+
+    auto fNext = fCurr;
+    while (fNext != fEnd && (*fNext)->opt.check(FuncOpt::SingleTrace)) {
+        ++fNext;
+    }
+
+    // The operations which remain work on the output of these.
+    const std::string prefix =
+      (fNext != fEnd ? "stemp" + std::to_string(std::distance(fNext, fEnd)) :
+                       outfix);
+
     for (auto& o : fmap) {
         auto& fQue = o.second;
 
@@ -186,11 +197,11 @@ std::vector<std::string> Set::startSingle(
         exseis::utils::Floating_point inc = fQue[0]->ifc->readInc();
 
         if (fQue.size() == 1 && fmap.size() == 1) {
-            name = outfix + ".segy";
+            name = prefix + ".segy";
         }
         else {
             name =
-              outfix + std::to_string(ns) + "_" + std::to_string(inc) + ".segy";
+              prefix + std::to_string(ns) + "_" + std::to_string(inc) + ".segy";
         }
 
         names.push_back(name);
@@ -266,6 +277,14 @@ std::vector<std::string> Set::startSingle(
             }
         }
     }
+
+    if (fNext != fEnd) {
+        drop();
+        for (std::string n : names) {
+            add(n);
+        }
+        return std::vector<std::string>{};
+    }
     return names;
 }
 
-- 
2.43.0


From ca1f8accee1b2a9667d8d0d84410293b36c1a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 29/86] fix: leave the raw copies of the headers of a sorted
 set as they are

---
 src/Flow/Set.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index bd3c03f..fb4fad3 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -602,7 +602,10 @@ void Set::sort(CompareP sortFunc)
 
     // TODO: This is not the ideal mechanism, hack for now. See the note in the
     //       calcFunc for single traces
-    rule->addRule(*r);
+    //       A raw copy already holds these, and is to be left as it is.
+    if (rule->numCopy == 0) {
+        rule->addRule(*r);
+    }
     sort(r, sortFunc);
 }
 
-- 
2.43.0


From 9b06e96fec579ca22d608a0aaad444b00c776913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 30/86] fix: convert the gathers of a sorted set in sorted
 order

---
 src/Flow/Set.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index fb4fad3..5905c3b 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -291,7 +291,14 @@ std::vector<std::string> Set::startSingle(
 std::string Set::startGather(
   FuncLst::iterator fCurr, const FuncLst::iterator fEnd)
 {
-    if (file.size() > 1LU) {
+    // The traces must be read in the order they have been put in.
+    size_t reorder = 0;
+    for (auto& f : file) {
+        reorder += (f->ilst != f->olst);
+    }
+    reorder = piol->comm->max(reorder);
+
+    if (file.size() > 1LU || reorder != 0) {
         OpOpt opt = {FuncOpt::NeedMeta, FuncOpt::NeedTrcVal,
                      FuncOpt::SingleTrace};
         FuncLst tFunc;
-- 
2.43.0


From 6cbd1dc8029af932ec07d07a927f8931e0116afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:56 +0000
Subject: [PATCH 31/86] hook: let a verification harness set the memory limit
 of a set

---
 src/Flow/Set.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 5905c3b..ad4044a 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -30,6 +30,11 @@ typedef std::function<void(const TraceBlock* in, TraceBlock* out)> Mod;
 /// traces/parameters
 typedef std::function<std::vector<size_t>(TraceBlock* data)> InPlaceMod;
 
+#ifdef EXSEISDAT_VERIF_HOOKS
+/// The memory limit of a block of single traces, set by verification harnesses.
+size_t verif_memlim = 1024LU * 1024LU * 1024LU;
+#endif
+
 
 Set::Set(
   std::shared_ptr<ExSeisPIOL> piol_,
@@ -213,7 +218,11 @@ std::vector<std::string> Set::startSingle(
         out->writeInc(inc);
         out->writeText(outmsg);
 
+#ifdef EXSEISDAT_VERIF_HOOKS
+        const size_t memlim = verif_memlim;
+#else
         const size_t memlim = 1024LU * 1024LU * 1024LU;
+#endif
         size_t max =
           memlim
           / (5LU * sizeof(size_t) + SEGY_utils::getDOSz(ns)
-- 
2.43.0


From 8ef7d6340e685f1a759aa8c55e4bf6cb639d21c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:50 +0000
Subject: [PATCH 32/86] fix: leave signals of zeros untapered

---
 src/utils/signal_processing/taper.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utils/signal_processing/taper.cc b/src/utils/signal_processing/taper.cc
index 72fd85c..88c210a 100644
--- a/src/utils/signal_processing/taper.cc
+++ b/src/utils/signal_processing/taper.cc
@@ -20,7 +20,11 @@ void taper(
   size_t left_taper_size,
   size_t right_taper_size)
 {
-    assert(signal_size > left_taper_size && signal_size > right_taper_size);
+    assert(signal_size >= left_taper_size && signal_size >= right_taper_size);
+
+    if (signal_size == 0) {
+        return;
+    }
 
     // Drop muted trace region at the start, if it's there, and call this
     // function again for the truncated region.
@@ -31,8 +35,11 @@ void taper(
 
         auto* truncated_signal =
           std::find_if(signal, signal + signal_size, non_zero);
-        assert(truncated_signal[0] != 0);
 
+        // There is nothing to taper in a dead signal.
+        if (truncated_signal == signal + signal_size) {
+            return;
+        }
 
         // Find the new sizes
         const auto truncated_signal_size =
-- 
2.43.0


From 6e35d148daaa9a2f959830d39d399faaf30bbb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:50 +0000
Subject: [PATCH 33/86] fix: sum the absolute values in mean_abs_gain

---
 src/utils/signal_processing/Gain_function.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils/signal_processing/Gain_function.cc b/src/utils/signal_processing/Gain_function.cc
index 9093a86..7cda5d2 100644
--- a/src/utils/signal_processing/Gain_function.cc
+++ b/src/utils/signal_processing/Gain_function.cc
@@ -145,14 +145,17 @@ Trace_value mean_abs_gain(
 {
     assert(window_size > 0);
 
+    const auto add_abs = [](Trace_value sum, Trace_value i) {
+        return sum + std::abs(i);
+    };
     const Trace_value amp =
-      std::accumulate(signal, signal + window_size, Trace_value(0));
+      std::accumulate(signal, signal + window_size, Trace_value(0), add_abs);
     assert(amp != 0);
 
     const auto non_zero = [](Trace_value i) { return i != Trace_value(0); };
     const size_t num    = std::count_if(signal, &signal[window_size], non_zero);
 
-    return target_amplitude / (std::abs(amp) / std::max<size_t>(1, num));
+    return target_amplitude / (amp / std::max<size_t>(1, num));
 }
 
 extern "C" Trace_value exseis_mean_abs_gain(
-- 
2.43.0


From 854e5d213f0f80f9225235490028171363e82fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:50 +0000
Subject: [PATCH 34/86] fix: weight the only element of a triangular window by
 one

---
 src/utils/signal_processing/Gain_function.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/signal_processing/Gain_function.cc b/src/utils/signal_processing/Gain_function.cc
index 7cda5d2..8a4fced 100644
--- a/src/utils/signal_processing/Gain_function.cc
+++ b/src/utils/signal_processing/Gain_function.cc
@@ -112,7 +112,9 @@ Trace_value triangular_RMS_gain(
         // Linear interpolation:
         //      0 at distance_from_center == half_width
         //      1 at distance_from_center == 0
-        const auto scaling = 1 - distance_from_center / half_width;
+        // (a window of a single element is all center)
+        const auto scaling =
+          (half_width > 0) ? 1 - distance_from_center / half_width : 1;
 
         const auto scaled_signal = signal[j] * scaling;
 
-- 
2.43.0


From 7c6d91d9e4ef7ebe0a5534a562b9286788cc9da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:50 +0000
Subject: [PATCH 35/86] fix: do not read past a median window of two elements

---
 src/utils/signal_processing/Gain_function.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/signal_processing/Gain_function.cc b/src/utils/signal_processing/Gain_function.cc
index 8a4fced..f9c4443 100644
--- a/src/utils/signal_processing/Gain_function.cc
+++ b/src/utils/signal_processing/Gain_function.cc
@@ -181,8 +181,8 @@ Trace_value median_gain(
     std::sort(signalTmp.begin(), signalTmp.end());
 
     if (window_size % 2 == 0) {
-        const auto amp =
-          ((signalTmp[window_size / 2] + signalTmp[window_size / 2 + 1]) / 2);
+        const size_t upper = std::min(window_size / 2 + 1, window_size - 1);
+        const auto amp = ((signalTmp[window_size / 2] + signalTmp[upper]) / 2);
         assert(amp != 0);
 
         return target_amplitude / amp;
-- 
2.43.0


From bc203e996bf43b5584245321acf0adf3eea12063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:50 +0000
Subject: [PATCH 36/86] fix: leave the zeros of a dead window as they are

---
 src/utils/signal_processing/Gain_function.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/utils/signal_processing/Gain_function.cc b/src/utils/signal_processing/Gain_function.cc
index f9c4443..c7773e9 100644
--- a/src/utils/signal_processing/Gain_function.cc
+++ b/src/utils/signal_processing/Gain_function.cc
@@ -27,7 +27,11 @@ Trace_value rectangular_RMS_gain(
     for (size_t j = 0; j < window_size; j++) {
         amp += signal[j] * signal[j];
     }
-    assert(amp != 0);
+
+    // A dead window has nothing to normalise.
+    if (amp == 0) {
+        return 1;
+    }
 
     const auto non_zero = [](Trace_value i) { return i != 0; };
     const size_t num    = std::count_if(signal, &signal[window_size], non_zero);
@@ -120,7 +124,11 @@ Trace_value triangular_RMS_gain(
 
         amp += scaled_signal * scaled_signal;
     }
-    assert(amp != 0);
+
+    // A dead window has nothing to normalise.
+    if (amp == 0) {
+        return 1;
+    }
 
     const auto non_zero = [](Trace_value i) { return i != 0; };
     const size_t num    = std::count_if(signal, &signal[window_size], non_zero);
@@ -152,7 +160,11 @@ Trace_value mean_abs_gain(
     };
     const Trace_value amp =
       std::accumulate(signal, signal + window_size, Trace_value(0), add_abs);
-    assert(amp != 0);
+
+    // A dead window has nothing to normalise.
+    if (amp == 0) {
+        return 1;
+    }
 
     const auto non_zero = [](Trace_value i) { return i != Trace_value(0); };
     const size_t num    = std::count_if(signal, &signal[window_size], non_zero);
-- 
2.43.0


From c4671551f2412aba57e2756742cd9795117d5edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:47 +0000
Subject: [PATCH 37/86] fix: do not destroy the trace while planning its
 transform

---
 src/temporalfilter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index d9b75c9..f14983b 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -342,7 +342,7 @@ void filterFreq(
     std::vector<Complex_trace_value> frequency1(nss);
     fftwf_plan planFFT = fftwf_plan_dft_r2c_1d(
       nss, trcX, reinterpret_cast<fftwf_complex*>(frequency.data()),
-      FFTW_MEASURE);
+      FFTW_ESTIMATE);
     fftwf_execute(planFFT);
     fftwf_destroy_plan(planFFT);
 
@@ -364,7 +364,7 @@ void filterFreq(
 
     fftwf_plan planIFFT = fftwf_plan_dft_c2r_1d(
       nss, reinterpret_cast<fftwf_complex*>(frequency.data()), trcX,
-      FFTW_MEASURE);
+      FFTW_ESTIMATE);
     fftwf_execute(planIFFT);
     fftwf_destroy_plan(planIFFT);
 
-- 
2.43.0


From 8b039ffe885f222fedc0fee1c49dd4c5c77e3e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:47 +0000
Subject: [PATCH 38/86] fix: keep the window of a temporal filter inside the
 trace

---
 src/temporalfilter.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index f14983b..7da5967 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -490,11 +490,21 @@ void temporalFilter(
   std::vector<exseis::utils::Trace_value> corners,
   size_t N)
 {
-    nw      = ((nw == 0 || nw > ns) ? ns : nw);
-    nw      = ((nw % 2) != 0 ? nw : nw - 1);
     winCntr = ((winCntr == 0) ? ns / 2LU : winCntr);
-
     assert(winCntr < ns && "Window Center is larger than trace length");
+
+    if (nw == 0 || nw >= ns) {
+        // The window is the whole trace
+        nw = ns;
+    }
+    else if (nw % 2 == 0) {
+        nw = nw - 1;
+    }
+
+    // The window stays within the trace when its center is close to an end
+    const size_t winStart =
+      std::min(winCntr - std::min(winCntr, nw / 2LU), ns - nw);
+
     size_t tail    = ((corners[1] == 0) ? 1LU : 2LU);
     size_t numTail = N * tail;
     std::vector<exseis::utils::Trace_value> numer(numTail + 1);
@@ -506,7 +516,7 @@ void temporalFilter(
         std::vector<exseis::utils::Trace_value> trcOrgnl(nw);
 
         for (size_t j = 0; j < nw; j++) {
-            trcOrgnl[j] = trc[i * ns + (winCntr - nw / 2) + j];
+            trcOrgnl[j] = trc[i * ns + winStart + j];
         }
         switch (domain) {
             case FltrDmn::Time:
@@ -523,7 +533,7 @@ void temporalFilter(
         }
 
         for (size_t j = 0; j < nw; j++) {
-            trc[i * ns + (winCntr - nw / 2LL) + j] = trcOrgnl[j];
+            trc[i * ns + winStart + j] = trcOrgnl[j];
         }
     }
 }
-- 
2.43.0


From b3fe123786d4fa13dbfcfef3493aca0f001efaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:47 +0000
Subject: [PATCH 39/86] fix: pad traces with the samples the type of padding
 names

---
 src/temporalfilter.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index 7da5967..f72d905 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -305,14 +305,18 @@ FltrPad getPad(PadType type)
             return [](
                      exseis::utils::Trace_value* trc, size_t N, size_t nw,
                      size_t j) {
-                return (j <= nw ? trc[N - j] : trc[2 * (nw + N) - j]);
+                // Reflect about the first and last samples, as often as it
+                // takes when the trace is shorter than the padding.
+                const size_t period = std::max<size_t>(2 * (nw - 1), 1);
+                const size_t k = ((j < N ? N - j : j - N) % period);
+                return trc[std::min(k, period - k) % nw];
             };
             break;
 
         case PadType::Replicate:
             return
-              [](exseis::utils::Trace_value* trc, size_t, size_t nw, size_t j) {
-                  return (j <= nw ? trc[0] : trc[nw]);
+              [](exseis::utils::Trace_value* trc, size_t N, size_t nw, size_t j) {
+                  return (j < N ? trc[0] : trc[nw - 1]);
               };
             break;
 
@@ -320,7 +324,7 @@ FltrPad getPad(PadType type)
             return [](
                      exseis::utils::Trace_value* trc, size_t N, size_t nw,
                      size_t j) {
-                return (j <= nw ? trc[nw - (N - j)] : trc[j - nw - N]);
+                return trc[(j < N ? nw - 1 - (N - 1 - j) % nw : (j - N) % nw)];
             };
             break;
     }
@@ -421,8 +425,9 @@ void filterTime(
 
     for (size_t i = 0LU; i < 3LU * (numTail + 1LU); i++) {
         trcX[i] = padding(trcOrgnl, 3LU * (numTail + 1LU), nw, i);
-        trcX[i + 3LU * numTail + nw] = padding(
-          trcOrgnl, 3LU * (numTail + 1LU), nw - 1LU, i + 3LU * numTail + nw);
+
+        const size_t right = i + 3LU * (numTail + 1LU) + nw;
+        trcX[right] = padding(trcOrgnl, 3LU * (numTail + 1LU), nw, right);
     }
 
     for (size_t i = 0; i < nw; i++) {
-- 
2.43.0


From 418af136a25417c7457165bf794d8dc9f8e49b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:47 +0000
Subject: [PATCH 40/86] fix: find the order of filters whose stopband is below
 their passband

---
 src/temporalfilter.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index f72d905..42fdd6e 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -44,8 +44,11 @@ size_t filterOrder(
     static const exseis::utils::Trace_value val = exseis::utils::Floating_point(
       0.5 * std::log(99.0 / (std::pow(10.0, 0.3) - 1.0)));
 
+    // The stopband is above the passband for a lowpass and below it for a
+    // highpass filter
     return std::ceil(
-      val / std::log(std::tan(pi * cornerS) / std::tan(pi * cornerP)));
+      val
+      / std::abs(std::log(std::tan(pi * cornerS) / std::tan(pi * cornerP))));
 }
 
 void expandPoly(
-- 
2.43.0


From 806120fc41a55e182b4ef259e2b134d4c199245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:47 +0000
Subject: [PATCH 41/86] fix: find the order of a temporal filter from its
 corners in Hz

---
 src/temporalfilter.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index 42fdd6e..bd40f86 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -260,14 +260,14 @@ void temporalFilter(
         default:
         case FltrType::Lowpass: {
             std::vector<exseis::utils::Trace_value> c = {corner[0LU], 0LU};
-            size_t N = filterOrder(corner[0LU], corner[1LU]);
+            size_t N = filterOrder(corner[0LU] / fs, corner[1LU] / fs);
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c, N);
         } break;
 
         case FltrType::Highpass: {
             std::vector<exseis::utils::Trace_value> c = {corner[1LU], 0LU};
-            size_t N = filterOrder(corner[1LU], corner[0LU]);
+            size_t N = filterOrder(corner[1LU] / fs, corner[0LU] / fs);
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c, N);
         } break;
@@ -278,8 +278,8 @@ void temporalFilter(
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c,
               std::max(
-                filterOrder(corner[1], corner[0]),
-                filterOrder(corner[2], corner[3])));
+                filterOrder(corner[1] / fs, corner[0] / fs),
+                filterOrder(corner[2] / fs, corner[3] / fs)));
         } break;
 
         case FltrType::Bandstop: {
@@ -288,8 +288,8 @@ void temporalFilter(
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c,
               std::max(
-                filterOrder(corner[0], corner[1]),
-                filterOrder(corner[3], corner[2])));
+                filterOrder(corner[0] / fs, corner[1] / fs),
+                filterOrder(corner[3] / fs, corner[2] / fs)));
         } break;
     }
 }
-- 
2.43.0


From 0b98ca5abfff8def4b0a08571354056b87db2230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:47 +0000
Subject: [PATCH 42/86] fix: order the numerator of a filter as its denominator

---
 src/temporalfilter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index bd40f86..47afa53 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -239,6 +239,7 @@ void makeFilter(
     }
 
     for (size_t i = 0LU; i < (tN + 1LU) / 2LU; i++) {
+        std::swap(numer[i], numer[tN - i]);
         std::swap(denom[i], denom[tN - i]);
     }
 }
-- 
2.43.0


From 3ae9b410ecbfc0b166db66a199733bccbb0588fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:23 +0000
Subject: [PATCH 43/86] fix: accept the four corners of a band filter of a set

---
 src/Flow/Set.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index ad4044a..e5cc6bc 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -789,7 +789,11 @@ void Set::temporalFilter(
   size_t nw,
   size_t winCntr)
 {
-    assert(corners.size() == 2);
+    // A passband and a stopband corner for each edge of the band
+    assert(
+      corners.size()
+      == ((type == FltrType::Bandpass || type == FltrType::Bandstop) ? 4LU :
+                                                                       2LU));
     OpOpt opt = {FuncOpt::NeedTrcVal, FuncOpt::ModTrcVal, FuncOpt::DepTrcVal,
                  FuncOpt::SingleTrace};
     func.emplace_back(std::make_shared<Op<InPlaceMod>>(
-- 
2.43.0


From 1bfa8098c696cf9b640bc4096c4bc15e0a65c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:11 +0000
Subject: [PATCH 44/86] fix: do not read the coordinates of a process with no
 traces

---
 include/ExSeisDat/PIOL/operations/minmax.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/ExSeisDat/PIOL/operations/minmax.h b/include/ExSeisDat/PIOL/operations/minmax.h
index 307f492..7573f2b 100644
--- a/include/ExSeisDat/PIOL/operations/minmax.h
+++ b/include/ExSeisDat/PIOL/operations/minmax.h
@@ -86,18 +86,22 @@ std::vector<CoordElem> getCoordMinMax(
         return false;
     };
 
-    T temp;
-    if (!sz || !coord) {
-        coord = &temp;
+    // Processes with no traces take part in the communication only
+    if (!coord) {
+        sz = 0;
     }
 
-    auto p = std::minmax_element(coord, coord + sz, min);
+    std::vector<exseis::utils::Floating_point> lminmax(2U);
+    std::vector<size_t> ltrace(2U);
 
-    std::vector<exseis::utils::Floating_point> lminmax = {elem1(*p.first),
-                                                          elem1(*p.second)};
+    if (sz != 0) {
+        auto p = std::minmax_element(coord, coord + sz, min);
 
-    std::vector<size_t> ltrace = {offset + std::distance(coord, p.first),
-                                  offset + std::distance(coord, p.second)};
+        lminmax = {elem1(*p.first), elem1(*p.second)};
+
+        ltrace = {offset + std::distance(coord, p.first),
+                  offset + std::distance(coord, p.second)};
+    }
 
     auto tminmax = piol->comm->gather(lminmax);
     auto ttrace  = piol->comm->gather(ltrace);
-- 
2.43.0


From 257b1c95eeb70cf83a008047f5693cfa51b8226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:11 +0000
Subject: [PATCH 45/86] fix: find the extremes of sets of several, empty or
 negative files

The maximum was compared with the smallest positive number, files without
traces took part with the value zero, and the numbers of the traces were
those in their file rather than in the set.
---
 src/Flow/Set.cc | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index e5cc6bc..6cd18b8 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -558,12 +558,8 @@ void Set::getMinMax(
   MinMaxFunc<Param> xlam, MinMaxFunc<Param> ylam, CoordElem* minmax)
 {
     // TODO: This needs to be changed to be compatible with ExSeisFlow
-    minmax[0].val = std::numeric_limits<exseis::utils::Floating_point>::max();
-    minmax[1].val = std::numeric_limits<exseis::utils::Floating_point>::min();
-    minmax[2].val = std::numeric_limits<exseis::utils::Floating_point>::max();
-    minmax[3].val = std::numeric_limits<exseis::utils::Floating_point>::min();
     for (size_t i = 0; i < 4; i++) {
-        minmax[i].num = std::numeric_limits<size_t>::max();
+        minmax[i] = {0, std::numeric_limits<size_t>::max()};
     }
 
     CoordElem tminmax[4LU];
@@ -578,11 +574,25 @@ void Set::getMinMax(
             vprm.emplace_back(rule, 1LU);
             param_utils::cpyPrm(i, &prm, 0, &vprm.back());
         }
-        // TODO: Minmax can't assume ordered data! Fix this!
         size_t offset = piol->comm->offset(f->ilst.size());
         PIOL::getMinMax(
           piol.get(), offset, f->ilst.size(), vprm.data(), xlam, ylam, tminmax);
+
+        // The numbers of the traces are those they have in the output.
+        for (auto& t : tminmax) {
+            if (t.num != std::numeric_limits<size_t>::max()) {
+                const bool local =
+                  (t.num >= offset && t.num - offset < f->olst.size());
+                t.num =
+                  piol->comm->max(local ? f->olst[t.num - offset] : 0LU);
+            }
+        }
+
         for (size_t i = 0LU; i < 2LU; i++) {
+            // The file has no traces
+            if (tminmax[2LU * i].num == std::numeric_limits<size_t>::max()) {
+                continue;
+            }
 
             {
                 auto& tmm = tminmax[2LU * i];
@@ -590,7 +600,9 @@ void Set::getMinMax(
                 if (tmm.val == mm.val) {
                     mm.num = std::min(tmm.num, mm.num);
                 }
-                else if (tmm.val < mm.val) {
+                else if (
+                  mm.num == std::numeric_limits<size_t>::max()
+                  || tmm.val < mm.val) {
                     mm = tmm;
                 }
             }
@@ -601,7 +613,9 @@ void Set::getMinMax(
                 if (tmm2.val == mm2.val) {
                     mm2.num = std::min(tmm2.num, mm2.num);
                 }
-                else if (tmm2.val > mm2.val) {
+                else if (
+                  mm2.num == std::numeric_limits<size_t>::max()
+                  || tmm2.val > mm2.val) {
                     mm2 = tmm2;
                 }
             }
-- 
2.43.0


From 7348bef8bb164190b180fc3b3287ac067075d2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 46/86] fix: give distributed vectors room for their elements

The window was allocated with as many bytes as there are elements, the
element one past the end was not refused, and the checks of the rank
refused the first process.
---
 include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
index f9b88c3..772527b 100644
--- a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
+++ b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
@@ -88,7 +88,8 @@ MPI_Distributed_vector<T>::Model::Model(MPI_Aint global_size, MPI_Comm comm) :
       block_decomposition(global_size, num_ranks, rank);
     const size_t local_size = decomposition.local_size;
 
-    MPI_Win_allocate(local_size, sizeof(T), MPI_INFO_NULL, comm, &data, &win);
+    MPI_Win_allocate(
+      local_size * sizeof(T), sizeof(T), MPI_INFO_NULL, comm, &data, &win);
 }
 
 template<typename T>
@@ -101,7 +102,7 @@ MPI_Distributed_vector<T>::Model::~Model()
 template<typename T>
 void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
 {
-    if (i > global_size) {
+    if (i >= global_size) {
         return;
     }
 
@@ -115,7 +116,7 @@ void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
       block_decomposition_location(global_size, num_ranks, i);
 
     // Set the value locally or remotely.
-    assert(rank > 0);
+    assert(rank >= 0);
     if (location.rank == static_cast<size_t>(rank)) {
         data[location.local_index] = val;
     }
@@ -135,7 +136,7 @@ void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
 template<typename T>
 T MPI_Distributed_vector<T>::Model::get(size_t i) const
 {
-    if (i > global_size) {
+    if (i >= global_size) {
         return T();
     }
 
@@ -148,7 +149,7 @@ T MPI_Distributed_vector<T>::Model::get(size_t i) const
     auto location = block_decomposition_location(global_size, num_ranks, i);
 
     // Get the value locally or remotely.
-    assert(rank > 0);
+    assert(rank >= 0);
     if (location.rank == static_cast<size_t>(rank)) {
         return data[location.local_index];
     }
-- 
2.43.0


From aa6e248846d135712eda4ecce8926d6b6a6c4eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:43 +0000
Subject: [PATCH 47/86] fix: merge the gathers which continue on other
 processes

Processes read past the gathered lists and the parameters of processes
without traces, did not look past such processes, counted the traces of a
gather which starts again later and did not wait for each other before the
list was used.
---
 src/gather.cc | 64 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/src/gather.cc b/src/gather.cc
index 291a75c..dee889b 100644
--- a/src/gather.cc
+++ b/src/gather.cc
@@ -31,49 +31,62 @@ static utils::Distributed_vector<Gather_info> getGathers(
     size_t numRank = piol->comm->getNumRank();
     std::vector<Gather_info> lline;
 
-    exseis::utils::Integer ill =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_il, prm);
-    exseis::utils::Integer xll =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_xl, prm);
-    lline.push_back({1LU, ill, xll});
-
-    for (size_t i = 1; i < prm->size(); i++) {
+    for (size_t i = 0; i < prm->size(); i++) {
         exseis::utils::Integer il =
           param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_il, prm);
         exseis::utils::Integer xl =
           param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_xl, prm);
 
-        if (il != ill || xl != xll) {
+        if (
+          lline.empty() || il != lline.back().inline_
+          || xl != lline.back().crossline) {
             lline.push_back({0LU, il, xl});
-            ill = il;
-            xll = xl;
         }
         lline.back().num_traces += 1;
     }
 
-    auto trcnum = piol->comm->gather<size_t>(lline.front().num_traces);
-    auto ilb    = piol->comm->gather<size_t>(lline.back().inline_);
-    auto xlb    = piol->comm->gather<size_t>(lline.back().crossline);
-    auto ilf    = piol->comm->gather<size_t>(lline.front().inline_);
-    auto xlf    = piol->comm->gather<size_t>(lline.front().crossline);
+    const Gather_info front =
+      (lline.empty() ? Gather_info{0LU, 0, 0} : lline.front());
+    const Gather_info back =
+      (lline.empty() ? Gather_info{0LU, 0, 0} : lline.back());
+
+    auto lnum   = piol->comm->gather<size_t>(lline.size());
+    auto trcnum = piol->comm->gather<size_t>(front.num_traces);
+    auto ilb    = piol->comm->gather<size_t>(back.inline_);
+    auto xlb    = piol->comm->gather<size_t>(back.crossline);
+    auto ilf    = piol->comm->gather<size_t>(front.inline_);
+    auto xlf    = piol->comm->gather<size_t>(front.crossline);
+
+    // The process before this one which has traces
+    size_t prev = rank;
+    while (prev > 0LU && lnum[prev - 1LU] == 0LU) {
+        --prev;
+    }
 
+    // The first gather continues that of a previous process
     size_t start = 0;
     if (
-      rank != 0 && ilb[rank - 1LU] == ilf[rank]
-      && xlb[rank - 1LU] == xlf[rank]) {
+      !lline.empty() && prev > 0LU && ilb[prev - 1LU] == ilf[rank]
+      && xlb[prev - 1LU] == xlf[rank]) {
 
         start = 1;
     }
 
+    // The last gather continues on later processes
     if (start < lline.size()) {
-        if (ilf[rank + 1LU] == ilb[rank] && xlf[rank + 1LU] == xlb[rank]) {
-            for (size_t i = rank + 1LU; i < numRank; i++) {
-                if (ilb[rank] == ilf[i] && xlb[rank] == xlf[i]) {
-                    lline.back().num_traces += trcnum[i];
-                }
-                else {
-                    break;
-                }
+        for (size_t i = rank + 1LU; i < numRank; i++) {
+            if (lnum[i] == 0LU) {
+                continue;
+            }
+
+            if (ilb[rank] != ilf[i] || xlb[rank] != xlf[i]) {
+                break;
+            }
+
+            lline.back().num_traces += trcnum[i];
+
+            if (lnum[i] > 1LU) {
+                break;
             }
         }
     }
@@ -87,6 +100,7 @@ static utils::Distributed_vector<Gather_info> getGathers(
     for (size_t i = 0; i < sz; i++) {
         line.set(i + offset, lline[i + start]);
     }
+    piol->comm->barrier();
 
     return std::move(line);
 }
-- 
2.43.0


From dccdf1666304a05facb870010b08f64035c4e991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:53 +0000
Subject: [PATCH 48/86] fix: check the order of traces across process
 boundaries

---
 include/ExSeisDat/PIOL/operations/sort.hh |  6 ++++--
 src/sort.cc                               | 11 ++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/ExSeisDat/PIOL/operations/sort.hh b/include/ExSeisDat/PIOL/operations/sort.hh
index add7288..90f2b97 100644
--- a/include/ExSeisDat/PIOL/operations/sort.hh
+++ b/include/ExSeisDat/PIOL/operations/sort.hh
@@ -59,7 +59,8 @@ std::vector<size_t> sort(
  *  @param[in] dec The decomposition: a \c Contiguous_decomposition which
  *                 contains the \c offset and the number of traces (\c size) for
  *                 the local process.
- *  @return Return true if the local ordering is correct.
+ *  @return Return true if the local ordering is correct, and the first local
+ *          trace is in order with the trace before it in the file.
  */
 bool checkOrder(
   ReadInterface* src, exseis::utils::Contiguous_decomposition dec);
@@ -79,7 +80,8 @@ std::vector<size_t> sort(ExSeisPIOL* piol, SortType type, Param* prm);
  *  @param[in] dec The decomposition: a pair which contains the \c offset
  *                 and the number of traces (\c size) for the local process.
  *  @param[in] type The sort type
- *  @return Return true if the local ordering is correct.
+ *  @return Return true if the local ordering is correct, and the first local
+ *          trace is in order with the trace before it in the file.
  */
 bool checkOrder(
   ReadInterface* src,
diff --git a/src/sort.cc b/src/sort.cc
index 61bfd7e..c7e7db0 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -414,11 +414,16 @@ bool checkOrder(
   SortType type)
 {
     auto comp = getComp(type);
-    Param prm(dec.local_size);
 
-    src->readParam(dec.global_offset, dec.local_size, &prm);
+    // The first local trace must follow the last trace of the previous process.
+    const size_t before =
+      (dec.local_size != 0 && dec.global_offset != 0 ? 1 : 0);
+    const size_t size = dec.local_size + before;
+    Param prm(size);
 
-    for (size_t i = 1; i < dec.local_size; i++) {
+    src->readParam(dec.global_offset - before, size, &prm);
+
+    for (size_t i = 1; i < size; i++) {
         if (!comp(&prm, i - 1, i)) {
             return false;
         }
-- 
2.43.0


From 9c3d318f58a242bf6386997472361d14e88ae36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:54 +0000
Subject: [PATCH 49/86] fix: report the order of the whole file in verifysort

Every process reported on its own traces only, so that the tool both
succeeded and failed on the same file.
---
 util/verifysort.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/util/verifysort.cc b/util/verifysort.cc
index 8f980cf..13037f6 100644
--- a/util/verifysort.cc
+++ b/util/verifysort.cc
@@ -48,11 +48,16 @@ int main(int argc, char** argv)
     auto dec = block_decomposition(
       src.readNt(), piol->comm->getNumRank(), piol->comm->getRank());
 
-    if (checkOrder(src, dec, type)) {
-        std::cout << "Success\n";
-    }
-    else {
-        std::cerr << "Failure\n";
+    const size_t disordered = (checkOrder(src, dec, type) ? 0 : 1);
+    const bool ordered      = (piol->comm->sum(disordered) == 0);
+
+    if (piol->getRank() == 0) {
+        if (ordered) {
+            std::cout << "Success\n";
+        }
+        else {
+            std::cerr << "Failure\n";
+        }
     }
 
     return 0;
-- 
2.43.0


From 29af97168305e124d9a79249c8c634e891a700bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 50/86] fix: apply the operations following a gather operation
 once

They ran on the gathers and again on the file the gathers were written to.
---
 src/Flow/Set.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 6cd18b8..cfe22e9 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -155,15 +155,15 @@ std::unique_ptr<TraceBlock> Set::calcFunc(
     }
 
     switch (type) {
-        case FuncOpt::Gather:
-            if ((*fCurr)->opt.check(FuncOpt::Gather)) {
-                auto bOut = std::make_unique<TraceBlock>();
-                dynamic_cast<Op<Mod>*>(fCurr->get())
-                  ->func(bIn.get(), bOut.get());
-                bIn = std::move(bOut);
-            }
-            ++fCurr;
-            // fallthrough
+        case FuncOpt::Gather: {
+            // The single trace operations which follow work on the output.
+            auto bOut = std::make_unique<TraceBlock>();
+            bOut->nt   = bIn->nt;
+            bOut->gNum = bIn->gNum;
+            bOut->numG = bIn->numG;
+            dynamic_cast<Op<Mod>*>(fCurr->get())->func(bIn.get(), bOut.get());
+            bIn = std::move(bOut);
+        } break;
         case FuncOpt::SingleTrace:
             if ((*fCurr)->opt.check(FuncOpt::SingleTrace)) {
                 type = FuncOpt::SingleTrace;
-- 
2.43.0


From 0c4cae24036987c9e99d5419abef4fdc130fde71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 51/86] fix: keep the gathers of every group of a set

The gathers of the groups were written over each other, and each gather
operation after the first repeated all of the gathers.
---
 include/ExSeisDat/Flow/Set.hh |  6 ++++--
 src/Flow/Set.cc               | 37 +++++++++++++++++++++--------------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/include/ExSeisDat/Flow/Set.hh b/include/ExSeisDat/Flow/Set.hh
index 8054b3f..6609666 100644
--- a/include/ExSeisDat/Flow/Set.hh
+++ b/include/ExSeisDat/Flow/Set.hh
@@ -95,9 +95,11 @@ class Set {
      *  @param[in] fCurr The iterator for the current function to process.
      *  @param[in] fEnd The iterator which indicates the end of the list has
      *             been reached.
-     *  @return Return a file name if fEnd is reached. Otherwise return "".
+     *  @return Return a list of all file names if fEnd is reached. Otherwise
+     *          return an empty list.
      */
-    std::string startGather(FuncLst::iterator fCurr, FuncLst::iterator fEnd);
+    std::vector<std::string> startGather(
+      FuncLst::iterator fCurr, FuncLst::iterator fEnd);
 
     /*! Start unwinding the function list for single-trace operations on the
      *  given iterators.
diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index cfe22e9..d44dbe1 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -297,7 +297,7 @@ std::vector<std::string> Set::startSingle(
     return names;
 }
 
-std::string Set::startGather(
+std::vector<std::string> Set::startGather(
   FuncLst::iterator fCurr, const FuncLst::iterator fEnd)
 {
     // The traces must be read in the order they have been put in.
@@ -326,7 +326,7 @@ std::string Set::startGather(
             add(n);
         }
     }
-    std::string gname;
+    std::vector<std::string> gnames;
     for (auto& o : file) {
         // Locate gather boundaries.
         auto gather = getIlXlGathers(piol.get(), o->ifc.get());
@@ -335,14 +335,14 @@ std::string Set::startGather(
         size_t numGather = gdec.local_size;
 
         std::vector<size_t> gNums;
+        for (size_t i = 0; i < numGather; i++) {
+            gNums.push_back(i * numRank + rank);
+        }
+
         for (auto fTemp = fCurr;
              fTemp != fEnd && (*fTemp)->opt.check(FuncOpt::Gather); fTemp++) {
             auto* p = dynamic_cast<Op<Mod>*>(fTemp->get());
             assert(p);
-            for (size_t i = 0; i < numGather; i++) {
-                gNums.push_back(i * numRank + rank);
-            }
-
             p->state->makeState(gNums, gather);
         }
 
@@ -356,7 +356,13 @@ std::string Set::startGather(
         while (++fTemp != fEnd && (*fTemp)->opt.check(FuncOpt::Gather)) {
         }
 
-        gname = (fTemp != fEnd ? "gtemp.segy" : outfix + ".segy");
+        std::string gname = (fTemp != fEnd ? "gtemp" : outfix);
+        if (file.size() > 1LU) {
+            gname += std::to_string(o->ifc->readNs()) + "_"
+                     + std::to_string(o->ifc->readInc());
+        }
+        gname += ".segy";
+        gnames.push_back(gname);
 
         // Use inputs as default values. These can be changed later
         std::unique_ptr<WriteInterface> out = makeFile<WriteSEGY>(piol, gname);
@@ -426,11 +432,13 @@ std::string Set::startGather(
 
     if (fCurr != fEnd) {
         drop();
-        add(gname);
-        return "";
+        for (std::string n : gnames) {
+            add(n);
+        }
+        return std::vector<std::string>{};
     }
     else {
-        return gname;
+        return gnames;
     }
 }
 
@@ -496,12 +504,11 @@ std::vector<std::string> Set::calcFunc(
             fCurr = startSubset(fCurr, fEnd);
         }
         else if ((*fCurr)->opt.check(FuncOpt::Gather)) {
-            std::string gname = startGather(fCurr, fEnd);
+            std::vector<std::string> gnames = startGather(fCurr, fEnd);
 
-            // If startGather returned an empty string, then fCurr == fEnd was
-            // reached.
-            if (!gname.empty()) {
-                return std::vector<std::string>{gname};
+            // If startGather returned names, then fCurr == fEnd was reached.
+            if (!gnames.empty()) {
+                return gnames;
             }
 
             /// @todo Later this will need to be changed when the gather also
-- 
2.43.0


From ebcff5596b6f3c094125b9173cb7a95e38a4df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 52/86] fix: keep within the velocity trace in toAngle

---
 src/Flow/Set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index d44dbe1..91f16f8 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -692,7 +692,7 @@ void Set::toAngle(
                            size_t(
                              exseis::utils::Floating_point(z * in->inc)
                              / state->vInc),
-                           state->vNs)];
+                           state->vNs - 1LU)];
                   exseis::utils::Integer k =
                     llround(
                       vmModel
-- 
2.43.0


From bbf2d76a1177f32fe7a563c2fa24efce426c99d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:29 +0000
Subject: [PATCH 53/86] fix: do not write gathers over the file they are read
 from

---
 src/Flow/Set.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 91f16f8..4e4f16c 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -356,7 +356,11 @@ std::vector<std::string> Set::startGather(
         while (++fTemp != fEnd && (*fTemp)->opt.check(FuncOpt::Gather)) {
         }
 
-        std::string gname = (fTemp != fEnd ? "gtemp" : outfix);
+        // The gathers must not be written to the file they are read from.
+        std::string gname =
+          (fTemp != fEnd ?
+             "gtemp" + std::to_string(std::distance(fTemp, fEnd)) + "_" :
+             outfix);
         if (file.size() > 1LU) {
             gname += std::to_string(o->ifc->readNs()) + "_"
                      + std::to_string(o->ifc->readInc());
-- 
2.43.0


From 74f51f3858e897ff87559413634c02cf8a70dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:44 +0000
Subject: [PATCH 54/86] fix: find the grid of a velocity model

The counts of lines were one short, grids whose crosslines are consecutive
were taken for a single line, a grid of one line divided by zero, and the
traces of the gathers were read as though they were in ascending order.
---
 include/ExSeisDat/PIOL/ReadSEGYModel.hh |  11 +++
 src/ReadSEGYModel.cc                    | 106 +++++++++++++++---------
 2 files changed, 76 insertions(+), 41 deletions(-)

diff --git a/include/ExSeisDat/PIOL/ReadSEGYModel.hh b/include/ExSeisDat/PIOL/ReadSEGYModel.hh
index 4e08561..ab27f3b 100644
--- a/include/ExSeisDat/PIOL/ReadSEGYModel.hh
+++ b/include/ExSeisDat/PIOL/ReadSEGYModel.hh
@@ -19,6 +19,17 @@ namespace PIOL {
  * while lower velocities correspond to materials that are less dense.
  */
 class ReadSEGYModel : public Model3dInterface, public ReadSEGY {
+  protected:
+    /// Do consecutive traces follow the inline coordinate? If not they follow
+    /// the crossline coordinate.
+    bool il_consecutive = false;
+
+    /*! Find the trace of the model for a gather.
+     *  @param[in] gather The il and xl coordinates of interest.
+     *  @return Return the number of the trace.
+     */
+    size_t traceNumber(const Gather_info& gather) const;
+
   public:
     /*! @brief The SEG-Y Model options structure.
      */
diff --git a/src/ReadSEGYModel.cc b/src/ReadSEGYModel.cc
index 8d25f9e..ca80703 100644
--- a/src/ReadSEGYModel.cc
+++ b/src/ReadSEGYModel.cc
@@ -7,6 +7,8 @@
 #include "ExSeisDat/PIOL/ReadSEGYModel.hh"
 #include "ExSeisDat/PIOL/param_utils.hh"
 
+#include <algorithm>
+
 namespace exseis {
 namespace PIOL {
 
@@ -25,36 +27,66 @@ ReadSEGYModel::ReadSEGYModel(
   std::shared_ptr<ObjectInterface> obj_) :
     ReadSEGY(piol_, name_, opt, obj_)
 {
-    std::vector<size_t> vlist = {0LU, 1LU, ReadSEGY::readNt() - 1LU};
+    const size_t nt = ReadSEGY::readNt();
+    if (nt == 0LU) {
+        return;
+    }
+
+    std::vector<size_t> vlist = {0LU, std::min<size_t>(1LU, nt - 1LU),
+                                 nt - 1LU};
     Param prm(vlist.size());
-    readParamNonContiguous(vlist.size(), vlist.data(), &prm);
-
-    exseis::utils::Integer il_start =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_il, &prm);
-    exseis::utils::Integer xl_start =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_xl, &prm);
-
-    exseis::utils::Integer il_increment =
-      param_utils::getPrm<exseis::utils::Integer>(1LU, PIOL_META_il, &prm)
-      - il_start;
-    exseis::utils::Integer il_count =
-      (il_increment != 0 ?
-         (param_utils::getPrm<exseis::utils::Integer>(2LU, PIOL_META_il, &prm)
-          - il_start)
-           / il_increment :
-         0LU);
-    exseis::utils::Integer xl_count =
-      (ReadSEGY::readNt() / (il_count != 0 ? il_count : 1LU));
-    exseis::utils::Integer xl_increment =
-      (param_utils::getPrm<exseis::utils::Integer>(2LU, PIOL_META_xl, &prm)
-       - xl_start)
-      / xl_count;
-
-    il_increment = (il_increment != 0 ? il_increment : 1LU);
-    xl_increment = (xl_increment != 0 ? xl_increment : 1LU);
-
-    il = CoordinateParameters(il_start, il_count, il_increment);
-    xl = CoordinateParameters(xl_start, xl_count, xl_increment);
+    for (size_t i = 0; i < vlist.size(); i++) {
+        readParam(vlist[i], 1LU, &prm, i);
+    }
+
+    std::vector<exseis::utils::Integer> il_line(vlist.size());
+    std::vector<exseis::utils::Integer> xl_line(vlist.size());
+    for (size_t i = 0; i < vlist.size(); i++) {
+        il_line[i] =
+          param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_il, &prm);
+        xl_line[i] =
+          param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_xl, &prm);
+    }
+
+    // The lines of the first two traces tell which coordinate is stored
+    // consecutively.
+    il_consecutive = (il_line[1] != il_line[0] && xl_line[1] == xl_line[0]);
+
+    auto& fast_line = (il_consecutive ? il_line : xl_line);
+    auto& slow_line = (il_consecutive ? xl_line : il_line);
+
+    exseis::utils::Integer fast_increment = fast_line[1] - fast_line[0];
+    fast_increment = (fast_increment != 0 ? fast_increment : 1);
+
+    const exseis::utils::Integer fast_count =
+      std::min<exseis::utils::Integer>(
+        nt, std::max<exseis::utils::Integer>(
+              1, (fast_line[2] - fast_line[0]) / fast_increment + 1));
+
+    const exseis::utils::Integer slow_count = nt / fast_count;
+
+    exseis::utils::Integer slow_increment =
+      (slow_count > 1 ? (slow_line[2] - slow_line[0]) / (slow_count - 1) : 1);
+    slow_increment = (slow_increment != 0 ? slow_increment : 1);
+
+    CoordinateParameters fast(fast_line[0], fast_count, fast_increment);
+    CoordinateParameters slow(slow_line[0], slow_count, slow_increment);
+
+    il = (il_consecutive ? fast : slow);
+    xl = (il_consecutive ? slow : fast);
+}
+
+size_t ReadSEGYModel::traceNumber(const Gather_info& gather) const
+{
+    const exseis::utils::Integer il_number =
+      (gather.inline_ - il.start) / il.increment;
+    const exseis::utils::Integer xl_number =
+      (gather.crossline - xl.start) / xl.increment;
+
+    // Much like indexing in a 2d array
+    return (
+      il_consecutive ? xl_number * il.count + il_number :
+                       il_number * xl.count + xl_number);
 }
 
 std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
@@ -65,16 +97,10 @@ std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
     std::vector<exseis::utils::Trace_value> trc(sz * readNs());
     std::vector<size_t> offsets(sz);
     for (size_t i = 0; i < sz; i++) {
-        auto val = gather[offset + i];
-        /* The below can be translated to:
-         * trace number = ilNumber * xlInc + xlNumber
-         * much like indexing in a 2d array.
-         */
-        offsets[i] = ((val.inline_ - il.start) / il.increment) * xl.count
-                     + ((val.crossline - xl.start) / xl.increment);
+        offsets[i] = traceNumber(gather[offset + i]);
     }
 
-    readTraceNonContiguous(
+    readTraceNonMonotonic(
       offsets.size(), offsets.data(), trc.data(), PIOL_PARAM_NULL, 0LU);
 
     return trc;
@@ -88,12 +114,10 @@ std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
     std::vector<exseis::utils::Trace_value> trc(sz * readNs());
     std::vector<size_t> offsets(sz);
     for (size_t i = 0; i < sz; i++) {
-        auto val   = gather[offset[i]];
-        offsets[i] = ((val.inline_ - il.start) / il.increment) * xl.count
-                     + ((val.crossline - xl.start) / xl.increment);
+        offsets[i] = traceNumber(gather[offset[i]]);
     }
 
-    readTraceNonContiguous(
+    readTraceNonMonotonic(
       offsets.size(), offsets.data(), trc.data(), PIOL_PARAM_NULL, 0LU);
 
     return trc;
-- 
2.43.0


From c885dcfb9b7b5a8407d9b701fc3fa37e13b2e70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:48 +0000
Subject: [PATCH 55/86] fix: write the header of a file of no gathers

---
 src/Flow/Set.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 4e4f16c..216b5c9 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -373,7 +373,9 @@ std::vector<std::string> Set::startGather(
 
         size_t wOffset = 0LU;
         size_t iOffset = 0LU;
-        size_t extra   = piol->comm->max(numGather) - numGather;
+        // An output with no gathers also needs its ns and increment.
+        size_t extra =
+          std::max<size_t>(1LU, piol->comm->max(numGather)) - numGather;
         size_t ig      = 0;
         for (size_t gNum : gNums) {
             auto gval         = gather[gNum];
-- 
2.43.0


From 21f8bef11d72ca98c59832747802d2c65c1900f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:49 +0000
Subject: [PATCH 56/86] fix: convert no gather to no angle gather

---
 src/Flow/Set.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 216b5c9..0b7a8a2 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -679,11 +679,12 @@ void Set::toAngle(
           const size_t iGSz = in->prm->size();
           out->ns           = in->ns;
           out->inc          = state->oInc;  // 1 degree in radians
-          out->trc.resize(state->oGSz * out->ns);
-          out->prm.reset(new Param(in->prm->r, state->oGSz));
           if (in->prm->size() == 0) {
+              out->prm.reset(new Param(in->prm->r, 0LU));
               return;
           }
+          out->trc.resize(state->oGSz * out->ns);
+          out->prm.reset(new Param(in->prm->r, state->oGSz));
 
           // For each angle in the angle gather
           for (size_t j = 0; j < state->oGSz; j++) {
-- 
2.43.0


From be87445713de838ac0395ae748863eb4be56a320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:26 +0000
Subject: [PATCH 57/86] fix: move at least one block per call under any I/O
 limit

---
 src/DataMPIIO.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index 1730e95..06d209f 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -387,7 +387,7 @@ void DataMPIIO::read(size_t offset, size_t sz, unsigned char* d) const
 void DataMPIIO::readv(
   size_t offset, size_t bsz, size_t osz, size_t nb, unsigned char* d) const
 {
-    if (nb * osz > size_t(maxSize)) {
+    if (nb > 1LU && nb * osz > size_t(maxSize)) {
         std::string msg = "(nb, bsz, osz) = (" + std::to_string(nb) + ", "
                           + std::to_string(bsz) + ", " + std::to_string(osz)
                           + ")";
@@ -441,7 +441,8 @@ void DataMPIIO::contigIO(
   size_t osz) const
 {
     MPI_Status stat;
-    size_t max = maxSize / osz;
+    // A call moves at least one block.
+    size_t max = std::max<size_t>(1LU, maxSize / osz);
     auto vec   = piol_->comm->gather<size_t>(sz);
 
     size_t remCall = *std::max_element(vec.begin(), vec.end());
@@ -488,7 +489,7 @@ void DataMPIIO::listIO(
 {
     // TODO: More accurately determine a real limit for setting a view.
     //       Is the problem strides that are too big?
-    size_t max     = maxSize / (bsz != 0 ? bsz * 2LU : 1LU);
+    size_t max = std::max<size_t>(1LU, maxSize / (bsz != 0 ? bsz * 2LU : 1LU));
     size_t remCall = 0;
     {
         auto vec = piol_->comm->gather<size_t>(sz);
@@ -555,7 +556,7 @@ void DataMPIIO::writev(
   size_t nb,
   const unsigned char* d) const
 {
-    if (nb * osz > size_t(maxSize)) {
+    if (nb > 1LU && nb * osz > size_t(maxSize)) {
         std::string msg = "(nb, bsz, osz) = (" + std::to_string(nb) + ", "
                           + std::to_string(bsz) + ", " + std::to_string(osz)
                           + ")";
-- 
2.43.0


From 6685f38d44acb74511072bcf41250fee63204e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:07 +0000
Subject: [PATCH 58/86] fix: make as many collective calls on every process
 whatever its blocks

---
 src/DataMPIIO.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index 06d209f..bacfa16 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -443,12 +443,12 @@ void DataMPIIO::contigIO(
     MPI_Status stat;
     // A call moves at least one block.
     size_t max = std::max<size_t>(1LU, maxSize / osz);
-    auto vec   = piol_->comm->gather<size_t>(sz);
 
-    size_t remCall = *std::max_element(vec.begin(), vec.end());
+    // The processes may differ in their block sizes too.
+    const size_t calls = sz / max + static_cast<size_t>(sz % max > 0);
+    auto vec           = piol_->comm->gather<size_t>(calls);
 
-    remCall = (remCall / max + static_cast<size_t>(remCall % max > 0))
-              - (sz / max + static_cast<size_t>(sz % max > 0));
+    size_t remCall = *std::max_element(vec.begin(), vec.end()) - calls;
 
     for (size_t i = 0; i < sz; i += max) {
         size_t chunk = std::min(sz - i, max);
@@ -492,11 +492,11 @@ void DataMPIIO::listIO(
     size_t max = std::max<size_t>(1LU, maxSize / (bsz != 0 ? bsz * 2LU : 1LU));
     size_t remCall = 0;
     {
-        auto vec = piol_->comm->gather<size_t>(sz);
-        remCall  = *std::max_element(vec.begin(), vec.end());
+        // The processes may differ in their block sizes too.
+        const size_t calls = sz / max + static_cast<size_t>(sz % max > 0);
+        auto vec           = piol_->comm->gather<size_t>(calls);
 
-        remCall = remCall / max + static_cast<size_t>(remCall % max > 0)
-                  - ((sz / max) + static_cast<size_t>(sz % max > 0));
+        remCall = *std::max_element(vec.begin(), vec.end()) - calls;
     }
 
     MPI_Status stat;
-- 
2.43.0


From 40be9543820086b6277b14186699a3a4273e553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:38 +0000
Subject: [PATCH 59/86] fix: report transfers which fail or move less than was
 asked for

A failed list or strided transfer was dropped: the error of the transfer itself
was never looked at, a short write went unnoticed, and a process whose view
failed either left the others in a collective call or wrote its blocks
contiguously at the start of the file.
---
 src/DataMPIIO.cc | 140 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 111 insertions(+), 29 deletions(-)

diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index bacfa16..185567a 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -154,24 +154,83 @@ int iol(
   MPI_Status* stat)
 {
     // Set a view so that MPI_File_read... functions only see contiguous data.
-    MPI_Datatype type;
-    int err = randBlockView(file, info, chunk, bsz, offset, &type);
-    if (err != MPI_SUCCESS) {
-        return err;
-    }
+    MPI_Datatype type = MPI_DATATYPE_NULL;
+    const int viewErr = randBlockView(file, info, chunk, bsz, offset, &type);
 
-    fn(file, 0, d, chunk * bsz, MPI_CHAR, stat);
-    if (err != MPI_SUCCESS) {
-        return err;
-    }
+    // The calls are collective, so a process without its view takes part in
+    // them, but it has no place to transfer anything to.
+    const int ioErr =
+      (viewErr == MPI_SUCCESS ? fn(file, 0, d, chunk * bsz, MPI_CHAR, stat) :
+                                fn(file, 0, nullptr, 0, MPI_CHAR, stat));
 
     // Reset the view.
-    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    if (err != MPI_SUCCESS) {
-        return err;
+    const int resetErr =
+      MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+
+    const int freeErr =
+      (type != MPI_DATATYPE_NULL ? MPI_Type_free(&type) : MPI_SUCCESS);
+
+    for (int err : {viewErr, ioErr, resetErr}) {
+        if (err != MPI_SUCCESS) {
+            return err;
+        }
     }
 
-    return MPI_Type_free(&type);
+    return freeErr;
+}
+
+/*! Find whether a transfer moved less than was asked for
+ *  @param[in] err The error code of the transfer
+ *  @param[in] stat The status of the transfer
+ *  @param[in] sz The number of elements asked for
+ *  @param[in] type The type of an element
+ *  @return Return true if the transfer succeeded, but it was a short one
+ */
+static bool isShort(
+  const int err, const MPI_Status* stat, const int sz, MPI_Datatype type)
+{
+    int count = 0;
+    return err == MPI_SUCCESS
+           && MPI_Get_count(stat, type, &count) == MPI_SUCCESS && count != sz;
+}
+
+/*! Make a read function leave a warning when it reads less than was asked for,
+ *  such as at the end of the file.
+ *  @param[in] fn The read function
+ *  @param[in] log The log
+ *  @param[in] name The name of the file
+ *  @return Return the read function
+ */
+static MFp<MPI_Status> wholeRead(
+  MFp<MPI_Status> fn, Logger* log, const std::string& name)
+{
+    return [fn, log, name](
+             MPI_File f, MPI_Offset o, void* d, int s, MPI_Datatype da,
+             MPI_Status* st) -> int {
+        const int err = fn(f, o, d, s, da, st);
+
+        if (isShort(err, st, s, da)) {
+            log->record(
+              name, Logger::Layer::Data, Logger::Status::Warning,
+              "Read less than was asked for.", PIOL_VERBOSITY_NONE);
+        }
+
+        return err;
+    };
+}
+
+/*! Make a write function fail when it writes less than was asked for.
+ *  @param[in] fn The write function
+ *  @return Return the write function
+ */
+static MFp<MPI_Status> wholeWrite(MFp<MPI_Status> fn)
+{
+    return [fn](
+             MPI_File f, MPI_Offset o, void* d, int s, MPI_Datatype da,
+             MPI_Status* st) -> int {
+        const int err = fn(f, o, d, s, da, st);
+        return (isShort(err, st, s, da) ? MPI_ERR_IO : err);
+    };
 }
 
 /////////////////////////////    Class functions    ////////////////////////////
@@ -380,8 +439,9 @@ void DataMPIIO::setFileSz(size_t sz) const
 void DataMPIIO::read(size_t offset, size_t sz, unsigned char* d) const
 {
     contigIO(
-      (coll ? MPI_File_read_at_all : MPI_File_read_at), offset, sz, d,
-      " non-collective read Failure\n");
+      wholeRead(
+        (coll ? MPI_File_read_at_all : MPI_File_read_at), log_, name_),
+      offset, sz, d, " non-collective read Failure\n");
 }
 
 void DataMPIIO::readv(
@@ -397,7 +457,7 @@ void DataMPIIO::readv(
     }
 
     // Set a view so that MPI_File_read... functions only see contiguous data.
-    MPI_Datatype view;
+    MPI_Datatype view = MPI_DATATYPE_NULL;
     int err = strideView(file, info, offset, bsz, osz, nb, &view);
     if (err != MPI_SUCCESS) {
         log_->record(
@@ -407,11 +467,22 @@ void DataMPIIO::readv(
           PIOL_VERBOSITY_NONE);
     }
 
-    read(0LU, nb * bsz, d);
+    // The call is collective, but without its view a process has no place to
+    // transfer anything to.
+    read(0LU, (err == MPI_SUCCESS ? nb * bsz : 0LU), d);
 
     // Reset the view.
-    MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    MPI_Type_free(&view);
+    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+    if (err != MPI_SUCCESS) {
+        log_->record(
+          name_, Logger::Layer::Data, Logger::Status::Error,
+          "Failed to reset a view: "s
+            + exseis::utils::MPI_error_to_string(err),
+          PIOL_VERBOSITY_NONE);
+    }
+    if (view != MPI_DATATYPE_NULL) {
+        MPI_Type_free(&view);
+    }
 }
 
 void DataMPIIO::read(
@@ -508,14 +579,12 @@ void DataMPIIO::listIO(
           fn, file, info, bsz, chunk,
           reinterpret_cast<const MPI_Aint*>(&offset[i]), &d[i * bsz], &stat);
 
-        // Log and break on failure
+        // Log a failure; the other processes still await the calls which remain
         if (err != MPI_SUCCESS) {
             log_->record(
               name_, Logger::Layer::Data, Logger::Status::Error,
               msg + exseis::utils::MPI_error_to_string(err, &stat),
               PIOL_VERBOSITY_NONE);
-
-            break;
         }
     }
 
@@ -537,7 +606,9 @@ void DataMPIIO::read(
   size_t bsz, size_t sz, const size_t* offset, unsigned char* d) const
 {
     listIO(
-      (coll ? MPI_File_read_at_all : MPI_File_read_at), bsz, sz, offset, d,
+      wholeRead(
+        (coll ? MPI_File_read_at_all : MPI_File_read_at), log_, name_),
+      bsz, sz, offset, d,
       "list read failure");
 }
 
@@ -545,7 +616,7 @@ void DataMPIIO::write(
   size_t bsz, size_t sz, const size_t* offset, const unsigned char* d) const
 {
     listIO(
-      (coll ? mpiio_write_at_all : mpiio_write_at), bsz, sz, offset,
+      wholeWrite(coll ? mpiio_write_at_all : mpiio_write_at), bsz, sz, offset,
       const_cast<unsigned char*>(d), "list write failure");
 }
 
@@ -566,7 +637,7 @@ void DataMPIIO::writev(
     }
 
     // Set a view so that MPI_File_read... functions only see contiguous data.
-    MPI_Datatype view;
+    MPI_Datatype view = MPI_DATATYPE_NULL;
     int err = strideView(file, info, offset, bsz, osz, nb, &view);
 
     if (err != MPI_SUCCESS) {
@@ -577,18 +648,29 @@ void DataMPIIO::writev(
           PIOL_VERBOSITY_NONE);
     }
 
-    write(0LU, nb * bsz, d);
+    // The call is collective, but without its view a process has no place to
+    // transfer anything to.
+    write(0LU, (err == MPI_SUCCESS ? nb * bsz : 0LU), d);
 
     // Reset the view.
-    MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    MPI_Type_free(&view);
+    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+    if (err != MPI_SUCCESS) {
+        log_->record(
+          name_, Logger::Layer::Data, Logger::Status::Error,
+          "Failed to reset a view: "s
+            + exseis::utils::MPI_error_to_string(err),
+          PIOL_VERBOSITY_NONE);
+    }
+    if (view != MPI_DATATYPE_NULL) {
+        MPI_Type_free(&view);
+    }
 }
 
 void DataMPIIO::write(size_t offset, size_t sz, const unsigned char* d) const
 {
     /// @todo Remove const_cast
     contigIO(
-      (coll ? mpiio_write_at_all : mpiio_write_at), offset, sz,
+      wholeWrite(coll ? mpiio_write_at_all : mpiio_write_at), offset, sz,
       const_cast<unsigned char*>(d), "Non-collective write failure.");
 }
 
-- 
2.43.0


From eb9feae0295e9813d8b4c91587c445ad46b689b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:33 +0000
Subject: [PATCH 60/86] fix: warn of trace parameters which are outside the
 range of SEG-Y

---
 include/ExSeisDat/PIOL/segy_utils.hh |  3 ++-
 src/WriteSEGY.cc                     | 33 ++++++++++++++++++++++++----
 src/segy_utils.cc                    | 26 +++++++++++++++++-----
 3 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/include/ExSeisDat/PIOL/segy_utils.hh b/include/ExSeisDat/PIOL/segy_utils.hh
index 5bcaee6..1047f3d 100644
--- a/include/ExSeisDat/PIOL/segy_utils.hh
+++ b/include/ExSeisDat/PIOL/segy_utils.hh
@@ -109,8 +109,9 @@ void extractParam(
  *                    buffer.
  *  @param[in] skip Skip the first "skip" entries when extracting entries from
  *                  Param
+ *  @return Return the number of values which are outside the range of SEG-Y
  */
-void insertParam(
+size_t insertParam(
   size_t sz, const Param* prm, unsigned char* md, size_t stride, size_t skip);
 
 
diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index 4609d28..ec6fe90 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -208,9 +208,10 @@ void WriteSEGY::writeInc(const exseis::utils::Floating_point inc_)
  *  @param[in] trc Pointer to trace array.
  *  @param[in] prm Pointer to parameter structure.
  *  @param[in] skip Skip \c skip entries in the parameter structure
+ *  @return Return the number of parameters which SEG-Y can not hold.
  */
 template<typename T>
-void writeTraceT(
+size_t writeTraceT(
   ObjectInterface* obj,
   const size_t ns,
   T offset,
@@ -220,6 +221,7 @@ void writeTraceT(
   const size_t skip)
 {
     unsigned char* tbuf = reinterpret_cast<unsigned char*>(trc);
+    size_t numOutside   = 0LU;
 
 
     // Convert from host-endianness to SEGY endianness for writing
@@ -249,7 +251,7 @@ void writeTraceT(
         std::vector<unsigned char> alloc(blockSz * sz);
         unsigned char* buf = (sz ? alloc.data() : nullptr);
 
-        SEGY_utils::insertParam(
+        numOutside = SEGY_utils::insertParam(
           sz, prm, buf, blockSz - SEGY_utils::getMDSz(), skip);
 
         if (trc == TRACE_NULL) {
@@ -283,6 +285,25 @@ void writeTraceT(
               be_trc_i_bytes[3]);
         }
     }
+
+    return numOutside;
+}
+
+/*! Record that some of the parameters written are not what was asked for
+ *  @param[in] log The log
+ *  @param[in] name The name of the file
+ *  @param[in] numOutside The number of parameters which SEG-Y can not hold
+ */
+static void logOutside(
+  Logger* log, const std::string& name, const size_t numOutside)
+{
+    if (numOutside != 0) {
+        log->record(
+          name, Logger::Layer::File, Logger::Status::Warning,
+          std::to_string(numOutside)
+            + " trace parameters are outside the range of SEG-Y.",
+          PIOL_VERBOSITY_NONE);
+    }
 }
 
 
@@ -300,7 +321,9 @@ void WriteSEGY::writeTrace(
           PIOL_VERBOSITY_NONE);
     }
 
-    writeTraceT(obj.get(), ns, offset, sz, trc, prm, skip);
+    logOutside(
+      piol->log.get(), name,
+      writeTraceT(obj.get(), ns, offset, sz, trc, prm, skip));
     state.stalent = true;
     if (sz != 0) {
         nt = std::max(offset + sz, nt);
@@ -321,7 +344,9 @@ void WriteSEGY::writeTraceNonContiguous(
           PIOL_VERBOSITY_NONE);
     }
 
-    writeTraceT(obj.get(), ns, offset, sz, trc, prm, skip);
+    logOutside(
+      piol->log.get(), name,
+      writeTraceT(obj.get(), ns, offset, sz, trc, prm, skip));
     state.stalent = true;
     if (sz != 0) {
         nt = std::max(offset[sz - 1LU] + 1LU, nt);
diff --git a/src/segy_utils.cc b/src/segy_utils.cc
index 2c36202..6586a1d 100644
--- a/src/segy_utils.cc
+++ b/src/segy_utils.cc
@@ -17,13 +17,21 @@ namespace exseis {
 namespace PIOL {
 namespace SEGY_utils {
 
-void insertParam(
+size_t insertParam(
   size_t sz, const Param* prm, unsigned char* buf, size_t stride, size_t skip)
 {
     if (prm == nullptr || sz == 0) {
-        return;
+        return 0LU;
     }
 
+    // Whether a stored value can not hold a value
+    const auto outside = [](const exseis::utils::Floating_point val) {
+        return !(
+          val >= std::numeric_limits<int32_t>::min()
+          && val <= std::numeric_limits<int32_t>::max());
+    };
+    size_t numOutside = 0LU;
+
     auto r = prm->r;
 
     // The buffer holds complete headers, whatever part of them the rules cover.
@@ -97,8 +105,10 @@ void insertParam(
 
                 case RuleEntry::MdType::Long: {
 
-                    const auto be_long = to_big_endian<int32_t>(
-                      int32_t(prm->i[(i + skip) * r->numLong + t->num]));
+                    const auto val = prm->i[(i + skip) * r->numLong + t->num];
+                    numOutside += (val != int32_t(val));
+
+                    const auto be_long = to_big_endian<int32_t>(int32_t(val));
 
                     std::copy(std::begin(be_long), std::end(be_long), &md[loc]);
 
@@ -134,13 +144,17 @@ void insertParam(
             exseis::utils::Floating_point gscale =
               parse_scalar(scal[static_cast<Tr>(rule[j]->scalLoc)]);
 
-            const auto be = to_big_endian(int32_t(std::lround(
-              prm->f[(i + skip) * r->numFloat + rule[j]->num] / gscale)));
+            const auto val =
+              prm->f[(i + skip) * r->numFloat + rule[j]->num] / gscale;
+            numOutside += outside(std::round(val));
+
+            const auto be = to_big_endian(int32_t(std::lround(val)));
 
             std::copy(
               std::begin(be), std::end(be), &md[rule[j]->loc - start - 1LU]);
         }
     }
+    return numOutside;
 }
 
 void extractParam(
-- 
2.43.0


From 9015824d9745b4ac68a70e530a1b509ff27adaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:18 +0000
Subject: [PATCH 61/86] fix: warn of ranges of traces which extend beyond the
 end of the file

---
 src/ReadSEGY.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 0996765..bdcc1f8 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -215,11 +215,13 @@ void ReadSEGY::readTrace(
   const size_t skip) const
 {
     const size_t ntz = (offset >= nt ? 0LU : std::min(sz, nt - offset));
-    if (offset >= nt && sz != 0) {
-        // Nothing to be read.
+    if (ntz != sz) {
+        // There is not as much to be read.
         piol->log->record(
           name, Logger::Layer::File, Logger::Status::Warning,
-          "readParam() was called for a zero byte read", PIOL_VERBOSITY_NONE);
+          "Only " + std::to_string(ntz) + " of the " + std::to_string(sz)
+            + " traces to be read are in the file",
+          PIOL_VERBOSITY_NONE);
     }
     readTraceT(
       obj.get(), number_format, ns, offset,
-- 
2.43.0


From a7934b888e30838cc387a62704e7482aaad47dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:12 +0000
Subject: [PATCH 62/86] fix: close a file without waiting for a process which
 met an error

---
 src/WriteSEGY.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index ec6fe90..ee63b6d 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -52,8 +52,8 @@ WriteSEGY::WriteSEGY(
 
 WriteSEGY::~WriteSEGY(void)
 {
-    // TODO: On error this can be a source of a deadlock
-    if (!piol->log->isErr()) {
+    // The rest is collective, so an error on any process stops all of them.
+    if (piol->comm->max(piol->log->isErr()) == 0LU) {
         calcNt();
 
         if (state.resize) {
-- 
2.43.0


From d3d8f2598ea9c207eec85fb39a759dfe2bc6b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:03 +0000
Subject: [PATCH 63/86] fix: end the sort by a comparison in which traces may
 be equal

---
 src/sort.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index c7e7db0..65d41c4 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -963,9 +963,12 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
 
     std::vector<size_t> t1(lnt);
     std::iota(t1.begin(), t1.end(), 0LU);
-    std::sort(t1.begin(), t1.end(), [prm, comp](size_t& a, size_t& b) -> bool {
-        return comp(prm, a, b);
-    });
+    // The sort has to be stable. Otherwise equal traces could change places on
+    // every exchange, and it would not end.
+    std::stable_sort(
+      t1.begin(), t1.end(), [prm, comp](size_t a, size_t b) -> bool {
+          return comp(prm, a, b);
+      });
 
     // Some process has too little to exchange with its neighbours.
     if (numRank > 1 && regionSz == 0) {
@@ -978,7 +981,7 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
 
         std::vector<size_t> index(all.size());
         std::iota(index.begin(), index.end(), 0LU);
-        std::sort(
+        std::stable_sort(
           index.begin(), index.end(), [&all, comp](size_t a, size_t b) -> bool {
               return comp(&all, a, b);
           });
@@ -1006,9 +1009,9 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
         {
             std::vector<size_t> t1(temp1.size() - edge1);
             std::iota(t1.begin(), t1.end(), edge1);
-            std::sort(
+            std::stable_sort(
               t1.begin(), t1.end(),
-              [&temp1, comp](size_t& a, size_t& b) -> bool {
+              [&temp1, comp](size_t a, size_t b) -> bool {
                   return comp(&temp1, a, b);
               });
 
@@ -1026,9 +1029,9 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
         {
             std::vector<size_t> t1(temp1.size() - edge2);
             std::iota(t1.begin(), t1.end(), 0);
-            std::sort(
+            std::stable_sort(
               t1.begin(), t1.end(),
-              [&temp1, comp](size_t& a, size_t& b) -> bool {
+              [&temp1, comp](size_t a, size_t b) -> bool {
                   return comp(&temp1, a, b);
               });
 
-- 
2.43.0


From 47409513b64abc81be369dafb01fc3bb5bb3b66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 64/86] fix: report positions which are outside the grid of a
 velocity model

---
 include/ExSeisDat/PIOL/ReadSEGYModel.hh | 11 +++-
 src/ReadSEGYModel.cc                    | 68 +++++++++++++++++++++----
 2 files changed, 68 insertions(+), 11 deletions(-)

diff --git a/include/ExSeisDat/PIOL/ReadSEGYModel.hh b/include/ExSeisDat/PIOL/ReadSEGYModel.hh
index ab27f3b..09bb187 100644
--- a/include/ExSeisDat/PIOL/ReadSEGYModel.hh
+++ b/include/ExSeisDat/PIOL/ReadSEGYModel.hh
@@ -26,10 +26,19 @@ class ReadSEGYModel : public Model3dInterface, public ReadSEGY {
 
     /*! Find the trace of the model for a gather.
      *  @param[in] gather The il and xl coordinates of interest.
-     *  @return Return the number of the trace.
+     *  @return Return the number of the trace, or the number of traces if the
+     *          coordinate is outside the grid.
      */
     size_t traceNumber(const Gather_info& gather) const;
 
+    /*! Read traces of the model. Positions without a trace are reported and
+     *  have samples of zero.
+     *  @param[in] offsets The number of each trace, as given by traceNumber.
+     *  @return Return the traces.
+     */
+    std::vector<exseis::utils::Trace_value> readModelTraces(
+      const std::vector<size_t>& offsets) const;
+
   public:
     /*! @brief The SEG-Y Model options structure.
      */
diff --git a/src/ReadSEGYModel.cc b/src/ReadSEGYModel.cc
index ca80703..11b8341 100644
--- a/src/ReadSEGYModel.cc
+++ b/src/ReadSEGYModel.cc
@@ -78,32 +78,84 @@ ReadSEGYModel::ReadSEGYModel(
 
 size_t ReadSEGYModel::traceNumber(const Gather_info& gather) const
 {
+    // There is no trace for positions outside the grid.
+    const size_t no_trace = ReadSEGY::readNt();
+    if (no_trace == 0LU) {
+        return no_trace;
+    }
+
     const exseis::utils::Integer il_number =
       (gather.inline_ - il.start) / il.increment;
     const exseis::utils::Integer xl_number =
       (gather.crossline - xl.start) / xl.increment;
 
+    if (
+      il_number < 0 || il_number >= exseis::utils::Integer(il.count)
+      || xl_number < 0 || xl_number >= exseis::utils::Integer(xl.count)) {
+        return no_trace;
+    }
+
     // Much like indexing in a 2d array
     return (
       il_consecutive ? xl_number * il.count + il_number :
                        il_number * xl.count + xl_number);
 }
 
+std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModelTraces(
+  const std::vector<size_t>& offsets) const
+{
+    const size_t nt = ReadSEGY::readNt();
+    const size_t ns = readNs();
+
+    std::vector<size_t> found;
+    for (const auto offset : offsets) {
+        if (offset < nt) {
+            found.push_back(offset);
+        }
+    }
+
+    std::vector<exseis::utils::Trace_value> trc(offsets.size() * ns);
+    readTraceNonMonotonic(
+      found.size(), found.data(), trc.data(), PIOL_PARAM_NULL, 0LU);
+
+    if (found.size() != offsets.size()) {
+        piol->log->record(
+          name, Logger::Layer::File, Logger::Status::Warning,
+          std::to_string(offsets.size() - found.size()) + " of the "
+            + std::to_string(offsets.size())
+            + " positions to be read are outside the grid of the model",
+          PIOL_VERBOSITY_NONE);
+
+        // Move the traces which were found to their places, from the last.
+        for (size_t i = offsets.size(), n = found.size(); i-- > 0LU;) {
+            if (offsets[i] < nt) {
+                n--;
+                std::copy_backward(
+                  trc.begin() + n * ns, trc.begin() + (n + 1LU) * ns,
+                  trc.begin() + (i + 1LU) * ns);
+            }
+            else {
+                std::fill(
+                  trc.begin() + i * ns, trc.begin() + (i + 1LU) * ns,
+                  exseis::utils::Trace_value(0));
+            }
+        }
+    }
+
+    return trc;
+}
+
 std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
   const size_t offset,
   const size_t sz,
   const utils::Distributed_vector<Gather_info>& gather)
 {
-    std::vector<exseis::utils::Trace_value> trc(sz * readNs());
     std::vector<size_t> offsets(sz);
     for (size_t i = 0; i < sz; i++) {
         offsets[i] = traceNumber(gather[offset + i]);
     }
 
-    readTraceNonMonotonic(
-      offsets.size(), offsets.data(), trc.data(), PIOL_PARAM_NULL, 0LU);
-
-    return trc;
+    return readModelTraces(offsets);
 }
 
 std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
@@ -111,16 +163,12 @@ std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
   const size_t* offset,
   const utils::Distributed_vector<Gather_info>& gather)
 {
-    std::vector<exseis::utils::Trace_value> trc(sz * readNs());
     std::vector<size_t> offsets(sz);
     for (size_t i = 0; i < sz; i++) {
         offsets[i] = traceNumber(gather[offset[i]]);
     }
 
-    readTraceNonMonotonic(
-      offsets.size(), offsets.data(), trc.data(), PIOL_PARAM_NULL, 0LU);
-
-    return trc;
+    return readModelTraces(offsets);
 }
 
 }  // namespace PIOL
-- 
2.43.0


From 853b97f78edba8272cba2dbe43d47ef7402849b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 65/86] fix: warn of sample formats which are not supported

---
 src/ReadSEGY.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index bdcc1f8..e5d5f99 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -68,6 +68,17 @@ ReadSEGY::ReadSEGY(
           header_buffer[SEGYFileHeaderByte::Type + 0],
           header_buffer[SEGYFileHeaderByte::Type + 1]));
 
+        if (
+          number_format != SEGYNumberFormat::IBM
+          && number_format != SEGYNumberFormat::IEEE) {
+            piol->log->record(
+              name, Logger::Layer::File, Logger::Status::Warning,
+              "Samples of the unsupported format "
+                + std::to_string(static_cast<int>(number_format))
+                + " are read as IEEE floats",
+              PIOL_VERBOSITY_NONE);
+        }
+
         // Set this->text to the ASCII encoding of the text header data read
         // into header_buffer.
         // Determine if the current encoding is ASCII or EBCDIC from number of
-- 
2.43.0


From da95e01ba499b4a1c1ded801dd41376bb2db2f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 66/86] fix: sort a set of no files

---
 src/Flow/Set.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 0b7a8a2..e765800 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -489,6 +489,14 @@ Set::FuncLst::iterator Set::calcFuncS(
 Set::FuncLst::iterator Set::startSubset(
   FuncLst::iterator fCurr, const FuncLst::iterator fEnd)
 {
+    if (fmap.empty()) {
+        // There is nothing to carry the operations out on.
+        return std::find_if_not(
+          fCurr, fEnd, [](const FuncLst::value_type& f) {
+              return f->opt.check(FuncOpt::SubSetOnly);
+          });
+    }
+
     std::vector<FuncLst::iterator> flist;
 
     // TODO: Parallelisable
-- 
2.43.0


From c47ddef214e8a77e5612dd3076d1fe120c9c8a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 67/86] fix: find no extremes in a file without traces

---
 util/minmax.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/minmax.cc b/util/minmax.cc
index d6897da..1bd25bc 100644
--- a/util/minmax.cc
+++ b/util/minmax.cc
@@ -44,7 +44,8 @@ void calcMin(std::string iname, std::string oname)
       piol.get(), offset, lnt, PIOL_META_xCmp, PIOL_META_yCmp, &prm,
       minmax.data() + 8U);
 
-    size_t sz  = (piol->getRank() == 0 ? minmax.size() : 0U);
+    // A file without traces has no extremes
+    size_t sz  = (piol->getRank() == 0 && in.readNt() > 0U ? minmax.size() : 0U);
     size_t usz = 0;
     std::vector<size_t> list(sz);
     std::vector<size_t> uniqlist(sz);
-- 
2.43.0


From a3146039e6a622d1d1384121fef7756aa31c670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 68/86] hook: let a verification harness set the block sizes of
 makerep

---
 util/makerep.cc | 12 ++++++++----
 util/sglobal.hh |  9 +++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/util/makerep.cc b/util/makerep.cc
index ec43e22..1caebbf 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -177,9 +177,11 @@ void mpiMakeSEGYCopy(
     const size_t fsz = in->getFileSz();
     piol.isErr();
 
-    const size_t bsz  = 2097152LU;
+    const size_t bsz =
+      EXSEISDAT_VERIF_SIZE("EXSEISDAT_VERIF_BLOCK", 2097152LU);
     const size_t hosz = SEGY_utils::getHOSz();
-    size_t memlim     = 512U * bsz;
+    size_t memlim =
+      EXSEISDAT_VERIF_SIZE("EXSEISDAT_VERIF_MEMLIM", 512U * bsz);
     size_t step       = numRank * memlim;
 
     for (size_t i = 0; i < fsz; i += step) {
@@ -220,9 +222,11 @@ void mpiMakeSEGYCopyNaive(
 {
     size_t numRank    = piol.getNumRank();
     const size_t fsz  = in->getFileSz();
-    const size_t bsz  = 2097152LU;
+    const size_t bsz =
+      EXSEISDAT_VERIF_SIZE("EXSEISDAT_VERIF_BLOCK", 2097152LU);
     const size_t hosz = SEGY_utils::getHOSz();
-    size_t memlim     = 512U * bsz;
+    size_t memlim =
+      EXSEISDAT_VERIF_SIZE("EXSEISDAT_VERIF_MEMLIM", 512U * bsz);
     size_t step       = numRank * memlim;
 
     for (size_t i = 0; i < fsz; i += step) {
diff --git a/util/sglobal.hh b/util/sglobal.hh
index d4535d7..1d6c95c 100644
--- a/util/sglobal.hh
+++ b/util/sglobal.hh
@@ -10,6 +10,15 @@
 
 #include <stddef.h>
 
+#ifdef EXSEISDAT_VERIF_HOOKS
+#include <stdlib.h>
+/// Sizes which a verification harness may set through the environment.
+#define EXSEISDAT_VERIF_SIZE(name, size)                                       \
+    (getenv(name) != NULL ? strtoul(getenv(name), NULL, 10) : (size))
+#else
+#define EXSEISDAT_VERIF_SIZE(name, size) (size)
+#endif
+
 /*! Decomposition which takes account that the data may come in logical blocks
  *  @param[in] sz The size of the problem.
  *  @param[in] bsz The block size
-- 
2.43.0


From 20c055e1e1e91d957652adfaf6cdf5bf54ed94fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 69/86] fix: replicate files of any size on any number of
 processes in makerep

---
 util/makerep.cc | 191 ++++++++++++++++++++----------------------------
 util/sglobal.cc |  48 ++++--------
 2 files changed, 94 insertions(+), 145 deletions(-)

diff --git a/util/makerep.cc b/util/makerep.cc
index 1caebbf..da226e6 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -5,8 +5,10 @@
 #include "ExSeisDat/PIOL/segy_utils.hh"
 #include "ExSeisDat/utils/mpi/MPI_type.hh"
 
+#include <algorithm>
 #include <assert.h>
 #include <iostream>
+#include <tuple>
 #include <unistd.h>
 #include <unordered_map>
 
@@ -23,9 +25,10 @@ void smallCopy(
 {
     const size_t rank = piol.comm->getRank();
 
-    const size_t fsz  = in->getFileSz();
-    const size_t hosz = SEGY_utils::getHOSz();
-    size_t wsz        = (rank == 0 ? fsz : 0);
+    const size_t fsz     = in->getFileSz();
+    const size_t hosz    = SEGY_utils::getHOSz();
+    const size_t payload = (fsz > hosz ? fsz - hosz : 0);
+    const size_t wsz     = (rank == 0 ? fsz : 0);
     std::vector<unsigned char> buf(wsz);
 
     in->read(0, wsz, buf.data());
@@ -35,102 +38,83 @@ void smallCopy(
     piol.isErr();
 
     if (rank == 0) {
-        std::copy(buf.begin() + hosz, buf.end(), buf.begin());
+        buf.erase(buf.begin(), buf.begin() + (fsz - payload));
     }
 
     for (size_t j = 1; j < repRate; j++) {
-        out->write(
-          hosz + (fsz - hosz) * j, (rank == 0 ? fsz - hosz : 0), buf.data());
+        out->write(hosz + payload * j, (rank == 0 ? payload : 0), buf.data());
         piol.isErr();
     }
 }
 
+/*! Remove the header object from the first block of the file, the offsets which
+ *  remain are those in the payload.
+ *  @param[in] hosz The size of the header object
+ *  @param[in,out] dec The part of the block held by the process
+ *  @param[in,out] vec The data held by the process
+ */
+void removeHeader(
+  size_t hosz,
+  exseis::utils::Contiguous_decomposition* dec,
+  std::vector<unsigned char>* vec)
+{
+    const size_t skip =
+      (dec->global_offset < hosz ?
+         std::min(hosz - dec->global_offset, dec->local_size) :
+         0);
+
+    vec->erase(vec->begin(), vec->begin() + skip);
+    dec->local_size -= skip;
+    dec->global_offset += skip;
+    dec->global_offset -= std::min(hosz, dec->global_offset);
+}
+
 void distribToDistrib(
-  size_t rank,
+  const ExSeis& piol,
   exseis::utils::Contiguous_decomposition old,
   exseis::utils::Contiguous_decomposition newd,
   std::vector<unsigned char>* vec)
 {
-    std::vector<MPI_Request> msg;
-
-    // if the old offset is less than the new offset
-    // Then the local process must give the data over to the
-    //-1 lower ranked process
-
-    // Cases 2, 3, 8
-    if (old.global_offset > newd.global_offset) {
-        size_t incStart = old.global_offset - newd.global_offset;
-        vec->resize(vec->size() + incStart);
-        // Making space for the move
-        std::move_backward(vec->begin(), vec->end() - incStart, vec->end());
-    }
-
-    if (
-      (old.global_offset + old.local_size)
-      < (newd.global_offset + newd.local_size)) {
-
-        vec->resize(
-          vec->size() + newd.global_offset + newd.local_size
-          - (old.global_offset + old.local_size));
+    const auto oldOff = piol.comm->gather<size_t>(old.global_offset);
+    const auto oldSz  = piol.comm->gather<size_t>(old.local_size);
+    const auto newOff = piol.comm->gather<size_t>(newd.global_offset);
+    const auto newSz  = piol.comm->gather<size_t>(newd.local_size);
+
+    // The part of the second range which is in the first one, as an offset into
+    // the first one and a size
+    const auto overlap = [](
+                           size_t off, size_t sz, size_t otherOff,
+                           size_t otherSz) -> std::pair<int, int> {
+        const size_t begin = std::max(off, otherOff);
+        const size_t end   = std::min(off + sz, otherOff + otherSz);
+        return (begin < end ? std::make_pair(int(begin - off), int(end - begin)) :
+                              std::make_pair(0, 0));
+    };
+
+    // What the local process holds is given over to the processes which are to
+    // write it.
+    const size_t numRank = oldOff.size();
+    std::vector<int> sendSz(numRank), sendOff(numRank);
+    std::vector<int> recvSz(numRank), recvOff(numRank);
+    for (size_t i = 0; i < numRank; i++) {
+        std::tie(sendOff[i], sendSz[i]) = overlap(
+          old.global_offset, old.local_size, newOff[i], newSz[i]);
+        std::tie(recvOff[i], recvSz[i]) = overlap(
+          newd.global_offset, newd.local_size, oldOff[i], oldSz[i]);
     }
 
-    if (old.global_offset < newd.global_offset) {
-        size_t sz = newd.global_offset - old.global_offset;
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Isend(
-          vec->data(), sz, exseis::utils::MPI_type<unsigned char>(), rank - 1,
-          1, MPI_COMM_WORLD, &msg.back());
-    }
-    else if (old.global_offset > newd.global_offset) {
-        size_t sz = old.global_offset - newd.global_offset;
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Irecv(
-          vec->data(), sz, exseis::utils::MPI_type<unsigned char>(), rank - 1,
-          0, MPI_COMM_WORLD, &msg.back());
-    }
-
-    if (
-      old.global_offset + old.local_size
-      > newd.global_offset + newd.local_size) {
-        size_t sz = old.global_offset + old.local_size
-                    - (newd.global_offset + newd.local_size);
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Isend(
-          vec->data() + vec->size() - sz, sz,
-          exseis::utils::MPI_type<unsigned char>(), rank + 1, 0, MPI_COMM_WORLD,
-          &msg.back());
-    }
-    else if (
-      old.global_offset + old.local_size
-      < newd.global_offset + newd.local_size) {
-        size_t sz = (newd.global_offset + newd.local_size)
-                    - (old.global_offset + old.local_size);
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Irecv(
-          vec->data() + vec->size() - sz, sz,
-          exseis::utils::MPI_type<unsigned char>(), rank + 1, 1, MPI_COMM_WORLD,
-          &msg.back());
-    }
-
-    MPI_Status stat;
-    for (size_t i = 0; i < msg.size(); i++) {
-        assert(msg[i] != MPI_REQUEST_NULL);
-        int err = MPI_Wait(&msg[i], &stat);
-        // TODO: Replace with standard approach to error handling
-        if (err != MPI_SUCCESS) {
-            std::cerr << "Wait " << i << std::endl;
-            std::cerr << " MPI Error " << stat.MPI_ERROR << std::endl;
-            std::exit(-1);
-        }
+    std::vector<unsigned char> newvec(newd.local_size);
+    int err = MPI_Alltoallv(
+      vec->data(), sendSz.data(), sendOff.data(),
+      exseis::utils::MPI_type<unsigned char>(), newvec.data(), recvSz.data(),
+      recvOff.data(), exseis::utils::MPI_type<unsigned char>(), MPI_COMM_WORLD);
+    // TODO: Replace with standard approach to error handling
+    if (err != MPI_SUCCESS) {
+        std::cerr << "MPI Error " << err << std::endl;
+        std::exit(-1);
     }
 
-    // Cases 1, 4, 7
-    if (old.global_offset < newd.global_offset) {
-        size_t decStart = newd.global_offset - old.global_offset;
-        std::move(vec->begin() + decStart, vec->end(), vec->begin());
-    }
-
-    vec->resize(newd.local_size);
+    *vec = std::move(newvec);
 }
 
 // Write an arbitrary parallelised block sz to an arbitrary offset with the
@@ -138,8 +122,7 @@ void distribToDistrib(
 // writeArb(out, hosz + decSz*i + (fsz - hosz) * (j+1), decSz, &out)
 // off is the global offset
 Contiguous_decomposition writeArb(
-  size_t rank,
-  size_t numRank,
+  const ExSeis& piol,
   DataInterface* out,
   size_t off,
   size_t bsz,
@@ -147,12 +130,13 @@ Contiguous_decomposition writeArb(
   size_t tsz,
   std::vector<unsigned char>* vec)
 {
-    auto newdec = blockDecomp(tsz, bsz, numRank, rank, off);
+    const size_t numRank = piol.getNumRank();
+    auto newdec = blockDecomp(tsz, bsz, numRank, piol.getRank(), off);
 
     // If there is one rank this is pointless
     if (numRank != 1) {
         // Reorder operations along new boundaries
-        distribToDistrib(rank, dec, newdec, vec);
+        distribToDistrib(piol, dec, newdec, vec);
     }
 
     out->write(off + newdec.global_offset, newdec.local_size, vec->data());
@@ -194,23 +178,14 @@ void mpiMakeSEGYCopy(
         out->write(i + dec.global_offset, dec.local_size, buf.data());
         piol.isErr();
         if (i == 0) {
-            // If zero, then current process has read the header object
-            if (dec.global_offset == 0) {
-                std::move(buf.begin() + hosz, buf.end(), buf.begin());
-                dec.local_size -= hosz;
-                buf.resize(dec.local_size);
-            }
-            else {
-                dec.global_offset -= hosz;
-            }
-
+            removeHeader(hosz, &dec, &buf);
             rblock -= hosz;
         }
-        size_t rank    = piol.getRank();
-        size_t numRank = piol.getNumRank();
+        // Where the block starts in the payload
+        const size_t start = (i == 0 ? 0 : i - hosz);
         for (size_t j = 1; j < repRate; j++) {
             dec = writeArb(
-              rank, numRank, out, hosz + (fsz - hosz) * j + i, bsz, dec, rblock,
+              piol, out, hosz + (fsz - hosz) * j + start, bsz, dec, rblock,
               &buf);
         }
     }
@@ -239,21 +214,13 @@ void mpiMakeSEGYCopyNaive(
         in->read(i + dec.global_offset, dec.local_size, buf.data());
         out->write(i + dec.global_offset, dec.local_size, buf.data());
         if (i == 0) {
-            // If zero, then current process has read the header object
-            if (dec.global_offset == 0) {
-                std::move(
-                  buf.begin() + hosz, buf.begin() + dec.local_size,
-                  buf.begin());
-                dec.local_size -= hosz;
-                buf.resize(dec.local_size);
-            }
-            else {
-                dec.global_offset -= hosz;
-            }
+            removeHeader(hosz, &dec, &buf);
         }
+        // Where the block starts in the payload
+        const size_t start = (i == 0 ? 0 : i - hosz);
         for (size_t j = 1; j < repRate; j++) {
             out->write(
-              hosz + (fsz - hosz) * j + i + dec.global_offset, dec.local_size,
+              hosz + (fsz - hosz) * j + start + dec.global_offset, dec.local_size,
               buf.data());
         }
     }
diff --git a/util/sglobal.cc b/util/sglobal.cc
index 07a1b69..314a0e0 100644
--- a/util/sglobal.cc
+++ b/util/sglobal.cc
@@ -34,42 +34,24 @@ std::vector<size_t> lobdecompose(
 exseis::utils::Contiguous_decomposition blockDecomp(
   size_t sz, size_t bsz, size_t numRank, size_t rank, size_t off)
 {
-    // Size of the first block
-    size_t rstart = bsz - off % bsz;
-    // Size of the last block
-    size_t rend = (off + sz) % bsz;
-    // The total number of blocks, +2 accounts for start+end
-    size_t bcnt = (sz - rstart - rend) / bsz + 2;
-
-    // Make sure there isn't any leftover, this shouldn't be possible
-    assert(!((sz - rstart - rend) % bsz));
+    // Size of the first block, which ends at the first boundary
+    const size_t rstart = std::min(sz, bsz - off % bsz);
+    // The total number of blocks, the last block may not be a whole one
+    const size_t bcnt = 1 + (sz - rstart + bsz - 1) / bsz;
 
     // Do a regular decomposition of the blocks
-    auto newdec = exseis::utils::block_decomposition(bcnt, numRank, rank);
+    const auto blocks =
+      exseis::utils::block_decomposition(bcnt, numRank, rank);
 
-    newdec.global_offset *= bsz;
-    newdec.local_size *= bsz;
-    if (newdec.local_size == 0) {
-        return {sz, 0};
-    }
+    // The start of each block, taking into account that the sizes of the first
+    // and last block can be different.
+    const auto block_start = [=](size_t block) -> size_t {
+        return (block == 0 ? 0 : std::min(sz, rstart + (block - 1) * bsz));
+    };
 
-    // Now we compensate for the fact that the start and end block sizes can be
-    // different.
-    if (rank == 0) {
-        // If the rank is zero, we shrink the first block by the leftover
-        newdec.local_size -= bsz - rstart;
-    }
-    else {
-        // The subtraction above means every block is shifted
-        newdec.global_offset -= bsz - rstart;
-    }
-
-    // The last rank with work must remove the leftover of its last block
-    if (
-      newdec.local_size != 0
-      && ((newdec.global_offset + newdec.local_size) > sz)) {
-        newdec.local_size -= bsz - rend;
-    }
+    const size_t begin = block_start(blocks.global_offset);
+    const size_t end =
+      block_start(blocks.global_offset + blocks.local_size);
 
-    return newdec;
+    return {begin, end - begin};
 }
-- 
2.43.0


From 448319af71bcf551a6199c9bb0e644235b0a7cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 70/86] fix: make the same calls on every process in filemake

---
 util/filemake.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/filemake.cc b/util/filemake.cc
index 2e0dbdb..ddd5f66 100644
--- a/util/filemake.cc
+++ b/util/filemake.cc
@@ -52,7 +52,7 @@ void writeContig(
         piol.isErr();
     }
     for (size_t j = 0; j < extra; j++) {
-        file->writeTrace(0U, size_t(0), nullptr, PIOL_PARAM_NULL);
+        file->writeTrace(0U, size_t(0), trc.data(), &prm);
         piol.isErr();
     }
 }
@@ -120,8 +120,9 @@ void writeRandom(
         piol.isErr();
     }
 
+    Param none(0U);
     for (size_t j = 0; j < extra; j++) {
-        file->writeTraceNonContiguous(0U, nullptr, nullptr, PIOL_PARAM_NULL);
+        file->writeTraceNonContiguous(0U, nullptr, nullptr, &none);
         piol.isErr();
     }
 }
-- 
2.43.0


From 324b6fa1f4bc98438b26562dfb5d80c84c9ee35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 71/86] fix: make the same samples in any order in filemake

---
 util/filemake.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/filemake.cc b/util/filemake.cc
index ddd5f66..8c5ea57 100644
--- a/util/filemake.cc
+++ b/util/filemake.cc
@@ -114,7 +114,9 @@ void writeRandom(
         }
         for (size_t j = 0; j < trc.size(); j++) {
             trc[j] =
-              fhalf - std::abs(-fhalf + float((offset[i]) * ns + j)) - off;
+              fhalf
+              - std::abs(-fhalf + float(offset[i + j / ns] * ns + j % ns))
+              - off;
         }
         file->writeTraceNonContiguous(rblock, &offset[i], trc.data(), &prm);
         piol.isErr();
-- 
2.43.0


From 7351c41e484cd645565ab13aa6480c64a709e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:43 +0000
Subject: [PATCH 72/86] fix: offer whole windows of coordinates in fourdbin

---
 util/4dcore.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 290a2b8..2e8968f 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -103,24 +103,29 @@ std::vector<MPI_Win> createCoordsWin(const Coords* crd, const bool ixline)
 
     // Look at MPI_Info
     MPIErr(MPI_Win_create(
-      crd->xSrc, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[0]));
+      crd->xSrc, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[0]));
     MPIErr(MPI_Win_create(
-      crd->ySrc, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[1]));
+      crd->ySrc, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[1]));
     MPIErr(MPI_Win_create(
-      crd->xRcv, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[2]));
+      crd->xRcv, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[2]));
     MPIErr(MPI_Win_create(
-      crd->yRcv, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[3]));
+      crd->yRcv, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[3]));
     MPIErr(MPI_Win_create(
-      crd->tn, crd->sz, sizeof(size_t), info, MPI_COMM_WORLD, &win[4]));
+      crd->tn, crd->sz * sizeof(size_t), sizeof(size_t), info,
+      MPI_COMM_WORLD, &win[4]));
 
     if (ixline) {
         win.resize(7);
         MPIErr(MPI_Win_create(
-          crd->il, crd->sz, sizeof(exseis::utils::Integer), info,
-          MPI_COMM_WORLD, &win[5]));
+          crd->il, crd->sz * sizeof(exseis::utils::Integer),
+          sizeof(exseis::utils::Integer), info, MPI_COMM_WORLD, &win[5]));
         MPIErr(MPI_Win_create(
-          crd->xl, crd->sz, sizeof(exseis::utils::Integer), info,
-          MPI_COMM_WORLD, &win[6]));
+          crd->xl, crd->sz * sizeof(exseis::utils::Integer),
+          sizeof(exseis::utils::Integer), info, MPI_COMM_WORLD, &win[6]));
     }
 
     MPI_Info_free(&info);
-- 
2.43.0


From a077accfd3ac8207e4ae515785870fbc49dc9153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:43 +0000
Subject: [PATCH 73/86] fix: stay within the coordinates, of which a process
 may have none, in fourdbin

---
 util/4dcore.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 2e8968f..cb5a297 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -291,13 +291,18 @@ size_t update(
     for (; rstart < rend && crd2->xSrc[rstart] < crd1->xSrc[lstart] - dsrmax;
          rstart++) {
     }
-    for (; rend >= rstart && crd2->xSrc[rend] > crd1->xSrc[lend - 1] + dsrmax;
+    for (; rend > rstart
+           && crd2->xSrc[rend - 1] > crd1->xSrc[lend - 1] + dsrmax;
          rend--) {
     }
+    if (rstart == rend) {
+        return 0LU;
+    }
     for (; lstart < lend && crd1->xSrc[lstart] < crd2->xSrc[rstart] - dsrmax;
          lstart++) {
     }
-    for (; lend >= lstart && crd1->xSrc[lend] > crd2->xSrc[rend - 1] + dsrmax;
+    for (; lend > lstart
+           && crd1->xSrc[lend - 1] > crd2->xSrc[rend - 1] + dsrmax;
          lend--) {
     }
 
@@ -458,12 +463,12 @@ void calc4DBin(
 
     // The File2 min/max from every process
     auto xsmin = piol->comm->gather(std::vector<fourd_t>{crd2->xSrc[0LU]});
-    auto xsmax =
-      piol->comm->gather(std::vector<fourd_t>{crd2->xSrc[crd2->sz - 1LU]});
+    auto xsmax = piol->comm->gather(
+      std::vector<fourd_t>{crd2->xSrc[crd2->sz > 0 ? crd2->sz - 1LU : 0LU]});
 
     // The File1 local min and local maximum for the particular process
     auto xslmin = crd1->xSrc[0LU];
-    auto xslmax = crd1->xSrc[crd1->sz - 1LU];
+    auto xslmax = crd1->xSrc[crd1->sz > 0 ? crd1->sz - 1LU : 0LU];
 
     // Perform a local initialisation update of min and minrs
     if (opt.ixline) {
@@ -477,6 +482,10 @@ void calc4DBin(
     // communicating with.
     std::vector<size_t> active;
     for (size_t i = 0LU; i < numRank; i++) {
+        // A process may have no traces
+        if (crd1->sz == 0 || szall[i] == 0) {
+            continue;
+        }
         if ((xsmin[i] - dsrmax <= xslmax) && (xsmax[i] + dsrmax >= xslmin)) {
             active.push_back(i);
         }
-- 
2.43.0


From 0cf0026828a56aa596122e41a9e8cee63bf9b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:43 +0000
Subject: [PATCH 74/86] fix: choose the same partner on any number of processes
 in fourdbin

---
 util/4dcore.cc   | 42 +++---------------------------------------
 util/fourdbin.cc |  4 +++-
 2 files changed, 6 insertions(+), 40 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index cb5a297..bd50c4e 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -224,38 +224,6 @@ fourd_t dsr(
     return std::min(forward, reverse);
 }
 
-/*! Perform a minimisation check with the current two vectors of parameters.
- *  @tparam Init If true, perform the initialisation sequence.
- *  @param[in] crd1 A vector containing the process's parameter data from the
- *                  first input file. This data is never sent to any crd2
- *                  process.
- *  @param[in] crd2 A vector containing the parameter data from another process.
- *  @param[out] min A vector containing the trace number of the trace that
- *                  minimises the dsdr criteria.  This vector is updated by the
- *                  loop.
- *  @param[out] minrs A vector containing the dsdr value of the trace that
- *                    minimises the dsdr criteria.  This vector is updated by
- *                    the loop.
- */
-template<const bool ixline>
-void initUpdate(
-  const Coords* crd1,
-  const Coords* crd2,
-  std::vector<size_t>& min,
-  std::vector<fourd_t>& minrs)
-{
-    for (size_t i = 0; i < crd1->sz; i++) {
-        minrs[i] =
-          (!ixline
-               || (crd1->il[i] == crd2->il[0] && crd1->xl[i] == crd2->xl[0]) ?
-             dsr(
-               crd1->xSrc[i], crd1->ySrc[i], crd1->xRcv[i], crd1->yRcv[i],
-               crd2->xSrc[0], crd2->ySrc[0], crd2->xRcv[0], crd2->yRcv[0]) :
-             std::numeric_limits<fourd_t>::max());
-        min[i] = crd2->tn[0];
-    }
-}
-
 /*! Perform a minimisation check with the current two vectors of parameters.
  *  @tparam Init If true, perform the initialisation sequence.
  *  @param[in] crd1 A vector containing the process's parameter data from the
@@ -470,13 +438,9 @@ void calc4DBin(
     auto xslmin = crd1->xSrc[0LU];
     auto xslmax = crd1->xSrc[crd1->sz > 0 ? crd1->sz - 1LU : 0LU];
 
-    // Perform a local initialisation update of min and minrs
-    if (opt.ixline) {
-        initUpdate<true>(crd1, crd2, min, minrs);
-    }
-    else {
-        initUpdate<false>(crd1, crd2, min, minrs);
-    }
+    // No trace has a partner yet
+    std::fill(
+      minrs.begin(), minrs.end(), std::numeric_limits<fourd_t>::max());
 
     // This for loop determines the processes the local process will need to be
     // communicating with.
diff --git a/util/fourdbin.cc b/util/fourdbin.cc
index 939c3e6..ab4818a 100644
--- a/util/fourdbin.cc
+++ b/util/fourdbin.cc
@@ -135,7 +135,9 @@ int main(int argc, char** argv)
     std::vector<fourd_t> lminrs;
 
     for (size_t i = 0U; i < coords1->sz; i++) {
-        if (minrs[i] <= dsrmax) {
+        if (
+          minrs[i] < std::numeric_limits<fourd_t>::max()
+          && minrs[i] <= dsrmax) {
             list2.push_back(min[i]);
             lminrs.push_back(minrs[i]);
             list1.push_back(coords1->tn[i]);
-- 
2.43.0


From 4642da3cac565aba2113edee28e2dd8fb5e0658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:43 +0000
Subject: [PATCH 75/86] fix: search all that the reversed boat may match in
 fourdbin

---
 util/4dcore.cc | 46 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index bd50c4e..7a11931 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -224,6 +224,25 @@ fourd_t dsr(
     return std::min(forward, reverse);
 }
 
+/*! Find the range of the x coordinates of the sources and the receivers.
+ *  @param[in] crd The coordinate structure of arrays.
+ *  @param[in] start The first trace.
+ *  @param[in] end One past the last trace.
+ *  @return Return the minimum and the maximum.
+ */
+std::pair<fourd_t, fourd_t> xRange(const Coords* crd, size_t start, size_t end)
+{
+    std::pair<fourd_t, fourd_t> range{std::numeric_limits<fourd_t>::max(),
+                                      std::numeric_limits<fourd_t>::lowest()};
+    for (size_t i = start; i < end; i++) {
+        range.first =
+          std::min(range.first, std::min(crd->xSrc[i], crd->xRcv[i]));
+        range.second =
+          std::max(range.second, std::max(crd->xSrc[i], crd->xRcv[i]));
+    }
+    return range;
+}
+
 /*! Perform a minimisation check with the current two vectors of parameters.
  *  @tparam Init If true, perform the initialisation sequence.
  *  @param[in] crd1 A vector containing the process's parameter data from the
@@ -253,25 +272,25 @@ size_t update(
     size_t rstart = 0LU;
     size_t rend   = crd2->sz;
 
+    // The source of a file2 trace has to be near the source or, if the boat
+    // went in the opposite direction, near the receiver of a file1 trace.
+    auto xl = xRange(crd1, lstart, lend);
+
     // Ignore all file2 traces that can not possibly match our criteria within
     // the min/max
-    // of src x.
-    for (; rstart < rend && crd2->xSrc[rstart] < crd1->xSrc[lstart] - dsrmax;
+    // of x.
+    for (; rstart < rend && crd2->xSrc[rstart] < xl.first - dsrmax;
          rstart++) {
     }
-    for (; rend > rstart
-           && crd2->xSrc[rend - 1] > crd1->xSrc[lend - 1] + dsrmax;
-         rend--) {
+    for (; rend > rstart && crd2->xSrc[rend - 1] > xl.second + dsrmax; rend--) {
     }
     if (rstart == rend) {
         return 0LU;
     }
-    for (; lstart < lend && crd1->xSrc[lstart] < crd2->xSrc[rstart] - dsrmax;
-         lstart++) {
+    auto xr = xRange(crd2, rstart, rend);
+    for (; lstart < lend && crd1->xSrc[lstart] < xr.first - dsrmax; lstart++) {
     }
-    for (; lend > lstart
-           && crd1->xSrc[lend - 1] > crd2->xSrc[rend - 1] + dsrmax;
-         lend--) {
+    for (; lend > lstart && crd1->xSrc[lend - 1] > xr.second + dsrmax; lend--) {
     }
 
     // TODO: Check if theoretical speedup is realisable for this alignment
@@ -442,6 +461,9 @@ void calc4DBin(
     std::fill(
       minrs.begin(), minrs.end(), std::numeric_limits<fourd_t>::max());
 
+    // The sources and receivers of the local process's part of File1
+    auto xlrange = xRange(crd1, 0LU, crd1->sz);
+
     // This for loop determines the processes the local process will need to be
     // communicating with.
     std::vector<size_t> active;
@@ -450,7 +472,9 @@ void calc4DBin(
         if (crd1->sz == 0 || szall[i] == 0) {
             continue;
         }
-        if ((xsmin[i] - dsrmax <= xslmax) && (xsmax[i] + dsrmax >= xslmin)) {
+        if (
+          (xsmin[i] - dsrmax <= xlrange.second)
+          && (xsmax[i] + dsrmax >= xlrange.first)) {
             active.push_back(i);
         }
     }
-- 
2.43.0


From 6f5f1084e084c5a134251fcbbe5e776b13ced08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:43 +0000
Subject: [PATCH 76/86] fix: no crash when fourdbin's directory for verbose
 output is missing

---
 util/4dcore.cc   | 13 ++++++++-----
 util/fourdbin.cc | 18 +++++++++++++-----
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 7a11931..01084f1 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -60,12 +60,15 @@ void printxSMinMax(
     size_t rank      = piol->comm->getRank();
     std::string name = "tmp/temp" + std::to_string(rank);
     FILE* fOut       = fopen(name.c_str(), "w+");
-    fprintf(fOut, "1-xsmin/max %f %f\n", xslmin, xslmax);
-    fprintf(fOut, "2-xsmin/max %f %f\n", xsrmin, xsrmax);
-    for (size_t i = 0; i < active.size(); i++) {
-        fprintf(fOut, "%zu\n", active[i]);
+    // There may be no such directory
+    if (fOut != NULL) {
+        fprintf(fOut, "1-xsmin/max %f %f\n", xslmin, xslmax);
+        fprintf(fOut, "2-xsmin/max %f %f\n", xsrmin, xsrmax);
+        for (size_t i = 0; i < active.size(); i++) {
+            fprintf(fOut, "%zu\n", active[i]);
+        }
+        fclose(fOut);
     }
-    fclose(fOut);
 
     auto lxsmin = piol->comm->gather(std::vector<fourd_t>{xslmin});
     auto lxsmax = piol->comm->gather(std::vector<fourd_t>{xslmax});
diff --git a/util/fourdbin.cc b/util/fourdbin.cc
index ab4818a..561158d 100644
--- a/util/fourdbin.cc
+++ b/util/fourdbin.cc
@@ -148,11 +148,19 @@ int main(int argc, char** argv)
         std::string name = "tmp/restart" + std::to_string(piol->getRank());
         FILE* fOut       = fopen(name.c_str(), "w+");
         size_t sz        = list1.size();
-        assert(fwrite(&sz, sizeof(size_t), 1U, fOut) == 1U);
-        assert(fwrite(list1.data(), sizeof(size_t), sz, fOut) == sz);
-        assert(fwrite(list2.data(), sizeof(size_t), sz, fOut) == sz);
-        assert(fwrite(lminrs.data(), sizeof(fourd_t), sz, fOut) == sz);
-        fclose(fOut);
+        // There may be no such directory
+        if (fOut != NULL) {
+            bool ok = fwrite(&sz, sizeof(size_t), 1U, fOut) == 1U;
+            if (sz > 0) {
+                ok &= fwrite(list1.data(), sizeof(size_t), sz, fOut) == sz;
+                ok &= fwrite(list2.data(), sizeof(size_t), sz, fOut) == sz;
+                ok &= fwrite(lminrs.data(), sizeof(fourd_t), sz, fOut) == sz;
+            }
+            fclose(fOut);
+            if (!ok) {
+                std::cerr << "Could not write " << name << "\n";
+            }
+        }
     }
 
     // free up some memory
-- 
2.43.0


From 23aae2eb23ba4e2844f863a10e556d4e0d36be78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:43 +0000
Subject: [PATCH 77/86] verification hook: block sizes of fourdbin
 (EXSEISDAT_VERIF_HOOKS)

---
 util/4dio.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/util/4dio.cc b/util/4dio.cc
index 75e4610..9d70359 100644
--- a/util/4dio.cc
+++ b/util/4dio.cc
@@ -55,7 +55,9 @@ std::unique_ptr<Coords> getCoords(
     size_t biggest = piol->comm->max(lnt);
     size_t memlim  = 2LU * 1024LU * 1024LU * 1024LU
                     - 4LU * biggest * sizeof(exseis::utils::Floating_point);
-    size_t max = memlim / (rule->paramMem() + SEGY_utils::getMDSz());
+    size_t max = EXSEISDAT_VERIF_SIZE(
+      "EXSEISDAT_VERIF_4D_BLOCK1",
+      memlim / (rule->paramMem() + SEGY_utils::getMDSz()));
 
     // Collective I/O requries an equal number of MPI-IO calls on every process
     // in exactly the same sequence as each other.
@@ -116,8 +118,10 @@ std::unique_ptr<Coords> getCoords(
           PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv});
     }
 
-    max = memlim
-          / (crule->paramMem() + SEGY_utils::getMDSz() + 2LU * sizeof(size_t));
+    max = EXSEISDAT_VERIF_SIZE(
+      "EXSEISDAT_VERIF_4D_BLOCK2",
+      memlim
+        / (crule->paramMem() + SEGY_utils::getMDSz() + 2LU * sizeof(size_t)));
 
     {
         Param prm2(crule, std::min(lnt, max));
@@ -214,8 +218,9 @@ void outputNonMono(
     }
 
     size_t memlim = 1024LU * 1024LU * 1024LU;
-    size_t max =
-      memlim / (4LU * SEGY_utils::getDOSz(ns) + 4LU * rule->extent());
+    size_t max = EXSEISDAT_VERIF_SIZE(
+      "EXSEISDAT_VERIF_4D_BLOCK3",
+      memlim / (4LU * SEGY_utils::getDOSz(ns) + 4LU * rule->extent()));
     size_t extra = biggest / max + (biggest % max > 0 ? 1 : 0)
                    - (lnt / max + (lnt % max > 0 ? 1 : 0));
 
-- 
2.43.0


From 4f7877da49cf0c5bd5bd18c95792d71acfcc608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:43 +0000
Subject: [PATCH 78/86] fix: make the same number of reads on every process in
 fourdbin

---
 util/4dio.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/4dio.cc b/util/4dio.cc
index 9d70359..0bbb475 100644
--- a/util/4dio.cc
+++ b/util/4dio.cc
@@ -122,6 +122,8 @@ std::unique_ptr<Coords> getCoords(
       "EXSEISDAT_VERIF_4D_BLOCK2",
       memlim
         / (crule->paramMem() + SEGY_utils::getMDSz() + 2LU * sizeof(size_t)));
+    extra = biggest / max + (biggest % max > 0 ? 1 : 0)
+            - (lnt / max + (lnt % max > 0 ? 1 : 0));
 
     {
         Param prm2(crule, std::min(lnt, max));
-- 
2.43.0


From 8248a863226d6adad41aca84d63425d286ccea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:43 +0000
Subject: [PATCH 79/86] fix: write negative coordinates and small fractions in
 segy2kml

---
 util/segy2kml.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/util/segy2kml.cc b/util/segy2kml.cc
index 29f3e5f..3ffcfd6 100644
--- a/util/segy2kml.cc
+++ b/util/segy2kml.cc
@@ -6,7 +6,9 @@
 
 #include <algorithm>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
+#include <sstream>
 #include <sys/stat.h>
 #include <unistd.h>
 
@@ -44,9 +46,9 @@ void initKML(std::ofstream& file, std::string oname, std::string folder)
  */
 std::string highPrecStr(exseis::utils::Floating_point coord)
 {
-    return std::to_string(static_cast<long long>(std::floor(coord))) + "."
-           + std::to_string(static_cast<long long>(
-               std::floor((coord - std::floor(coord)) * 10000000000)));
+    std::ostringstream str;
+    str << std::fixed << std::setprecision(10) << coord;
+    return str.str();
 }
 
 /*! Add a line containing coordinates data to the KML file.
-- 
2.43.0


From b5221d0d58a10f6eb53b11271052a287b62f775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:44 +0000
Subject: [PATCH 80/86] fix: evaluate the series for latitude and longitude in
 segy2kml

---
 util/segy2kml.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/util/segy2kml.cc b/util/segy2kml.cc
index 3ffcfd6..0ea306a 100644
--- a/util/segy2kml.cc
+++ b/util/segy2kml.cc
@@ -106,7 +106,7 @@ void utm2LatLong(
     exseis::utils::Floating_point numZone = std::stof(utmZone);
 
     exseis::utils::Floating_point const eqRad  = 6378137;
-    exseis::utils::Floating_point const polRad = 6356752;
+    exseis::utils::Floating_point const polRad = 6356752.314245;
     exseis::utils::Floating_point const k0     = 0.9996;
     exseis::utils::Floating_point E =
       std::sqrt(1 - (polRad * polRad) / (eqRad * eqRad));
@@ -120,11 +120,11 @@ void utm2LatLong(
             - 5 * std::pow(E, 6U) / 256));
     exseis::utils::Floating_point phi =
       mu + (3 * ei / 2 - 27 * std::pow(ei, 3) / 32) * std::sin(2 * mu)
-      + (21 / 16 * std::pow(ei, 2U) - 55 / 32 * std::pow(ei, 4U))
+      + (21.0 / 16 * std::pow(ei, 2U) - 55.0 / 32 * std::pow(ei, 4U))
           * std::sin(4 * mu)
-      + (151 / 96 * std::pow(ei, 3U) - 417 / 128 * std::pow(ei, 5U))
+      + (151.0 / 96 * std::pow(ei, 3U) - 417.0 / 128 * std::pow(ei, 5U))
           * std::sin(6 * mu)
-      + (1097 / 512 * std::pow(ei, 4U)) * std::sin(8 * mu);
+      + (1097.0 / 512 * std::pow(ei, 4U)) * std::sin(8 * mu);
     exseis::utils::Floating_point c =
       (E * E / (1 - E * E)) * std::pow(std::cos(phi), 2);
     exseis::utils::Floating_point d =
@@ -134,17 +134,17 @@ void utm2LatLong(
       * (phi
          - ((1 - std::pow(E * std::sin(phi), 2)) * std::tan(phi) / (1 - E * E))
              * ((d * d / 2)
-                + ((5 + 3 * std::pow(std::tan(phi), 2) + 10 * c - 4 * c * c
+                - ((5 + 3 * std::pow(std::tan(phi), 2) + 10 * c - 4 * c * c
                     - 9 * (E * E / (1 - E * E)))
                    * std::pow(d, 4) / 24)
                 + ((61 + 90 * std::pow(std::tan(phi), 2)
-                    + 298 * std::pow(std::tan(phi), 4)
+                    + 298 * c + 45 * std::pow(std::tan(phi), 4)
                     - 252 * (E * E / (1 - E * E)) - 3 * c * c)
                    * std::pow(d, 6) / 720)));
     lng =
       (6 * numZone - 183)
       - (180
-         * (d + ((1 + 2 * std::pow(std::tan(phi), 2) + c) * std::pow(d, 3) / 6)
+         * (d - ((1 + 2 * std::pow(std::tan(phi), 2) + c) * std::pow(d, 3) / 6)
             + ((5 - 2 * c + 28 * std::pow(std::tan(phi), 2) - 3 * c * c
                 + 24 * std::pow(std::tan(phi), 4) + 8 * (E * E / (1 - E * E)))
                * std::pow(d, 5) / 120))
-- 
2.43.0


From 83677141fbc2e0fa758928aabbdfbd15a5e5fa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:44 +0000
Subject: [PATCH 81/86] fix: count northings south of the equator in segy2kml

---
 util/segy2kml.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/segy2kml.cc b/util/segy2kml.cc
index 0ea306a..9ac992b 100644
--- a/util/segy2kml.cc
+++ b/util/segy2kml.cc
@@ -105,6 +105,11 @@ void utm2LatLong(
       (std::toupper(utmZone.back()) == 'N' ? 1 : -1);
     exseis::utils::Floating_point numZone = std::stof(utmZone);
 
+    // South of the equator northings are counted from 10,000 km south of it
+    if (hemi < 0) {
+        northing = 10000000 - northing;
+    }
+
     exseis::utils::Floating_point const eqRad  = 6378137;
     exseis::utils::Floating_point const polRad = 6356752.314245;
     exseis::utils::Floating_point const k0     = 0.9996;
-- 
2.43.0


From 1efb81b4f2c0b2333ce3298b7d06b02a54b58d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:44 +0000
Subject: [PATCH 82/86] fix: write longitude before latitude in segy2kml

---
 util/segy2kml.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/util/segy2kml.cc b/util/segy2kml.cc
index 9ac992b..64f12bf 100644
--- a/util/segy2kml.cc
+++ b/util/segy2kml.cc
@@ -68,9 +68,9 @@ void addLine(
       << "<SimpleData name=\"Name\">" + name
            + "</SimpleData>\n\t\t\t</SchemaData>\n\t\t</ExtendedData>\n\t\t\t";
     file << "<tessellate>1</tessellate>\n\t\t<coordinates>\n\t\t\t"
-              + highPrecStr(coords[2].val) + "," + highPrecStr(coords[0].val);
-    file << +",0\n\t\t\t" + highPrecStr(coords[3].val) + ","
-              + highPrecStr(coords[1].val) + ",0\n\t\t </coordinates>\n\t";
+              + highPrecStr(coords[0].val) + "," + highPrecStr(coords[2].val);
+    file << +",0\n\t\t\t" + highPrecStr(coords[1].val) + ","
+              + highPrecStr(coords[3].val) + ",0\n\t\t </coordinates>\n\t";
     file << "</LineString>\n</Placemark>\n";
 }
 
@@ -288,11 +288,11 @@ int main(int argc, char** argv)
         // 100,000)
         if (minmax[0].val > 180 && !utmZone.empty()) {
             utm2LatLong(
-              minmax[0].val, minmax[2].val, utmZone, minmax[0].val,
-              minmax[2].val);
+              minmax[0].val, minmax[2].val, utmZone, minmax[2].val,
+              minmax[0].val);
             utm2LatLong(
-              minmax[1].val, minmax[3].val, utmZone, minmax[1].val,
-              minmax[3].val);
+              minmax[1].val, minmax[3].val, utmZone, minmax[3].val,
+              minmax[1].val);
         }
         else if (utmZone.empty()) {
             std::cerr << "\nError: Invalid coordinates found in file.\n";
-- 
2.43.0


From 884aea1012bf6c99ea68d940ee937c2da8fed66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:44 +0000
Subject: [PATCH 83/86] fix: call only coordinates that are invalid so in
 segy2kml

---
 util/segy2kml.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/segy2kml.cc b/util/segy2kml.cc
index 64f12bf..8942af6 100644
--- a/util/segy2kml.cc
+++ b/util/segy2kml.cc
@@ -294,7 +294,7 @@ int main(int argc, char** argv)
               minmax[1].val, minmax[3].val, utmZone, minmax[3].val,
               minmax[1].val);
         }
-        else if (utmZone.empty()) {
+        else if (minmax[0].val > 180) {
             std::cerr << "\nError: Invalid coordinates found in file.\n";
             std::cerr << "       Expected lat/long but values must be UTM.\n";
             std::cerr << "       Use the -z option to specify the UTM zone.\n";
-- 
2.43.0


From f2bc7a2198f69acbd6a62e4899a5ecc2534fbbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:44 +0000
Subject: [PATCH 84/86] fix: list negative line numbers in traceanalysis

---
 util/traceanalysis.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/traceanalysis.cc b/util/traceanalysis.cc
index 777e69c..82becb0 100644
--- a/util/traceanalysis.cc
+++ b/util/traceanalysis.cc
@@ -79,10 +79,12 @@ int main(int argc, char** argv)
                   << std::endl;
 
         std::cout << "il "
-                  << param_utils::getPrm<size_t>(0LU, PIOL_META_il, &prm)
+                  << param_utils::getPrm<exseis::utils::Integer>(
+                       0LU, PIOL_META_il, &prm)
                   << std::endl;
         std::cout << "xl "
-                  << param_utils::getPrm<size_t>(0LU, PIOL_META_xl, &prm)
+                  << param_utils::getPrm<exseis::utils::Integer>(
+                       0LU, PIOL_META_xl, &prm)
                   << std::endl;
     }
     return 0;
-- 
2.43.0


From f9243aa9ccc5c62eb023cebfd8ce4c010e09a303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:32 +0000
Subject: [PATCH 85/86] fix: open files on the processes of the library handle
 unless told otherwise

---
 include/ExSeisDat/PIOL/DataMPIIO.hh | 3 ++-
 src/DataMPIIO.cc                    | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ExSeisDat/PIOL/DataMPIIO.hh b/include/ExSeisDat/PIOL/DataMPIIO.hh
index 0c3710b..0d9c6a9 100644
--- a/include/ExSeisDat/PIOL/DataMPIIO.hh
+++ b/include/ExSeisDat/PIOL/DataMPIIO.hh
@@ -58,7 +58,8 @@ class DataMPIIO : public DataInterface {
         /// operation
         size_t maxSize;
 
-        /// The MPI communicator to use for file access
+        /// The MPI communicator to use for file access. MPI_COMM_NULL (the
+        /// default) stands for the communicator of the PIOL object.
         MPI_Comm fcomm;
 
         /// The constructor to set default options
diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index 185567a..3257be5 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -243,7 +243,7 @@ DataMPIIO::Opt::Opt(void)
 #else
     coll = false;
 #endif
-    fcomm = MPI_COMM_WORLD;
+    fcomm = MPI_COMM_NULL;
     info  = MPI_INFO_NULL;
     MPI_Info_create(&info);
     //    MPI_Info_set(info, "access_style", "read_once");
@@ -362,7 +362,8 @@ void DataMPIIO::Init(const DataMPIIO::Opt& opt, FileMode mode)
           "MPI_CHAR extent is bigger than one.", PIOL_VERBOSITY_NONE);
     }
 
-    fcomm = opt.fcomm;
+    fcomm =
+      (opt.fcomm == MPI_COMM_NULL ? piol_->comm->getComm() : opt.fcomm);
 
     int flags = getMPIMode(mode);
 
-- 
2.43.0


From 34d363d507bb1e48198e36c5a113a88c0648738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:46 +0000
Subject: [PATCH 86/86] fix: name the intermediate files of a data set after
 its output

---
 include/ExSeisDat/Flow/Set.hh |  6 ++++++
 src/Flow/Set.cc               | 17 +++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/ExSeisDat/Flow/Set.hh b/include/ExSeisDat/Flow/Set.hh
index 6609666..90be7da 100644
--- a/include/ExSeisDat/Flow/Set.hh
+++ b/include/ExSeisDat/Flow/Set.hh
@@ -112,6 +112,12 @@ class Set {
     std::vector<std::string> startSingle(
       FuncLst::iterator fCurr, FuncLst::iterator fEnd);
 
+    /*! Name the files which hold the traces between two steps.
+     *  @param[in] kind What distinguishes the step.
+     *  @return Return the name without an extension.
+     */
+    std::string tempName(const std::string& kind) const;
+
     /*! The entry point for unwinding the function list for all use-cases.
      *  @param[in] fCurr The iterator for the current function to process.
      *  @param[in] fEnd The iterator which indicates the end of the list has
diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index e765800..7f98369 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -175,6 +175,14 @@ std::unique_ptr<TraceBlock> Set::calcFunc(
     return calcFunc(++fCurr, fEnd, type, std::move(bIn));
 }
 
+// The files between the steps lie beside the output and are named after it, so
+// that data sets with different outputs do not use the same files.
+std::string Set::tempName(const std::string& kind) const
+{
+    const size_t base = outfix.rfind('/') + 1LU;
+    return outfix.substr(0LU, base) + kind + "_" + outfix.substr(base);
+}
+
 std::vector<std::string> Set::startSingle(
   FuncLst::iterator fCurr, const FuncLst::iterator fEnd)
 {
@@ -187,8 +195,9 @@ std::vector<std::string> Set::startSingle(
 
     // The operations which remain work on the output of these.
     const std::string prefix =
-      (fNext != fEnd ? "stemp" + std::to_string(std::distance(fNext, fEnd)) :
-                       outfix);
+      (fNext != fEnd ?
+         tempName("stemp" + std::to_string(std::distance(fNext, fEnd))) :
+         outfix);
 
     for (auto& o : fmap) {
         auto& fQue = o.second;
@@ -317,7 +326,7 @@ std::vector<std::string> Set::startGather(
           }));
 
         std::string tOutfix            = outfix;
-        outfix                         = "temp";
+        outfix                         = tempName("temp");
         std::vector<std::string> names = calcFunc(tFunc.begin(), tFunc.end());
         outfix                         = tOutfix;
         drop();
@@ -359,7 +368,7 @@ std::vector<std::string> Set::startGather(
         // The gathers must not be written to the file they are read from.
         std::string gname =
           (fTemp != fEnd ?
-             "gtemp" + std::to_string(std::distance(fTemp, fEnd)) + "_" :
+             tempName("gtemp" + std::to_string(std::distance(fTemp, fEnd))) :
              outfix);
         if (file.size() > 1LU) {
             gname += std::to_string(o->ifc->readNs()) + "_"
-- 
2.43.0

