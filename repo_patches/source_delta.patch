From fdd3275a42b3173bb351fdfe6ef943fdd386b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 01/18] fix: canonical composition must keep uncomposed marks
 behind their starter

---
 src/libunicode/normalization.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index a617c64..e6c398b 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -202,7 +202,10 @@ namespace
         if (i >= decomposed.size())
             return result;
 
-        char32_t starter = decomposed[i++];
+        // The last starter stays in the result, at this index, and is replaced there when it composes:
+        // marks that do not compose with it must follow it.
+        size_t starter = result.size();
+        result.push_back(decomposed[i++]);
         uint8_t last_ccc = 0;
 
         while (i < decomposed.size())
@@ -214,19 +217,19 @@ namespace
             char32_t composed = 0;
             if (last_ccc < ccc || last_ccc == 0)
             {
-                composed = try_compose(starter, cp);
+                composed = try_compose(result[starter], cp);
             }
 
             if (composed != 0 && !is_composition_exclusion(composed))
             {
                 // Composition succeeded
-                starter = composed;
+                result[starter] = composed;
             }
             else if (ccc == 0)
             {
                 // New starter
-                result.push_back(starter);
-                starter = cp;
+                starter = result.size();
+                result.push_back(cp);
                 last_ccc = 0;
             }
             else
@@ -239,7 +242,6 @@ namespace
             ++i;
         }
 
-        result.push_back(starter);
         return result;
     }
 
-- 
2.43.0


From 506c0d8fcdb0ee2eb3918c8e272958afb9df45f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 02/18] fix: U+11A7 is not a Hangul trailing consonant and must
 not compose away

---
 src/libunicode/normalization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index e6c398b..31849f8 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -104,7 +104,7 @@ namespace
         {
             if ((first - hangul::SBase) % hangul::TCount == 0)
             {
-                if (second >= hangul::TBase && second < hangul::TBase + hangul::TCount)
+                if (second > hangul::TBase && second < hangul::TBase + hangul::TCount)
                 {
                     // LV + T -> LVT
                     return first + (second - hangul::TBase);
-- 
2.43.0


From ca7a9cecfec45590ff0a23a4e63048536c46e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 03/18] fix: streaming NFD/NFKD must not cut before a starter
 that decomposes to non-starters

---
 src/libunicode/normalization.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 31849f8..b841fb5 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -156,6 +156,20 @@ namespace
             decompose_recursive(c, output, compatibility);
     }
 
+    /// Returns the first codepoint of the full decomposition of @p codepoint.
+    [[nodiscard]] char32_t first_of_decomposition(char32_t codepoint, bool compatibility) noexcept
+    {
+        while (true)
+        {
+            auto decomp = find_decomposition(detail::canonical_decomposition_table, codepoint);
+            if (decomp.empty() && compatibility)
+                decomp = find_decomposition(detail::compatibility_decomposition_table, codepoint);
+            if (decomp.empty())
+                return codepoint;
+            codepoint = decomp.front();
+        }
+    }
+
     // Canonical ordering of combining marks
     void canonical_order(std::u32string& text)
     {
@@ -549,9 +563,10 @@ bool normalizer::is_boundary(char32_t codepoint) const noexcept
     if (canonical_combining_class(codepoint) != 0)
         return false;
 
-    // For decomposition forms, every starter is a safe boundary
+    // For decomposition forms, a starter is a safe boundary unless its decomposition begins with a
+    // non-starter (e.g. U+0F73), which may still have to be reordered into the preceding segment
     if (_form == Normalization_Form::NFD || _form == Normalization_Form::NFKD)
-        return true;
+        return canonical_combining_class(first_of_decomposition(codepoint, _form == Normalization_Form::NFKD)) == 0;
 
     // For composition forms, a starter is safe only if its quick-check value
     // is Yes (it cannot compose with the preceding segment)
-- 
2.43.0


From aae940deb4074d3b1be25b551cd62a09d0f96ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 04/18] fix: regional indicator pairing (GB12/GB13) must
 survive a break and a preceding non-RI

---
 src/libunicode/grapheme_segmenter.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index c71e5fa..e878f98 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -42,13 +42,14 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     state.previousProperties = Pb;
 
     {
-        // Set state.ri_counter to zero if the next codepoint is not of category Regional_Indicator.
+        // Count the consecutive Regional_Indicator codepoints up to and including the next one, modulo 2,
+        // starting over at zero if the next codepoint is not of category Regional_Indicator.
         //
         // We move the state.ri_counter out to help GCC optimize
         // this code to be branchless.
         // Sadly only GCC succeeds in doing this and Clang fails.
         auto const ri_counter = state.ri_counter;
-        state.ri_counter = (B == Grapheme_Cluster_Break::Regional_Indicator) ? ri_counter : 0;
+        state.ri_counter = (B == Grapheme_Cluster_Break::Regional_Indicator) ? static_cast<uint8_t>((ri_counter + 1) % 2) : 0;
     }
 
     // GB3: Do not break between a CR and LF. Otherwise, break before and after controls.
@@ -143,11 +144,8 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     // GB12/GB13: Do not break within emoji flag sequences.
     // That is, do not break between regional indicator (RI) symbols
     // if there is an odd number of RI characters before the break point.
-    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && state.ri_counter == 1)
-    {
-        state.ri_counter = static_cast<uint8_t>((state.ri_counter + 1) % 2);
+    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && state.ri_counter == 0)
         return false;
-    }
 
     // GB999: Otherwise, break everywhere.
     return true;
-- 
2.43.0


From 26c95f1bac2e20a66198c9dd564e9c2a042c7bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 05/18] fix: GB11 joins over exactly one ZWJ

---
 src/libunicode/grapheme_segmenter.cpp | 8 +++++---
 src/libunicode/grapheme_segmenter.h   | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index e878f98..c517bbb 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -88,8 +88,10 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     {
         if (Pb.is_extended_pictographic())
             state.extpic_state = 1;
-        else if ((B == Grapheme_Cluster_Break::Extend || B == Grapheme_Cluster_Break::ZWJ) && prev_extpic_state == 1)
-            ; // keep state - Extend/ZWJ extend the ExtPic chain for GB11
+        else if (B == Grapheme_Cluster_Break::Extend && prev_extpic_state == 1)
+            ; // keep state - Extend extends the ExtPic chain for GB11
+        else if (B == Grapheme_Cluster_Break::ZWJ && prev_extpic_state == 1)
+            state.extpic_state = 2;
         else
             state.extpic_state = 0;
     }
@@ -138,7 +140,7 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
 
     // GB11: Do not break within emoji modifier sequences or emoji zwj sequences.
     // Full rule: \p{Extended_Pictographic} Extend* ZWJ × \p{Extended_Pictographic}
-    if (A == Grapheme_Cluster_Break::ZWJ && Pb.is_extended_pictographic() && prev_extpic_state == 1)
+    if (A == Grapheme_Cluster_Break::ZWJ && Pb.is_extended_pictographic() && prev_extpic_state == 2)
         return false;
 
     // GB12/GB13: Do not break within emoji flag sequences.
diff --git a/src/libunicode/grapheme_segmenter.h b/src/libunicode/grapheme_segmenter.h
index faa0c2d..7e7eec3 100644
--- a/src/libunicode/grapheme_segmenter.h
+++ b/src/libunicode/grapheme_segmenter.h
@@ -41,7 +41,8 @@ struct grapheme_segmenter_state
 
     /// GB11 Extended Pictographic tracking state:
     /// 0 = no ExtPic context
-    /// 1 = saw ExtPic (or ExtPic followed by Extend*/ZWJ chain)
+    /// 1 = saw ExtPic Extend*
+    /// 2 = saw ExtPic Extend* ZWJ (ready for GB11)
     uint8_t extpic_state = 0;
 };
 
-- 
2.43.0


From 1844b7dd95795c8dd98ac888f37c3d81711d3f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 06/18] fix: word_process_init must reset all of the
 segmentation state

---
 src/libunicode/word_segmenter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libunicode/word_segmenter.cpp b/src/libunicode/word_segmenter.cpp
index c3a50d0..b1d840f 100644
--- a/src/libunicode/word_segmenter.cpp
+++ b/src/libunicode/word_segmenter.cpp
@@ -88,6 +88,7 @@ void word_process_init(char32_t firstCodepoint, word_segmenter_state& state) noe
 
     state.raw_prev_wb = wb;
     state.prev_prev_wb = Word_Break::Other;
+    state.saw_transparent = false;
 
     if (is_transparent(wb))
     {
-- 
2.43.0


From a73449cd489da38dd15de7daecf9048090a3c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 07/18] fix: u32u8_convert must accept an exactly fitting
 destination

---
 src/libunicode/capi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index cb2b105..dafa4dd 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -110,7 +110,7 @@ int u32u8_convert(u32_char_t const* source, size_t slen, u8_char_t* dest, size_t
         u8_char_t buf[4];
         auto const bufEnd = conv(source[i], buf);
         auto const bufLength = static_cast<size_t>(std::distance(buf, bufEnd));
-        if (!(bufLength < dlen))
+        if (bufLength > dlen)
             return -1;
 
         for (size_t k = 0; k < bufLength; ++k)
-- 
2.43.0


From db5e705358ca7c9711004865f5f7a8b70abcb6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 08/18] fix: u32_gc_width must not read the first codepoint of
 an empty text

---
 src/libunicode/capi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index dafa4dd..c4d9213 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -43,6 +43,9 @@ int u8_gc_count(u8_char_t const* codepoints, size_t size)
 
 int u32_gc_width(u32_char_t const* codepoints, size_t size, int mode)
 {
+    if (!size)
+        return 0;
+
     auto const text = std::u32string_view(reinterpret_cast<char32_t const*>(codepoints), size);
     auto totalWidth = 0;
     auto segmenter = unicode::grapheme_segmenter(text);
-- 
2.43.0


From d03c26f92d61d427f811e49f4c97b7f695ff4013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 09/18] fix: convert_to must not read past the end of truncated
 input

---
 src/libunicode/convert.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index 5b57e0b..61dad22 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -317,6 +317,25 @@ namespace detail // {{{
         return t;
     }
 
+    /// Input iterator that reads as zero, and does not advance, once it has reached the end. Zero never
+    /// continues a multi-unit sequence, so a decoder stops at a sequence the end of the input cuts off.
+    template <typename Iterator>
+    struct bounded_iterator
+    {
+        Iterator current;
+        Iterator end;
+
+        constexpr auto operator*() const { return current != end ? *current : std::decay_t<decltype(*current)> {}; }
+
+        constexpr bounded_iterator operator++(int)
+        {
+            auto const previous = *this;
+            if (current != end)
+                ++current;
+            return previous;
+        }
+    };
+
     // SIMD-accelerated UTF-8 conversion dispatchers (defined in convert.cpp)
     size_t convert_utf8_to_utf32(char const* input, size_t inputSize, char32_t* output) noexcept;
     size_t convert_utf8_to_utf16(char const* input, size_t inputSize, char16_t* output) noexcept;
@@ -336,11 +355,10 @@ OutputIterator convert_to(std::basic_string_view<S> input, OutputIterator output
         return detail::convert_identity(input, output);
     else
     {
-        auto i = begin(input);
-        auto e = end(input);
+        auto i = detail::bounded_iterator<decltype(begin(input))> { begin(input), end(input) };
         decoder<S> read {};
         encoder<T> write {};
-        while (i != e)
+        while (i.current != i.end)
         {
             auto const outChar = read(i);
             if (outChar.has_value())
-- 
2.43.0


From 12d821a86ba4998b0c101b295b8653d04fdd26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 10/18] fix: scan_text must not read before the chunk when
 resuming a UTF-8 sequence

---
 src/libunicode/scan.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 70b8aa0..3f5c758 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -277,7 +277,8 @@ scan_result scan_text(scan_state& state,
     if (state.utf8.expectedLength != 0)
     {
         result = detail::scan_for_text_nonascii(state, text, maxColumnCount, receiver);
-        text = std::string_view(result.end, static_cast<size_t>(std::distance(result.end, text.data() + text.size())));
+        // Continue at what has not been consumed: result.end may still point into the previous chunk.
+        text.remove_prefix(static_cast<size_t>(std::distance(text.data(), state.next)));
     }
 
     if (text.empty())
-- 
2.43.0


From dc28dbaf832f2972e0ed1a57c1e106e07556d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 11/18] fix: scan_text must put a codepoint that does not fit
 back as it was

---
 src/libunicode/scan.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 3f5c758..c0367a4 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -92,6 +92,13 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
 
     unsigned byteCount = 0; // bytes consumed for the current codepoint
 
+    // Puts back what this call consumed of the current codepoint, so that the next call decodes it again.
+    auto const putBackCodepoint = [&, initialUtf8 = state.utf8]() noexcept {
+        input -= byteCount;
+        byteCount = 0;
+        state.utf8 = input == start ? initialUtf8 : utf8_decoder_state {};
+    };
+
     // How much of the open cluster's width THIS call has contributed. The cluster may have been
     // opened by an earlier call, whose columns are already spent and cannot be taken back here, so
     // this -- not state.reportedClusterWidth -- bounds what a rewind may subtract from count.
@@ -169,7 +176,9 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                 if (count + nextWidth > maxColumnCount)
                 {
                     // Currently scanned grapheme cluster won't fit. Break at its start.
-                    input = codepointStart;
+                    byteCount = static_cast<unsigned>(input - codepointStart);
+                    putBackCodepoint();
+                    state.lastCodepointHint = 0; // it opens a cluster when it is scanned again
                     break;
                 }
 
-- 
2.43.0


From 76c5728485135811bbee9d4b5667ed03ad7b1e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 12/18] fix: scan_text must not count invalid sequences beyond
 the column limit

---
 src/libunicode/scan.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index c0367a4..85f6d6b 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -126,11 +126,16 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         if (is_control(*input) || !is_complex(*input) || (state.utf8.expectedLength == 0 && is_c1_control(*input)))
         {
             // A control ends whatever cluster was open, so hand it over before dropping the state.
-            flushOpenCluster(input);
+            flushOpenCluster(input - byteCount);
 
             // Incomplete UTF-8 sequence hit. That's invalid as well.
             if (state.utf8.expectedLength)
             {
+                if (count == maxColumnCount)
+                {
+                    putBackCodepoint();
+                    break;
+                }
                 ++count;
                 receiver.receiveInvalidGraphemeCluster();
                 state.utf8 = {};
@@ -231,6 +236,11 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         {
             assert(holds_alternative<Invalid>(result));
             flushOpenCluster(input - byteCount);
+            if (count == maxColumnCount)
+            {
+                putBackCodepoint();
+                break;
+            }
             count++;
             receiver.receiveInvalidGraphemeCluster();
             clusterWidthCountedHere = 0;
-- 
2.43.0


From ba3f63a7d94839cd3931f7c3141d9dda613ef763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 13/18] fix: scan_text must hand back the invalid bytes it
 consumed

---
 src/libunicode/scan.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 85f6d6b..4cf8f00 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -250,6 +250,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
             state.graphemeState = {};
             state.utf8.expectedLength = 0;
             byteCount = 0;
+            resultEnd = input;
         }
     }
 
-- 
2.43.0


From aca434b8eae8ac04fcace5705faa2d5dfe8f3fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 14/18] fix: scan_text must not deliver invalid or incomplete
 bytes as part of a cluster

---
 src/libunicode/scan.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 4cf8f00..700af8a 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -139,6 +139,8 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                 ++count;
                 receiver.receiveInvalidGraphemeCluster();
                 state.utf8 = {};
+                clusterStart = input;
+                byteCount = 0;
             }
             state.lastCodepointHint = 0;
             state.graphemeState = {};
@@ -250,12 +252,13 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
             state.graphemeState = {};
             state.utf8.expectedLength = 0;
             byteCount = 0;
+            clusterStart = input;
             resultEnd = input;
         }
     }
 
-    // Hand over whatever cluster the scan ended inside of.
-    flushOpenCluster(input);
+    // Hand over whatever cluster the scan ended inside of, without the bytes of an incomplete codepoint.
+    flushOpenCluster(input - byteCount);
 
     assert(resultStart <= resultEnd);
 
-- 
2.43.0


From 3924a441c52a4864192b74b3510fc0b0c7ce396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 15/18] fix: scan_text must not advance the position of a
 previous chunk

---
 src/libunicode/scan.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 700af8a..1dec5a7 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -292,8 +292,7 @@ scan_result scan_text(scan_state& state,
 
     auto result = scan_result { 0, text.data(), text.data() };
 
-    if (state.next == nullptr)
-        state.next = text.data();
+    state.next = text.data();
 
     // If state indicates that we previously started consuming a UTF-8 sequence but did not complete yet,
     // attempt to finish that one first.
-- 
2.43.0


From 65d45fce0be59b029143f034ea209a78efd86dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 16/18] fix: code point names above U+FFFF must not alias the
 names of the first 256 blocks

---
 src/libunicode/multistage_table_generator.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/libunicode/multistage_table_generator.h b/src/libunicode/multistage_table_generator.h
index 1ca8870..bc51dca 100644
--- a/src/libunicode/multistage_table_generator.h
+++ b/src/libunicode/multistage_table_generator.h
@@ -19,7 +19,6 @@
 #include <algorithm>
 #include <cassert>
 #include <cstdint>
-#include <cstring>
 #include <iomanip>
 #include <iterator>
 #include <limits>
@@ -112,7 +111,7 @@ class multistage_table_generator
 
         // Block has not been seen yet. Create a new block.
         auto const stage2Index = _output.stage2.size() / BlockSize;
-        assert(stage2Index < std::numeric_limits<Stage2ElementType>::max());
+        assert(stage2Index <= std::numeric_limits<Stage1ElementType>::max());
 
         for (SourceType index = blockStart; index < blockStart + BlockSize; ++index)
             _output.stage2.emplace_back(get_or_create_stage3_index(index));
@@ -125,12 +124,11 @@ class multistage_table_generator
     /// FNV-1a hash over a block of elements.
     size_t hashBlock(size_t blockStart) const noexcept
     {
+        // Hashes the elements' values rather than their bytes: T may own memory (std::string does).
         size_t hash = 14695981039346656037ULL;
-        auto const* bytes = reinterpret_cast<char const*>(&_input[blockStart]);
-        auto const byteCount = BlockSize * sizeof(T);
-        for (size_t i = 0; i < byteCount; ++i)
+        for (size_t i = 0; i < BlockSize; ++i)
         {
-            hash ^= static_cast<size_t>(static_cast<unsigned char>(bytes[i]));
+            hash ^= static_cast<size_t>(_valueHasher(_input[blockStart + i]));
             hash *= 1099511628211ULL;
         }
         return hash;
@@ -154,7 +152,7 @@ class multistage_table_generator
 
     bool is_same_block(size_t a, size_t b) const noexcept
     {
-        return std::memcmp(&_input[a], &_input[b], BlockSize * sizeof(T)) == 0;
+        return std::equal(&_input[a], &_input[a] + BlockSize, &_input[b]);
     }
 
     Stage2ElementType get_or_create_stage3_index(SourceType stage1Index)
-- 
2.43.0


From 57ea01fc7aef870231e2cfb6202af07a3233a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 17/18] fix: is_full_composition_exclusion must include
 singleton and non-starter decompositions

---
 src/libunicode/normalization.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index b841fb5..fc259fe 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -313,7 +313,9 @@ bool is_composition_exclusion(char32_t codepoint) noexcept
 
 bool is_full_composition_exclusion(char32_t codepoint) noexcept
 {
-    return is_composition_exclusion(codepoint);
+    // Besides the composition exclusions, this includes the singleton and the non-starter decompositions,
+    // i.e. exactly the codepoints that can never occur in NFC (NFC_Quick_Check=No)
+    return nfc_quick_check(codepoint) == NFC_Quick_Check::No;
 }
 
 // ============================================================================
-- 
2.43.0


From c606535d969cc6291dd649ee9feeffe753393133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:42 +0000
Subject: [PATCH 18/18] fix: utf8_grapheme_segmenter must not make up U+0000
 for a sequence cut off at the end

---
 src/libunicode/utf8_grapheme_segmenter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/utf8_grapheme_segmenter.h b/src/libunicode/utf8_grapheme_segmenter.h
index 37dc094..851665e 100644
--- a/src/libunicode/utf8_grapheme_segmenter.h
+++ b/src/libunicode/utf8_grapheme_segmenter.h
@@ -132,7 +132,8 @@ inline char32_t utf8_grapheme_segmenter::iterator::consumeCodepoint() noexcept
         }
     }
     auto const result = _nextCodepoint;
-    _nextCodepoint = 0;
+    // bytes left over at the end do not make up a codepoint
+    _nextCodepoint = _nextCodepointStart != _end ? ReplacementChar : 0;
     return result;
 }
 
-- 
2.43.0

