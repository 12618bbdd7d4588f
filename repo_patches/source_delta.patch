From 10d2d9a9a1f9bc9821846f557f85e3003ee38fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 01/13] fix: utf8 encoded size of codepoints whose highest bit
 falls in a lead octet

U+0000, U+0800..U+1FFF and U+10000..U+7FFFF were written with too few
octets (or with an undefined number of them, for U+0000).
---
 include/u5e/utf8_util.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/u5e/utf8_util.hpp b/include/u5e/utf8_util.hpp
index 23f553d..4e22429 100644
--- a/include/u5e/utf8_util.hpp
+++ b/include/u5e/utf8_util.hpp
@@ -58,7 +58,21 @@ namespace u5e {
      * How many octets will this codepoint take
      */
     inline static int encoded_size(int value) {
-      return std::ceil((float)(32 - __builtin_clz(value) - 1) / (float)6);
+      // the first octet of a sequence of n octets (n > 1) holds 7 - n
+      // bits, every other octet holds 6 bits.
+      if (value < 0x80) {
+        return 1;
+      } else if (value < 0x800) {
+        return 2;
+      } else if (value < 0x10000) {
+        return 3;
+      } else if (value < 0x200000) {
+        return 4;
+      } else if (value < 0x4000000) {
+        return 5;
+      } else {
+        return 6;
+      }
     }
     
   };
-- 
2.43.0


From abca4926ebb1b76230460fef2e9759b829adbf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 02/13] fix: utf8_bounds looks at exactly the octets of the
 text

The octet one past the end was read (and written to by enforce), the
first octet of the text was never checked for overflow, an empty or
continuation-only text was overrun, and the 0xFE and 0xFF octets (7 and
8 octets to go) were not looked at when 6 or 7 octets from the end.
---
 include/u5e/utf8_bounds.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/u5e/utf8_bounds.hpp b/include/u5e/utf8_bounds.hpp
index b1e8cfc..525b13e 100644
--- a/include/u5e/utf8_bounds.hpp
+++ b/include/u5e/utf8_bounds.hpp
@@ -9,7 +9,7 @@ namespace u5e {
   /**
    * \brief Check and enforce bounds of utf8 text
    *
-   * This will only look at the last 6 octets of the text and will
+   * This will only look at the last 8 octets of the text and will
    * only look at the first octet. It will not guarantee that the
    * entire text is valid. The intent of this class is to provide a
    * cheap safety check to make sure you will not have any under or
@@ -30,21 +30,23 @@ namespace u5e {
      * correct bounds.
      */
     static bool check(NativeIterator begin, NativeIterator end) {
-      if (utf8_util::is_codepoint_continuation(*begin)) {
+      if (begin == end) {
+        return true;
+      } else if (utf8_util::is_codepoint_continuation(*begin)) {
         return false;
       } else {
-        int max_walkback = 6; // mathematically, it's impossible for
-                              // something more than 6 elements away
+        int max_walkback = 8; // mathematically, it's impossible for
+                              // something more than 8 elements away
                               // from the end to generate a overflow.
         int walkback = 0;
         while (walkback < max_walkback && end != begin) {
+          --end; walkback++;
           char octet = *end;
           if (utf8_util::is_codepoint_start(octet)) {
             if (utf8_util::codepoint_size(octet) > walkback) {
               return false;
             }
           }
-          --end; walkback++;
         }
         return true;
       }
@@ -56,16 +58,17 @@ namespace u5e {
      */
     static bool enforce(NativeIterator begin, NativeIterator end) {
       bool ret = true;
-      while (utf8_util::is_codepoint_continuation(*begin)) {
+      while (begin != end && utf8_util::is_codepoint_continuation(*begin)) {
         *begin = '?';
         ++begin;
         ret = false;
       }
-      int max_walkback = 6; // mathematically, it's impossible for
-                            // something more than 6 elements away
+      int max_walkback = 8; // mathematically, it's impossible for
+                            // something more than 8 elements away
                             // from the end to generate a overflow.
       int walkback = 0;
       while (walkback < max_walkback && end != begin) {
+        --end; walkback++;
         char octet = *end;
         if (utf8_util::is_codepoint_start(octet)) {
           if (utf8_util::codepoint_size(octet) > walkback) {
@@ -73,7 +76,6 @@ namespace u5e {
             ret = false;
           }
         }
-        --end; walkback++;
       }
       return ret;
     }
-- 
2.43.0


From ce439c80d9c1ee9bdfb00335a9343648409a3d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 03/13] fix: utf8_bounds::enforce also replaces the rest of a
 truncated codepoint

Replacing only the first octet left stray continuation octets, which
made the iteration over the enforced text never reach the end.
---
 include/u5e/utf8_bounds.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/u5e/utf8_bounds.hpp b/include/u5e/utf8_bounds.hpp
index 525b13e..2eac90f 100644
--- a/include/u5e/utf8_bounds.hpp
+++ b/include/u5e/utf8_bounds.hpp
@@ -63,6 +63,7 @@ namespace u5e {
         ++begin;
         ret = false;
       }
+      NativeIterator text_end = end;
       int max_walkback = 8; // mathematically, it's impossible for
                             // something more than 8 elements away
                             // from the end to generate a overflow.
@@ -72,7 +73,14 @@ namespace u5e {
         char octet = *end;
         if (utf8_util::is_codepoint_start(octet)) {
           if (utf8_util::codepoint_size(octet) > walkback) {
-            *end = '?';
+            // the octets that continue the truncated codepoint are
+            // left without a start, so they also need to be replaced.
+            NativeIterator bad = end;
+            do {
+              *bad = '?';
+              ++bad;
+            } while (bad != text_end &&
+                     utf8_util::is_codepoint_continuation(*bad));
             ret = false;
           }
         }
-- 
2.43.0


From dbb3babbd2513cf77fcfb85b365a0ea832be7285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 04/13] fix: utf8 iterators return codepoints by value,
 reference must not be a reference

std::reverse_iterator over a utf8 iterator returned a dangling reference.
---
 include/u5e/utf8_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/u5e/utf8_iterator.hpp b/include/u5e/utf8_iterator.hpp
index 97bb431..98b0944 100644
--- a/include/u5e/utf8_iterator.hpp
+++ b/include/u5e/utf8_iterator.hpp
@@ -30,7 +30,7 @@ namespace u5e {
      * Basic iterator typedefs
      */
     typedef codepoint value_type;
-    typedef const codepoint& reference;
+    typedef const codepoint reference;
     typedef int difference_type;
     typedef std::bidirectional_iterator_tag iterator_category;
     //@}
-- 
2.43.0


From 1dc4a57da126eba3f7202ff92005455732dcd36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 05/13] fix: comparing and rewinding utf8 iterators does not
 read past the end of the text

The octet one past the end of the text is not part of it: reading it
overflowed views, and made rewinding from the end skip a codepoint if
it happened to look like a continuation.
---
 include/u5e/utf8_iterator.hpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/u5e/utf8_iterator.hpp b/include/u5e/utf8_iterator.hpp
index 98b0944..b43844d 100644
--- a/include/u5e/utf8_iterator.hpp
+++ b/include/u5e/utf8_iterator.hpp
@@ -70,11 +70,22 @@ namespace u5e {
      * Go to the previous codepoint.
      */
     inline void rewind_one_codepoint() {
-      rewind_to_start_of_codepoint(*raw_iterator_);
+      NativeIterator from = raw_iterator_;
       raw_iterator_--;
       while (utf8_util::is_codepoint_continuation(*raw_iterator_)) {
         raw_iterator_--;
       }
+      // if we were halfway into a codepoint, this is just the start of
+      // it. Only look at where we were when it is known not to be the
+      // end of the text.
+      if (std::distance(raw_iterator_, from) <
+          utf8_util::codepoint_size(*raw_iterator_) &&
+          utf8_util::is_codepoint_continuation(*from)) {
+        raw_iterator_--;
+        while (utf8_util::is_codepoint_continuation(*raw_iterator_)) {
+          raw_iterator_--;
+        }
+      }
     }
     
     /**
@@ -164,6 +175,13 @@ namespace u5e {
      * Compare with another iterator
      */
     inline bool operator==(const utf8_const_iterator& rhs) const {
+      if (this->raw_iterator_ == rhs.raw_iterator_) {
+        return true;
+      } else if (rhs.raw_iterator_ < this->raw_iterator_) {
+        // only the first of the two is known not to be the end of the
+        // text.
+        return rhs == *this;
+      }
       char c;
       utf8_const_iterator copy(*this);
       c = *(copy.raw_iterator_);
@@ -261,6 +279,13 @@ namespace u5e {
      * Compare the iterator with another iterator
      */
     inline bool operator==(const utf8_iterator& rhs) const {
+      if (this->raw_iterator_ == rhs.raw_iterator_) {
+        return true;
+      } else if (rhs.raw_iterator_ < this->raw_iterator_) {
+        // only the first of the two is known not to be the end of the
+        // text.
+        return rhs == *this;
+      }
       char c;
       utf8_iterator copy(*this);
       c = *(copy.raw_iterator_);
-- 
2.43.0


From 37a4ce44e82d60a7b257ad781c80c2fa8bbf61cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 06/13] fix: finding the start of the grapheme at a given
 position

After the first step back the pair of codepoints was compared in the
wrong order, and a position at the end of the text was compared with
whatever is in memory after the text.
---
 include/u5e/basic_grapheme_iterator.hpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/include/u5e/basic_grapheme_iterator.hpp b/include/u5e/basic_grapheme_iterator.hpp
index cb1b62b..6529725 100644
--- a/include/u5e/basic_grapheme_iterator.hpp
+++ b/include/u5e/basic_grapheme_iterator.hpp
@@ -155,28 +155,26 @@ namespace u5e {
     }
 
     void find_start_of_grapheme() {
-      // GB2
-      if (where_ == begin_)
+      // GB1, GB2
+      if (where_ == begin_ || where_ == end_)
         return;
       // rewind where_ until it's no longer in the same grapheme
-
-      // GB1
-      // this always start as copy = where_
-      const_codepoint_iterator copy = where_;
-      --copy;
-      codepoint a = *copy;
+      codepoint b = *where_;
 
       while (1) {
-        if (where_ == begin_)
-          return;
-        codepoint b = *where_;
+        const_codepoint_iterator copy = where_;
+        --copy;
+        codepoint a = *copy;
 
         if (is_grapheme_boundary(a, b)) {
           return;
         }
 
-        a = b;
-        --where_;
+        b = a;
+        where_ = copy;
+        // GB1
+        if (where_ == begin_)
+          return;
       }
     }
     //@}
-- 
2.43.0


From 42753d81493eb6b8bcbe6ea1ddaf61237d8b22d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 07/13] fix: appending up to the end of a text does not look
 past it

If the octet after the text happened to look like a continuation the
last codepoint was not appended, for views it also is an overflow.
---
 include/u5e/basic_encodedstring.hpp |  5 ++++-
 include/u5e/utf32ne.hpp             |  6 ++++++
 include/u5e/utf8.hpp                | 14 ++++++++++++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/u5e/basic_encodedstring.hpp b/include/u5e/basic_encodedstring.hpp
index 35c832d..bca83db 100644
--- a/include/u5e/basic_encodedstring.hpp
+++ b/include/u5e/basic_encodedstring.hpp
@@ -175,9 +175,12 @@ namespace u5e {
      typename basic_encodedstring<Encoding, StorageType>::const_iterator first,
      typename basic_encodedstring<Encoding, StorageType>::const_iterator last
      ) {
+      if (first == last) {
+        return *this;
+      }
       native_string.append
         (Encoding::template native_const_iterator<StorageType>(first),
-         Encoding::template native_const_iterator<StorageType>(last)
+         Encoding::template native_end_iterator<StorageType>(last)
          );
       return *this;
     }
diff --git a/include/u5e/utf32ne.hpp b/include/u5e/utf32ne.hpp
index 37daed1..0694049 100644
--- a/include/u5e/utf32ne.hpp
+++ b/include/u5e/utf32ne.hpp
@@ -35,6 +35,12 @@ namespace u5e {
       return it;
     }
 
+    template <typename NativeString>
+    static typename NativeString::const_iterator
+    native_end_iterator(typename NativeString::const_iterator it) {
+      return it;
+    }
+
     template <typename InputNativeIterator, typename OutputNativeString>
     static void append_from_utf32ne
     (InputNativeIterator first, InputNativeIterator last,
diff --git a/include/u5e/utf8.hpp b/include/u5e/utf8.hpp
index da9bde7..9399844 100644
--- a/include/u5e/utf8.hpp
+++ b/include/u5e/utf8.hpp
@@ -44,6 +44,20 @@ namespace u5e {
       return it.raw_iterator_;
     }
 
+    /**
+     * Get access to the native const_iterator that ends a range with at
+     * least one codepoint. That may be the end of the text, which can't
+     * be looked at in order to find the start of the codepoint.
+     */
+    template <typename NativeString>
+    static typename NativeString::const_iterator
+    native_end_iterator
+    (utf8_const_iterator<typename NativeString::const_iterator> it) {
+      --it;
+      ++it;
+      return it.raw_iterator_;
+    }
+
     template <typename InputNativeIterator, typename OutputNativeString>
     static void append_from_utf32ne
     (InputNativeIterator first, InputNativeIterator last,
-- 
2.43.0


From f6ed1a9ecd66c6594dfd490a2f26f10066a60d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 08/13] fix: appending graphemes appends their octets, not
 their truncated codepoints

---
 include/u5e/basic_encodedstring.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/u5e/basic_encodedstring.hpp b/include/u5e/basic_encodedstring.hpp
index bca83db..8c7fe42 100644
--- a/include/u5e/basic_encodedstring.hpp
+++ b/include/u5e/basic_encodedstring.hpp
@@ -196,9 +196,8 @@ namespace u5e {
     (basic_grapheme_iterator<basic_encodedstring<Encoding, StorageType>>& first,
      basic_grapheme_iterator<basic_encodedstring<Encoding, StorageType>>& last)
     {
-      native_string.append((*first).codepoint_begin(),
-                           (*last).codepoint_begin());
-      return *this;
+      return append<StorageType>((*first).codepoint_begin(),
+                                 (*last).codepoint_begin());
     }
     
     inline basic_encodedstring& append
-- 
2.43.0


From 1e4fb81b6559039b43e6f4a197a524947600a1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 09/13] fix: assignment of encoded strings did not compile when
 used

---
 include/u5e/basic_encodedstring.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/u5e/basic_encodedstring.hpp b/include/u5e/basic_encodedstring.hpp
index 8c7fe42..1fed740 100644
--- a/include/u5e/basic_encodedstring.hpp
+++ b/include/u5e/basic_encodedstring.hpp
@@ -104,7 +104,8 @@ namespace u5e {
      */
     basic_encodedstring&
     operator= (const basic_encodedstring &other) {
-      native_string = other;
+      native_string = other.native_string;
+      return *this;
     }
 
     //@{
-- 
2.43.0


From 6254097624cbb3d28e3235c1dd77866979b650c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 10/13] fix: canonical ordering must not move starters nor
 reorder equal classes

Sorting the whole grapheme moved codepoints across starters (for
instance across U+034F COMBINING GRAPHEME JOINER), and std::sort does
not keep the order of the marks with the same class.
---
 include/u5e/canonical_combining_order.hpp | 32 ++++++++++++++++++++++-
 include/u5e/normalization_form_c.hpp      |  3 +--
 include/u5e/normalization_form_d.hpp      |  3 +--
 include/u5e/normalization_form_kc.hpp     |  3 +--
 include/u5e/normalization_form_kd.hpp     |  3 +--
 5 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/include/u5e/canonical_combining_order.hpp b/include/u5e/canonical_combining_order.hpp
index 3e86ba9..517bf2f 100644
--- a/include/u5e/canonical_combining_order.hpp
+++ b/include/u5e/canonical_combining_order.hpp
@@ -1,6 +1,7 @@
 #ifndef INCLUDED_U5E_CANONICAL_COMBINING_ORDER
 #define INCLUDED_U5E_CANONICAL_COMBINING_ORDER
 
+#include <algorithm>
 #include <u5e/props/canonical_combining_class.hpp>
 
 namespace u5e {
@@ -8,7 +9,8 @@ namespace u5e {
   /**
    * \brief compare codepoints according to the canonical combining order
    *
-   * This is intended to be used with std::sort on a utf32ne string type.
+   * This is intended to be used with std::stable_sort on a sequence of
+   * non-starters in a utf32ne string type.
    */
   inline bool canonical_combining_order(int a, int b) {
     return
@@ -16,6 +18,34 @@ namespace u5e {
       <
       props::canonical_combining_class::resolve(b);
   }
+
+  /**
+   * \brief put a text in the canonical order
+   *
+   * Sorts, in-place, every sequence of non-starters according to their
+   * canonical combining class. Starters do not move, neither does
+   * anything move across them, and codepoints of the same class remain
+   * in the order they were.
+   *
+   * \tparam StorageType a utf32ne string type.
+   */
+  template <typename StorageType>
+  inline void canonical_ordering(StorageType& data) {
+    typename StorageType::iterator it(data.codepoint_begin());
+    typename StorageType::iterator end(data.codepoint_end());
+    while (it != end) {
+      typename StorageType::iterator from = it;
+      while (it != end &&
+             props::canonical_combining_class::resolve(*it) != 0) {
+        ++it;
+      }
+      if (it == from) {
+        ++it;
+      } else {
+        std::stable_sort(from, it, canonical_combining_order);
+      }
+    }
+  }
 }
 
 #endif
diff --git a/include/u5e/normalization_form_c.hpp b/include/u5e/normalization_form_c.hpp
index c8f9741..ea11ab8 100644
--- a/include/u5e/normalization_form_c.hpp
+++ b/include/u5e/normalization_form_c.hpp
@@ -32,8 +32,7 @@ namespace u5e {
                             canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_ordering(decomposed);
 
     // finally recompose. we will do that in-place on the decomposed
     // string, since we never have to look back.
diff --git a/include/u5e/normalization_form_d.hpp b/include/u5e/normalization_form_d.hpp
index 0b435c0..640c5ab 100644
--- a/include/u5e/normalization_form_d.hpp
+++ b/include/u5e/normalization_form_d.hpp
@@ -31,8 +31,7 @@ namespace u5e {
                             canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_ordering(decomposed);
 
     // finally append the output
     output.template append_from_utf32ne<utf32ne_string>
diff --git a/include/u5e/normalization_form_kc.hpp b/include/u5e/normalization_form_kc.hpp
index 7ea4f0f..28ea127 100644
--- a/include/u5e/normalization_form_kc.hpp
+++ b/include/u5e/normalization_form_kc.hpp
@@ -33,8 +33,7 @@ namespace u5e {
        compatibility_and_canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_ordering(decomposed);
 
     // finally recompose. we will do that in-place on the decomposed
     // string, since we never have to look back.
diff --git a/include/u5e/normalization_form_kd.hpp b/include/u5e/normalization_form_kd.hpp
index 49d19a7..e158e5f 100644
--- a/include/u5e/normalization_form_kd.hpp
+++ b/include/u5e/normalization_form_kd.hpp
@@ -32,8 +32,7 @@ namespace u5e {
        compatibility_and_canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_ordering(decomposed);
 
     // finally append the output
     output.template append_from_utf32ne<utf32ne_string>
-- 
2.43.0


From a4926723251dd50710874d4a3fd23528c31fe1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 11/13] fix: canonical composition of marks that do not
 directly follow the starter

A mark can be composed with the last starter also when there are other
marks, of lower combining classes, between them.
---
 include/u5e/canonical_composition.hpp | 57 ++++++++++++++-------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/include/u5e/canonical_composition.hpp b/include/u5e/canonical_composition.hpp
index f4bb30c..2e26459 100644
--- a/include/u5e/canonical_composition.hpp
+++ b/include/u5e/canonical_composition.hpp
@@ -1,6 +1,7 @@
 #ifndef INCLUDED_U5E_CANONICAL_COMPOSITION
 #define INCLUDED_U5E_CANONICAL_COMPOSITION
 
+#include <u5e/props/canonical_combining_class.hpp>
 #include <u5e/props/canonical_composition_mapping.hpp>
 
 namespace u5e {
@@ -30,44 +31,46 @@ namespace u5e {
     typename StorageType::iterator oi(data.codepoint_begin());
     typename StorageType::iterator in = oi;
     typename StorageType::iterator end(data.codepoint_end());
+    //
+    // the last starter in the output
+    //
+    typename StorageType::iterator starter = oi;
+    bool has_starter = false;
+    int last_class = 0;
 
-    int a, b, c;
+    int b, c;
     while (in != end) {
+      b = *in;
+      int b_class = props::canonical_combining_class::resolve(b);
       //
-      // grab the codepoint in the current input iterator
+      // A codepoint can be composed with the last starter if it comes
+      // right after it, or if everything in between has a lower
+      // combining class.
       //
-      a = *in;
-      if ((in + 1) == end) {
+      if (has_starter &&
+          (oi == starter + 1 || last_class < b_class) &&
+          props::canonical_composition_mapping::resolve(*starter, b, &c)) {
         //
-        // If this is the last codepoint, it can't be composed, so we
-        // just push it to the output as-is.
+        // If this is a composition, it takes the place of the starter,
+        // because it may still be composed more.
         //
-        *(oi++) = a;
-        in++;
+        *starter = c;
+        *count = *count + 1;
       } else {
         //
-        // look ahead for the next codepoint
+        // If there is no composition, we set it in the output iterator
         //
-        b = *(in + 1);
-        if (u5e::props::canonical_composition_mapping::resolve(a, b, &c)) {
-          //
-          // If this is a composition, we set it as the current input
-          // iterator after advancing, because it may still be
-          // composed more.
-          //
-          *(++in) = c;
-          *count = *count + 1;
-        } else {
-          //
-          // If there is no composition, we set it in the output iterator
-          //
-          *(oi++) = a;
-          //
-          // And finally advance the input iterator.
-          //
-          in++;
+        if (b_class == 0) {
+          starter = oi;
+          has_starter = true;
         }
+        last_class = b_class;
+        *(oi++) = b;
       }
+      //
+      // And finally advance the input iterator.
+      //
+      in++;
     }
 
     return oi;
-- 
2.43.0


From 67d47e6f5bf024e69c44e2f6bf0f7ca200d9aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 12/13] fix: canonical decomposition and composition of Hangul
 syllables

They are not in the mapping tables because they are arithmetic.
---
 include/u5e/codepoint_decomposition.hpp         | 12 +++++++++++-
 src/u5e/props/canonical_composition_mapping.cpp | 10 ++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/u5e/codepoint_decomposition.hpp b/include/u5e/codepoint_decomposition.hpp
index 07ef086..27e555d 100644
--- a/include/u5e/codepoint_decomposition.hpp
+++ b/include/u5e/codepoint_decomposition.hpp
@@ -40,7 +40,17 @@ namespace u5e {
     int const * begin;
     int const * end;
     int count = 0;
-    if (mapping == NULL) {
+    int hangul[3];
+    if (input.value >= 0xAC00 && input.value <= 0xD7A3) {
+      // the decomposition of Hangul syllables is arithmetic
+      int index = input.value - 0xAC00;
+      hangul[0] = 0x1100 + index / (21 * 28);
+      hangul[1] = 0x1161 + (index / 28) % 21;
+      hangul[2] = 0x11A7 + index % 28;
+      begin = hangul;
+      count = hangul[2] == 0x11A7 ? 2 : 3;
+      end = begin + count;
+    } else if (mapping == NULL) {
       begin = &(input.value);
       end = begin;
       end++;
diff --git a/src/u5e/props/canonical_composition_mapping.cpp b/src/u5e/props/canonical_composition_mapping.cpp
index 5d7af4b..cd4dac7 100644
--- a/src/u5e/props/canonical_composition_mapping.cpp
+++ b/src/u5e/props/canonical_composition_mapping.cpp
@@ -35,6 +35,16 @@ static int compare_value_to_row(const void* pkey,
 namespace u5e {
   namespace props {
     bool canonical_composition_mapping::resolve(int a, int b, int* r_composed) {
+      // the composition of Hangul syllables is arithmetic
+      if (a >= 0x1100 && a <= 0x1112 && b >= 0x1161 && b <= 0x1175) {
+        *r_composed = 0xAC00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28;
+        return true;
+      } else if (a >= 0xAC00 && a <= 0xD7A3 && (a - 0xAC00) % 28 == 0 &&
+                 b > 0x11A7 && b <= 0x11C2) {
+        *r_composed = a + (b - 0x11A7);
+        return true;
+      }
+
       int input[3] = { a, b, 0 };
       int const * const * elem =
         (int const * const * const)
-- 
2.43.0


From a16e413e7e534ae91ce4139bd8ddee19de37a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:26 +0000
Subject: [PATCH 13/13] fix: continuation octets that belong to no sequence
 made iteration endless and grapheme iterators read before the text

---
 include/u5e/utf8_iterator.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/u5e/utf8_iterator.hpp b/include/u5e/utf8_iterator.hpp
index b43844d..469c6f6 100644
--- a/include/u5e/utf8_iterator.hpp
+++ b/include/u5e/utf8_iterator.hpp
@@ -50,10 +50,18 @@ namespace u5e {
       // when we do '*it = codepoint', we will leave the iterator
       // halfway into the next character
       bool ret = false;
+      NativeIterator from = raw_iterator_;
       while (utf8_util::is_codepoint_continuation(*raw_iterator_)) {
         raw_iterator_--;
         ret = true;
       }
+      // a continuation octet that is not part of the sequence before
+      // it stands for itself.
+      if (ret && std::distance(raw_iterator_, from) >=
+          utf8_util::codepoint_size(*raw_iterator_)) {
+        raw_iterator_ = from;
+        ret = false;
+      }
       return ret;
     }
 
@@ -72,9 +80,7 @@ namespace u5e {
     inline void rewind_one_codepoint() {
       NativeIterator from = raw_iterator_;
       raw_iterator_--;
-      while (utf8_util::is_codepoint_continuation(*raw_iterator_)) {
-        raw_iterator_--;
-      }
+      rewind_to_start_of_codepoint(*raw_iterator_);
       // if we were halfway into a codepoint, this is just the start of
       // it. Only look at where we were when it is known not to be the
       // end of the text.
@@ -82,9 +88,7 @@ namespace u5e {
           utf8_util::codepoint_size(*raw_iterator_) &&
           utf8_util::is_codepoint_continuation(*from)) {
         raw_iterator_--;
-        while (utf8_util::is_codepoint_continuation(*raw_iterator_)) {
-          raw_iterator_--;
-        }
+        rewind_to_start_of_codepoint(*raw_iterator_);
       }
     }
     
-- 
2.43.0

