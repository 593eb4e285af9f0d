From 68302eb2731b04beda5cab919dc17622593c6187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 01/83] fix: backward merge of two cursors returns the
 innermost of intervals with equal starts

Merge::uat_ preferred the larger end when both sides start at the same
address, so a backward step could return an interval that contains another
solution.
---
 gcl/gcl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcl/gcl.cc b/gcl/gcl.cc
index 2223462..2ec306e 100644
--- a/gcl/gcl.cc
+++ b/gcl/gcl.cc
@@ -322,7 +322,7 @@ void Merge::uat_(addr k, addr *p, addr *q, fval *v) {
     *p = pr;
     *q = qr;
     *v = vr;
-  } else if (ql < qr) {
+  } else if (ql > qr) {
     *p = pr;
     *q = qr;
     *v = vr;
-- 
2.43.0


From e2bc70cdb9ab9fb90dc442c871f9d3092df15ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 02/83] fix: compute a fiver's text range under its lock, so
 concurrent readers cannot see it half set

---
 src/fiver.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 15f1b06..c686d2d 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -317,16 +317,14 @@ private:
     return count_;
   }
   bool range_(addr *p, addr *q) {
+    std::lock_guard<std::mutex> lock(mutex_);
     if (!range_valid_) {
-      std::lock_guard<std::mutex> lock(mutex_);
-      if (!range_valid_) {
-        range_valid_ = true;
-        hopper_->tau(minfinity + 1, &range_p_, &range_q_);
-        if (range_p_ < maxfinity) {
-          addr ignore;
-          hopper_->uat(maxfinity - 1, &ignore, &range_q_);
-        }
+      hopper_->tau(minfinity + 1, &range_p_, &range_q_);
+      if (range_p_ < maxfinity) {
+        addr ignore;
+        hopper_->uat(maxfinity - 1, &ignore, &range_q_);
       }
+      range_valid_ = true;
     }
     *p = range_p_;
     *q = range_q_;
-- 
2.43.0


From ad39c3120e7fb47027ed4960c6ce435ef0277e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:40 +0000
Subject: [PATCH 03/83] fix: report a failed write of a burrow's dna instead of
 replacing it with a torn one

---
 src/dna.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dna.cc b/src/dna.cc
index cf3e888..7d3fe30 100644
--- a/src/dna.cc
+++ b/src/dna.cc
@@ -1,5 +1,6 @@
 #include "src/dna.h"
 
+#include <cstdio>
 #include <fstream>
 #include <memory>
 #include <string>
@@ -46,7 +47,16 @@ bool write_dna(std::shared_ptr<Working> working, const std::string &dna,
   out << HEADER << "\n";
   out << dna;
   out.close();
-  std::rename(temp_filename.c_str(), dna_filename.c_str());
+  if (out.fail()) {
+    safe_error(error) = "Can't write configuration to: " + temp_filename;
+    std::remove(temp_filename.c_str());
+    return false;
+  }
+  if (std::rename(temp_filename.c_str(), dna_filename.c_str()) != 0) {
+    safe_error(error) = "Can't write configuration to: " + dna_filename;
+    std::remove(temp_filename.c_str());
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 2e36b654a05c8e438e74935973cf9b9131026ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:40 +0000
Subject: [PATCH 04/83] fix: a fiver whose pickle jar could not be flushed is
 not ready

---
 src/fiver.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fiver.cc b/src/fiver.cc
index c686d2d..8c6af0c 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -808,6 +808,10 @@ bool Fiver::pickle(const std::string &filename, std::string *error) {
   for (auto &posting : *index_)
     posting.second->write(&jar);
   jar.close();
+  if (jar.fail()) {
+    safe_error(error) = "Fiver failed to pickle into: " + filename;
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From d167667fd4bd2bd8653917c0a8452a9b54c0f06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:40 +0000
Subject: [PATCH 05/83] fix: keep the source fivers when a merged fiver could
 not be stored

---
 src/bigwig.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index 2ec1ca1..bd8f34e 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -1281,10 +1281,8 @@ void merge_worker(std::shared_ptr<Fluffle> fluffle) {
     std::shared_ptr<Owsla> output;
     if (action == MergeAction::fiver_merge) {
       std::shared_ptr<Fiver> merged = Fiver::merge(fivers);
-      if (merged != nullptr) {
-        merged->pickle();
+      if (merged != nullptr && merged->pickle())
         output = merged;
-      }
     } else if (action == MergeAction::hazel_merge) {
       std::string error;
       output = Hazel::merge(hazels, hazel_merge_destination, hazel_parameters,
-- 
2.43.0


From 1872fec1a6af737bfb2233c33f79edfb1430ecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:07 +0000
Subject: [PATCH 06/83] fix: annotations with equal starts that contain another
 are dropped like any other, and duplicates kept once

---
 src/simple_posting.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index f3e21c8..b233f2f 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -56,8 +56,8 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_annotations(
       if (stop->v != 0.0)
         clear_fostings = false;
       if (posting->postings_.size() == 0 ||
-          (stop->p >= posting->postings_.back() &&
-           stop->q >= posting->qostings_.back())) {
+          (stop->p > posting->postings_.back() &&
+           stop->q > posting->qostings_.back())) {
         posting->postings_.push_back(stop->p);
         posting->qostings_.push_back(stop->q);
         posting->fostings_.push_back(stop->v);
-- 
2.43.0


From 4cb457a7314dd1f6d0c76f7dc4c2ad5e05eaac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:20 +0000
Subject: [PATCH 07/83] fix: erasing part of an erased interval no longer
 brings the rest of it back

---
 src/simple_posting.cc | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index b233f2f..0e387a7 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -7,6 +7,7 @@
 #include <memory>
 #include <queue>
 #include <string>
+#include <utility>
 #include <vector>
 
 #include "hopper.h"
@@ -17,6 +18,18 @@
 
 namespace cottontail {
 
+namespace {
+// Most postings are generalized concordance lists, in which the innermost of
+// nested intervals survives. For erasures it has to be the outermost, otherwise
+// erasing part of an interval already erased would bring the rest of it back.
+// Intervals must arrive in order of increasing q, and decreasing p for equal q.
+void add_erasure(std::vector<std::pair<addr, addr>> *erasures, addr p, addr q) {
+  while (erasures->size() > 0 && erasures->back().first >= p)
+    erasures->pop_back();
+  erasures->emplace_back(p, q);
+}
+} // namespace
+
 std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_tokens(
     std::vector<TokRecord>::iterator *start,
     const std::vector<TokRecord>::iterator &end) {
@@ -46,6 +59,17 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_annotations(
       new SimplePosting(posting_compressor_, fvalue_compressor_));
   posting->feature_ = (*start)->feature;
   std::vector<Annotation>::iterator stop;
+  if (posting->feature_ == null_feature) {
+    std::vector<std::pair<addr, addr>> erasures;
+    for (stop = (*start); stop < end && stop->feature == posting->feature_;
+         stop++)
+      if (stop->p <= stop->q)
+        add_erasure(&erasures, stop->p, stop->q);
+    for (auto &erasure : erasures)
+      posting->push(erasure.first, erasure.second, 0.0);
+    (*start) = stop;
+    return posting;
+  }
   bool clear_qostings = true;
   bool clear_fostings = true;
   for (stop = (*start); stop < end && stop->feature == posting->feature_;
@@ -428,17 +452,22 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_merge(
     for (size_t i = 0; i < postings.size(); i++)
       if (postings[i]->size() > 0)
         queue.emplace(postings[i], i);
+    std::vector<std::pair<addr, addr>> erasures;
     addr k = minfinity;
     while (queue.size() > 0) {
       Element e = queue.top();
       queue.pop();
-      if (e.p() > k) {
+      if (feature == null_feature) {
+        add_erasure(&erasures, e.p(), e.q());
+      } else if (e.p() > k) {
         merged_posting->push(e.p(), e.q(), e.v());
         k = e.p();
       }
       if (e.next())
         queue.push(e);
     }
+    for (auto &erasure : erasures)
+      merged_posting->push(erasure.first, erasure.second, 0.0);
   }
   return merged_posting;
 }
-- 
2.43.0


From fab8845d4304229adf5a7f214ef60878da13bd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:04 +0000
Subject: [PATCH 08/83] fix: text of a range that ends between two chunks of a
 shard stops there, instead of running on to the end of the shard

---
 src/fiver.cc |  6 ++++--
 src/hazel.cc | 14 +++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 8c6af0c..6fbe371 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -283,12 +283,14 @@ private:
       return "";
     addr p0, q0, i;
     addr p1, q1, j;
+    addr p2, q2, next;
     {
       std::lock_guard<std::mutex> lock(mutex_);
       hopper_->rho(p, &p0, &q0, &i);
       if (p0 == maxfinity || p0 > q)
         return "";
       hopper_->ohr(q, &p1, &q1, &j);
+      hopper_->tau(q1 + 1, &p2, &q2, &next);
     }
     size_t n = text_->length();
     const char *t = text_->c_str();
@@ -298,8 +300,8 @@ private:
     else
       p = p0;
     const char *e;
-    if (q > q1)
-      e = t + n;
+    if (q >= q1)
+      e = t + (p2 == maxfinity ? (addr)n : next);
     else if (q0 == q1)
       e = tokenizer_->skip(s, n - (s - t), q - p + 1);
     else
diff --git a/src/hazel.cc b/src/hazel.cc
index a0283b6..2b84531 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -987,12 +987,14 @@ private:
 
     addr p0, q0, left_anchor_byte;
     addr p1, q1, right_anchor_byte;
+    addr p2, q2, next_anchor_byte;
     {
       std::lock_guard<std::mutex> lock(hopper_lock_);
       hopper_->rho(p, &p0, &q0, &left_anchor_byte);
       if (p0 == maxfinity || p0 > q)
         return "";
       hopper_->ohr(q, &p1, &q1, &right_anchor_byte);
+      hopper_->tau(q1 + 1, &p2, &q2, &next_anchor_byte);
     }
     if (p1 == minfinity || p1 == maxfinity)
       return "";
@@ -1001,14 +1003,16 @@ private:
       return "";
 
     addr cover_byte_start = left_anchor_byte;
-    addr cover_byte_end = q > q1 ? raw_text_length_ : right_anchor_byte;
+    addr cover_byte_end = right_anchor_byte;
+    if (q >= q1)
+      cover_byte_end = p2 == maxfinity ? raw_text_length_ : next_anchor_byte;
     if (cover_byte_start > cover_byte_end || map_.empty())
       return "";
 
     size_t first_chunk = chunk_containing(left_anchor_byte);
     size_t last_chunk;
-    if (q > q1)
-      last_chunk = map_.size() - 1;
+    if (q >= q1)
+      last_chunk = chunk_containing(std::max(cover_byte_end - 1, (addr)0));
     else
       last_chunk = chunk_containing(right_anchor_byte);
     if (first_chunk >= map_.size() || last_chunk >= map_.size() ||
@@ -1033,8 +1037,8 @@ private:
       p = p0;
 
     const char *end;
-    if (q > q1) {
-      end = limit;
+    if (q >= q1) {
+      end = base + (cover_byte_end - window_byte_start);
     } else if (q0 == q1) {
       end = tokenizer_->skip(start, limit - start, q - p + 1);
     } else {
-- 
2.43.0


From 2ce7a917dd0534eff3375f82556e2dd4bf108138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:48 +0000
Subject: [PATCH 09/83] fix: a single-file shard counts its tokens, not the
 addresses they span

---
 src/hazel.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/hazel.cc b/src/hazel.cc
index 2b84531..2663d97 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -1054,9 +1054,14 @@ private:
   };
   std::string raw_(addr p, addr q) final { return translate(p, q); };
   addr tokens_() final {
-    if (token_start_ == maxfinity)
-      return 0;
-    return token_end_ - token_start_ + 1;
+    // A shard's addresses may have gaps, so its range is not its size.
+    addr count = 0;
+    addr p, q;
+    std::lock_guard<std::mutex> lock(hopper_lock_);
+    for (hopper_->tau(minfinity + 1, &p, &q); p < maxfinity;
+         hopper_->tau(p + 1, &p, &q))
+      count += q - p + 1;
+    return count;
   };
   bool range_(addr *p, addr *q) final {
     if (token_start_ == maxfinity) {
-- 
2.43.0


From 768c0ab14398bb0ed2b954992e06635a63591a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:34 +0000
Subject: [PATCH 10/83] fix: text without tokens no longer shifts, or hides,
 the text of the shards it is merged with

---
 src/fiver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 6fbe371..7308e2a 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -531,8 +531,9 @@ Fiver::merge(const std::vector<std::shared_ptr<Fiver>> &fivers,
         for (hopper->tau(0, &p, &q, &v); p < maxfinity;
              hopper->tau(p + 1, &p, &q, &v))
           ann.emplace_back(chunk_feature, p, q, addr2fval(v + text->length()));
+        // Text without tokens has no address, so nothing can refer to it.
+        *text += *(fiver->text_);
       }
-      *text += *(fiver->text_);
     }
   }
   std::sort(ann.begin(), ann.end(),
-- 
2.43.0


From d38c2b6ad789a64e78845e345d327ea754290f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 11/83] fix: a dynamic store ignores annotations of invalid
 intervals, as a static store does, instead of corrupting memory

---
 src/fiver.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 7308e2a..7236971 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -61,11 +61,15 @@ private:
   std::string recipe_() final { return ""; };
   bool annotate_(addr feature, addr p, addr q, fval v,
                  std::string *error = nullptr) final {
-    annotations_->emplace_back(feature, p, q, v);
+    if (p >= 0 && p <= q)
+      annotations_->emplace_back(feature, p, q, v);
     return true;
   };
   bool erase_(addr p, addr q, std::string *error) {
-    annotations_->emplace_back(null_feature, p, q, 0.0);
+    if (p < 0)
+      p = 0;
+    if (p <= q)
+      annotations_->emplace_back(null_feature, p, q, 0.0);
     return true;
   }
   bool transaction_(std::string *error) final {
-- 
2.43.0


From fead9d41931c23013f11c36120e170a8b3c07520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:54 +0000
Subject: [PATCH 12/83] fix: an annotation from earlier text into a
 transaction's own text keeps its end when the text is placed

---
 src/fiver.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 7236971..50d530a 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -680,11 +680,12 @@ bool Fiver::ready_(std::string *error) {
     return true;
   index_->clear();
   addr relocate = staging - where_;
-  for (auto &annotation : (*annotations_))
-    if (annotation.p >= staging) {
+  for (auto &annotation : (*annotations_)) {
+    if (annotation.p >= staging)
       annotation.p -= relocate;
+    if (annotation.q >= staging)
       annotation.q -= relocate;
-    }
+  }
   std::sort(annotations_->begin(), annotations_->end(),
             [](const Annotation &a, const Annotation &b) {
               return a.feature < b.feature ||
-- 
2.43.0


From 316c85f05d71af367a5df45fbdd214d5f8001b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 13/83] fix: an empty transaction, or one with nothing to
 index, commits instead of aborting the process

---
 src/fiver.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 50d530a..121b930 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -676,8 +676,6 @@ bool Fiver::ready_(std::string *error) {
   }
   if (!appender_->ready(error) || !annotator_->ready(error))
     return false;
-  if (annotations_->size() == 0)
-    return true;
   index_->clear();
   addr relocate = staging - where_;
   for (auto &annotation : (*annotations_)) {
-- 
2.43.0


From d9c009aaece0d893696e1cf500a7f94668c094a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:43 +0000
Subject: [PATCH 14/83] fix: a query string is an expression from its first
 character to its last, with a width that exists, or it is refused

---
 gcl/parse.cc | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/gcl/parse.cc b/gcl/parse.cc
index 5b6a79b..1d704dc 100644
--- a/gcl/parse.cc
+++ b/gcl/parse.cc
@@ -139,9 +139,17 @@ const char *parse_expr(const char *where, std::shared_ptr<SExpression> expr,
   if (expr->kind_ == Operator::FIXED) {
     if (!is_width_character(*where))
       return where;
-    addr width = width_character_value(*where++);
-    while (is_width_character(*where))
-      width = 10 * width + width_character_value(*where++);
+    const char *width_start = where;
+    addr width = 0;
+    while (is_width_character(*where)) {
+      int digit = width_character_value(*where);
+      if (width > (maxfinity - digit) / 10)
+        return where;
+      width = 10 * width + digit;
+      where++;
+    }
+    if (width == 0)
+      return width_start;
     expr->width_ = width;
     while (is_whitespace(*where))
       where++;
@@ -180,8 +188,15 @@ std::shared_ptr<SExpression> SExpression::from_string(std::string s,
   std::shared_ptr<SExpression> expr = std::make_shared<SExpression>();
   bool okay;
   const char *where = parse_expr(s.c_str(), expr, &okay);
-  if (okay)
-    return expr;
+  if (okay) {
+    // The expression must be the whole of the string.
+    if (*where == ')' && expr->kind_ != Operator::TERM)
+      where++;
+    while (is_whitespace(*where))
+      where++;
+    if (where == s.c_str() + s.length())
+      return expr;
+  }
   safe_error(error) =
       "parse error at offset " + std::to_string(where - s.c_str()) + ":" + s;
   return nullptr;
-- 
2.43.0


From 6d542ecb71d047adfc905a161b51a8202d43f800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:48 +0000
Subject: [PATCH 15/83] fix: a backslash in an infix query's phrase no longer
 swallows the phrase's closing quote

---
 gcl/mt.cc    | 13 ++++++++++++-
 gcl/parse.cc |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/gcl/mt.cc b/gcl/mt.cc
index fd1db95..1643f4e 100644
--- a/gcl/mt.cc
+++ b/gcl/mt.cc
@@ -286,6 +286,17 @@ gcl_q gcl_copyQ(gcl_q q) {
   return GCL_NULL_Q;
 }
 
+// A backslash would otherwise escape what follows it, even the closing quote.
+std::string quote_term(const std::string &term) {
+  std::string quoted = "\"";
+  for (char c : term) {
+    if (c == '\\')
+      quoted += c;
+    quoted += c;
+  }
+  return quoted + "\"";
+}
+
 std::string to_s_expression(gcl_q q) {
   if (q == GCL_NULL_Q)
     return "";
@@ -331,7 +342,7 @@ std::string to_s_expression(gcl_q q) {
     return " " + to_s_expression(GCL_Q_ELEMENT(q)) +
            to_s_expression(GCL_Q_NEXT(q));
   case GCL_TERM:
-    return "\"" + term_to_string(GCL_Q_TERM(q)) + "\"";
+    return quote_term(term_to_string(GCL_Q_TERM(q)));
   case GCL_FIXED:
     return "(# " + std::to_string(GCL_Q_N(q)) + ")";
   case GCL_PARAMETER:
diff --git a/gcl/parse.cc b/gcl/parse.cc
index 1d704dc..d93f76e 100644
--- a/gcl/parse.cc
+++ b/gcl/parse.cc
@@ -103,7 +103,7 @@ const char *parse_expr(const char *where, std::shared_ptr<SExpression> expr,
       where++;
       bool escaped = false;
       while (*where != '\0' && (*where != the_quote || escaped)) {
-        escaped = (*where == '\\');
+        escaped = (*where == '\\' && !escaped);
         where++;
       }
       if (*where != *start)
-- 
2.43.0


From 68c22310cd3b4089d760fe6f93d7f2b7fc1e707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:53 +0000
Subject: [PATCH 16/83] fix: an assignment refused for what follows it does not
 take effect

---
 gcl/mt.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gcl/mt.cc b/gcl/mt.cc
index 1643f4e..e5cdb5a 100644
--- a/gcl/mt.cc
+++ b/gcl/mt.cc
@@ -576,6 +576,12 @@ gcl_q parseQTerm(gcl_env *env, int topCall) {
           free(name);
           free(e);
           return GCL_SYNTAX_ERROR;
+        } else if (!look("")) {
+          gcl_freeQ(q);
+          free(name);
+          free(e);
+          gcl_syntaxError = std::string("Extra characters at the end.");
+          return GCL_SYNTAX_ERROR;
         } else {
           e->q = q;
           e->next = *env;
@@ -592,6 +598,11 @@ gcl_q parseQTerm(gcl_env *env, int topCall) {
         scan();
         if ((q = parseQ(env, 0)) == GCL_SYNTAX_ERROR)
           return GCL_SYNTAX_ERROR;
+        if (!look("")) {
+          gcl_freeQ(q);
+          gcl_syntaxError = std::string("Extra characters at the end.");
+          return GCL_SYNTAX_ERROR;
+        }
         gcl_freeQ(e->q);
         e->q = q;
         return GCL_NULL_Q;
-- 
2.43.0


From 5c205a0349cc4e13cf34ce8daeeee8c1171bf920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:19 +0000
Subject: [PATCH 17/83] fix: splitting text with the utf8 tokenizer does not
 stop at a NUL character

---
 src/utf8_tokenizer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utf8_tokenizer.cc b/src/utf8_tokenizer.cc
index 59ba36f..a6592d0 100644
--- a/src/utf8_tokenizer.cc
+++ b/src/utf8_tokenizer.cc
@@ -577,7 +577,7 @@ std::vector<std::string> Utf8Tokenizer::split_(const std::string &text) {
   const uint8_t *s = (const uint8_t *)text.c_str();
   const uint8_t *e = s + text.length();
   std::string token;
-  while (*s) {
+  while (s < e) {
     uint32_t codepoint;
     const uint8_t *t = unicode(s, e, &codepoint);
     uint8_t *action = actions_[codepoint];
-- 
2.43.0


From 878080fdc1bfde65855bb0d91cc40c986f0bc931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:40 +0000
Subject: [PATCH 18/83] fix: merging posting lists looks past an empty one when
 deciding whether they can be joined end to end

---
 src/simple_posting.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index 0e387a7..25a9dff 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -424,17 +424,19 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_merge(
     return postings[0];
   addr feature = postings[0]->feature();
   bool can_append = true;
-  for (size_t i = 1; can_append && i < postings.size(); i++) {
+  std::shared_ptr<SimplePosting> previous = nullptr; // last non-empty posting
+  for (size_t i = 0; can_append && i < postings.size(); i++) {
     assert(postings[i]->feature() == feature);
-    size_t size0 = postings[i - 1]->size();
-    size_t size1 = postings[i]->size();
-    if (size0 > 0 && size1 > 0) {
+    if (postings[i]->size() == 0)
+      continue;
+    if (previous != nullptr) {
       addr p0, p1, q0, q1;
       fval v0, v1;
-      postings[i - 1]->get(size0 - 1, &p0, &q0, &v0);
+      previous->get(previous->size() - 1, &p0, &q0, &v0);
       postings[i]->get(0, &p1, &q1, &v1);
       can_append = (p0 < p1 && q0 < q1);
     }
+    previous = postings[i];
   }
   std::shared_ptr<SimplePosting> merged_posting = posting_from_feature(feature);
   if (can_append) {
-- 
2.43.0


From 6f0fe71275aaa5010978257b4e19765b4db634ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:31 +0000
Subject: [PATCH 19/83] fix: the zlib compressor's declared expansion covers
 incompressible input of any length

---
 src/zlib_compressor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zlib_compressor.h b/src/zlib_compressor.h
index 864a7fd..beed35f 100644
--- a/src/zlib_compressor.h
+++ b/src/zlib_compressor.h
@@ -39,7 +39,8 @@ private:
   size_t crush_(char *in, size_t length, char *out, size_t available) final;
   size_t tang_(char *in, size_t length, char *out, size_t available) final;
   bool destructive_() final { return false; };
-  addr extra_(addr n) final { return 64 * 1024; };
+  // deflate adds at most a few bytes for every 16K of incompressible input
+  addr extra_(addr n) final { return 64 * 1024 + n / 1024; };
 };
 
 } // namespace cottontail
-- 
2.43.0


From ac6e4d6a2f3b211e8eba10e8c5835479d9a6c39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:25 +0000
Subject: [PATCH 20/83] fix: SimpleTxtIO reads no longer overflow and an empty
 contents file has a defined chunk end

---
 src/simple_txt_io.cc | 2 +-
 src/simple_txt_io.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 2eefaa1..6a57bb3 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -360,7 +360,7 @@ std::unique_ptr<char[]> SimpleTxtIO::read(addr start, addr desired,
   if (start < 0)
     start = 0;
   flush();
-  if (start + desired > size())
+  if (desired > size() - start)
     desired = size() - start;
   if (desired <= 0) {
     *actual = 0;
diff --git a/src/simple_txt_io.h b/src/simple_txt_io.h
index f0e76b8..b49773b 100644
--- a/src/simple_txt_io.h
+++ b/src/simple_txt_io.h
@@ -71,7 +71,7 @@ private:
   bool flushed_ = true;
   size_t chunk_index_;
   std::unique_ptr<char[]> chunk_;
-  std::streamsize chunk_end_;
+  std::streamsize chunk_end_ = 0;
   addr buffer_size_;
   std::unique_ptr<char[]> buffer_;
   bool read_only_ = false;
-- 
2.43.0


From 75728d9f254d678cafad3b48a1a74f5d8e6ece09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:26 +0000
Subject: [PATCH 21/83] fix: SimpleTxtIO readers keep the last chunk as it was
 when they opened

---
 src/simple_txt_io.cc | 42 +++++++++++++++++++++++++++++++-----------
 src/simple_txt_io.h  | 11 ++++++++---
 2 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 6a57bb3..d8add69 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -12,9 +12,9 @@
 namespace cottontail {
 
 namespace {
-std::unique_ptr<char[]> read_limits(const std::string &nameof_contents,
-                                    addr *chunk_map_limit,
-                                    addr *last_chunk_end) {
+std::shared_ptr<char> read_limits(const std::string &nameof_contents,
+                                  addr *chunk_map_limit,
+                                  addr *last_chunk_end) {
   std::string nameof_limits = nameof_contents + ".limits";
   std::fstream limits;
   limits.open(nameof_limits, std::ios::binary | std::ios::in);
@@ -24,8 +24,7 @@ std::unique_ptr<char[]> read_limits(const std::string &nameof_contents,
   assert(!limits.fail());
   limits.read(reinterpret_cast<char *>(last_chunk_end), sizeof(addr));
   assert(!limits.fail());
-  std::unique_ptr<char[]> last_chunk =
-      std::unique_ptr<char[]>(new char[*last_chunk_end + 1]);
+  std::shared_ptr<char> last_chunk = shared_array<char>(*last_chunk_end + 1);
   limits.read(last_chunk.get(), *last_chunk_end);
   assert(!limits.fail());
   limits.close();
@@ -46,7 +45,7 @@ void restore(const std::string &nameof_contents,
              std::shared_ptr<Compressor> compressor) {
   addr chunk_map_limit;
   addr last_chunk_end;
-  std::unique_ptr<char[]> last_chunk =
+  std::shared_ptr<char> last_chunk =
       read_limits(nameof_contents, &chunk_map_limit, &last_chunk_end);
   if (last_chunk == nullptr)
     return;
@@ -170,6 +169,7 @@ SimpleTxtIO::make(const std::string &nameof_contents,
     thing->size_ = 0;
   } else {
     thing->fetch_last_chunk();
+    thing->keep_last_chunk();
     thing->size_ = thing->chunk_size_ * (thing->chunk_map_->size() - 1) +
                    thing->chunk_end_;
   }
@@ -197,9 +197,17 @@ std::shared_ptr<SimpleTxtIO> SimpleTxtIO::clone(std::string *error) {
     return nullptr;
   }
   io->read_only_ = true;
-  io->last_chunk_ = read_limits(nameof_contents_, &(io->chunk_map_limit_),
-                                &(io->last_chunk_end_));
-  io->limited_ = (io->last_chunk_ != nullptr);
+  if (chunk_map_->size() > 0) {
+    if (!limited_ && !kept_) {
+      flush();
+      fetch_last_chunk();
+      keep_last_chunk();
+    }
+    io->limited_ = true;
+    io->last_chunk_ = last_chunk_;
+    io->last_chunk_end_ = last_chunk_end_;
+    io->chunk_map_limit_ = chunk_map_limit_;
+  }
   io->chunk_map_ = chunk_map_;
   io->size_ = size_;
   return io;
@@ -212,7 +220,7 @@ void SimpleTxtIO::fetch_chunk(size_t chunk_index) {
   sync_last_chunk();
   chunk_valid_ = true;
   chunk_index_ = chunk_index;
-  if (limited_ && chunk_index == chunk_map_->size() - 1) {
+  if ((limited_ || kept_) && (addr)chunk_index == chunk_map_limit_ - 1) {
     memcpy(chunk_.get(), last_chunk_.get(), last_chunk_end_);
     chunk_end_ = last_chunk_end_;
     return;
@@ -234,6 +242,16 @@ void SimpleTxtIO::fetch_chunk(size_t chunk_index) {
 
 void SimpleTxtIO::fetch_last_chunk() { fetch_chunk(chunk_map_->size() - 1); }
 
+void SimpleTxtIO::keep_last_chunk() {
+  if (limited_)
+    return;
+  last_chunk_ = shared_array<char>(chunk_end_ + 1);
+  memcpy(last_chunk_.get(), chunk_.get(), chunk_end_);
+  last_chunk_end_ = chunk_end_;
+  chunk_map_limit_ = chunk_map_->size();
+  kept_ = true;
+}
+
 void SimpleTxtIO::append_last_chunk(char *text, addr length) {
   assert(!limited_ && chunk_map_->size() > 0 && chunk_valid_ &&
          chunk_index_ == chunk_map_->size() - 1 &&
@@ -325,6 +343,7 @@ void SimpleTxtIO::append(char *text, addr length) {
   if (length <= 0)
     return;
   flushed_ = false;
+  kept_ = false;
   if (chunk_map_->size() == 0) {
     start_new_chunk(text, std::min(chunk_size_, length));
     text += std::min(chunk_size_, length);
@@ -486,7 +505,7 @@ void SimpleTxtIO::abort_() {
   std::fstream mapf(nameof_chunk_map_,
                     std::ios::binary | std::ios::in | std::ios::out);
   last_chunk_ = nullptr;
-  limited_ = false;
+  limited_ = kept_ = false;
   chunk_map_->clear();
   for (;;) {
     std::streamoff where;
@@ -500,6 +519,7 @@ void SimpleTxtIO::abort_() {
     size_ = 0;
   } else {
     fetch_last_chunk();
+    keep_last_chunk();
     size_ = chunk_size_ * (chunk_map_->size() - 1) + chunk_end_;
   }
   unlock(nameof_contents_);
diff --git a/src/simple_txt_io.h b/src/simple_txt_io.h
index b49773b..25567e8 100644
--- a/src/simple_txt_io.h
+++ b/src/simple_txt_io.h
@@ -55,6 +55,7 @@ private:
   void abort_() final;
   void fetch_chunk(size_t chunk_index_);
   void fetch_last_chunk();
+  void keep_last_chunk();
   void append_last_chunk(char *text, addr length);
   void sync_last_chunk();
   void append_full_chunk(char *text);
@@ -75,10 +76,14 @@ private:
   addr buffer_size_;
   std::unique_ptr<char[]> buffer_;
   bool read_only_ = false;
-  bool limited_;
+  // When limited_ is set we can't write, and the last chunk as it was when we
+  // opened the contents is in last_chunk_, since it may have changed on disk.
+  // When kept_ is set, that's where it is, but only until we start writing.
+  bool limited_ = false;
+  bool kept_ = false;
   addr chunk_map_limit_;
-  addr last_chunk_end_;
-  std::unique_ptr<char[]> last_chunk_;
+  addr last_chunk_end_ = 0;
+  std::shared_ptr<char> last_chunk_;
 };
 } // namespace cottontail
 
-- 
2.43.0


From ba9b431608bbf82525b83c88cf16e2b0136dc632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 22/83] fix: SimpleAppender records a blocking address once
 when its token has two features

---
 src/simple_appender.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 54fe8f0..6441a77 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -163,6 +163,7 @@ bool SimpleAppender::append_(const std::string &text, addr *p, addr *q,
         lock_.unlock();
         return false;
       }
+      last_pq = token.address;
     }
   }
   *p = address_;
-- 
2.43.0


From 833822a6fe9b88a6b4acba2c29b506f004b35916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 23/83] fix: SimpleAppender counts all the tokens at the end of
 its text, past any NUL

---
 src/simple_appender.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 6441a77..7bb6138 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -289,7 +289,7 @@ bool SimpleAppender::transaction_(std::string *error) {
       lock_.unlock();
       return false;
     }
-    std::string tail_string = tail.get();
+    std::string tail_string(tail.get(), actual);
     std::vector<std::string> tail_tokens = tokenizer_->split(tail_string);
     if (tail_tokens.size() == 0) {
       safe_error(error) =
-- 
2.43.0


From 36da5e792b93b279063b28fa366cb6ea61497d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 24/83] fix: SimpleAppender starts each transaction from the
 committed text

---
 src/simple_appender.cc | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 7bb6138..b93ebd6 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -187,24 +187,23 @@ bool SimpleAppender::transaction_(std::string *error) {
     lock_.unlock();
     return false;
   }
+  // Another appender may have committed since we last used these files.
+  std::shared_ptr<Compressor> text_compressor =
+      Compressor::make(compressor_name_, compressor_recipe_, error);
+  if (text_compressor == nullptr) {
+    failed_ = true;
+    std::remove(lock_filename.c_str());
+    lock_.unlock();
+    return false;
+  }
+  io_ =
+      SimpleTxtIO::make(raw_filename_, map_filename_,
+                        text_compressor_chunk_size_, text_compressor, error);
   if (io_ == nullptr) {
-    std::shared_ptr<Compressor> text_compressor =
-        Compressor::make(compressor_name_, compressor_recipe_, error);
-    if (text_compressor == nullptr) {
-      failed_ = true;
-      std::remove(lock_filename.c_str());
-      lock_.unlock();
-      return false;
-    }
-    io_ =
-        SimpleTxtIO::make(raw_filename_, map_filename_,
-                          text_compressor_chunk_size_, text_compressor, error);
-    if (io_ == nullptr) {
-      failed_ = true;
-      std::remove(lock_filename.c_str());
-      lock_.unlock();
-      return false;
-    }
+    failed_ = true;
+    std::remove(lock_filename.c_str());
+    lock_.unlock();
+    return false;
   }
   if (!io_->transaction(error)) {
     std::remove(lock_filename.c_str());
-- 
2.43.0


From 0b549be0d9ae276ddc89d69b0f38e8360c353a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 25/83] fix: static stores keep the inner of nested
 annotations, whatever order they arrive in

---
 src/simple_annotator.cc | 4 +++-
 src/simple_builder.cc   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simple_annotator.cc b/src/simple_annotator.cc
index 95b4cdb..e4d6b76 100644
--- a/src/simple_annotator.cc
+++ b/src/simple_annotator.cc
@@ -202,7 +202,9 @@ bool merge_updates(const std::vector<std::string> &posting_filenames,
 }
 
 bool annotation_cmp(const Annotation &a, const Annotation &b) {
-  return a.feature < b.feature || (a.feature == b.feature && a.p < b.p);
+  return a.feature < b.feature ||
+         (a.feature == b.feature &&
+          (a.q < b.q || (a.q == b.q && a.p > b.p)));
 }
 } // namespace
 
diff --git a/src/simple_builder.cc b/src/simple_builder.cc
index 9b4cfdd..e324f6e 100644
--- a/src/simple_builder.cc
+++ b/src/simple_builder.cc
@@ -42,7 +42,9 @@ bool tok_cmp(const TokRecord &a, const TokRecord &b) {
 }
 
 bool annotation_cmp(const Annotation &a, const Annotation &b) {
-  return a.feature < b.feature || (a.feature == b.feature && a.p < b.p);
+  return a.feature < b.feature ||
+         (a.feature == b.feature &&
+          (a.q < b.q || (a.q == b.q && a.p > b.p)));
 }
 
 template <typename T, bool CMP(const T &, const T &)>
-- 
2.43.0


From 274ccccb4be3109f8f1daefb0d6ce0f205323e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 26/83] fix: SimpleAppender writes its token map before it
 reports being ready

---
 src/simple_appender.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index b93ebd6..258f79a 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -315,6 +315,13 @@ bool SimpleAppender::ready_(std::string *error) {
     safe_error(error) = "SimpleAppender not in transaction";
   else if (!result && failed_)
     safe_error(error) = "SimpleAppender in failed state";
+  if (result) {
+    txt_.flush();
+    if (txt_.fail()) {
+      safe_error(error) = "SimpleAppender can't write to: " + txt_filename_;
+      result = false;
+    }
+  }
   lock_.unlock();
   return result;
 }
-- 
2.43.0


From 455648d4141886b596b3fd9ac700e18fd71a03cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 27/83] fix: SimpleTxtIO notices failed writes to its files
 before a transaction is ready

---
 src/simple_txt_io.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index d8add69..01beb93 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -285,6 +285,7 @@ void SimpleTxtIO::sync_last_chunk() {
   mapf.seekp(-sizeof(where), mapf.end);
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
+  mapf.close();
   assert(!mapf.fail());
   last_chunk_synced_ = true;
 }
@@ -307,6 +308,7 @@ void SimpleTxtIO::append_full_chunk(char *text) {
                     std::ios::binary | std::ios::out | std::ios::app);
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
+  mapf.close();
   assert(!mapf.fail());
 }
 
@@ -333,6 +335,7 @@ void SimpleTxtIO::start_new_chunk(char *text, addr length) {
                     std::ios::binary | std::ios::out | std::ios::app);
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
+  mapf.close();
   assert(!mapf.fail());
   last_chunk_synced_ = true;
 }
@@ -475,6 +478,12 @@ bool SimpleTxtIO::transaction_(std::string *error) {
     return false;
   }
   temp.close();
+  if (temp.fail()) {
+    std::remove(nameof_temp.c_str());
+    std::remove(nameof_lock.c_str());
+    safe_error(error) = "SimpleTxtIO can't record transaction info";
+    return false;
+  }
   std::string nameof_limits = nameof_contents_ + ".limits";
   if (std::rename(nameof_temp.c_str(), nameof_limits.c_str()) != 0) {
     std::remove(nameof_temp.c_str());
@@ -488,6 +497,10 @@ bool SimpleTxtIO::transaction_(std::string *error) {
 
 bool SimpleTxtIO::ready_(std::string *error) {
   flush();
+  if (contents_.fail()) {
+    safe_error(error) = "SimpleTxtIO can't write to: " + nameof_contents_;
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From e8ee8f70fd855828fe3095077f532648d4617819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 28/83] fix: SimpleAnnotator notices failed writes to its files
 before a transaction is ready

---
 src/simple_annotator.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/simple_annotator.cc b/src/simple_annotator.cc
index e4d6b76..50f2035 100644
--- a/src/simple_annotator.cc
+++ b/src/simple_annotator.cc
@@ -198,6 +198,16 @@ bool merge_updates(const std::vector<std::string> &posting_filenames,
       return false;
     }
   }
+  pst.close();
+  if (pst.fail()) {
+    safe_error(error) = "SimpleAnnotator can't write to: " + pst_filename;
+    return false;
+  }
+  idx.close();
+  if (idx.fail()) {
+    safe_error(error) = "SimpleAnnotator can't write to: " + idx_filename;
+    return false;
+  }
   return true;
 }
 
@@ -228,6 +238,9 @@ void SimpleAnnotator::maybe_flush_additions(bool force) {
             posting_factory->posting_from_annotations(&it, added->end());
         posting->write(&addf);
       }
+      addf.close();
+      if (addf.fail())
+        (*cannot_create_temp_files) = true;
     };
     std::string add_filename = working_->make_temp("ann");
     added_files_.push_back(add_filename);
-- 
2.43.0


From ad9646ccd51440d07035184cff86ef0ce39f3811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:43 +0000
Subject: [PATCH 29/83] fix: SimpleTxtIO writes nothing more to its contents
 once an abort has restored them

---
 src/simple_txt_io.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 01beb93..ff397db 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -507,11 +507,11 @@ bool SimpleTxtIO::ready_(std::string *error) {
 void SimpleTxtIO::commit_() { unlock(nameof_contents_); }
 
 void SimpleTxtIO::abort_() {
+  contents_.close();
   restore(nameof_contents_, nameof_chunk_map_, chunk_size_, compressor_);
   chunk_valid_ = false;
   last_chunk_synced_ = true;
   flushed_ = true;
-  contents_.close();
   contents_.open(nameof_contents_,
                  std::ios::binary | std::ios::out | std::ios::in);
   assert(!contents_.fail());
-- 
2.43.0


From ff3c49136328fe5c855743ea881e783ccc37b055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:45 +0000
Subject: [PATCH 30/83] fix: the text up to maxfinity of an in-memory shard is
 no longer empty

---
 src/fiver.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fiver.cc b/src/fiver.cc
index 121b930..d2cf0ed 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -285,6 +285,8 @@ private:
       p = 0;
     if (p == maxfinity || q < p)
       return "";
+    if (q == maxfinity)
+      --q;
     addr p0, q0, i;
     addr p1, q1, j;
     addr p2, q2, next;
-- 
2.43.0


From ecaaa149d1a75fa8bbb1ff90eb4b7d160c2f173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:45 +0000
Subject: [PATCH 31/83] fix: aborting a transaction that was never made ready
 leaves other transactions' files alone

---
 src/fiver.cc | 9 ++++-----
 src/fiver.h  | 3 ++-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index d2cf0ed..d55d9ae 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -700,10 +700,8 @@ bool Fiver::ready_(std::string *error) {
         posting_factory->posting_from_annotations(&it, annotations_->end());
     (*index_)[posting->feature()] = posting;
   }
-  if (pickle(error))
-    return true;
-  else
-    return false;
+  pickled_ = pickle(error);
+  return pickled_;
 };
 
 void Fiver::commit_() {
@@ -739,7 +737,8 @@ void Fiver::abort_() {
     index_->clear();
     where_ = 0;
     built_ = true;
-    discard();
+    if (pickled_)
+      discard();
     name_ = "remove";
   }
 };
diff --git a/src/fiver.h b/src/fiver.h
index 0c099dc..96791d3 100644
--- a/src/fiver.h
+++ b/src/fiver.h
@@ -96,9 +96,10 @@ private:
   void commit_() final;
   void abort_() final;
   bool built_;
+  bool pickled_ = false;
   addr where_;
   addr storage_estimate_;
-  addr sequence_start_, sequence_end_;
+  addr sequence_start_ = 0, sequence_end_ = 0;
   std::shared_ptr<Compressor> posting_compressor_;
   std::shared_ptr<Compressor> fvalue_compressor_;
   std::shared_ptr<Compressor> text_compressor_;
-- 
2.43.0


From 6b60821af7fa86d98a53e10e05e82843cf17fd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:45 +0000
Subject: [PATCH 32/83] fix: SimpleBuilder keeps annotations when there are no
 tokens

---
 src/simple_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simple_builder.cc b/src/simple_builder.cc
index e324f6e..9b19cac 100644
--- a/src/simple_builder.cc
+++ b/src/simple_builder.cc
@@ -488,7 +488,7 @@ bool SimpleBuilder::build_index(std::string *error) {
     safe_error(error) = "SimpleBuilder can't open: " + pst_filename_;
     return false;
   }
-  if (tokq_.empty())
+  if (tokq_.empty() && annq_.empty())
     return true; // empty index
   std::vector<std::fstream> posting_fstreams;
   std::vector<std::shared_ptr<SimplePosting>> posting_nexts;
-- 
2.43.0


From afb272e7183b965f65a01544499c64274d86d734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:45 +0000
Subject: [PATCH 33/83] fix: the utf8 tokenizer no longer swallows bytes after
 a truncated character

---
 src/utf8_tokenizer.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/utf8_tokenizer.cc b/src/utf8_tokenizer.cc
index a6592d0..a0ef9a7 100644
--- a/src/utf8_tokenizer.cc
+++ b/src/utf8_tokenizer.cc
@@ -189,6 +189,14 @@ bool set_fold_actions(const std::map<uint32_t, uint32_t> &foldings,
   return true;
 }
 
+// Does the lead byte at s have its n continuation bytes before e?
+inline bool continued(const uint8_t *s, const uint8_t *e, int n) {
+  for (int i = 1; i <= n; i++)
+    if (s + i >= e || (s[i] & 0xC0) != 0x80)
+      return false;
+  return true;
+}
+
 inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
                               uint32_t *codepoint) {
   if ((s[0] & 0x80) == 0x00) {
@@ -197,7 +205,7 @@ inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
   }
   if ((s[0] & 0xE0) == 0xC0) {
     const uint8_t *t = s + 2;
-    if (t > e) {
+    if (!continued(s, e, 1)) {
       *codepoint = 0x20;
       return s + 1;
     }
@@ -206,7 +214,7 @@ inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
   }
   if ((s[0] & 0xF0) == 0XE0) {
     const uint8_t *t = s + 3;
-    if (t > e) {
+    if (!continued(s, e, 2)) {
       *codepoint = 0x20;
       return s + 1;
     }
@@ -216,7 +224,7 @@ inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
   }
   if ((*s & 0xF8) == 0XF0) {
     const uint8_t *t = s + 4;
-    if (t > e) {
+    if (!continued(s, e, 3)) {
       *codepoint = 0x20;
       return s + 1;
     }
-- 
2.43.0


From caf715e727edde36dac36542eed63e6e6f9210c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:45 +0000
Subject: [PATCH 34/83] fix: json_scribe refuses numbers that are out of range
 instead of terminating

---
 src/json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.cc b/src/json.cc
index 63242b5..2e0652a 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -174,7 +174,7 @@ bool json_scribe(const std::string &s, std::shared_ptr<Scribe> scribe, addr *p,
       j = json::parse(sanitize(s));
     else
       j = json::parse(s);
-  } catch (json::parse_error &e) {
+  } catch (json::exception &e) {
     safe_error(error) = "Cannot parse json: " + std::string(e.what());
     return false;
   }
-- 
2.43.0


From c4a93b8640ac98e1457f8ad3fd5cd90a6cfa94b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:45 +0000
Subject: [PATCH 35/83] fix: JSON strings cannot contain the characters that
 delimit stored JSON

---
 src/json.cc | 48 +++++++++++++++---------------------------------
 src/json.h  |  2 +-
 2 files changed, 16 insertions(+), 34 deletions(-)

diff --git a/src/json.cc b/src/json.cc
index 2e0652a..3c63f70 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -16,6 +16,8 @@ namespace {
 bool do_json(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
              addr *p, addr *q, std::string *error);
 
+std::string sanitize(const std::string &s);
+
 bool do_null(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
              addr *p, addr *q, std::string *error) {
   if (!scribe->appender()->append("null", p, q, error))
@@ -52,7 +54,8 @@ bool do_number(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
 
 bool do_string(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
                addr *p, addr *q, std::string *error) {
-  std::string s = open_string_token + (std::string)j + close_string_token;
+  std::string s =
+      open_string_token + sanitize((std::string)j) + close_string_token;
   if (!scribe->appender()->append(s, p, q, error))
     return false;
   return scribe->annotator()->annotate(scribe->featurizer()->featurize(path),
@@ -91,14 +94,15 @@ bool do_object(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
       if (!scribe->appender()->append(comma_token, &p0, &q0, error))
         return false;
     }
+    std::string name = sanitize(it.key());
     std::string key =
-        open_string_token + it.key() + close_string_token + colon_token;
+        open_string_token + name + close_string_token + colon_token;
     if (!scribe->appender()->append(key, &p0, &q0, error))
       return false;
-    if (!do_json(it.value(), scribe, path + it.key() + ":", &p0, &q0, error))
+    if (!do_json(it.value(), scribe, path + name + ":", &p0, &q0, error))
       return false;
     if (!scribe->annotator()->annotate(
-            scribe->featurizer()->featurize(it.key() + ":"), p0, q0, 0.0,
+            scribe->featurizer()->featurize(name + ":"), p0, q0, 0.0,
             error))
       return false;
   }
@@ -126,40 +130,21 @@ bool do_json(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
   return false;
 }
 
-bool contains_utf8_noncharacters(const std::string &s) {
-  int state = 0;
-  for (const char *c = s.c_str(); *c; c++)
-    if (state == 0) {
-      if (*c == '\xEF')
-        state = 1;
-    } else if (state == 1) {
-      if (*c == '\xB7')
-        state = 2;
-      else
-        state = 0;
-    } else if (*c >= '\x90' || *c <= '\xAF') {
-      return true;
-    } else {
-      state = 0;
-    }
-  return false;
-}
-
+// The noncharacters U+FDD0..U+FDEF delimit stored JSON, and so can't be content.
 inline bool noncharacter_next(const char *c) {
-  return c[0] && c[0] == '\xEF' && c[1] && c[1] == '\xB7' && c[2] &&
-         (c[2] >= '\x90' || c[2] >= '\xAF');
+  return c[0] == '\xEF' && c[1] == '\xB7' && c[2] >= '\x90' && c[2] <= '\xAF';
 }
 
 std::string sanitize(const std::string &s) {
   std::string t;
-  for (const char *c = s.c_str(); *c; c++)
-    if (noncharacter_next(c)) {
+  for (size_t i = 0; i < s.length(); i++)
+    if (noncharacter_next(s.c_str() + i)) {
       t += '\xEF'; // Unicode replacement character
       t += '\xBF';
       t += '\xBD';
-      c += 2;
+      i += 2;
     } else {
-      t += *c;
+      t += s[i];
     }
   return t;
 }
@@ -170,10 +155,7 @@ bool json_scribe(const std::string &s, std::shared_ptr<Scribe> scribe, addr *p,
   assert(scribe != nullptr);
   json j;
   try {
-    if (contains_utf8_noncharacters(s))
-      j = json::parse(sanitize(s));
-    else
-      j = json::parse(s);
+    j = json::parse(s);
   } catch (json::exception &e) {
     safe_error(error) = "Cannot parse json: " + std::string(e.what());
     return false;
diff --git a/src/json.h b/src/json.h
index c9ad2f0..9f992a9 100644
--- a/src/json.h
+++ b/src/json.h
@@ -21,7 +21,7 @@ const std::string open_number_token = "\xEF\xB7\x98";
 const std::string close_number_token = "\xEF\xB7\x99";
 inline bool json_internal_token(const char *token, addr length) {
   return length == 3 && token[0] == '\xEF' && token[1] == '\xB7' &&
-         (token[2] >= '\x90' || token[2] >= '\x99');
+         (token[2] >= '\x90' && token[2] <= '\x99');
 }
 
 bool json_scribe(const std::string &s, std::shared_ptr<Scribe> scribe,
-- 
2.43.0


From 2b63b85f8cde335de4aead1dc6bac673456d378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:45 +0000
Subject: [PATCH 36/83] fix: json_translate escapes control characters in
 strings

---
 src/json.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/json.cc b/src/json.cc
index 3c63f70..ac76556 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -180,6 +180,15 @@ inline bool is_next(const char *c, const std::string token) {
 inline const char *skip(const char *c) {
   return c + (noncharacter_token_length - 1);
 }
+
+inline std::string control_character(unsigned char c) {
+  static const char *hex = "0123456789abcdef";
+  if (c == '\n')
+    return "\\n";
+  if (c == '\t')
+    return "\\t";
+  return std::string("\\u00") + hex[c >> 4] + hex[c & 0xF];
+}
 } // namespace
 
 std::string json_translate(const std::string &s) {
@@ -187,7 +196,8 @@ std::string json_translate(const std::string &s) {
   bool inside = false;
   bool pending_space = false;
   std::string t;
-  for (const char *c = s.c_str(); *c; c++) {
+  const char *end = s.c_str() + s.length();
+  for (const char *c = s.c_str(); c < end; c++) {
     if (*c != ' ' && *c != '\n' && pending_space) {
       pending_space = false;
       t += ' ';
@@ -221,15 +231,17 @@ std::string json_translate(const std::string &s) {
     } else if (is_next(c, open_number_token) ||
                is_next(c, close_number_token)) {
       c = skip(c);
-    } else if (*c == '\n') {
-      pending_space = true;
     } else if (inside) {
       if (*c == '"')
         t += "\\\"";
       else if (*c == '\\')
         t += "\\\\";
+      else if ((unsigned char)*c < 0x20)
+        t += control_character(*c);
       else
         t += *c;
+    } else if (*c == '\n') {
+      pending_space = true;
     } else {
       t += *c;
     }
-- 
2.43.0


From 16a31d42eff3cb65866da879a8e9fe924dab5c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:40 +0000
Subject: [PATCH 37/83] fix: freeze escapes every character that cook gives a
 meaning to

---
 src/recipe.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/recipe.cc b/src/recipe.cc
index 7373b6f..852f8d7 100644
--- a/src/recipe.cc
+++ b/src/recipe.cc
@@ -46,7 +46,7 @@ const char *munch_map(const char *s, std::string *return_value) {
       working_value += quote;
       for (; *s != quote && *s != '\0'; s++) {
         if (*s == '\\') {
-          s++;
+          working_value += *s++;
           if (*s != '\\' && *s != quote)
             return s;
         }
@@ -134,8 +134,15 @@ void dump(std::ostream *out, std::string value, size_t depth) {
   std::map<std::string, std::string> parameters;
   if (cook(value, &parameters))
     dump(out, parameters, depth);
-  else
-    *out << '"' << value << '"';
+  else {
+    *out << '"';
+    for (char c : value) {
+      if (c == '"' || c == '\\')
+        *out << '\\';
+      *out << c;
+    }
+    *out << '"';
+  }
   *out << ',';
 }
 
-- 
2.43.0


From ddd0a12cb017b31394f18fb1a2e5fa7d031b7ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:40 +0000
Subject: [PATCH 38/83] fix: reading a dna file keeps the newlines inside its
 values

---
 src/dna.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dna.cc b/src/dna.cc
index 7d3fe30..6121fac 100644
--- a/src/dna.cc
+++ b/src/dna.cc
@@ -31,7 +31,7 @@ bool read_dna(std::shared_ptr<Working> working, std::string *dna,
   }
   *dna = "";
   while (std::getline(in, line))
-    *dna += (line + " ");
+    *dna += (line + "\n");
   return true;
 }
 
-- 
2.43.0


From df73bfda93808f15dbb1024b80e9162611b061d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:40 +0000
Subject: [PATCH 39/83] fix: cook refuses a recipe with a NUL in it instead of
 cutting it short

---
 src/recipe.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/recipe.cc b/src/recipe.cc
index 852f8d7..c7d3280 100644
--- a/src/recipe.cc
+++ b/src/recipe.cc
@@ -70,8 +70,9 @@ const char *munch(const char *s, char quote, std::string *return_value) {
     return munch_map(s, return_value);
 }
 
-const char *parse(const char *s,
+const char *parse(const std::string &recipe,
                   std::map<std::string, std::string> *return_map) {
+  const char *s = recipe.c_str();
   std::map<std::string, std::string> working_map;
   for (; isspace(*s); s++)
     ;
@@ -121,7 +122,7 @@ const char *parse(const char *s,
   }
   for (s++; isspace(*s); s++)
     ;
-  if (*s != '\0')
+  if (s != recipe.c_str() + recipe.length())
     return s;
   *return_map = working_map;
   return (char *)0;
@@ -169,7 +170,7 @@ void dump(std::ostream *out,
 
 bool cook(const std::string &recipe,
           std::map<std::string, std::string> *parameters, size_t *failure) {
-  const char *s = parse(recipe.c_str(), parameters);
+  const char *s = parse(recipe, parameters);
   if (s) {
     safe_set(failure) = s - recipe.c_str();
     return false;
@@ -179,7 +180,7 @@ bool cook(const std::string &recipe,
 
 bool cook(const std::string &recipe,
           std::map<std::string, std::string> *parameters, std::string *error) {
-  const char *s = parse(recipe.c_str(), parameters);
+  const char *s = parse(recipe, parameters);
   if (s) {
     safe_error(error) = "Can't cook recipe";
     return false;
@@ -189,7 +190,7 @@ bool cook(const std::string &recipe,
 
 bool cook(const std::string &recipe,
           std::map<std::string, std::string> *parameters) {
-  const char *s = parse(recipe.c_str(), parameters);
+  const char *s = parse(recipe, parameters);
   if (s)
     return false;
   else
-- 
2.43.0


From 501a2f77ad19b539a3434b869b37568b3c0e533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:40 +0000
Subject: [PATCH 40/83] fix: set_parameter refuses a key or value that the dna
 file cannot record

---
 src/dna.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dna.cc b/src/dna.cc
index 6121fac..e28c049 100644
--- a/src/dna.cc
+++ b/src/dna.cc
@@ -102,6 +102,13 @@ bool set_parameter_in_dna(std::shared_ptr<Working> working,
     return false;
   parameters[key] = value;
   dna_parameters["parameters"] = freeze(parameters);
+  std::map<std::string, std::string> recorded;
+  if (!cook(dna_parameters["parameters"], &recorded) ||
+      recorded.size() != parameters.size() ||
+      recorded.find(key) == recorded.end()) {
+    safe_error(error) = "Can't record parameter: " + key;
+    return false;
+  }
   dna = freeze(dna_parameters);
   if (!write_dna(working, dna, error))
     return false;
-- 
2.43.0


From 8ab7a7b63e15c233c5d3f2111048f4605aecdc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:40 +0000
Subject: [PATCH 41/83] fix: Tokenizer::make refuses a bad recipe instead of
 dereferencing null

---
 src/tokenizer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer.cc b/src/tokenizer.cc
index c0e9b66..b28e220 100644
--- a/src/tokenizer.cc
+++ b/src/tokenizer.cc
@@ -16,10 +16,12 @@ std::shared_ptr<Tokenizer> Tokenizer::make(const std::string &name,
   std::shared_ptr<Tokenizer> tokenizer = nullptr;
   if (name == "" || name == "ascii") {
     tokenizer = AsciiTokenizer::make(recipe, error);
-    tokenizer->name_ = "ascii";
+    if (tokenizer != nullptr)
+      tokenizer->name_ = "ascii";
   } else if (name == "utf8") {
     tokenizer = Utf8Tokenizer::make(recipe, error);
-    tokenizer->name_ = "utf8";
+    if (tokenizer != nullptr)
+      tokenizer->name_ = "utf8";
   } else {
     safe_error(error) = "No Tokenizer named: " + name;
   }
-- 
2.43.0


From 02d45ae1f90981ccf13ed0e57c2bdc1777faf6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:40 +0000
Subject: [PATCH 42/83] fix: malformed options are refused instead of being
 misread

---
 src/recipe.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/recipe.cc b/src/recipe.cc
index c7d3280..e9bf840 100644
--- a/src/recipe.cc
+++ b/src/recipe.cc
@@ -249,6 +249,7 @@ bool interpret_option(std::string *recipe, const std::string &option,
       std::sregex_token_iterator(option.begin(), option.end(), sep, -1), {}};
   if (pieces.size() < 2 || pieces.size() > 3) {
     safe_error(error) = "Malformed option: " + option;
+    return false;
   }
   std::map<std::string, std::string>::iterator item =
       parameters.find(pieces[0]);
@@ -269,7 +270,7 @@ bool interpret_option(std::string *recipe, const std::string &option,
   } else {
     std::map<std::string, std::string>::iterator item_recipe =
         item_parameters.find("recipe");
-    if (item_recipe == parameters.end()) {
+    if (item_recipe == item_parameters.end()) {
       safe_error(error) = "Option parameters not found for: " + pieces[0];
       return false;
     }
@@ -309,6 +310,7 @@ bool extract_option(const std::string &recipe, const std::string &option,
       std::sregex_token_iterator(option.begin(), option.end(), sep, -1), {}};
   if (pieces.size() < 1 || pieces.size() > 3) {
     safe_error(error) = "Malformed option: " + option;
+    return false;
   }
   std::map<std::string, std::string>::iterator item =
       parameters.find(pieces[0]);
@@ -323,13 +325,13 @@ bool extract_option(const std::string &recipe, const std::string &option,
   }
   std::map<std::string, std::string>::iterator item_name =
       item_parameters.find("name");
-  if (item_name == parameters.end()) {
+  if (item_name == item_parameters.end()) {
     safe_error(error) = "Option setting not found for: " + pieces[0];
     return false;
   }
   std::map<std::string, std::string>::iterator item_recipe =
       item_parameters.find("recipe");
-  if (item_recipe == parameters.end()) {
+  if (item_recipe == item_parameters.end()) {
     safe_error(error) = "Option parameters not found for: " + pieces[0];
     return false;
   }
@@ -345,6 +347,10 @@ bool extract_option(const std::string &recipe, const std::string &option,
     }
     std::map<std::string, std::string>::iterator item_recipe_item =
         item_recipe_parameters.find(pieces[1]);
+    if (item_recipe_item == item_recipe_parameters.end()) {
+      safe_error(error) = "No option: " + pieces[0] + ":" + pieces[1];
+      return false;
+    }
     *value = item_recipe_item->second;
   }
   return true;
-- 
2.43.0


From 5de900e792422d46cdafa25f8a7d78d8ae4d0202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:40 +0000
Subject: [PATCH 43/83] fix: SimpleBuilder::make reports unknown parts instead
 of dereferencing null

---
 src/simple_builder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simple_builder.cc b/src/simple_builder.cc
index 9b19cac..ff9791a 100644
--- a/src/simple_builder.cc
+++ b/src/simple_builder.cc
@@ -355,6 +355,8 @@ SimpleBuilder::make(std::shared_ptr<Working> working, const std::string &recipe,
       DEFAULT_ANN_FILE_SIZE, posting_compressor_name, posting_compressor_recipe,
       fvalue_compressor_name, fvalue_compressor_recipe, text_compressor_name,
       text_compressor_recipe);
+  if (builder == nullptr)
+    return nullptr;
   builder->write_dna_ = false;
   return builder;
 }
-- 
2.43.0


From b73b2c37dc57e5fe52194e153048e9a3404be5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:40 +0000
Subject: [PATCH 44/83] fix: parameters set at the same time in one store are
 all kept

---
 src/dna.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dna.cc b/src/dna.cc
index e28c049..47e744c 100644
--- a/src/dna.cc
+++ b/src/dna.cc
@@ -3,6 +3,7 @@
 #include <cstdio>
 #include <fstream>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <unistd.h>
 
@@ -13,6 +14,7 @@ namespace cottontail {
 namespace {
 const std::string HEADER =
     "# DO NOT EDIT DNA - DO NOT EDIT DNA - DO NOT EDIT DNA ";
+std::mutex update_lock;
 }
 
 bool read_dna(std::shared_ptr<Working> working, std::string *dna,
@@ -89,6 +91,7 @@ bool get_parameter_from_dna(std::shared_ptr<Working> working,
 bool set_parameter_in_dna(std::shared_ptr<Working> working,
                           const std::string &key, const std::string &value,
                           std::string *error) {
+  std::lock_guard<std::mutex> _(update_lock);
   std::string dna;
   if (!read_dna(working, &dna, error))
     return false;
-- 
2.43.0


From 7224486f90d60afebea4641bba2ea89edbec8fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:40 +0000
Subject: [PATCH 45/83] fix: Compressor::make refuses a recipe that its
 compressor cannot use

---
 src/compressor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compressor.cc b/src/compressor.cc
index c4f8a7a..105d627 100644
--- a/src/compressor.cc
+++ b/src/compressor.cc
@@ -15,6 +15,8 @@ namespace cottontail {
 std::shared_ptr<Compressor> Compressor::make(const std::string &name,
                                              const std::string &recipe,
                                              std::string *error) {
+  if (!check(name, recipe, error))
+    return nullptr;
   std::shared_ptr<Compressor> compressor = nullptr;
   if (name == "" || name == "zlib") {
     compressor = ZlibCompressor::make(recipe, error);
-- 
2.43.0


From 6399ccf0b37cac407cbcbd6e26970be2f7b37788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:40 +0000
Subject: [PATCH 46/83] fix: a clone of a dynamic store keeps its text recipe

---
 src/bigwig.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index bd8f34e..b4bb4fe 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -676,6 +676,7 @@ std::shared_ptr<Warren> Bigwig::clone_(std::string *error) {
   bigwig->fvalue_compressor_ = fvalue_compressor_;
   bigwig->posting_factory_ = posting_factory_;
   bigwig->text_compressor_ = text_compressor_;
+  bigwig->txt_recipe_ = txt_recipe_;
   bigwig->default_container_ = default_container_;
   if (stemmer_ != nullptr) {
     std::shared_ptr<cottontail::Stemmer> the_stemmer =
-- 
2.43.0


From 80a45f439d4d315c5b1f4d87fccbceb7b8041c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:40 +0000
Subject: [PATCH 47/83] fix: a posting blob with bytes left over is refused

---
 src/simple_posting.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index 25a9dff..a773ed5 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -132,6 +132,10 @@ SimplePostingFactory::posting_from_compressed_blob(const char *data,
     safe_error(error) = "Compressed posting blob has truncated fostings";
     return nullptr;
   }
+  if (idx.fst < length - foffset) {
+    safe_error(error) = "Compressed posting blob has trailing bytes";
+    return nullptr;
+  }
   std::shared_ptr<SimplePosting> posting = std::shared_ptr<SimplePosting>(
       new SimplePosting(posting_compressor_, fvalue_compressor_));
   posting->feature_ = idx.feature;
-- 
2.43.0


From 14473f450e40f67958a28f073a20d66ffd634e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:56 +0000
Subject: [PATCH 48/83] fix: a damaged hazel directory is refused at opening

---
 src/hazel.cc | 62 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 9 deletions(-)

diff --git a/src/hazel.cc b/src/hazel.cc
index 2663d97..fe3b84d 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -106,6 +106,13 @@ bool read_blob_dictionary(const std::string &filename,
     safe_error(error) = "Hazel can't open: " + filename;
     return false;
   }
+  in.seekg(0, in.end);
+  addr file_size = (addr)in.tellg();
+  in.seekg(0, in.beg);
+  if (in.fail() || file_size < 0) {
+    safe_error(error) = "Hazel can't seek in: " + filename;
+    return false;
+  }
   if (!skip_hazel_dna(&in, error))
     return false;
   const std::string magic = hazel_blob_dictionary_magic;
@@ -122,7 +129,8 @@ bool read_blob_dictionary(const std::string &filename,
   }
   for (addr i = 0; i < count; i++) {
     addr name_length;
-    if (!read_pod(&in, &name_length) || name_length < 0) {
+    if (!read_pod(&in, &name_length) || name_length < 0 ||
+        name_length > file_size) {
       safe_error(error) = "Hazel got bad blob name length";
       return false;
     }
@@ -131,7 +139,8 @@ bool read_blob_dictionary(const std::string &filename,
     HazelBlob blob;
     blob.name = name;
     if (in.fail() || !read_pod(&in, &blob.offset) ||
-        !read_pod(&in, &blob.length) || blob.offset < 0 || blob.length < 0) {
+        !read_pod(&in, &blob.length) || blob.offset < 0 || blob.length < 0 ||
+        blob.offset > file_size || blob.length > file_size - blob.offset) {
       safe_error(error) = "Hazel got bad blob dictionary entry";
       return false;
     }
@@ -246,6 +255,22 @@ public:
   HazelIdx(HazelIdx &&) = delete;
   HazelIdx &operator=(HazelIdx &&) = delete;
 
+  // Checks the posting list of a feature, if there is one.
+  bool verify(addr feature, std::string *error) {
+    size_t index;
+    if (!locate_posting(directory_, feature, &index) ||
+        posting_start(index) == directory_[index].end)
+      return true;
+    std::shared_ptr<SimplePosting> posting = posting_at(index, error);
+    if (posting == nullptr)
+      return false;
+    if ((addr)posting->size() != directory_[index].count_or_p) {
+      safe_error(error) = "Hazel posting count differs from directory";
+      return false;
+    }
+    return true;
+  }
+
   std::shared_ptr<SimplePosting> posting(addr feature) {
     size_t index;
     if (!locate_posting(directory_, feature, &index))
@@ -376,9 +401,10 @@ private:
     p += sizeof(addr);
     addr directory_count = read_pod<addr>(p);
     if (directory_offset < postings_start_ || directory_length < 0 ||
-        directory_count < 0 ||
-        directory_offset + directory_length > blob_length_ ||
-        directory_length != directory_count * (addr)(3 * sizeof(addr))) {
+        directory_count < 0 || directory_offset > blob_length_ ||
+        directory_length > blob_length_ - directory_offset ||
+        directory_length % (addr)(3 * sizeof(addr)) != 0 ||
+        directory_count != directory_length / (addr)(3 * sizeof(addr))) {
       safe_error(error) = "Hazel got bad idx directory";
       return false;
     }
@@ -396,13 +422,27 @@ private:
       p += sizeof(addr);
       entry.count_or_p = read_pod<addr>(p);
       p += sizeof(addr);
-      if (entry.end < postings_start_ || entry.end > directory_offset ||
-          (!directory_.empty() && entry.end < directory_.back().end)) {
+      addr start =
+          directory_.empty() ? postings_start_ : directory_.back().end;
+      if (entry.end < start || entry.end > directory_offset) {
         safe_error(error) = "Hazel got bad idx posting boundary";
         return false;
       }
+      if (entry.end > start && entry.count_or_p <= 0) {
+        safe_error(error) = "Hazel got bad idx posting count";
+        return false;
+      }
+      if (!directory_.empty() && entry.feature <= directory_.back().feature) {
+        safe_error(error) = "Hazel got idx directory out of order";
+        return false;
+      }
       directory_.push_back(entry);
     }
+    if ((directory_.empty() ? postings_start_ : directory_.back().end) !=
+        directory_offset) {
+      safe_error(error) = "Hazel got bad idx final boundary";
+      return false;
+    }
     return true;
   }
 
@@ -1103,7 +1143,8 @@ private:
     addr chunk_space_length = blob_length - header_length;
     if (directory_offset < 0 || directory_length < 0 || directory_count < 0 ||
         raw_text_length_ < 0 || target_chunk_size_ <= 0 ||
-        directory_length != directory_count * (addr)(2 * sizeof(addr)) ||
+        directory_length % (addr)(2 * sizeof(addr)) != 0 ||
+        directory_count != directory_length / (addr)(2 * sizeof(addr)) ||
         directory_offset > chunk_space_length ||
         directory_length > chunk_space_length - directory_offset) {
       safe_error(error) = "Hazel got bad txt directory";
@@ -2158,8 +2199,11 @@ std::shared_ptr<Warren> Hazel::make(const std::string &filename,
       HazelIdx::make(idx_recipe, filename, file, idx_blob->second, error);
   if (hazel_idx == nullptr)
     return nullptr;
+  addr text_chunk_feature = featurizer->featurize(text_chunk_tag);
+  if (!hazel_idx->verify(text_chunk_feature, error))
+    return nullptr;
   std::unique_ptr<Hopper> text_chunk_hopper =
-      hazel_idx->hopper(featurizer->featurize(text_chunk_tag));
+      hazel_idx->hopper(text_chunk_feature);
   if (text_chunk_hopper == nullptr) {
     safe_error(error) = "Hazel can't make text chunk hopper";
     return nullptr;
-- 
2.43.0


From 5b79bccf4db226710ae5cb6f1a3c9dc70048b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:56 +0000
Subject: [PATCH 49/83] fix: a damaged text chunk stops the reader instead of
 reading as empty text

---
 src/hazel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hazel.cc b/src/hazel.cc
index fe3b84d..9aea3a5 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -1245,8 +1245,10 @@ private:
     std::unique_ptr<char[]> raw(new char[raw_length == 0 ? 1 : raw_length]);
     size_t actual = compressor_->tang(compressed.get(), compressed_length,
                                       raw.get(), raw_length);
-    if (actual != (size_t)raw_length)
+    if (actual != (size_t)raw_length) {
+      assert(false);
       return nullptr;
+    }
 
     if (entry.present.load(std::memory_order_acquire))
       return entry.bytes.get();
-- 
2.43.0


From 6e1cb79a137b7b9b7d2be7714814124e090e69ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:56 +0000
Subject: [PATCH 50/83] fix: a posting blob with an impossible count is refused

---
 src/simple_posting.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index a773ed5..8431c19 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -5,6 +5,7 @@
 #include <cstring>
 #include <fstream>
 #include <memory>
+#include <new>
 #include <queue>
 #include <string>
 #include <utility>
@@ -141,10 +142,18 @@ SimplePostingFactory::posting_from_compressed_blob(const char *data,
   posting->feature_ = idx.feature;
   if (idx.n == 0)
     return posting;
+  if (idx.n > maxfinity / (addr)sizeof(addr)) {
+    safe_error(error) = "Compressed posting blob has too many postings";
+    return nullptr;
+  }
   addr postings_size = idx.n * sizeof(addr);
   addr fvalues_size = idx.n * sizeof(fval);
-  std::unique_ptr<char[]> tanged =
-      std::unique_ptr<char[]>(new char[std::max(postings_size, fvalues_size)]);
+  std::unique_ptr<char[]> tanged = std::unique_ptr<char[]>(
+      new (std::nothrow) char[std::max(postings_size, fvalues_size)]);
+  if (tanged == nullptr) {
+    safe_error(error) = "Compressed posting blob has too many postings";
+    return nullptr;
+  }
 
   addr posting_size =
       posting_compressor_->tang(const_cast<char *>(data + header), idx.pst,
-- 
2.43.0


From 4a95b5e064885197fc454ebca71bf032cfcd8fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:56 +0000
Subject: [PATCH 51/83] fix: open_meadow reports a store that cannot be opened

---
 meadowlark/meadowlark.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index 01e60fa..c2a87b4 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -52,6 +52,8 @@ std::shared_ptr<Warren> create_meadow(std::string *error) {
 std::shared_ptr<Warren> open_meadow(const std::string &meadow,
                                     std::string *error) {
   std::shared_ptr<Warren> warren = Warren::make(meadow, error);
+  if (warren == nullptr)
+    return nullptr;
   warren->start();
   if (is_meadow(warren, error)) {
     warren->end();
-- 
2.43.0


From 7b16a1a5a0825534723215c4f05e084f18f59264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:56 +0000
Subject: [PATCH 52/83] fix: a source is not taken for present because its name
 begins a longer one

---
 meadowlark/meadowlark.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index c2a87b4..6294fc8 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -101,7 +101,7 @@ bool path_match(const std::string &text, const std::string &path) {
   while (end < text.size() &&
          std::isspace(static_cast<unsigned char>(text[end])))
     end++;
-  return true;
+  return end == text.size();
 }
 
 bool append_path(std::shared_ptr<Appender> appender,
-- 
2.43.0


From 0f74aa24d277d0001df1d074649875a9941980c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:56 +0000
Subject: [PATCH 53/83] fix: append_tsv commits its records and its source
 marker as one

---
 meadowlark/meadowlark.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index 6294fc8..75d6a5c 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -312,9 +312,10 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
   addr path_feature;
   if (!append_path_warren(warren, filename, &path_feature, error))
     return false;
-  warren->commit();
-  if (lines.size() == 0)
+  if (lines.size() == 0) {
+    warren->commit();
     return true;
+  }
   threads = thread_count(threads, lines.size());
   std::string wsep = separator;
   if (wsep == "")
@@ -327,6 +328,7 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
         c->abort();
         c->end();
       }
+      warren->abort();
       return false;
     }
     clone->start();
@@ -336,6 +338,7 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
         c->abort();
         c->end();
       }
+      warren->abort();
       return false;
     }
     clones.push_back(clone);
@@ -411,12 +414,15 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
       c->abort();
       c->end();
     }
+    warren->abort();
     return false;
   }
-  for (auto &c : clones) {
-    c->commit();
+  // The path goes last: a source is marked only once its records are there.
+  std::vector<std::shared_ptr<Warren>> warrens = clones;
+  warrens.push_back(warren);
+  Warren::commit_all(warrens);
+  for (auto &c : clones)
     c->end();
-  }
   return true;
 }
 
-- 
2.43.0


From 5cd73fb69c984d582b4d5c888025f92f89b0243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:56 +0000
Subject: [PATCH 54/83] fix: reading a source that fails part way is an error

---
 src/builder.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/builder.cc b/src/builder.cc
index 859cc16..ee8289e 100644
--- a/src/builder.cc
+++ b/src/builder.cc
@@ -12,6 +12,8 @@
 #include <string>
 #include <vector>
 
+#include <sys/wait.h>
+
 #include "src/core.h"
 
 namespace cottontail {
@@ -71,21 +73,28 @@ protected:
     if (file_ == nullptr)
       return traits_type::eof();
     size_t count = fread(buffer_.data(), 1, buffer_.size(), file_);
-    if (count == 0)
+    if (count == 0) {
+      // An exception here becomes the badbit of the stream reading us.
+      if (ferror(file_) || !close())
+        throw std::ios_base::failure("read error");
       return traits_type::eof();
+    }
     setg(buffer_.data(), buffer_.data(), buffer_.data() + count);
     return traits_type::to_int_type(*gptr());
   }
 
 private:
-  void close() {
+  bool close() {
     if (file_ == nullptr)
-      return;
-    if (pipe_)
-      pclose(file_);
-    else
-      fclose(file_);
+      return true;
+    FILE *file = file_;
     file_ = nullptr;
+    if (!pipe_)
+      return fclose(file) == 0;
+    int status = pclose(file);
+    // Status 2 is only a warning.
+    return WIFEXITED(status) &&
+           (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 2);
   }
 
   FILE *file_;
-- 
2.43.0


From e5d93c0e6b681c81e112f0ba94e4a92b6d8597a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:56 +0000
Subject: [PATCH 55/83] fix: scribes report unreadable files and keep an
 unterminated last line

---
 src/scribe.cc | 61 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/src/scribe.cc b/src/scribe.cc
index ae8ebf6..57482e1 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -264,35 +264,33 @@ bool scribe_files(const std::vector<std::string> &filenames,
   addr filename_feature = scribe->featurizer()->featurize("filename:");
   addr content_feature = scribe->featurizer()->featurize("content:");
   for (auto &filename : filenames) {
-    if (!scribe->transaction(error))
-      return false;
     if (verbose)
       std::cerr << "scribing: " << filename << "\n";
     std::shared_ptr<std::string> content = inhale(filename, error);
-    if (content) {
-      addr name_p, name_q, content_p, content_q;
-      if (!scribe->appender()->append(filename, &name_p, &name_q, error))
-        return false;
-      if (!scribe->appender()->append(*content, &content_p, &content_q, error))
-        return false;
-      if (!scribe->annotator()->annotate(file_feature, name_p, content_q,
-                                         error))
-        return false;
-      if (!scribe->annotator()->annotate(filename_feature, name_p, name_q,
-                                         error))
-        return false;
-      if (!scribe->annotator()->annotate(content_feature, content_p, content_q,
-                                         error))
-        return false;
-      if (verbose)
-        std::cerr << "scribe_files commiting: " << filename << "\n";
-      if (!scribe->ready()) {
-        safe_error(error) =
-            "Function scribe_files unable to commit transaction";
-        return false;
-      }
-      scribe->commit();
+    if (content == nullptr)
+      return false;
+    if (!scribe->transaction(error))
+      return false;
+    addr name_p, name_q, content_p, content_q;
+    if (!scribe->appender()->append(filename, &name_p, &name_q, error) ||
+        !scribe->appender()->append(*content, &content_p, &content_q, error) ||
+        !scribe->annotator()->annotate(file_feature, name_p, content_q,
+                                       error) ||
+        !scribe->annotator()->annotate(filename_feature, name_p, name_q,
+                                       error) ||
+        !scribe->annotator()->annotate(content_feature, content_p, content_q,
+                                       error)) {
+      scribe->abort();
+      return false;
+    }
+    if (verbose)
+      std::cerr << "scribe_files commiting: " << filename << "\n";
+    if (!scribe->ready()) {
+      safe_error(error) = "Function scribe_files unable to commit transaction";
+      scribe->abort();
+      return false;
     }
+    scribe->commit();
   }
   if (verbose)
     std::cerr << "scribe done\n";
@@ -313,6 +311,7 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
                   bool verbose) {
   if (scribe == nullptr) {
     safe_error(error) = "Function scribe_jsonl passed null scribe";
+    return false;
   }
   for (auto &filename : filenames) {
     if (verbose)
@@ -330,13 +329,16 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
     std::string::size_type pos;
     std::string::size_type prev;
     std::string newline = "\n";
-    for (prev = 0; (pos = everything->find(newline, prev)) != std::string::npos;
-         prev = pos + 1) {
+    for (prev = 0; prev < everything->size(); prev = pos + 1) {
+      pos = everything->find(newline, prev);
+      if (pos == std::string::npos)
+        pos = everything->size(); // The last line may not end in a newline.
       addr p0, q0;
       if (!json_scribe(everything->substr(prev, pos - prev), scribe, &p0,
                        &q0)) {
         safe_error(error) = "Cannot scribe json line: " + filename + ":" +
                             std::to_string(number);
+        scribe->abort();
         return false;
       }
       p = std::min(p, p0);
@@ -345,10 +347,13 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
     }
     if (p < maxfinity && q > minfinity && p <= q)
       if (!scribe->annotator()->annotate(
-              scribe->featurizer()->featurize(path(filename)), p, q, error))
+              scribe->featurizer()->featurize(path(filename)), p, q, error)) {
+        scribe->abort();
         return false;
+      }
     if (!scribe->ready()) {
       safe_error(error) = "Function scribe_jsonl unable to commit transaction";
+      scribe->abort();
       return false;
     }
     scribe->commit();
-- 
2.43.0


From 19153c51991ce31bf462b05b8a1dc6f59b33a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:56 +0000
Subject: [PATCH 56/83] fix: an empty last field does not extend the annotation
 of a TSV record

---
 meadowlark/meadowlark.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index 75d6a5c..3ee315a 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -381,8 +381,10 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
           }
           return;
         }
-        p0 = std::min(p0, p1);
-        q0 = std::max(q0, q1);
+        if (p1 <= q1) {
+          p0 = std::min(p0, p1);
+          q0 = std::max(q0, q1);
+        }
       }
       if (p0 <= q0 &&
           !twarren->annotator()->annotate(record_feature, p0, q0, &terror)) {
-- 
2.43.0


From ea0f058987559114f19099d01cb5e5de7d906c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:56 +0000
Subject: [PATCH 57/83] fix: the file annotation of an empty file does not
 reach past it

---
 src/scribe.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scribe.cc b/src/scribe.cc
index 57482e1..71d2ebc 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -274,8 +274,9 @@ bool scribe_files(const std::vector<std::string> &filenames,
     addr name_p, name_q, content_p, content_q;
     if (!scribe->appender()->append(filename, &name_p, &name_q, error) ||
         !scribe->appender()->append(*content, &content_p, &content_q, error) ||
-        !scribe->annotator()->annotate(file_feature, name_p, content_q,
-                                       error) ||
+        !scribe->annotator()->annotate(
+            file_feature, name_p <= name_q ? name_p : content_p,
+            content_p <= content_q ? content_q : name_q, error) ||
         !scribe->annotator()->annotate(filename_feature, name_p, name_q,
                                        error) ||
         !scribe->annotator()->annotate(content_feature, content_p, content_q,
-- 
2.43.0


From 90774e2572d1f6237d4f432b206199dcad6faff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:35 +0000
Subject: [PATCH 58/83] fix: a bad escape before a closing bracket makes a
 recipe malformed

---
 src/recipe.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/recipe.cc b/src/recipe.cc
index e9bf840..7ab89af 100644
--- a/src/recipe.cc
+++ b/src/recipe.cc
@@ -48,7 +48,7 @@ const char *munch_map(const char *s, std::string *return_value) {
         if (*s == '\\') {
           working_value += *s++;
           if (*s != '\\' && *s != quote)
-            return s;
+            return s - 1;
         }
         working_value += *s;
       }
-- 
2.43.0


From 7e69929f13030d3b92643030437165919959b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:35 +0000
Subject: [PATCH 59/83] fix: a text chunk longer than its directory entry says
 is noticed

---
 src/hazel.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hazel.cc b/src/hazel.cc
index 9aea3a5..e2d8f9f 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -1242,9 +1242,10 @@ private:
                          compressed_length);
     if (compressed == nullptr)
       return nullptr;
-    std::unique_ptr<char[]> raw(new char[raw_length == 0 ? 1 : raw_length]);
+    // One byte more than expected, to notice a chunk that is too long.
+    std::unique_ptr<char[]> raw(new char[raw_length + 1]);
     size_t actual = compressor_->tang(compressed.get(), compressed_length,
-                                      raw.get(), raw_length);
+                                      raw.get(), raw_length + 1);
     if (actual != (size_t)raw_length) {
       assert(false);
       return nullptr;
-- 
2.43.0


From e7b625abe38e832861db493e1e217f66cf2055ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:12 +0000
Subject: [PATCH 60/83] fix: a posting list is read only if its count is the
 directory's

---
 src/hazel.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/hazel.cc b/src/hazel.cc
index e2d8f9f..69b5cf6 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -30,6 +30,7 @@
 #include "src/null_appender.h"
 #include "src/read_gate.h"
 #include "src/recipe.h"
+#include "src/simple.h"
 #include "src/simple_posting.h"
 #include "src/stemmer.h"
 #include "src/tokenizer.h"
@@ -262,13 +263,7 @@ public:
         posting_start(index) == directory_[index].end)
       return true;
     std::shared_ptr<SimplePosting> posting = posting_at(index, error);
-    if (posting == nullptr)
-      return false;
-    if ((addr)posting->size() != directory_[index].count_or_p) {
-      safe_error(error) = "Hazel posting count differs from directory";
-      return false;
-    }
-    return true;
+    return posting != nullptr;
   }
 
   std::shared_ptr<SimplePosting> posting(addr feature) {
@@ -369,6 +364,13 @@ private:
     std::string bytes(entry.end - start, '\0');
     if (!file_->read(blob_offset_ + start, &bytes[0], bytes.size(), error))
       return nullptr;
+    PstRecord record;
+    if (bytes.size() >= sizeof(record))
+      memcpy(&record, bytes.data(), sizeof(record));
+    if (bytes.size() < sizeof(record) || record.n != entry.count_or_p) {
+      safe_error(error) = "Hazel posting count differs from directory";
+      return nullptr;
+    }
     auto posting = posting_factory_->posting_from_compressed_blob(
         bytes.data(), bytes.size(), error);
     if (posting == nullptr)
-- 
2.43.0


From 26dcef20e833de8dc5cec3f420815419e2e70fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:00 +0000
Subject: [PATCH 61/83] fix: a product ranking has a depth when its tag names
 no ranker

---
 src/parameters.h | 2 +-
 src/ranking.cc   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parameters.h b/src/parameters.h
index eeb1fed..5c29e87 100644
--- a/src/parameters.h
+++ b/src/parameters.h
@@ -105,12 +105,12 @@ public:
 
   static std::shared_ptr<Parameters>
   from_ranker_name(const std::string &ranker_name);
+  static fval default_depth();
 
 protected:
   Parameters() = default;
 
 private:
-  fval default_depth();
   virtual std::map<std::string, fval> random_() = 0;
   virtual std::map<std::string, fval> defaults_() = 0;
 };
diff --git a/src/ranking.cc b/src/ranking.cc
index 4f49cb1..c63a879 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -34,8 +34,11 @@ fval ranking_parameter(std::string ranker_name, std::string parameter_name,
     return parameters.at(full_parameter_name);
   if (parameters.find(parameter_name) != parameters.end())
     return parameters.at(parameter_name);
-  std::map<std::string, fval> defaults =
-      Parameters::from_ranker_name(ranker_name)->defaults();
+  std::shared_ptr<Parameters> known = Parameters::from_ranker_name(ranker_name);
+  if (known == nullptr && parameter_name == "depth")
+    return Parameters::default_depth();
+  assert(known != nullptr);
+  std::map<std::string, fval> defaults = known->defaults();
   if (defaults.find(full_parameter_name) != defaults.end())
     return defaults[full_parameter_name];
   assert(defaults.find(parameter_name) != defaults.end());
-- 
2.43.0


From 1b945a39986e4e026686f7cf08a23868a2f1f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:00 +0000
Subject: [PATCH 62/83] fix: tf_annotations counts every item of its range,
 whatever lies between them

---
 src/ranking.cc | 54 +++++++++++++++++++-------------------------------
 1 file changed, 20 insertions(+), 34 deletions(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index c63a879..e115443 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -770,6 +770,7 @@ bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
   if (content_query == "") {
     safe_error(error) =
         "tf_annotations can't find a definition for item content";
+    return false;
   }
   std::unique_ptr<cottontail::Hopper> hopper =
       warren->hopper_from_gcl(content_query, error);
@@ -785,58 +786,43 @@ bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
     return false;
   if (!warren->transaction(error))
     return false;
-  std::map<addr, addr> df;
-  addr HUGE = 1014 * 1024;
-  std::vector<addr> ps, qs;
   addr p = start, q, total_items = 0, total_length = 0;
   if (p == minfinity)
     p += 1;
   for (hopper->tau(p, &p, &q); q <= end && q < maxfinity;
        hopper->tau(p + 1, &p, &q)) {
-    if (q <= end && q < maxfinity) {
-      total_items++;
-      total_length += q - p + 1;
-      ps.push_back(p);
-      qs.push_back(q);
+    total_items++;
+    total_length += q - p + 1;
+    std::map<addr, addr> tf;
+    for (auto &token :
+         warren->tokenizer()->split(warren->txt()->translate(p, q))) {
+      addr feature = tf_featurizer->featurize(warren->stemmer()->stem(token));
+      auto it = tf.find(feature);
+      if (it == tf.end())
+        tf[feature] = 1;
+      else
+        it->second++;
     }
-    if (ps.size() > 0 &&
-        (q == maxfinity || q >= end || qs.back() - ps.front() > HUGE)) {
-      std::string text = warren->txt()->translate(ps.front(), qs.back());
-      std::vector<std::string> tokens = warren->tokenizer()->split(text);
-      for (size_t i = 0; i < ps.size(); i++) {
-        std::map<addr, addr> tf;
-        for (addr j = ps[i]; j <= qs[i]; j++) {
-          addr feature = tf_featurizer->featurize(
-              warren->stemmer()->stem(tokens[j - ps[0]]));
-          auto it = tf.find(feature);
-          if (it == tf.end())
-            tf[feature] = 1;
-          else
-            it->second++;
-        }
-        for (auto &feature : tf)
-          if (!warren->annotator()->annotate(feature.first, ps[i], ps[i],
-                                             feature.second, error)) {
-            warren->abort();
-            return false;
-          }
+    for (auto &feature : tf)
+      if (!warren->annotator()->annotate(feature.first, p, p, feature.second,
+                                         error)) {
+        warren->abort();
+        return false;
       }
-      ps.clear();
-      qs.clear();
-    }
   }
+  addr where = std::max<addr>(start, 0);
   if (total_items == 0) {
     safe_error(error) = "tf_annotations can't find any items for ranking";
     warren->abort();
     return false;
   }
   if (!warren->annotator()->annotate(total_featurizer->featurize("items"),
-                                     start, start, total_items, error)) {
+                                     where, where, total_items, error)) {
     warren->abort();
     return false;
   }
   if (!warren->annotator()->annotate(total_featurizer->featurize("length"),
-                                     start, start, total_length, error)) {
+                                     where, where, total_length, error)) {
     warren->abort();
     return false;
   }
-- 
2.43.0


From 7f387d12d2f779ad21ae32f8d77a5885d5677b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:00 +0000
Subject: [PATCH 63/83] fix: tf_df_annotations survives addresses that have no
 text

---
 src/ranking.cc | 65 ++++++++++++++++++++------------------------------
 1 file changed, 26 insertions(+), 39 deletions(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index e115443..4ed3439 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -870,47 +870,34 @@ bool tf_df_annotations(std::shared_ptr<Warren> warren, std::string *error) {
   if (!warren->transaction(error))
     return false;
   std::map<addr, addr> df;
-  addr HUGE = 1014 * 1024;
-  std::vector<addr> ps, qs;
-  addr p = minfinity, q, total_items = 0, total_length = 0;
-  while (p < maxfinity) {
-    hopper->tau(p + 1, &p, &q);
-    if (p < maxfinity) {
-      total_items++;
-      total_length += q - p + 1;
-      ps.push_back(p);
-      qs.push_back(q);
+  addr p, q, total_items = 0, total_length = 0;
+  for (hopper->tau(minfinity + 1, &p, &q); p < maxfinity;
+       hopper->tau(p + 1, &p, &q)) {
+    total_items++;
+    total_length += q - p + 1;
+    std::map<std::string, addr> tf;
+    for (auto &token :
+         warren->tokenizer()->split(warren->txt()->translate(p, q))) {
+      std::string stem = warren->stemmer()->stem(token);
+      auto it = tf.find(stem);
+      if (it == tf.end())
+        tf[stem] = 1;
+      else
+        it->second++;
     }
-    if (ps.size() > 0 && (p == maxfinity || qs.back() - ps.front() > HUGE)) {
-      std::string text = warren->txt()->translate(ps.front(), qs.back());
-      std::vector<std::string> tokens = warren->tokenizer()->split(text);
-      for (size_t i = 0; i < ps.size(); i++) {
-        std::map<std::string, addr> tf;
-        for (addr j = ps[i]; j <= qs[i]; j++) {
-          std::string stem = warren->stemmer()->stem(tokens[j - ps[0]]);
-          auto it = tf.find(stem);
-          if (it == tf.end())
-            tf[stem] = 1;
-          else
-            it->second++;
-        }
-        for (auto &token : tf) {
-          addr tf_feature = tf_featurizer->featurize(token.first);
-          if (!warren->annotator()->annotate(tf_feature, ps[i], ps[i],
-                                             token.second, error)) {
-            warren->abort();
-            return false;
-          }
-          addr df_feature = df_featurizer->featurize(token.first);
-          auto it = df.find(df_feature);
-          if (it == df.end())
-            df[df_feature] = 1;
-          else
-            it->second++;
-        }
+    for (auto &token : tf) {
+      addr tf_feature = tf_featurizer->featurize(token.first);
+      if (!warren->annotator()->annotate(tf_feature, p, p, token.second,
+                                         error)) {
+        warren->abort();
+        return false;
       }
-      ps.clear();
-      qs.clear();
+      addr df_feature = df_featurizer->featurize(token.first);
+      auto it = df.find(df_feature);
+      if (it == df.end())
+        df[df_feature] = 1;
+      else
+        it->second++;
     }
   }
   if (total_items == 0) {
-- 
2.43.0


From 5d5d720f15cac7388df508376352df4bc88364a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:00 +0000
Subject: [PATCH 64/83] fix: tf_idf_annotations refuses a warren without
 working space

---
 src/ranking.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ranking.cc b/src/ranking.cc
index 4ed3439..ecb0796 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -940,6 +940,10 @@ bool tf_idf_annotations(std::shared_ptr<Warren> warren, std::string *error,
                         bool include_rsj) {
   if (!(include_idf || include_rsj))
     return true; // weird, but whatever
+  if (warren->working() == nullptr) {
+    safe_error(error) = "tf_idf_annotations needs a warren with working space";
+    return false;
+  }
   if (!warren->transaction(error))
     return false;
   std::string working_filename = warren->working()->make_temp("idf");
-- 
2.43.0


From 9fe5c5dc494dcfaed386efc406f7092b99a3f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:00 +0000
Subject: [PATCH 65/83] fix: idf statistics are those that the warren says it
 has

---
 src/idf_stats.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/idf_stats.cc b/src/idf_stats.cc
index dad3e32..dd84f26 100644
--- a/src/idf_stats.cc
+++ b/src/idf_stats.cc
@@ -47,13 +47,13 @@ std::shared_ptr<Stats> IdfStats::make(const std::string &recipe,
     return nullptr;
   std::string value;
   std::string unstemmed = "unstemmed";
-  if (!warren->get_parameter(unstemmed, &value, error))
+  if (warren->get_parameter(unstemmed, &value, error) && value != "")
     stats->have_unstemmed_ = okay(value);
   std::string idf = "idf";
-  if (!warren->get_parameter(idf, &value, error))
+  if (warren->get_parameter(idf, &value, error) && value != "")
     stats->have_idf_ = okay(value);
   std::string rsj = "rsj";
-  if (!warren->get_parameter(rsj, &value, error))
+  if (warren->get_parameter(rsj, &value, error) && value != "")
     stats->have_rsj_ = okay(value);
   return stats;
 }
-- 
2.43.0


From d50870dca1bfc6f8f2166ddbf461e051a22470de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:01 +0000
Subject: [PATCH 66/83] fix: statistics of the forager with no name can be
 found

---
 meadowlark/forager.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meadowlark/forager.cc b/meadowlark/forager.cc
index 371af00..4c75396 100644
--- a/meadowlark/forager.cc
+++ b/meadowlark/forager.cc
@@ -28,15 +28,16 @@ std::string forager_label(const std::string &name, const std::string &tag) {
 }
 
 std::shared_ptr<Forager>
-Forager::make(std::shared_ptr<Warren> warren, const std::string &name,
+Forager::make(std::shared_ptr<Warren> warren, const std::string &requested,
               const std::string &tag,
               const std::map<std::string, std::string> &parameters,
               std::string *error) {
+  const std::string name = (requested == "" ? "tf-idf" : requested);
   std::shared_ptr<Forager> forager = nullptr;
   std::string combined_tag = forager_label(name, tag);
   if (name == "null")
     forager = NullForager::make(warren, combined_tag, parameters, error);
-  else if (name == "" || name == "tf-idf")
+  else if (name == "tf-idf")
     forager = TfIdfForager::make(warren, combined_tag, parameters, error);
   else
     safe_error(error) = "No Forager named: " + name;
-- 
2.43.0


From 79ad189dfea02888ef9451dc989aad08605d496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:01 +0000
Subject: [PATCH 67/83] fix: foraging with parameters no forager takes is
 refused

---
 meadowlark/meadowlark.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index 3ee315a..b808d13 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -452,7 +452,7 @@ bool forage(std::shared_ptr<Warren> warren,
       std::lock_guard<std::mutex> _(sync);
       if (failed)
         return;
-      twarren = warren->clone(error);
+      twarren = warren->clone(&terror);
       if (twarren == nullptr) {
         failed = true;
         safe_error(error) = terror;
@@ -462,7 +462,7 @@ bool forage(std::shared_ptr<Warren> warren,
     twarren->start();
     std::shared_ptr<Forager> forager =
         Forager::make(twarren, name, tag, params, &terror);
-    if (!forager->transaction(&terror)) {
+    if (forager == nullptr || !forager->transaction(&terror)) {
       std::lock_guard<std::mutex> _(sync);
       twarren->end();
       if (!failed) {
-- 
2.43.0


From 1f3aca4b7fe0d8425353890de938e0faeb6ec2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:30 +0000
Subject: [PATCH 68/83] fix: merging is switched on and off under the store's
 lock

Bigwig::merge() wrote the setting without the lock that every other shared
setting is under, while commits on other threads read it in try_merge().
---
 src/bigwig.cc | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index b4bb4fe..e75e12a 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -659,12 +659,11 @@ std::shared_ptr<Bigwig> Bigwig::make(
 
 void Bigwig::merge(bool on) {
   set_parameter("merge", okay(on));
-  if (on) {
-    fluffle_->merge = true;
+  fluffle_->lock.lock();
+  fluffle_->merge = on;
+  fluffle_->lock.unlock();
+  if (on)
     try_merge();
-  } else {
-    fluffle_->merge = false;
-  }
 }
 
 std::shared_ptr<Warren> Bigwig::clone_(std::string *error) {
@@ -1337,15 +1336,13 @@ void merge_worker(std::shared_ptr<Fluffle> fluffle) {
 } // namespace
 
 void Bigwig::try_merge() {
-  if (fluffle_->merge) {
-    fluffle_->lock.lock();
-    if (fluffle_->workers < fluffle_->max_workers) {
-      fluffle_->workers++;
-      std::thread t(merge_worker, fluffle_);
-      t.detach();
-    }
-    fluffle_->lock.unlock();
+  fluffle_->lock.lock();
+  if (fluffle_->merge && fluffle_->workers < fluffle_->max_workers) {
+    fluffle_->workers++;
+    std::thread t(merge_worker, fluffle_);
+    t.detach();
   }
+  fluffle_->lock.unlock();
 }
 
 void Bigwig::commit_() {
-- 
2.43.0


From b991cc6a598994b989cb2564c7130a9fa2b1d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:30 +0000
Subject: [PATCH 69/83] fix: reciprocal rank was reported as the average
 precision

---
 src/eval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index 4cf7770..e22a8ff 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -179,7 +179,7 @@ void trec_eval(const std::map<addr, fval> &qrels,
     ap /= rels_possible;
   }
   (*metrics)["ap"] = ap;
-  (*metrics)["rr"] = ap;
+  (*metrics)["rr"] = rr;
   (*metrics)["p05"] = p05;
   (*metrics)["p10"] = p10;
   (*metrics)["p20"] = p20;
-- 
2.43.0


From ce0f91d3e1c21a66bc38ddd19ea00e64fd529070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:30 +0000
Subject: [PATCH 70/83] fix: the mean of measures crashed where a topic lacks
 one of them

The measure was erased from the map being iterated over.
---
 src/eval.cc | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index e22a8ff..77e8696 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -392,34 +392,38 @@ void med(const std::vector<RankingResult> &one,
                            med_fake_ideal_dcg(std::max(one.size(), two.size()));
 }
 
+namespace {
+void drop_missing(const std::map<std::string, fval> &metrics,
+                  std::map<std::string, fval> *mean_metrics) {
+  for (auto metric = mean_metrics->begin(); metric != mean_metrics->end();)
+    if (metric->first != "n" && metrics.find(metric->first) == metrics.end())
+      metric = mean_metrics->erase(metric);
+    else
+      ++metric;
+}
+} // namespace
+
 void mean(const std::map<std::string, fval> &metrics,
           std::map<std::string, fval> *mean_metrics) {
   if ((*mean_metrics).size() == 0) {
     (*mean_metrics) = metrics;
     (*mean_metrics)["n"] = 1.0;
   } else if ((*mean_metrics).find("n") == (*mean_metrics).end()) {
-    for (auto &&metric : (*mean_metrics))
-      if (metric.first != "n") {
-        if (metrics.find(metric.first) == metrics.end()) {
-          (*mean_metrics).erase(metric.first);
-        } else {
-          (*mean_metrics)[metric.first] += metrics.at(metric.first);
-          (*mean_metrics)[metric.first] /= 2.0;
-        }
-      }
+    drop_missing(metrics, mean_metrics);
+    for (auto &&metric : (*mean_metrics)) {
+      metric.second += metrics.at(metric.first);
+      metric.second /= 2.0;
+    }
     (*mean_metrics)["n"] = 2.0;
   } else {
     fval n = (*mean_metrics)["n"];
     assert(n > 0.0);
+    drop_missing(metrics, mean_metrics);
     for (auto &&metric : (*mean_metrics))
       if (metric.first != "n") {
-        if (metrics.find(metric.first) == metrics.end()) {
-          (*mean_metrics).erase(metric.first);
-        } else {
-          (*mean_metrics)[metric.first] *= n;
-          (*mean_metrics)[metric.first] += metrics.at(metric.first);
-          (*mean_metrics)[metric.first] /= (n + 1.0);
-        }
+        metric.second *= n;
+        metric.second += metrics.at(metric.first);
+        metric.second /= (n + 1.0);
       }
     (*mean_metrics)["n"]++;
   }
-- 
2.43.0


From 7e44c653204c2b0bd28c717490bf420fcbc9129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:30 +0000
Subject: [PATCH 71/83] fix: the similarity of two empty rankings was not a
 number

---
 src/eval.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 77e8696..e3c9a02 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -388,8 +388,8 @@ void med(const std::vector<RankingResult> &one,
       std::max(metrics1["med-rbp50"], metrics2["med-rbp50"]);
   (*metrics)["med-rbp95"] =
       std::max(metrics1["med-rbp95"], metrics2["med-rbp95"]);
-  (*metrics)["med-ndcg"] = (*metrics)["med-dcg"] /
-                           med_fake_ideal_dcg(std::max(one.size(), two.size()));
+  fval ideal = med_fake_ideal_dcg(std::max(one.size(), two.size()));
+  (*metrics)["med-ndcg"] = ideal > 0.0 ? (*metrics)["med-dcg"] / ideal : 0.0;
 }
 
 namespace {
-- 
2.43.0


From aaf622d6328fea60e765ca8950ad57379da192bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:30 +0000
Subject: [PATCH 72/83] fix: judgments with no relevant document were scaled to
 something not a number

---
 src/eval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index e3c9a02..dd2d12a 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -129,7 +129,7 @@ bool load_trec_qrels(std::shared_ptr<Warren> warren,
       if (microsoft_interpretation_of_grades)
         (*qrels)[topic.first][docno.first] =
             (std::pow(2.0, docno.second) - 1.0) / std::pow(2.0, max_level);
-      else
+      else if (max_level > 0.0)
         (*qrels)[topic.first][docno.first] /= max_level;
   return true;
 }
-- 
2.43.0


From d1310c2e8f9ad337cf53bc8eb5fb61fbffb3aef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:30 +0000
Subject: [PATCH 73/83] fix: a judgment whose grade is not a number is refused

---
 src/eval.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index dd2d12a..1710454 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -110,7 +110,13 @@ bool load_trec_qrels(std::shared_ptr<Warren> warren,
       safe_error(error) = "Format error in qrels file \"" + filename + "\"";
       return false;
     }
-    fval level = std::max(0.0, atof(field[3].c_str()));
+    char *end;
+    fval level = std::strtod(field[3].c_str(), &end);
+    if (end == field[3].c_str() || *end != '\0' || !std::isfinite(level)) {
+      safe_error(error) = "Bad grade in qrels file \"" + filename + "\"";
+      return false;
+    }
+    level = std::max(0.0, level);
     max_level = std::max(level, max_level);
     addr p, q;
     if (!translate_docno(warren, field[2], &p, &q, error))
-- 
2.43.0


From 00b7e91bd0813ea5b54185c9ba9a017ce0ba6b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:30 +0000
Subject: [PATCH 74/83] fix: a judged document is the one with its identifier,
 if there is one

The first document whose identifier contains the identifier as a phrase was
taken instead, so "D-1" could be judged where "D-1-10" came first.
---
 src/eval.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index 1710454..3e0296c 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -68,13 +68,27 @@ bool translate_docno(std::shared_ptr<Warren> warren, const std::string &docno,
   query += docno;
   query += "\"))";
   std::unique_ptr<Hopper> hopper = warren->hopper_from_gcl(query, error);
-  if (hopper == nullptr)
+  std::unique_ptr<Hopper> identifiers =
+      warren->hopper_from_gcl(identifier_query, error);
+  if (hopper == nullptr || identifiers == nullptr)
     return false;
   hopper->tau(minfinity + 1, p, q);
   if (*p == maxfinity) {
     safe_error(error) = "Item not found in warren: " + docno;
     return false;
   }
+  // The identifier of another item may contain this one ("D-10" and "D-1-10")
+  addr p0, q0;
+  for (hopper->tau(minfinity + 1, &p0, &q0); p0 < maxfinity;
+       hopper->tau(p0 + 1, &p0, &q0)) {
+    addr i, j;
+    for (identifiers->tau(p0, &i, &j); j <= q0; identifiers->tau(i + 1, &i, &j))
+      if (trec_docno(warren->txt()->translate(i, j)) == docno) {
+        *p = p0;
+        *q = q0;
+        return true;
+      }
+  }
   return true;
 }
 } // namespace
-- 
2.43.0


From cdaeaf43f8509d2c61854ae52c4ef0f3e377a469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:23 +0000
Subject: [PATCH 75/83] fix: clones of a store with fast ids shared one reader
 of its text

FastidTxt did not pass on clone(), nor raw() and range(), to the text it is
wrapped around.
---
 src/fastid_txt.cc | 20 ++++++++++++++++++++
 src/fastid_txt.h  |  7 +++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/fastid_txt.cc b/src/fastid_txt.cc
index 81fbdad..634524a 100644
--- a/src/fastid_txt.cc
+++ b/src/fastid_txt.cc
@@ -150,8 +150,28 @@ std::string FastidTxt::translate_(addr p, addr q) {
     return txt_->translate(p, q);
 }
 
+std::shared_ptr<Txt> FastidTxt::clone_(std::string *error) {
+  std::shared_ptr<Txt> txt = txt_->clone(error);
+  if (txt == nullptr)
+    return nullptr;
+  std::shared_ptr<FastidTxt> fastid =
+      std::shared_ptr<FastidTxt>(new FastidTxt());
+  fastid->txt_ = txt;
+  fastid->n_ = n_;
+  fastid->m_ = m_;
+  fastid->text_ = text_;
+  fastid->p_ = p_;
+  fastid->q_ = q_;
+  fastid->offset_ = offset_;
+  return fastid;
+}
+
+std::string FastidTxt::raw_(addr p, addr q) { return txt_->raw(p, q); }
+
 addr FastidTxt::tokens_() { return txt_->tokens(); }
 
+bool FastidTxt::range_(addr *p, addr *q) { return txt_->range(p, q); }
+
 bool fastid(std::shared_ptr<Warren> warren, std::string *error) {
   warren->started();
   std::string id_gcl;
diff --git a/src/fastid_txt.h b/src/fastid_txt.h
index a85ac0f..0886907 100644
--- a/src/fastid_txt.h
+++ b/src/fastid_txt.h
@@ -32,13 +32,16 @@ private:
   FastidTxt(){};
   std::string name_() final {return FASTID_NAME;};
   std::string recipe_() final;
+  std::shared_ptr<Txt> clone_(std::string *error) final;
   std::string translate_(addr p, addr q) final;
+  std::string raw_(addr p, addr q) final;
   addr tokens_() final;
+  bool range_(addr *p, addr *q) final;
 
   std::shared_ptr<Txt> txt_;
   size_t n_, m_;
-  std::unique_ptr<char[]> text_;
-  std::unique_ptr<addr[]> p_, q_, offset_;
+  std::shared_ptr<char[]> text_;
+  std::shared_ptr<addr[]> p_, q_, offset_;
 };
 
 } // namespace cottontail
-- 
2.43.0


From da1d45d3968f037278bf0701f1838a21c813f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:23 +0000
Subject: [PATCH 76/83] fix: fast ids lost the text of an identifier after a
 NUL

---
 src/fastid_txt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastid_txt.cc b/src/fastid_txt.cc
index 634524a..5c2ef6d 100644
--- a/src/fastid_txt.cc
+++ b/src/fastid_txt.cc
@@ -214,7 +214,7 @@ bool fastid(std::shared_ptr<Warren> warren, std::string *error) {
   addr *ob = offset_buffer.get();
   char *tb = text_buffer.get();
   for (auto &id : ids) {
-    strcpy(tb, id.text.c_str());
+    memcpy(tb, id.text.data(), id.text.size());
     tb += id.text.size();
     *pb++ = id.p;
     *qb++ = id.q;
-- 
2.43.0


From 9f5c8dd55c64a19d188f93f517e56703365b12ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:23 +0000
Subject: [PATCH 77/83] fix: a fast id at the end of a store kept its text when
 text was appended

The text of an interval runs up to the next token.
---
 src/fastid_txt.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fastid_txt.cc b/src/fastid_txt.cc
index 5c2ef6d..f1c7f0a 100644
--- a/src/fastid_txt.cc
+++ b/src/fastid_txt.cc
@@ -196,8 +196,11 @@ bool fastid(std::shared_ptr<Warren> warren, std::string *error) {
   };
   std::vector<Id> ids;
   addr p = minfinity, q;
+  // What follows the last token may still change, when text is appended.
+  addr last = warren->txt()->tokens() - 1;
   for (hopper->tau(p + 1, &p, &q); p < maxfinity; hopper->tau(p + 1, &p, &q))
-    ids.emplace_back(p, q, warren->txt()->translate(p, q));
+    if (q < last)
+      ids.emplace_back(p, q, warren->txt()->translate(p, q));
   size_t n = 0;
   for (auto &id : ids) {
     id.offset = n;
-- 
2.43.0


From 295bf2bc052c9c21f844f4829f115360a08c4533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:23 +0000
Subject: [PATCH 78/83] fix: fast ids that could not be written in full are not
 put in place

The file was written where a store being opened looks for it, and a failure to
write its last part went unnoticed.
---
 src/fastid_txt.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fastid_txt.cc b/src/fastid_txt.cc
index f1c7f0a..ed4e13c 100644
--- a/src/fastid_txt.cc
+++ b/src/fastid_txt.cc
@@ -230,9 +230,9 @@ bool fastid(std::shared_ptr<Warren> warren, std::string *error) {
   if (post_compressor == nullptr)
     return false;
   std::string fastid_filename = warren->working()->make_name(FASTID_NAME);
-  std::remove(fastid_filename.c_str());
+  std::string temp_filename = warren->working()->make_temp(FASTID_NAME);
   std::fstream out;
-  out.open(fastid_filename, std::ios::binary | std::ios::out);
+  out.open(temp_filename, std::ios::binary | std::ios::out);
   if (out.fail()) {
     safe_error(error) = "Fastid file creation failure";
     return false;
@@ -258,6 +258,12 @@ bool fastid(std::shared_ptr<Warren> warren, std::string *error) {
     return false;
   if (!compressed_write(&out, text_buffer.get(), n, text_compressor, error))
     return false;
+  out.close();
+  if (out.fail() ||
+      std::rename(temp_filename.c_str(), fastid_filename.c_str()) != 0) {
+    safe_error(error) = "Fastid write failure";
+    return false;
+  }
   {
     std::string fastid = "fastid";
     std::string yes = "yes";
-- 
2.43.0


From eb85679c54490ec5466f3118487eff51f968151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:57 +0000
Subject: [PATCH 79/83] fix: the name of a working directory was read as shell
 commands

---
 src/working.cc |  4 ++--
 src/working.h  | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/working.cc b/src/working.cc
index 7e905b5..5691a5e 100644
--- a/src/working.cc
+++ b/src/working.cc
@@ -343,12 +343,12 @@ std::vector<std::string> Working::ls(const std::string &prefix) {
   FILE *fp = fopen("/usr/bin/ls", "r");
   if (fp) {
     fclose(fp);
-    ls_command = "/usr/bin/ls " + working_;
+    ls_command = "/usr/bin/ls " + quoted(working_);
   } else {
     fp = fopen("/bin/ls", "r");
     assert(fp);
     fclose(fp);
-    ls_command = "/bin/ls " + working_;
+    ls_command = "/bin/ls " + quoted(working_);
   }
   FILE *pipe = popen(ls_command.c_str(), "r");
   assert(pipe);
diff --git a/src/working.h b/src/working.h
index 0fe3023..c5ad2e1 100644
--- a/src/working.h
+++ b/src/working.h
@@ -95,12 +95,14 @@ public:
   }
   Working(const std::string &working, bool mkdir)
       : working_(working), temp_counter_(0) {
+    if (working_.compare(0, 1, "-") == 0)
+      working_ = "./" + working_; // or commands take it for an option
     if (mkdir) {
       // TODO: Replace with direct function calls. Maybe boost can do this?
-      std::string mkdir_command = "/bin/mkdir -p " + working;
+      std::string mkdir_command = "/bin/mkdir -p " + quoted(working_);
       system(mkdir_command.c_str());
     }
-    std::string cleanup_command = "/bin/rm -f " + working + "/temp.*";
+    std::string cleanup_command = "/bin/rm -f " + quoted(working_) + "/temp.*";
     system(cleanup_command.c_str());
   }
   std::string make_name(const std::string &name) {
@@ -156,6 +158,16 @@ public:
 
 private:
   Working(){};
+  // A name as one word of a shell command.
+  static std::string quoted(const std::string &name) {
+    std::string word = "'";
+    for (char c : name)
+      if (c == '\'')
+        word += "'\\''";
+      else
+        word += c;
+    return word + "'";
+  }
   std::mutex lock_;
   std::set<std::string> load_;
   std::string working_;
-- 
2.43.0


From b7a78c5c5649adb8ae20f9a4420f7ad4c3d1cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:57 +0000
Subject: [PATCH 80/83] fix: a reader with an unknown recipe is refused

---
 src/working.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/working.cc b/src/working.cc
index 5691a5e..9b4fad1 100644
--- a/src/working.cc
+++ b/src/working.cc
@@ -211,7 +211,8 @@ std::shared_ptr<Reader> Reader::make(const std::string &name,
     return FileReader::make(name, error);
   } else if (recipe == "full") {
     return FullReader::make(name, error);
-  } else if (recipe == "compressed" || "compression test") {
+  } else if (recipe == "compressed" ||
+             recipe == "compression test") {
     return CompressReader::make(name, error);
   } else {
     safe_error(error) = "Can't make reader with recipe: " + recipe;
-- 
2.43.0


From b31ec5ba5f218613b4be87b22e992ee62d6feebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:35 +0000
Subject: [PATCH 81/83] fix: a request of the wrong shape ended the query
 server

---
 apps/ssr-server.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/apps/ssr-server.cc b/apps/ssr-server.cc
index 784107f..2ab66c0 100644
--- a/apps/ssr-server.cc
+++ b/apps/ssr-server.cc
@@ -354,15 +354,20 @@ public:
         send_record(fd, request, response, cottontail::now() - start);
         continue;
       }
-      std::string op = request.value("op", "");
-      if (op == "query")
-        response = query(request);
-      else if (op == "next")
-        response = next(request);
-      else if (op == "document")
-        response = document(request);
-      else
-        response = error_response(op, "Unknown op");
+      std::string op;
+      try {
+        op = request.value("op", "");
+        if (op == "query")
+          response = query(request);
+        else if (op == "next")
+          response = next(request);
+        else if (op == "document")
+          response = document(request);
+        else
+          response = error_response(op, "Unknown op");
+      } catch (json::exception &e) {
+        response = error_response(op, e.what());
+      }
       if (!send_record(fd, request, response, cottontail::now() - start))
         return;
     }
-- 
2.43.0


From 6114405982787f12e8d6cee2cf69e95cb8195ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:35 +0000
Subject: [PATCH 82/83] fix: text that is not UTF-8 ended the query server

---
 apps/ssr-server.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/ssr-server.cc b/apps/ssr-server.cc
index 2ab66c0..c9adb77 100644
--- a/apps/ssr-server.cc
+++ b/apps/ssr-server.cc
@@ -283,7 +283,8 @@ bool send_record(int fd, const json &request, const json &response,
   record["query"] = request;
   record["response"] = response;
   record["time"] = time;
-  std::string line = record.dump() + "\n";
+  std::string line =
+      record.dump(-1, ' ', false, json::error_handler_t::replace) + "\n";
   std::cout << line << std::flush;
   return write_all(fd, line) > 0;
 }
-- 
2.43.0


From 4441beda3ce5a41969f01972984a95672b1ce0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:35 +0000
Subject: [PATCH 83/83] fix: a client that went away ended the query server

---
 apps/ssr-server.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/ssr-server.cc b/apps/ssr-server.cc
index c9adb77..cb44329 100644
--- a/apps/ssr-server.cc
+++ b/apps/ssr-server.cc
@@ -268,7 +268,7 @@ ssize_t write_all(int fd, const std::string &text) {
   const char *p = text.data();
   size_t n = text.size();
   while (n > 0) {
-    ssize_t wrote = send(fd, p, n, 0);
+    ssize_t wrote = send(fd, p, n, MSG_NOSIGNAL);
     if (wrote <= 0)
       return wrote;
     p += wrote;
-- 
2.43.0

