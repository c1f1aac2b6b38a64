From 164eba206ff766fedeb31c5e6d28e9a071378899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 01/16] fix: render the empty sequence instead of reading past
 it

---
 core/src/main/cpp/algorithm/int_dict.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict.cc b/core/src/main/cpp/algorithm/int_dict.cc
index edfe12c..4049769 100644
--- a/core/src/main/cpp/algorithm/int_dict.cc
+++ b/core/src/main/cpp/algorithm/int_dict.cc
@@ -8,7 +8,7 @@
 std::ostream& operator<< (std::ostream &out, const IntSeq& seq)
 {
     out << "(";
-    for (int i = 0; i < seq.size() - 1; i++) {
+    for (int i = 0; i + 1 < seq.size(); i++) {
         out << seq[i] << " ";
     }
     if (!seq.empty()) {
@@ -20,7 +20,7 @@ std::ostream& operator<< (std::ostream &out, const IntSeq& seq)
 
 std::string to_string(const IntSeq& seq) {
     std::string res = "(";
-    for (int i = 0; i < seq.size() - 1; i++) {
+    for (int i = 0; i + 1 < seq.size(); i++) {
         res += std::to_string(seq[i]) + " ";
     }
     if (!seq.empty()) {
-- 
2.43.0


From 2db9ee2213307fbdc5a1fa93d11ed669f066c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 02/16] fix: Encoder::encode dereferenced the end iterator for
 a new item

---
 core/src/main/cpp/algorithm/list_dict.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/list_dict.h b/core/src/main/cpp/algorithm/list_dict.h
index 069610b..a9f0e08 100644
--- a/core/src/main/cpp/algorithm/list_dict.h
+++ b/core/src/main/cpp/algorithm/list_dict.h
@@ -18,7 +18,7 @@ public:
     for (const T& next: input) {
       auto code_ptr = mapping.find(next);
       if (code_ptr == mapping.end()) {
-        mapping[next] = next_id++;
+        code_ptr = mapping.emplace(next, next_id++).first;
       }
       output->push_back(code_ptr->second);
     }
-- 
2.43.0


From 0acf87d2b78c54abec722aac5f79e3697815f05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 03/16] fix: keep learned symbols out of the binary search and
 link them

---
 core/src/main/cpp/algorithm/int_dict_p.cc | 17 +++++++++++++++--
 core/src/main/cpp/algorithm/int_dict_p.h  |  3 +++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index 62b4c44..cf1e55b 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -29,6 +29,8 @@ IntDictImpl::IntDictImpl(const IntSeq& seqs) {
 IntDictImpl::IntDictImpl(const IntDictImpl& dict) {
     seqs_ = dict.seqs_; // Sanitizer: indirect leak
     parents_ = dict.parents_; // Sanitizer: indirect leak
+    sorted_size_ = dict.sorted_size_;
+    learned_ = dict.learned_;
 }
 
 void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
@@ -49,6 +51,7 @@ void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
         }
         parents_stack.emplace_back(current, i);
     }
+    sorted_size_ = size();
 }
 
 int IntDictImpl::linearParse(const IntSeq& seq, IntSeq* builder, std::unordered_set<int>* excludes = nullptr) {
@@ -101,8 +104,8 @@ double IntDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, double
 }
 
 int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
-    int index = static_cast<int>(std::lower_bound(seqs_.begin(), seqs_.end(), seq) - seqs_.begin());
-    if (index >= 0 && index < size() && seqs_[index] == seq) {
+    int index = static_cast<int>(std::lower_bound(seqs_.begin(), seqs_.begin() + sorted_size_, seq) - seqs_.begin());
+    if (index >= 0 && index < sorted_size_ && seqs_[index] == seq) {
         if (excludes == nullptr || excludes->count(index) == 0) {
             return index;
         }
@@ -116,10 +119,20 @@ int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
         }
         index = parents_[index];
     }
+    auto learned = learned_.find(seq[0]);
+    if (learned != learned_.end() && (excludes == nullptr || excludes->count(learned->second) == 0)) {
+        return learned->second;
+    }
     if (excludes == nullptr) {
         int ind = size();
         seqs_.emplace_back(1, seq[0]);
         parents_.push_back(-1);
+        learned_[seq[0]] = ind;
+        for (int i = 0; i < sorted_size_; i++) {
+            if (parents_[i] < 0 && seqs_[i][0] == seq[0]) {
+                parents_[i] = ind;
+            }
+        }
         return ind;
     } else {
         return -1;
diff --git a/core/src/main/cpp/algorithm/int_dict_p.h b/core/src/main/cpp/algorithm/int_dict_p.h
index 6895615..27ce68f 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.h
+++ b/core/src/main/cpp/algorithm/int_dict_p.h
@@ -29,6 +29,9 @@ public:
 private:
     std::vector<IntSeq> seqs_;
     IntSeq parents_;
+    // entries [0, sorted_size_) are in lexicographic order, learned symbols follow them
+    int sorted_size_ = 0;
+    std::unordered_map<int, int> learned_;
 
     void init(const std::vector<IntSeq>& seqs);
     int linearParse(const IntSeq& seq, IntSeq* builder, std::unordered_set<int>* excludes);
-- 
2.43.0


From 6e8d5a17bf9dc3f671177169f19b23202178cff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 04/16] fix: update_dict appended the new frequencies to the
 old ones

---
 core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 4ed43ab..12a2325 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -50,6 +50,7 @@ IntSeq IntStreamVGram::parse(const IntSeq &seq) const {
 void IntStreamVGram::update_dict() {
     if (dict_ != builder_->result()) {
         dict_ = builder_->result();
+        freqs_.clear();
         builder_->result_freqs(&freqs_);
         total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
         min_probability_ = builder_->get_min_probability();
-- 
2.43.0


From c8dd4a5d9a6cf32bea571032fb0faca5e2b27ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 05/16] fix: recompute_freqs wrote past freqs_ for symbols
 learned on the way

---
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 2ec120c..62caab9 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -67,6 +67,7 @@ void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
     for (const IntSeq &seq : seqs) {
         IntSeq result;
         dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);
+        freqs_.resize(dict_->size(), 0);
         for (int symb : result) {
             if (symb >= 0) {
                 freqs_[symb]++;
-- 
2.43.0


From 5e63eb2fa978e31f14329e300218928028b53a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 06/16] fix: freqs() lacked the symbols learned since the last
 update

---
 .../main/cpp/interfaces/vgram_builders/int_stream_vgram.cc  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 12a2325..504b10a 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -66,7 +66,11 @@ std::vector<IntSeq> IntStreamVGram::alphabet() const {
 }
 
 IntSeq IntStreamVGram::freqs() const {
-    return freqs_;
+    IntSeq freqs = freqs_;
+    if (dict_ != nullptr) {
+        freqs.resize(dict_->size(), 0);
+    }
+    return freqs;
 }
 
 void IntStreamVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
-- 
2.43.0


From b2ad2bfc9f5501810e94857d81988f31e6b0fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 07/16] fix: code_length() crashed before the first distilled
 dictionary

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index ae1c33f..9475da9 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -137,7 +137,7 @@ int IntVGramBuilderImpl::result_freqs(IntSeq *freqs) {
 }
 
 double IntVGramBuilderImpl::code_length() const {
-    return result_->code_length_per_char();
+    return (result_ != nullptr ? result_ : current_)->code_length_per_char();
 }
 
 double IntVGramBuilderImpl::get_min_probability() const {
-- 
2.43.0


From dc39574fc7853f0e438c2b60ac0bdd7180febcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 08/16] fix: prior frequencies were given to the wrong
 sequences

---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 6cdb6ef..37b937f 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -24,7 +24,10 @@ StatDictImpl::StatDictImpl(const std::vector<IntSeq>& seqs, double min_prob_resu
     if (init_freqs == nullptr) {
         parse_freqs_ = IntSeq(static_cast<size_t>(dict_->size())); // Sanitizer: indirect leak
     } else {
-        parse_freqs_ = IntSeq(*init_freqs);
+        // the dictionary is sorted: put every prior next to its own sequence
+        parse_freqs_ = IntSeq(static_cast<size_t>(dict_->size()));
+        for (int i = 0; i < seqs.size() && i < init_freqs->size(); i++)
+            parse_freqs_[dict_->search(seqs[i])] = (*init_freqs)[i];
         parse_freqs_init_power_ = std::accumulate(parse_freqs_.begin(), parse_freqs_.end(), 0.0);
         for (auto i = parse_freqs_.size(); i < dict_->size(); i++)
             parse_freqs_.push_back(0);
-- 
2.43.0


From 87ba9763a37a3dbad60ab9645fffaa93eb9614ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 09/16] fix: repeated spaces ended up inside word tokens

---
 core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
index a70f5b1..6fffb27 100644
--- a/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
@@ -19,9 +19,11 @@ vector<string> WordTokenizer::tokenize(const string &str) const {
     vector<string> tokens;
     string current;
     for (char i : str) {
-        if (i == ' ' && current != "") {
-            tokens.push_back(current);
-            current = "";
+        if (i == ' ') {
+            if (current != "") {
+                tokens.push_back(current);
+                current = "";
+            }
         } else {
             current += i;
         }
-- 
2.43.0


From 98d420fccebb01caad489346e1d9a37375048009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 10/16] fix: update_symbol wrote past parse_freqs_ when only
 symbol_freqs_ had been padded

---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 37b937f..bcb9577 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -37,7 +37,7 @@ StatDictImpl::StatDictImpl(const std::vector<IntSeq>& seqs, double min_prob_resu
 }
 
 void StatDictImpl::update_symbol(int index, int freq) {
-    if (index >= symbol_freqs_.size()) {
+    if (index >= symbol_freqs_.size() || index >= parse_freqs_.size()) {
         for (auto i = symbol_freqs_.size(); i < index + 1; i++)
             symbol_freqs_.push_back(0); // Sanitizer: indirect leak
         for (auto i = parse_freqs_.size(); i < index + 1; i++)
-- 
2.43.0


From 2c328bef1c9c397b20f891c1a0a17f2abdd04a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 11/16] fix: drop the unused include of a header that does not
 exist

---
 .../src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
index f5bfc0e..afe42ef 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
@@ -7,7 +7,6 @@
 
 #include "../tokenizers/char_tokenizer.h"
 #include "../tokenizers/word_tokenizer.h"
-#include "../word_splitter/word_splitter.h"
 #include "int_stream_vgram.h"
 
 using json = nlohmann::json;
-- 
2.43.0


From a71bc72cc234fde841bf4fc59e9b21d45543dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 12/16] fix: a saved integer model could not be loaded back as
 one

---
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 5 +++++
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.h  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 62caab9..259b7bc 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -14,6 +14,7 @@
 #include <int_vgram_builder_p.h>
 #include <int_dict_p.h>
 #include "int_vgram.h"
+#include "../saver.h"
 
 using namespace vgram_core;
 
@@ -56,6 +57,10 @@ IntVGram *IntVGram::fit(const std::vector<IntSeq> &seqs/*, const std::string &fi
     return this;
 }
 
+void IntVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
+    Saver::save(this, filename);
+}
+
 void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
     if (verbose_ > 0) {
         std::cout << "recompute freqs" << std::endl;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
index d60794d..ae5c09f 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
@@ -26,6 +26,8 @@ namespace vgram_core {
 
         virtual ~IntVGram() = default;
 
+        void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const;
+
         IntVGram *fit(const std::vector<IntSeq> &seqs/*, const std::string &filename,*/);
 
         std::vector<std::string> transform_to_string(const std::vector<IntSeq> &seqs) const;
-- 
2.43.0


From d1c84e30cdc93532803cb5ad99030151c43d4c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 13/16] fix: loaded frequencies were given to the wrong v-grams
 after learned symbols

---
 core/src/main/cpp/interfaces/loader.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/loader.h b/core/src/main/cpp/interfaces/loader.h
index 091127d..0108eff 100644
--- a/core/src/main/cpp/interfaces/loader.h
+++ b/core/src/main/cpp/interfaces/loader.h
@@ -85,9 +85,15 @@ namespace vgram_core {
         }
 
         static void read_alphabet(json &dict, IntSeq &freqs, std::vector<IntSeq> &alphabet) {
+            // the dictionary will be sorted: keep every frequency next to its own v-gram
+            std::vector<std::pair<IntSeq, int>> words;
             for (const auto &word_obj : dict["alphabet"]) {
-                freqs.push_back(word_obj["freq"].get<int>());
-                alphabet.push_back(word_obj["vec"].get<IntSeq>());
+                words.emplace_back(word_obj["vec"].get<IntSeq>(), word_obj["freq"].get<int>());
+            }
+            std::sort(words.begin(), words.end());
+            for (const auto &word : words) {
+                freqs.push_back(word.second);
+                alphabet.push_back(word.first);
             }
         }
 
-- 
2.43.0


From b9435e2c4600bb4ffd8989563d25679f9be3746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 14/16] fix: a size limit below the alphabet size no longer
 drops dictionary entries when growing

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 9475da9..08e6983 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -2,6 +2,7 @@
 // Created by akhvorov on 14.08.18.
 //
 
+#include <algorithm>
 #include <numeric>
 #include <iostream>
 #import "int_vgram_builder_p.h"
@@ -87,6 +88,8 @@ void IntVGramBuilderImpl::update() {
     std::vector<IntSeq> new_dict;
     IntSeq freqs;
     int alphabet_size = static_cast<int>(symb_alphabet_.size());
+    // a small size limit leaves no room for v-grams but never costs existing entries
+    int free_slots = std::max(0, size_ - alphabet_size);
     if (populate_) {
         if (verbose_ > 0) {
             std::cout << "Size: " << current_->size() << " rate: " << compression_rate <<
@@ -94,13 +97,13 @@ void IntVGramBuilderImpl::update() {
         }
         int slots;
         if (current_->size() * kExtensionFactor < 10)
-            slots = size_ - alphabet_size;
+            slots = free_slots;
         else
             slots = static_cast<int>(current_->size() * kExtensionFactor);
         double min_prob_result = current_->expand(slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
     } else {
-        double min_prob_result = current_->reduce(size_ - alphabet_size, &new_dict, &freqs);
+        double min_prob_result = current_->reduce(free_slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
         result_ = result;
     }
-- 
2.43.0


From 0d11dc7bd230d95387d7cba3225ba950641a15e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 15/16] fix: symbols learned by a lookup were dropped when
 shrinking

---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index bcb9577..2717bd2 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -197,7 +197,7 @@ double StatDictImpl::reduce(int slots, std::vector<IntSeq>* new_dict, IntSeq* fr
 }
 
 int StatDictImpl::filter_stat_items(int slots, std::vector<StatItem>* items) const {
-    for (int s = 0; s < symbol_freqs_.size(); s++)
+    for (int s = 0; s < size(); s++)
         if (parent(s) < 0)
             slots += 1;
     std::unordered_set<int> excludes;
@@ -212,7 +212,7 @@ int StatDictImpl::filter_stat_items(int slots, std::vector<StatItem>* items) con
 
 int StatDictImpl::stat_items(std::vector<StatItem>* items, std::unordered_set<int>* excludes) const {
     double code_length = code_length_per_char() * total_chars_;
-    for (int id = 0; id < symbol_freqs_.size(); id++) {
+    for (int id = 0; id < size(); id++) {
         if (excludes->count(id) == 0) {
             int count = freq(id);
             const IntSeq& seq = get(id);
-- 
2.43.0


From 056e3acc81fe5551fa729f0046d88bf6d67e7a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 16/16] fix: Saver::coder_to_json took begin() and end() of two
 different temporary maps

---
 core/src/main/cpp/interfaces/saver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 6e8ef9d..ffae293 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -60,7 +60,8 @@ namespace vgram_core {
         }
 
         static json coder_to_json(const std::shared_ptr<vgram_core::SeqCoder> &coder) {
-            std::vector<std::pair<int, int>> pairs(coder->code_map().begin(), coder->code_map().end());
+            const auto codes = coder->code_map();
+            std::vector<std::pair<int, int>> pairs(codes.begin(), codes.end());
             std::sort(pairs.begin(), pairs.end(),
                       [](const std::pair<int, int> &a, const std::pair<int, int> &b) { return a.second < b.second; });
             json coder_obj;
-- 
2.43.0

