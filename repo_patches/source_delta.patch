From 0767df6eb5cc0c1402ec079b966d32a0865bc3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 01/27] fix: find symbols appended to a dictionary instead of
 appending them again

Symbols met after the dictionary was created are appended behind the sorted
sequences. Searching the whole array by bisection then missed them, so the
same symbol was appended again under another id, and a longer sequence that
starts with such a symbol did not get it as a parent.
---
 core/src/main/cpp/algorithm/int_dict_p.cc | 17 ++++++++++++++++-
 core/src/main/cpp/algorithm/int_dict_p.h  |  2 ++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index 62b4c44..73f754d 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -29,6 +29,8 @@ IntDictImpl::IntDictImpl(const IntSeq& seqs) {
 IntDictImpl::IntDictImpl(const IntDictImpl& dict) {
     seqs_ = dict.seqs_; // Sanitizer: indirect leak
     parents_ = dict.parents_; // Sanitizer: indirect leak
+    sorted_size_ = dict.sorted_size_;
+    appended_ = dict.appended_;
 }
 
 void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
@@ -36,6 +38,7 @@ void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
     parents_ = IntSeq(seqs_.size(), -1); // Sanitizer: indirect leak
     std::vector<std::pair<IntSeq, int>> parents_stack;
     std::sort(seqs_.begin(), seqs_.end());
+    sorted_size_ = size();
 
     for (int i = 0; i < seqs_.size(); ++i) {
         IntSeq current = seqs_[i];
@@ -101,7 +104,9 @@ double IntDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, double
 }
 
 int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
-    int index = static_cast<int>(std::lower_bound(seqs_.begin(), seqs_.end(), seq) - seqs_.begin());
+    // only first sorted_size_ sequences are sorted, symbols met after creation are appended in order of appearance
+    auto sorted_end = seqs_.begin() + sorted_size_;
+    int index = static_cast<int>(std::lower_bound(seqs_.begin(), sorted_end, seq) - seqs_.begin());
     if (index >= 0 && index < size() && seqs_[index] == seq) {
         if (excludes == nullptr || excludes->count(index) == 0) {
             return index;
@@ -116,10 +121,20 @@ int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
         }
         index = parents_[index];
     }
+    auto appended = appended_.find(seq[0]);
+    if (appended != appended_.end()) {
+        return excludes == nullptr || excludes->count(appended->second) == 0 ? appended->second : -1;
+    }
     if (excludes == nullptr) {
         int ind = size();
         seqs_.emplace_back(1, seq[0]);
         parents_.push_back(-1);
+        appended_[seq[0]] = ind;
+        for (int i = 0; i < sorted_size_; i++) {
+            if (parents_[i] < 0 && seqs_[i][0] == seq[0]) {
+                parents_[i] = ind;
+            }
+        }
         return ind;
     } else {
         return -1;
diff --git a/core/src/main/cpp/algorithm/int_dict_p.h b/core/src/main/cpp/algorithm/int_dict_p.h
index 6895615..5bbe174 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.h
+++ b/core/src/main/cpp/algorithm/int_dict_p.h
@@ -29,6 +29,8 @@ public:
 private:
     std::vector<IntSeq> seqs_;
     IntSeq parents_;
+    int sorted_size_ = 0;
+    std::unordered_map<int, int> appended_;
 
     void init(const std::vector<IntSeq>& seqs);
     int linearParse(const IntSeq& seq, IntSeq* builder, std::unordered_set<int>* excludes);
-- 
2.43.0


From b6536c42ef7fe0c935ff7550afa9aadc31d13875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 02/27] fix: keep initial frequencies with their sequences when
 a dictionary sorts them

Expanding and reducing hand the new dictionary over in score order together
with frequencies in the same order, but the dictionary sorts the sequences,
so every frequency was attached to some other sequence.
---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 6cdb6ef..14f83ab 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -24,10 +24,10 @@ StatDictImpl::StatDictImpl(const std::vector<IntSeq>& seqs, double min_prob_resu
     if (init_freqs == nullptr) {
         parse_freqs_ = IntSeq(static_cast<size_t>(dict_->size())); // Sanitizer: indirect leak
     } else {
-        parse_freqs_ = IntSeq(*init_freqs);
+        parse_freqs_ = IntSeq(static_cast<size_t>(dict_->size()));
+        for (size_t i = 0; i < seqs.size() && i < init_freqs->size(); i++)
+            parse_freqs_[dict_->search(seqs[i], nullptr)] += (*init_freqs)[i]; // dict_ has its own order of seqs
         parse_freqs_init_power_ = std::accumulate(parse_freqs_.begin(), parse_freqs_.end(), 0.0);
-        for (auto i = parse_freqs_.size(); i < dict_->size(); i++)
-            parse_freqs_.push_back(0);
     }
     pairs_freqs_ = std::unordered_map<std::int64_t , int>(kAggPower); // Sanitizer: indirect leak
     min_probability_ = min_prob_result;
-- 
2.43.0


From d6aa03f6be0b0ff198c0518d36c59d3317e6db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 03/27] fix: do not count again what the output already held
 before parsing

Parsing appends to the output; the statistics were updated with the whole
output, so sequences parsed into the same vector earlier were counted twice.
---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 14f83ab..9376438 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -88,10 +88,12 @@ bool StatDictImpl::enough(double prob_found) const {
 }
 
 int StatDictImpl::parse(const IntSeq& seq, IntSeq* parse_result) {
+    size_t start = parse_result->size(); // parse appends to what is already there
     dict_->parse(seq, parse_freqs_, power_ + parse_freqs_init_power_, parse_result);
     total_chars_ += seq.size();
     int prev = -1;
-    for (int symbol : *parse_result) {
+    for (size_t i = start; i < parse_result->size(); i++) {
+        int symbol = (*parse_result)[i];
         update_symbol(symbol, 1);
         if (prev >= 0)
             pairs_freqs_[(((std::int64_t) prev) << 32) | symbol] += 1; // Sanitizer: indirect leak
-- 
2.43.0


From dfa0e52f3228fa655815c0eb68b64ec55e373f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 04/27] fix: keep a v-gram that nothing else in the dictionary
 can replace

Scoring a v-gram parses it with the v-gram itself excluded. When the
dictionary has no other sequence to start with, the search returns -1, which
was used as an index.
---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 9376438..03a2a3e 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -220,6 +220,10 @@ int StatDictImpl::stat_items(std::vector<StatItem>* items, std::unordered_set<in
                 excludes->insert(id);
                 weightedParse(seq, symbol_freqs_, power_, &parse, excludes); //TODO doesn't work, make base_dict
                 excludes->erase(id);
+                if (parse.empty()) { // nothing to replace it with
+                    items->emplace_back(-1, id, std::numeric_limits<double>::max(), count);
+                    continue;
+                }
                 double new_power = power_ + (parse.size() - 1) * count;
                 double code_length_without_symbol = code_length + count * log(count) -
                         power_ * log(power_) + new_power * log(new_power);
@@ -252,6 +256,8 @@ double StatDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, doubl
     for (int pos = 0; pos < len; pos++) {
         IntSeq suffix(seq.begin() + pos, seq.end());
         int sym = search(suffix, excludes);
+        if (sym < 0)
+            continue;
         do {
             auto sym_len = get(sym).size();
             double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1) : 0) - log(total_freq + size());
@@ -263,6 +269,8 @@ double StatDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, doubl
         }
         while ((sym = parent(sym)) >= 0);
     }
+    if (score[len] == std::numeric_limits<double>::lowest())
+        return score[len]; // seq can't be composed without excludes
     IntSeq solution(len + 1);
     auto pos = static_cast<int>(len);
     int index = 0;
-- 
2.43.0


From 85fa7f39ff57ea0c50ab18b175d22683ec3ea47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 05/27] fix: answer code_length and get_min_probability before
 the first reduction

result() falls back to the current dictionary until there is a reduced one.
code_length dereferenced a null pointer then, and get_min_probability gave -1,
which, saved and loaded, made a builder with enough statistics at any moment
that replaces its dictionary after every sequence.
---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index ae1c33f..a2aac85 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -137,9 +137,9 @@ int IntVGramBuilderImpl::result_freqs(IntSeq *freqs) {
 }
 
 double IntVGramBuilderImpl::code_length() const {
-    return result_->code_length_per_char();
+    return result_ != nullptr ? result_->code_length_per_char() : current_->code_length_per_char();
 }
 
 double IntVGramBuilderImpl::get_min_probability() const {
-    return result_ != nullptr ? result_->min_probability_ : -1.0;
+    return result_ != nullptr ? result_->min_probability_ : current_->min_probability_;
 }
-- 
2.43.0


From 268f9b0d27d80a9ae2a33baf22abd82a3b4f46c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 06/27] fix: keep room for v-grams in a builder restored from a
 dictionary

The restored builder took the whole dictionary for the symbols alphabet and
its length for the requested size, so the next reduction had no slot left for
v-grams and dropped all of them.
---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc    | 11 ++++++++---
 core/src/main/cpp/algorithm/int_vgram_builder_p.h     |  2 +-
 .../cpp/interfaces/vgram_builders/int_stream_vgram.cc |  2 +-
 .../main/cpp/interfaces/vgram_builders/int_vgram.cc   |  2 +-
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index a2aac85..c5badc4 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -25,13 +25,18 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntSeq &alphabet, int size, int v
 }
 
 IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freqs,
-                                         const std::vector<IntSeq> &alphabet, double min_probability, int verbose) {
+                                         const std::vector<IntSeq> &alphabet, double min_probability, int verbose,
+                                         int size) {
     verbose_ = verbose;
-    size_ = dict.size();
+    size_ = size > 0 ? size : dict.size();
     IntSeq freqs_copy(freqs.begin(), freqs.end());
     std::shared_ptr<StatDictImpl> result = std::make_shared<StatDictImpl>(dict.alphabet(), min_probability,
                                                                           &freqs_copy);
-    symb_alphabet_ = alphabet;
+    for (const IntSeq &seq : alphabet) {
+        if (seq.size() == 1) { // v-grams are not a part of symbols alphabet
+            symb_alphabet_.push_back(seq);
+        }
+    }
     current_ = result;
     result_ = result;
 }
diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.h b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
index af8e9fd..330f763 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.h
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
@@ -20,7 +20,7 @@ public:
     IntVGramBuilderImpl(const IntSeq &alphabet, int size, int verbose = 1);
 
     IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freqs, const std::vector<IntSeq> &alphabet,
-                        double min_probability, int verbose = 1);
+                        double min_probability, int verbose = 1, int size = 0);
 
     std::shared_ptr<IntDict> result() const override;
 
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 4ed43ab..14fed1e 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -92,6 +92,6 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
     dict_ = std::make_shared<IntDictImpl>(alphabet);
 //    std::cout << "dict_ inited" << std::endl;
 //    std::cout << "Size " << dict_->size() << "!" << std::endl;
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1, size);
 //    std::cout << "out ctor" << std::endl;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 2ec120c..26ae0cc 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -126,7 +126,7 @@ IntVGram::IntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs,
     total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
     coder_ = coder; //TODO: check it
     dict_ = std::make_shared<IntDictImpl>(alphabet);
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1, size);
     fitted_ = fitted;
     freqs_computed_ = freqs_computed;
     iter_num_ = 0;
-- 
2.43.0


From 3f77cbf1d9b861db9ad0527befd37cec4978f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 07/27] fix: take frequencies of the dictionary anew on every
 update

result_freqs appends, so a second update left the frequencies of the previous
dictionary in front of the new ones, shifted against the alphabet. An update
while the dictionary stayed the same kept stale frequencies, shorter than the
alphabet when new symbols had come.
---
 .../cpp/interfaces/vgram_builders/int_stream_vgram.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 14fed1e..ae424ea 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -48,12 +48,11 @@ IntSeq IntStreamVGram::parse(const IntSeq &seq) const {
 }
 
 void IntStreamVGram::update_dict() {
-    if (dict_ != builder_->result()) {
-        dict_ = builder_->result();
-        builder_->result_freqs(&freqs_);
-        total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
-        min_probability_ = builder_->get_min_probability();
-    }
+    dict_ = builder_->result();
+    freqs_.clear(); // result_freqs appends
+    builder_->result_freqs(&freqs_);
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    min_probability_ = builder_->get_min_probability();
 }
 
 std::vector<IntSeq> IntStreamVGram::alphabet() const {
-- 
2.43.0


From 3987306d0886d262a3882fac796b6c271c0349d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 08/27] fix: use the unfitted dictionary before the first
 update

As documented: parsing, saving or asking for the alphabet before update
dereferenced a null dictionary, and so did fit with zero iterations.
---
 core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index ae424ea..3024948 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -23,6 +23,7 @@ IntStreamVGram::IntStreamVGram(int size, int verbose = 1) {
     freqs_ = IntSeq();
     total_freqs_ = 0;
     verbose_ = verbose;
+    update_dict();
 }
 
 void IntStreamVGram::accept(const IntSeq &seq) {
-- 
2.43.0


From caecff9593923c99cbad9b4a3db77003855cff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 09/27] fix: give a frequency for every alphabet item

The dictionary grows when a new symbol is met after the last update, the
frequencies did not: saving then read past their end.
---
 .../main/cpp/interfaces/vgram_builders/int_stream_vgram.cc  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 3024948..4b8be7d 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -65,7 +65,11 @@ std::vector<IntSeq> IntStreamVGram::alphabet() const {
 }
 
 IntSeq IntStreamVGram::freqs() const {
-    return freqs_;
+    IntSeq freqs = freqs_;
+    if (freqs.size() < dict_->size()) {
+        freqs.resize(dict_->size(), 0); // symbols met after the last update
+    }
+    return freqs;
 }
 
 void IntStreamVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
-- 
2.43.0


From b674311150dcfb9ac3fc4844148b4272ada262da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 10/27] fix: count symbols first met when frequencies are
 recomputed

Training draws sequences at random, so some of them, and their symbols, may
never have been accepted. Parsing adds such symbols to the dictionary, and
their counters were written past the end of the array.
---
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 26ae0cc..61076c6 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -67,6 +67,7 @@ void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
     for (const IntSeq &seq : seqs) {
         IntSeq result;
         dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);
+        freqs_.resize(dict_->size(), 0); // new symbols may be found
         for (int symb : result) {
             if (symb >= 0) {
                 freqs_[symb]++;
-- 
2.43.0


From c0a133c3367fc7e8f8c59a84a6394e0eb17ca1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 11/27] fix: do not take interrupted frequencies for computed
 ones

fit interrupted while it recomputes frequencies marked them as computed, so
that no later fit completed them, and left the total of other frequencies.
---
 .../cpp/interfaces/vgram_builders/int_vgram.cc     | 14 ++++++++++----
 .../main/cpp/interfaces/vgram_builders/int_vgram.h |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 61076c6..746ab9d 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -30,7 +30,9 @@ IntVGram *IntVGram::fit(const std::vector<IntSeq> &seqs/*, const std::string &fi
         if (freqs_computed_) {
             return this;
         }
-        recompute_freqs(seqs);
+        if (!recompute_freqs(seqs)) {
+            return nullptr;
+        }
         freqs_computed_ = true;
         return this;
     }
@@ -51,12 +53,14 @@ IntVGram *IntVGram::fit(const std::vector<IntSeq> &seqs/*, const std::string &fi
 //        }
     }
     fitted_ = true;
-    recompute_freqs(seqs);
+    if (!recompute_freqs(seqs)) {
+        return nullptr;
+    }
     freqs_computed_ = true;
     return this;
 }
 
-void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
+bool IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
     if (verbose_ > 0) {
         std::cout << "recompute freqs" << std::endl;
     }
@@ -74,10 +78,12 @@ void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
             }
         }
         if (isTerminated()) {
-            return;
+            total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+            return false;
         }
     }
     total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    return true;
 }
 
 std::vector<std::string> IntVGram::transform_to_string(const std::vector<IntSeq> &seqs) const {
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
index d60794d..133b6df 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
@@ -37,7 +37,7 @@ namespace vgram_core {
         bool fitted_ = false;
         bool freqs_computed_ = false;
 
-        void recompute_freqs(const std::vector<IntSeq> &seqs);
+        bool recompute_freqs(const std::vector<IntSeq> &seqs);
 
         virtual bool isTerminated() const;
     };
-- 
2.43.0


From 9f811add1764b57b401d890edd4d2c139537a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 12/27] fix: join v-gram indices by a space without a leading
 one

As documented: strings like "0 1 0 1".
---
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 746ab9d..681f167 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -93,7 +93,7 @@ std::vector<std::string> IntVGram::transform_to_string(const std::vector<IntSeq>
         std::string str;
         for (const auto &i : seq) {
             //TODO fix
-            str += " " + std::to_string(i);
+            str += (str.empty() ? "" : " ") + std::to_string(i);
         }
         if (str.length() == 0) {
             str = "-1";
-- 
2.43.0


From 621c94915a55a29a91dd48dac15220c006a687c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 13/27] fix: do not include word_splitter.h, which is not in
 the repository

Nothing uses it, and everything that saves or loads could not be compiled.
---
 core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc  | 1 +
 .../src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h | 1 -
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 4b8be7d..b9bc521 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -3,6 +3,7 @@
 //
 
 #include <algorithm>
+#include <numeric>
 #include <iomanip>
 #include <utility>
 #include "../../algorithm/int_dict_p.h"
diff --git a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
index f5bfc0e..afe42ef 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
@@ -7,7 +7,6 @@
 
 #include "../tokenizers/char_tokenizer.h"
 #include "../tokenizers/word_tokenizer.h"
-#include "../word_splitter/word_splitter.h"
 #include "int_stream_vgram.h"
 
 using json = nlohmann::json;
-- 
2.43.0


From 2a43d3c09b795406b031c7d92e80cff000973abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 14/27] fix: save IntVGram with the fields its loading needs

IntVGram inherited save of IntStreamVGram, which does not write fitted and
freqs_computed, so a saved IntVGram could not be loaded.
---
 core/src/main/cpp/interfaces/saver.h                     | 5 +++--
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 5 +++++
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.h  | 2 ++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 6e8ef9d..2799186 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -18,9 +18,10 @@ namespace vgram_core {
             write_to_file(dict, filename);
         }
 
-        static void save(const vgram_core::IntVGram *int_vgram, const std::string &filename) {
+        static void save(const vgram_core::IntVGram *int_vgram, const std::string &filename,
+                         const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer = nullptr) {
             json dict;
-            add_base_info(dict, int_vgram, nullptr);
+            add_base_info(dict, int_vgram, tokenizer);
             add_fitted_info(dict, int_vgram);
             write_to_file(dict, filename);
         }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 681f167..9677f1e 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -14,6 +14,7 @@
 #include <int_vgram_builder_p.h>
 #include <int_dict_p.h>
 #include "int_vgram.h"
+#include "../saver.h"
 
 using namespace vgram_core;
 
@@ -119,6 +120,10 @@ std::vector<IntSeq> IntVGram::transform(const std::vector<IntSeq> &seqs) const {
     return res;
 }
 
+void IntVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
+    Saver::save(this, filename, tokenizer);
+}
+
 bool IntVGram::isTerminated() const {
     return false;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
index 133b6df..96faada 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
@@ -32,6 +32,8 @@ namespace vgram_core {
 
         std::vector<IntSeq> transform(const std::vector<IntSeq> &seqs) const;
 
+        void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const;
+
     protected:
         int iter_num_;
         bool fitted_ = false;
-- 
2.43.0


From b891a3ec6fe206a85aae18dbbf4fffd951867bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 15/27] fix: save texts of v-grams when a tokenizer is passed

As documented; the tokenizer was ignored.
---
 core/src/main/cpp/interfaces/saver.h                         | 5 +++--
 .../main/cpp/interfaces/vgram_builders/int_stream_vgram.cc   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 2799186..038c9c3 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -12,9 +12,10 @@
 namespace vgram_core {
     class Saver {
     public:
-        static void save(const vgram_core::IntStreamVGram *int_stream_vgram, const std::string &filename) {
+        static void save(const vgram_core::IntStreamVGram *int_stream_vgram, const std::string &filename,
+                         const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer = nullptr) {
             json dict;
-            add_base_info(dict, int_stream_vgram, nullptr);
+            add_base_info(dict, int_stream_vgram, tokenizer);
             write_to_file(dict, filename);
         }
 
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index b9bc521..aca5530 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -74,7 +74,7 @@ IntSeq IntStreamVGram::freqs() const {
 }
 
 void IntStreamVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
-    Saver::save(this, filename);
+    Saver::save(this, filename, tokenizer);
 }
 
 const std::shared_ptr<SeqCoder> IntStreamVGram::get_coder() const {
-- 
2.43.0


From e62f907f905b93712863ba33c71e3bb75de8227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 16/27] fix: keep frequencies with their v-grams when a grown
 dictionary is loaded

A dictionary that got new symbols is saved with them at its end, and is
sorted on loading, while the frequencies stayed in the order of the file.
---
 .../cpp/interfaces/vgram_builders/int_stream_vgram.cc  |  7 +++++--
 .../main/cpp/interfaces/vgram_builders/int_vgram.cc    | 10 ++--------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index aca5530..109217a 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -91,12 +91,15 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
 //    std::cout << "in ctor" << std::endl;
     size_ = size;
     min_probability_ = min_probability;
-    freqs_ = freqs;
     total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
     coder_ = coder;
     dict_ = std::make_shared<IntDictImpl>(alphabet);
+    freqs_ = IntSeq(alphabet.size(), 0);
+    for (size_t i = 0; i < alphabet.size(); i++) { // dict_ has its own order of sequences
+        freqs_[dict_->search(alphabet[i])] = freqs[i];
+    }
 //    std::cout << "dict_ inited" << std::endl;
 //    std::cout << "Size " << dict_->size() << "!" << std::endl;
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1, size);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, alphabet, min_probability, 1, size);
 //    std::cout << "out ctor" << std::endl;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 9677f1e..d8b430d 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -131,14 +131,8 @@ bool IntVGram::isTerminated() const {
 IntVGram::IntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs,
                    const std::vector<IntSeq> &alphabet, int size, double min_probability,
                    bool fitted, bool freqs_computed)
-        : IntStreamVGram(size) {
-    size_ = size;
-    min_probability_ = min_probability;
-    freqs_ = freqs;
-    total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
-    coder_ = coder; //TODO: check it
-    dict_ = std::make_shared<IntDictImpl>(alphabet);
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1, size);
+        : IntStreamVGram(coder, freqs, alphabet, size, min_probability) {
+    verbose_ = 1;
     fitted_ = fitted;
     freqs_computed_ = freqs_computed;
     iter_num_ = 0;
-- 
2.43.0


From 82a3ed15e61ab35c055f547c7374c49ef8040f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 17/27] fix: do not make a leading or repeated space a part of
 a word

---
 core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
index a70f5b1..6fffb27 100644
--- a/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
@@ -19,9 +19,11 @@ vector<string> WordTokenizer::tokenize(const string &str) const {
     vector<string> tokens;
     string current;
     for (char i : str) {
-        if (i == ' ' && current != "") {
-            tokens.push_back(current);
-            current = "";
+        if (i == ' ') {
+            if (current != "") {
+                tokens.push_back(current);
+                current = "";
+            }
         } else {
             current += i;
         }
-- 
2.43.0


From 10bc45267c8f15ce1fa6cb00f7a902a64c2cbd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 18/27] fix: print an empty sequence

size() - 1 of an empty one is not -1, and the loop read past the end.
---
 core/src/main/cpp/algorithm/int_dict.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict.cc b/core/src/main/cpp/algorithm/int_dict.cc
index edfe12c..4049769 100644
--- a/core/src/main/cpp/algorithm/int_dict.cc
+++ b/core/src/main/cpp/algorithm/int_dict.cc
@@ -8,7 +8,7 @@
 std::ostream& operator<< (std::ostream &out, const IntSeq& seq)
 {
     out << "(";
-    for (int i = 0; i < seq.size() - 1; i++) {
+    for (int i = 0; i + 1 < seq.size(); i++) {
         out << seq[i] << " ";
     }
     if (!seq.empty()) {
@@ -20,7 +20,7 @@ std::ostream& operator<< (std::ostream &out, const IntSeq& seq)
 
 std::string to_string(const IntSeq& seq) {
     std::string res = "(";
-    for (int i = 0; i < seq.size() - 1; i++) {
+    for (int i = 0; i + 1 < seq.size(); i++) {
         res += std::to_string(seq[i]) + " ";
     }
     if (!seq.empty()) {
-- 
2.43.0


From 5934f8cfb59d9ebb6031600701c7915a66654485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 19/27] fix: do not dereference the end iterator for a symbol
 just added

---
 core/src/main/cpp/algorithm/list_dict.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/list_dict.h b/core/src/main/cpp/algorithm/list_dict.h
index 069610b..a9f0e08 100644
--- a/core/src/main/cpp/algorithm/list_dict.h
+++ b/core/src/main/cpp/algorithm/list_dict.h
@@ -18,7 +18,7 @@ public:
     for (const T& next: input) {
       auto code_ptr = mapping.find(next);
       if (code_ptr == mapping.end()) {
-        mapping[next] = next_id++;
+        code_ptr = mapping.emplace(next, next_id++).first;
       }
       output->push_back(code_ptr->second);
     }
-- 
2.43.0


From a4c270f775fc3fe05d40c97b0830d103275e0b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 20/27] fix: do not give a new token the code of another one

The count of tokens was taken for the next code. A tokenizer restored from a
saved dictionary may have gaps in its codes, and then a new token got the code
of a known one and was decoded as it. (Which of the operands of
forward_coder_[symb] = forward_coder_.size() goes first is also unspecified.)
---
 core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc | 6 ++++--
 core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h  | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
index 258f705..e11f186 100644
--- a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
@@ -15,6 +15,7 @@ BaseTokenizer::BaseTokenizer(const unordered_map<string, int> &forward_map) {
     forward_coder_ = forward_map;
     for (const auto &pair : forward_map) {
         backward_coder_[pair.second] = pair.first;
+        next_code_ = std::max(next_code_, pair.second + 1);
     }
 }
 
@@ -33,8 +34,9 @@ vector<int> BaseTokenizer::transform(const string &seq) {
     coded_seq.reserve(tokens.size());
     for (const std::string &symb : tokens) {
         if (forward_coder_.count(symb) == 0) {
-            forward_coder_[symb] = static_cast<int>(forward_coder_.size());
-            backward_coder_[backward_coder_.size()] = symb;
+            int code = next_code_++;
+            forward_coder_[symb] = code;
+            backward_coder_[code] = symb;
         }
         coded_seq.push_back(forward_coder_.at(symb));
     }
diff --git a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h
index 2bdda96..5ecfc8d 100644
--- a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h
+++ b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h
@@ -35,6 +35,7 @@ namespace vgram_core {
     protected:
         std::unordered_map<std::string, int> forward_coder_;
         std::unordered_map<int, std::string> backward_coder_;
+        int next_code_ = 0;
     };
 }
 
-- 
2.43.0


From c194e4b53f4bc05cc4c4eac51f1ddfebbbffa102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 21/27] fix: load a dictionary of words with a tokenizer that
 splits on words

A StreamVGram with words_are_tokens was loaded with a tokenizer that splits on
characters, which knows none of the words.
---
 core/src/main/cpp/interfaces/loader.h | 13 +++++++++----
 core/src/main/cpp/interfaces/saver.h  |  1 +
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/src/main/cpp/interfaces/loader.h b/core/src/main/cpp/interfaces/loader.h
index 091127d..4019a46 100644
--- a/core/src/main/cpp/interfaces/loader.h
+++ b/core/src/main/cpp/interfaces/loader.h
@@ -35,8 +35,10 @@ namespace vgram_core {
 
         static std::shared_ptr<StringStreamVGram> load_string_stream_vgram(const std::string &filename) {
             std::shared_ptr<IntStreamVGram> stream_builder = load_int_stream_vgram(filename);
-            std::shared_ptr<BaseTokenizer> tokenizer = load_tokenizer(filename, stream_builder->get_coder());
-            return std::make_shared<StringStreamVGram>(stream_builder, tokenizer);
+            bool words_are_tokens = read_dict_json(filename).value("words_are_tokens", false);
+            std::shared_ptr<BaseTokenizer> tokenizer = load_tokenizer(filename, stream_builder->get_coder(),
+                                                                      words_are_tokens);
+            return std::make_shared<StringStreamVGram>(stream_builder, tokenizer, false, words_are_tokens);
         }
 
         static StringVGram *load_string_vgram(const std::string &filename) {
@@ -92,7 +94,8 @@ namespace vgram_core {
         }
 
         static std::shared_ptr<BaseTokenizer> load_tokenizer(const std::string &filename,
-                                                             const std::shared_ptr<SeqCoder> &coder) {
+                                                             const std::shared_ptr<SeqCoder> &coder,
+                                                             bool words_are_tokens = false) {
             json dict = read_dict_json(filename);
             std::unordered_map<std::string, int> forward_map;
             for (const auto &word_obj : dict["alphabet"]) {
@@ -102,7 +105,9 @@ namespace vgram_core {
                     forward_map[key] = vec[0];
                 }
             }
-            //TODO chose tokenizer
+            if (words_are_tokens) {
+                return std::make_shared<WordTokenizer>(forward_map);
+            }
             return std::make_shared<CharTokenizer>(forward_map);
         }
     };
diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 038c9c3..75fe65f 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -30,6 +30,7 @@ namespace vgram_core {
         static void save(const vgram_core::StringStreamVGram *string_stream_vgram, const std::string &filename) {
             json dict;
             add_base_info(dict, string_stream_vgram->stream_builder_.get(), string_stream_vgram->tokenizer_);
+            dict["words_are_tokens"] = string_stream_vgram->words_are_tokens;
             write_to_file(dict, filename);
         }
 
-- 
2.43.0


From ec39c01a477bec84a1f9d0f342caf757fdf6ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 22/27] Add hooks to observe learning steps, compiled only with
 VGRAM_TRACE

---
 .../main/cpp/algorithm/int_vgram_builder_p.cc | 12 +++++++
 core/src/main/cpp/algorithm/vgram_trace.h     | 32 +++++++++++++++++++
 2 files changed, 44 insertions(+)
 create mode 100644 core/src/main/cpp/algorithm/vgram_trace.h

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index c5badc4..81699f4 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -6,6 +6,7 @@
 #include <iostream>
 #import "int_vgram_builder_p.h"
 #import "int_dict_p.h"
+#include "vgram_trace.h"
 
 IntVGramBuilderImpl::IntVGramBuilderImpl(int size, int verbose) {
     size_ = size;
@@ -63,6 +64,11 @@ const std::shared_ptr<IntDict> IntVGramBuilderImpl::alpha() const {
 void IntVGramBuilderImpl::accept(const IntSeq &seq) {
     IntSeq result;
     current_->parse(seq, &result);
+#ifdef VGRAM_TRACE
+    if (VGramTrace::sink() != nullptr) {
+        VGramTrace::sink()->accepted(seq, result);
+    }
+#endif
     if (current_->enough(prob_found_) || current_->power_ > kMaxPower) {
         update();
     }
@@ -119,6 +125,12 @@ void IntVGramBuilderImpl::update() {
             alpha_accum_num++;
         }
     }
+#ifdef VGRAM_TRACE
+    if (VGramTrace::sink() != nullptr) {
+        VGramTrace::sink()->updated(populate_, current_->alphabet(), current_->parse_freqs_,
+                                    current_->min_probability_, prob_found_);
+    }
+#endif
     populate_ = !populate_;
 }
 
diff --git a/core/src/main/cpp/algorithm/vgram_trace.h b/core/src/main/cpp/algorithm/vgram_trace.h
new file mode 100644
index 0000000..d4bf0ee
--- /dev/null
+++ b/core/src/main/cpp/algorithm/vgram_trace.h
@@ -0,0 +1,32 @@
+//
+// Observer of learning steps, for verification builds only (-DVGRAM_TRACE).
+//
+
+#ifndef VGRAM_VGRAM_TRACE_H
+#define VGRAM_VGRAM_TRACE_H
+
+#ifdef VGRAM_TRACE
+
+#include <vector>
+#include "int_dict.h"
+
+class VGramTrace {
+public:
+    virtual ~VGramTrace() = default;
+
+    // a sequence was parsed with the current dictionary and counted
+    virtual void accepted(const IntSeq &seq, const IntSeq &parse) = 0;
+
+    // the current dictionary was replaced: expanded (populate) or reduced
+    virtual void updated(bool populate, const std::vector<IntSeq> &dict, const IntSeq &freqs,
+                         double min_probability, double prob_found) = 0;
+
+    static VGramTrace *&sink() {
+        static VGramTrace *instance = nullptr;
+        return instance;
+    }
+};
+
+#endif
+
+#endif //VGRAM_VGRAM_TRACE_H
-- 
2.43.0


From f23e284c565d097a046ad42c9581b8ef2a31d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 23/27] fix: do not publish an expanded dictionary before the
 first reduction

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 81699f4..4d4fe21 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -110,6 +110,9 @@ void IntVGramBuilderImpl::update() {
             slots = static_cast<int>(current_->size() * kExtensionFactor);
         double min_prob_result = current_->expand(slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
+        if (result_ == nullptr) { // an expanded dictionary is not a result, it may be over the size
+            result_ = current_;
+        }
     } else {
         double min_prob_result = current_->reduce(size_ - alphabet_size, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
-- 
2.43.0


From 4afa35aaf3b612947f4ddb4a1968b15a472563e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 24/27] Hooks: tell the current dictionary of an accepted
 sequence (only with VGRAM_TRACE)

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 2 +-
 core/src/main/cpp/algorithm/vgram_trace.h          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 4d4fe21..55e3f68 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -66,7 +66,7 @@ void IntVGramBuilderImpl::accept(const IntSeq &seq) {
     current_->parse(seq, &result);
 #ifdef VGRAM_TRACE
     if (VGramTrace::sink() != nullptr) {
-        VGramTrace::sink()->accepted(seq, result);
+        VGramTrace::sink()->accepted(seq, result, current_->alphabet());
     }
 #endif
     if (current_->enough(prob_found_) || current_->power_ > kMaxPower) {
diff --git a/core/src/main/cpp/algorithm/vgram_trace.h b/core/src/main/cpp/algorithm/vgram_trace.h
index d4bf0ee..27676f9 100644
--- a/core/src/main/cpp/algorithm/vgram_trace.h
+++ b/core/src/main/cpp/algorithm/vgram_trace.h
@@ -14,8 +14,8 @@ class VGramTrace {
 public:
     virtual ~VGramTrace() = default;
 
-    // a sequence was parsed with the current dictionary and counted
-    virtual void accepted(const IntSeq &seq, const IntSeq &parse) = 0;
+    // a sequence was parsed with the current dictionary (as it is afterwards) and counted
+    virtual void accepted(const IntSeq &seq, const IntSeq &parse, const std::vector<IntSeq> &dict) = 0;
 
     // the current dictionary was replaced: expanded (populate) or reduced
     virtual void updated(bool populate, const std::vector<IntSeq> &dict, const IntSeq &freqs,
-- 
2.43.0


From d9ca42dd1236e4ed0d3b0d0eb3111936f589b63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 25/27] fix: save and load the tokens of symbols that are not
 in the alphabet yet

---
 core/src/main/cpp/interfaces/loader.h |  8 ++++++++
 core/src/main/cpp/interfaces/saver.h  | 12 ++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/core/src/main/cpp/interfaces/loader.h b/core/src/main/cpp/interfaces/loader.h
index 4019a46..17115c3 100644
--- a/core/src/main/cpp/interfaces/loader.h
+++ b/core/src/main/cpp/interfaces/loader.h
@@ -105,6 +105,14 @@ namespace vgram_core {
                     forward_map[key] = vec[0];
                 }
             }
+            if (dict.count("tokens") > 0) {
+                for (size_t i = 0; i < dict["tokens"].size(); i++) {
+                    const std::string token = dict["tokens"][i].get<std::string>();
+                    if (!token.empty()) {
+                        forward_map[token] = dict["coder"][i].get<int>();
+                    }
+                }
+            }
             if (words_are_tokens) {
                 return std::make_shared<WordTokenizer>(forward_map);
             }
diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 75fe65f..38df500 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -55,6 +55,9 @@ namespace vgram_core {
             dict["min_prob"] = int_stream_vgram->min_probability_;
             dict["coder"] = coder_to_json(int_stream_vgram->get_coder());
             dict["alphabet"] = alphabet_to_json(int_stream_vgram, tokenizer);
+            if (tokenizer != nullptr) {
+                dict["tokens"] = tokens_to_json(dict["coder"], tokenizer);
+            }
         }
 
         static void add_fitted_info(json &dict, const vgram_core::IntVGram *int_vgram) {
@@ -73,6 +76,15 @@ namespace vgram_core {
             return coder_obj;
         }
 
+        // texts of all known symbols: some of them may be not in the alphabet yet
+        static json tokens_to_json(const json &coder, const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer) {
+            json tokens = json::array();
+            for (int symbol : coder) {
+                tokens.push_back(tokenizer->decode(std::vector<int>(1, symbol)));
+            }
+            return tokens;
+        }
+
         static json alphabet_to_json(const vgram_core::IntStreamVGram *int_stream_vgram,
                                      const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer) {
             json alpha;
-- 
2.43.0


From 5c6a3dd31d1959d7e49bb593a3fd56b76e7d4dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 26/27] fix: keep parsing frequencies in step when an observed
 symbol was counted as new

---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 03a2a3e..44b8399 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -37,6 +37,8 @@ void StatDictImpl::update_symbol(int index, int freq) {
     if (index >= symbol_freqs_.size()) {
         for (auto i = symbol_freqs_.size(); i < index + 1; i++)
             symbol_freqs_.push_back(0); // Sanitizer: indirect leak
+    }
+    if (index >= parse_freqs_.size()) { // it may be shorter than symbol_freqs_
         for (auto i = parse_freqs_.size(); i < index + 1; i++)
             parse_freqs_.push_back(0); // Sanitizer: indirect leak
     }
-- 
2.43.0


From 6b9a878cc402ef8d4a3b6c2e53fb6f07a64f2dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 27/27] fix: symbols that were added and not counted yet
 survive a reduction

---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 44b8399..bbaf21c 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -198,7 +198,7 @@ double StatDictImpl::reduce(int slots, std::vector<IntSeq>* new_dict, IntSeq* fr
 }
 
 int StatDictImpl::filter_stat_items(int slots, std::vector<StatItem>* items) const {
-    for (int s = 0; s < symbol_freqs_.size(); s++)
+    for (int s = 0; s < size(); s++)
         if (parent(s) < 0)
             slots += 1;
     std::unordered_set<int> excludes;
@@ -213,7 +213,7 @@ int StatDictImpl::filter_stat_items(int slots, std::vector<StatItem>* items) con
 
 int StatDictImpl::stat_items(std::vector<StatItem>* items, std::unordered_set<int>* excludes) const {
     double code_length = code_length_per_char() * total_chars_;
-    for (int id = 0; id < symbol_freqs_.size(); id++) {
+    for (int id = 0; id < size(); id++) { // some may have been added and not counted yet
         if (excludes->count(id) == 0) {
             int count = freq(id);
             const IntSeq& seq = get(id);
-- 
2.43.0

