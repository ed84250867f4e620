"""Planted bugs (input of plant.py): edits of the original code, each with a demonstration."""
D, S, B = 'algorithm/int_dict_p.cc', 'algorithm/stat_dict_p.cc', 'algorithm/int_vgram_builder_p.cc'
SH, DH = 'algorithm/stat_dict_p.h', 'algorithm/int_dict_p.h'
K = 'interfaces/seq_coder.cc'
V, I = 'interfaces/vgram_builders/int_stream_vgram.cc', 'interfaces/vgram_builders/int_vgram.cc'
X, Y = 'interfaces/vgram_builders/string_stream_vgram.cc', 'interfaces/vgram_builders/string_vgram.cc'
SV, LD = 'interfaces/saver.h', 'interfaces/loader.h'
TB, TC, TW = ['interfaces/tokenizers/%s_tokenizer.cc' % x for x in ('base', 'char', 'word')]

BUGS = []


def bug(id, property, needs, breaks, edits, demo, iface=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, iface=iface))


bug('c01-return-new-only', 'C01', 'a greedy parse into an output that already holds identifiers',
    'the returned number counts the new identifiers only',
    [(D, '''    linearParse(seq, output, excludes);
    return static_cast<int>(output->size());''', '''    size_t before = output->size();
    linearParse(seq, output, excludes);
    return static_cast<int>(output->size() - before);''')], r'''
int main() {
    IntDictImpl d(Seqs{{1}, {2}, {1, 2}});
    IntSeq out{7, 7};
    IntDict &i = d;
    int n = i.parse(IntSeq{1, 2, 1}, &out);
    CHECK(out.size() == 4);
    CHECK(n == 4);
    return 0;
}''')

bug('c01-zero-weight-tie', 'C01', 'weights whose total is so large that a long sequence underflows the score limit',
    'positions reachable only with a very low score count as unreachable, so the parse of a long sequence is garbage',
    [(D, '''    std::vector<double> score(len + 1, std::numeric_limits<double>::lowest());
    score[0] = 0;''', '''    std::vector<double> score(len + 1, -10000.0);
    score[0] = 0;''')], r'''
int main() {
    IntDictImpl d(Seqs{{1}, {2}, {1, 2}});
    IntSeq seq, out, back;
    for (int i = 0; i < 1400; i++) seq.push_back(1 + rnd(2));
    d.parse(seq, IntSeq{5, 5, 5}, 1e6, &out);
    for (int id : out) { CHECK(id >= 0 && id < d.size()); for (int s : d.get(id)) back.push_back(s); }
    CHECK(back == seq);
    return 0;
}''')

bug('c02-appended-parent', 'C02', 'a v-gram whose first symbol was appended after creation and has no weight yet, and a v-gram so rare that the split is better',
    'ancestors without a weight are not considered as alternatives',
    [(D, '''                symbols[sym_len + pos] = sym;
            }
        }
        while ((sym = parent(sym)) >= 0);''', '''                symbols[sym_len + pos] = sym;
            }
        }
        while ((sym = parent(sym)) >= 0 && sym < freqs.size());''')], r'''
int main() {
    // {1,2} of weight 0 against 1 (appended, no weight) and {2,3} of a large weight
    IntDictImpl d(Seqs{{1, 2}, {2, 3}, {3}});
    IntDict &i = d;
    CHECK(i.search(IntSeq{1, 3}) == 3);
    IntSeq out;
    i.parse(IntSeq{1, 2, 3}, IntSeq{0, 50, 0}, 50, &out);
    CHECK((out == IntSeq{3, 1}));
    return 0;
}''')

bug('c03-first-excluded', 'C03', 'the longest entry and one shorter prefix excluded, a still shorter one allowed',
    'the search gives up after a second excluded entry instead of going on to shorter ones',
    [(D, '''            if (excludes == nullptr || excludes->count(index) == 0) {
                return index;
            }
        }
        index = parents_[index];''', '''            if (excludes == nullptr || excludes->count(index) == 0) {
                return index;
            }
            if (parents_[index] >= 0 && excludes->count(parents_[index]) > 0) {
                break;
            }
        }
        index = index < parents_.size() ? parents_[index] : -1;''')], r'''
int main() {
    IntDictImpl d(Seqs{{1}, {1, 2}, {1, 2, 3}, {1, 2, 3, 4}});
    std::unordered_set<int> e{2, 1};
    CHECK(d.search(IntSeq{1, 2, 3, 9}, &e) == 0);
    std::unordered_set<int> e2{1};
    CHECK(d.search(IntSeq{1, 2, 9}, &e2) == 0);
    return 0;
}''')

bug('c04-pop-once', 'C04', 'an entry after two or more levels of nested prefixes that are not its own prefixes',
    'only two levels of the stack of prefixes are popped, so an entry loses its parent',
    [(D, '''        while (!parents_stack.empty()) {
            IntSeq prefix''', '''        for (int level = 0; !parents_stack.empty() && level < 3; level++) {
            IntSeq prefix''')], r'''
int main() {
    IntDictImpl d(Seqs{{1}, {1, 1}, {1, 1, 1}, {1, 1, 1, 1}, {1, 2}});
    CHECK(d.parent(4) == 0);
    CHECK(d.parent(3) == 2);
    return 0;
}''')

bug('c05-empty-excludes-grow', 'C05', 'a search with an empty set of exclusions at an unknown symbol',
    'an empty set of exclusions is taken for none: the dictionary grows',
    [(D, '''    if (excludes == nullptr) {
        int ind = size();''', '''    if (excludes == nullptr || excludes->empty()) {
        int ind = size();''')], r'''
int main() {
    IntDictImpl d(Seqs{{1}});
    std::unordered_set<int> e;
    CHECK(d.search(IntSeq{5}, &e) == -1);
    CHECK(d.size() == 1);
    return 0;
}''')

bug('c05-copy-shared-parent', 'C05', 'a v-gram starting with the appended symbol which is nested below another v-gram of the same symbol',
    'after growth every v-gram starting with the symbol gets it as parent, not only those without one',
    [(D, '''    if (excludes == nullptr) {
        int ind = size();
        seqs_.emplace_back(1, seq[0]);
        parents_.push_back(-1);''', '''    if (excludes == nullptr) {
        const int ind = static_cast<int>(seqs_.size());
        for (int i = 0; i < ind; i++) {
            if (seqs_[i].size() > 1 && seqs_[i][0] == seq[0]) {
                parents_[i] = ind;
            }
        }
        seqs_.emplace_back(1, seq[0]);
        parents_.push_back(-1);''')], r'''
int main() {
    IntDictImpl d(Seqs{{1, 2}, {1, 2, 3}});
    IntDict &i = d;
    CHECK(i.search(IntSeq{1, 4}) == 2);
    CHECK(d.parent(0) == 2);
    CHECK(d.parent(1) == 0);
    return 0;
}''')

bug('c06-power-per-call', 'C06', 'an update with a frequency other than one',
    'the number of counted entries grows by one per update instead of by the frequency',
    [(S, '    power_ += freq;', '    power_ += freq > 0 ? 1 : 0;')], r'''
int main() {
    StatDictImpl s(Seqs{{1}, {2}});
    s.update_symbol(0, 30);
    s.update_symbol(1, 10);
    double e = (40 * log(40) - 30 * log(30) - 10 * log(10));
    IntSeq out;
    s.parse(IntSeq{1, 2}, &out);
    e = (42 * log(42) - 31 * log(31) - 11 * log(11)) / 2;
    CHECK(fabs(s.code_length_per_char() - e) < 1e-9);
    return 0;
}''')

bug('c06-enough-boundary', 'C06', 'the evidence exactly on the threshold (probability one and nothing counted)',
    'evidence on the threshold counts as sufficient',
    [(S, '    return power_ > -log(prob_found) / min_probability_;', '    return power_ >= -log(prob_found) / min_probability_;')], r'''
int main() {
    StatDictImpl s(Seqs{{1}, {2}}, 0.01);
    CHECK(!s.enough(1.0));
    IntSeq out;
    s.parse(IntSeq{1}, &out);
    CHECK(s.enough(1.0));
    return 0;
}''')

bug('c07-uncounted-slots', 'C07', 'a symbol of the alphabet that was never counted, and a size with no spare room',
    'room is made only for counted symbols: the reduction throws symbols out',
    [(S, '''        if (parent(s) < 0)
            slots += 1;''', '''        if (parent(s) < 0 && freq(s) > 0)
            slots += 1;''')], r'''
int main() {
    IntSeq al{0, 1, 2, 3};
    IntVGramBuilderImpl b(al, 5, 0);
    for (int i = 0; i < 3000; i++) b.accept(IntSeq{rnd(2), rnd(2), 0, 1});
    std::set<int> have;
    for (const IntSeq &s : b.result()->alphabet()) if (s.size() == 1) have.insert(s[0]);
    CHECK(have.size() == 4);
    return 0;
}''')

bug('c08-prev-member', 'C08', 'sequences that end and begin with symbols which are never adjacent inside one',
    'the last entry of a sequence and the first of the next are counted as a pair',
    [(S, '    int prev = -1;\n    for (size_t i = start;', '    int prev = last_;\n    for (size_t i = start;'),
     (S, '        prev = symbol;\n    }', '        prev = symbol;\n    }\n    last_ = prev;'),
     (SH, '    double total_chars_ = 0;', '    double total_chars_ = 0;\n    int last_ = -1;')], r'''
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct R { typedef double (StatDictImpl::*type)(int, Seqs *, IntSeq *) const; friend type get(R); };
template struct Rob<R, &StatDictImpl::expand>;
int main() {
    StatDictImpl s(Seqs{{0}, {1}, {2}});
    IntSeq out;
    for (int i = 0; i < 600; i++) s.parse(IntSeq{i % 3}, &out);
    Seqs d; IntSeq f;
    (s.*get(R()))(10, &d, &f);
    CHECK(d.size() == 3);
    return 0;
}''')

bug('c09-alphabet-late', 'C09', 'several new symbols met between a reduction and the next expansion, and more v-grams than fit',
    'symbols are added to the known alphabet only after reductions, so the v-grams get room that the symbols should have',
    [(B, '            if (alpha_accum_num > alphabet_size) {', '            if (alpha_accum_num > alphabet_size && !populate_) {')], r'''
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct C { typedef std::shared_ptr<StatDictImpl> IntVGramBuilderImpl::*type; friend type get(C); };
template struct Rob<C, &IntVGramBuilderImpl::current_>;
int main() {
    Seqs al{{0}, {1}};
    IntVGramBuilderImpl b(IntDictImpl(al), IntSeq{0, 0}, al, 0.05, 0, 14);
    std::shared_ptr<StatDictImpl> cur = b.*get(C());
    std::shared_ptr<IntDict> pub = b.result();
    int known = 2, steps = 0;
    for (int i = 0; i < 600; i++) {
        IntSeq s;
        int n = std::min(12, 2 + 4 * ((steps + 1) / 2));
        for (int k = 0; k < 16; k++) { int w = rnd(3); s.push_back(w % 2); s.push_back(1 - w / 2); s.push_back(w / 2); }
        if (steps % 2 == 0) for (int k = 0; k < n; k++) s.push_back(k);
        b.accept(s);
        std::shared_ptr<StatDictImpl> now = b.*get(C());
        if (now == cur) continue;
        cur = now;
        steps++;
        if (b.result() != pub && steps > 1) {
            pub = b.result();
            int multi = 0;
            for (const IntSeq &x : pub->alphabet()) multi += x.size() > 1;
            CHECK(multi <= std::max(0, 14 - known) + 1);
        }
        known = 0;
        for (const IntSeq &x : now->alphabet()) known += x.size() == 1;
    }
    CHECK(steps > 3);
    return 0;
}''')

bug('c10-min-prob-up', 'C10', 'a reduction of a dictionary whose v-grams are all more probable than the minimum probability so far',
    'the minimum probability is taken from the chosen v-grams only and may increase',
    [(S, '    double min_prob_result = std::min(1. / size(), min_probability_);', '    double min_prob_result = 1. / size();')], r'''
int main() {
    IntVGramBuilderImpl b(IntSeq{0, 1}, 10, 0);
    double last = 1;
    for (int i = 0; i < 4000; i++) {
        b.accept(IntSeq{0, 1, 0, 1, rnd(2), rnd(2)});
        CHECK(b.get_min_probability() <= last && b.get_min_probability() > 0);
        last = b.get_min_probability();
    }
    return 0;
}''')

bug('c10-prob-reset', 'C10', 'four learning steps without a better compression followed by one with',
    'the probability of missing starts again from 0.1 when the compression improves',
    [(B, '        no_rate_increase_turns_ = 0;\n    } else if (++no_rate_increase_turns_ > 3) {\n        prob_found_ *= 0.8;\n    }', '        no_rate_increase_turns_ = 0;\n    }\n    prob_found_ = ++no_rate_increase_turns_ > 4 ? prob_found_ * 0.8 : 0.1;')], r'''
#define GET(m) 
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct P { typedef double IntVGramBuilderImpl::*type; friend type get(P); };
template struct Rob<P, &IntVGramBuilderImpl::prob_found_>;
int main() {
    IntVGramBuilderImpl b(IntSeq{0, 1, 2, 3}, 12, 0);
    double last = 1;
    for (int i = 0; i < 40000; i++) {
        IntSeq s;
        for (int k = 0; k < 40; k++) s.push_back(i < 9000 ? rnd(4) : k % 4);
        b.accept(s);
        CHECK(b.*get(P()) <= last);
        last = b.*get(P());
    }
    return 0;
}''')

bug('c11-compound-weights', 'C11', 'an expansion of a dictionary that itself had initial frequencies',
    'entries start with counts plus the weights of the generation before, which add up from one generation to the next',
    [(S, 'items.emplace_back(-1, symbol, std::numeric_limits<double>::max(), freq(symbol));\n    }\n    slots',
      'items.emplace_back(-1, symbol, std::numeric_limits<double>::max(),\n                           symbol < parse_freqs_.size() ? parse_freqs_[symbol] : 0);\n    }\n    slots')], r'''
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct C { typedef std::shared_ptr<StatDictImpl> IntVGramBuilderImpl::*type; friend type get(C); };
template struct Rob<C, &IntVGramBuilderImpl::current_>;
struct W { typedef IntSeq StatDictImpl::*type; friend type get(W); };
template struct Rob<W, &StatDictImpl::parse_freqs_>;
int main() {
    IntVGramBuilderImpl b(IntSeq{0, 1, 2}, 9, 0);
    std::shared_ptr<StatDictImpl> cur = b.*get(C());
    int gens = 0;
    for (int i = 0; i < 4000; i++) {
        IntSeq s;
        for (int k = 0; k < 12; k++) s.push_back(k % 2 ? rnd(3) : 0);
        b.accept(s);
        std::shared_ptr<StatDictImpl> now = b.*get(C());
        if (now != cur) {
            gens++;
            for (int k = 0; k < now->size(); k++)
                for (int m = 0; m < cur->size(); m++)
                    if (cur->get(m) == now->get(k))
                        CHECK(((*now).*get(W()))[k] == cur->freq(m));
            cur = now;
        }
    }
    CHECK(gens > 3);
    return 0;
}''')

bug('c12-immutable-stops', 'C12', 'an unknown value followed by known ones',
    'immutable encoding stops at the first unknown value instead of dropping it',
    [(K, '''        if (forward_code_.count(symbol) != 0) {
            result.push_back(forward_code_.at(symbol));
        }''', '''        if (forward_code_.count(symbol) == 0) {
            if (result.empty())
                continue;
            break;
        }
        result.push_back(forward_code_.at(symbol));''')], r'''
int main() {
    SeqCoder c;
    c.encode(IntSeq{5, 6});
    CHECK((c.encode_immutable(IntSeq{9, 5, 7, 6}) == IntSeq{0, 1}));
    return 0;
}''', True)

bug('c13-underscore', 'C13', 'a text with an underscore', 'the character tokenizer keeps underscores',
    [(TC, '        if (isalnum(c)) {', "        if (isalnum(c) || c == '_') {")], r'''
int main() {
    CharTokenizer t;
    CHECK(t.normalize("A_b-C") == "abc");
    return 0;
}''', True)

bug('c14-parse-learns-symbols', 'C14', 'a symbol parsed before it is accepted, in a pipeline that is asked to parse it again',
    'parsing makes an unknown symbol known',
    [(V, '''    coder_->encode_immutable(seq);
''', '''    coder_->encode(seq);
''')], r'''
int main() {
    IntStreamVGram v(10, 0);
    v.accept(IntSeq{5, 6});
    CHECK(v.parse(IntSeq{7, 7}).empty());
    return 0;
}''', True)

bug('c16-live-weights', 'C16', 'a fit whose frequencies make two segmentations of nearly equal probability, in texts where counting shifts the balance',
    'texts are counted with the frequencies counted so far as weights instead of those published',
    [(I, '        dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);', '        dict_->parse(coder_->encode(seq), freqs_, std::accumulate(freqs_.begin(), freqs_.end(), 0.0), &result);')], r'''
int main() {
    auto coder = std::make_shared<SeqCoder>();
    coder->encode(IntSeq{1, 2});
    // 1 -> 0, 2 -> 1; splitting is better iff (w0+1)(w1+1) > (w01+1)(T+3)
    IntVGram m(coder, IntSeq{0, 0, 0}, Seqs{{0}, {0, 1}, {1}}, 10, 0.00001, true, false);
    for (int i = 0; i < 100; i++) { m.accept(IntSeq{1}); m.accept(IntSeq{2}); }
    m.fit(Seqs{{1, 2}, {1, 2}});
    CHECK((m.freqs() == IntSeq{2, 0, 2}));
    return 0;
}''', True)

bug('c16-first-id', 'C16', 'nothing but computed frequencies of the first entry', 'the entry with identifier 0 is never counted',
    [(I, '            if (symb >= 0) {', '            if (symb > 0) {')], r'''
int main() {
    IntVGram m(10, 1, 0);
    m.fit(Seqs{{1, 2}, {2, 3}});
    IntSeq f = m.freqs();
    int total = 0;
    for (size_t i = 0; i < f.size(); i++) total += f[i] * (int) m.alphabet()[i].size();
    CHECK(total == 4);
    return 0;
}''', True)

bug('c17-empty-repeats', 'C17', 'an empty sequence after another one in a list to transform',
    'the result of an empty sequence is that of the sequence before it',
    [(I, '''    for (const IntSeq &seq : seqs) {
        IntSeq result = parse(seq);
        res.push_back(result);''', '''    IntSeq result;
    for (const IntSeq &seq : seqs) {
        if (!seq.empty()) {
            result = parse(seq);
        }
        res.push_back(result);''')], r'''
int main() {
    IntVGram m(10, 1, 0);
    m.fit(Seqs{{1, 2}, {2, 3}});
    std::vector<IntSeq> r = m.transform(Seqs{{1}, {}, {2}});
    CHECK(r.size() == 3 && r[1].empty());
    return 0;
}''', True)

bug('c18-raw-codes', 'C18', 'a text with new characters parsed before they are accepted, so that tokens and codes differ',
    'the parse of a text is decoded without going through the coder of the pipeline',
    [(X, '        token_words.push_back(tokenizer_->decode(token_int_representation));', '        token_words.push_back(tokenizer_->decode(token_raw_representation));')], r'''
int main() {
    StringStreamVGram v(20, 0);
    v.parse("xyz");
    v.accept("abc");
    v.update_dict();
    std::string back;
    for (const std::string &w : v.parse("abcab")) back += w;
    CHECK(back == "abcab");
    return 0;
}''', True)

bug('c20-coder-order', 'C20', 'values that are not met in ascending order',
    'the coder is saved in the order of the values',
    [(SV, '{ return a.second < b.second; });', '{ return a < b; });')], r'''
int main() {
    IntStreamVGram v(20, 0);
    v.accept(IntSeq{9, 3, 5});
    v.update_dict();
    v.save("f.json");
    auto l = Loader::load_int_stream_vgram("f.json");
    CHECK(l->alphabet() == v.alphabet());
    return 0;
}''', True)

bug('c21-min-prob-lost', 'C21', 'a restored builder whose minimum probability is not the default one, run to its next learning step',
    'a restored builder starts from the default minimum probability',
    [(B, 'std::make_shared<StatDictImpl>(dict.alphabet(), min_probability,\n', 'std::make_shared<StatDictImpl>(dict.alphabet(), StatDictImpl::kMaxMinProbability,\n')], r'''
int main() {
    IntDictImpl d(Seqs{{0}, {1}, {0, 1}});
    IntVGramBuilderImpl b(d, IntSeq{5, 5, 5}, Seqs{{0}, {1}}, 0.0001, 0, 10);
    CHECK(fabs(b.get_min_probability() - 0.0001) < 1e-12);
    return 0;
}''')

bug('c23-alpha-shared', 'C23', 'a symbol searched in the handed out alphabet that the dictionary lacks',
    'the alphabet handed out is the dictionary of the builder itself',
    [(B, '    return std::make_shared<IntDictImpl>(result_->alphabet());', '    return result_->dict_;')], r'''
int main() {
    IntVGramBuilderImpl b(IntSeq{0, 1}, 10, 0);
    for (int i = 0; i < 4000; i++) b.accept(IntSeq{0, 1, 0, 1, rnd(2)});
    int before = b.result()->size();
    b.alpha()->search(IntSeq{77});
    CHECK(b.result()->size() == before);
    return 0;
}''')

bug('c24-shared-generator', 'C24', 'a builder run after another one has made learning steps, with pairs of almost no gain',
    'the pseudo-random generator is shared by all builders of the process',
    [('algorithm/fast_random.cc', '    std::default_random_engine generator;', '    static std::default_random_engine generator;')], r'''
static Seqs run() {
    Seqs all;
    IntVGramBuilderImpl b(IntSeq{0, 1, 2, 3, 4, 5}, 40, 0);
    unsigned st = 7;
    auto r = [&st](int n) { st = st * 1103515245u + 12345u; return (int) ((st >> 16) % n); };
    for (int i = 0; i < 20000; i++) {
        IntSeq s;
        for (int k = 0; k < 20; k++) s.push_back(r(6));
        b.accept(s);
        if (i % 200 == 0) for (const IntSeq &x : b.result()->alphabet()) all.push_back(x);
    }
    return all;
}
int main() {
    Seqs a = run(), b = run();
    CHECK(a == b);
    return 0;
}''')

bug('c25-most-frequent', 'C25', 'more v-grams than fit, where the most frequent ones are not those with the largest gain',
    'the reduction keeps the most frequent v-grams instead of those with the largest gain',
    [(S, '''    std::sort(items->begin(), items->end(), [] (const StatItem& a, const StatItem& b) { return -a.score() < -b.score(); });
    return static_cast<int>(items->size());''', '''    std::sort(items->begin(), items->end(), [] (const StatItem& a, const StatItem& b) {
        bool top_a = a.score() == std::numeric_limits<double>::max(), top_b = b.score() == std::numeric_limits<double>::max();
        return top_a != top_b ? top_a : a.count() > b.count();
    });
    return static_cast<int>(items->size());''')], r'''
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct R { typedef double (StatDictImpl::*type)(int, Seqs *, IntSeq *) const; friend type get(R); };
template struct Rob<R, &StatDictImpl::reduce>;
int main() {
    // 2 3 is frequent but so are its parts; 0 1 2 0 1 is rarer and saves much more
    IntSeq init{0, 900, 0, 0, 0, 0};
    StatDictImpl s(Seqs{{0}, {0, 1, 2, 0, 1, 3}, {1}, {2}, {2, 3}, {3}}, 0.002, &init);
    s.update_symbol(0, 40); s.update_symbol(1, 60); s.update_symbol(2, 40);
    s.update_symbol(3, 500); s.update_symbol(4, 150); s.update_symbol(5, 500);
    Seqs d; IntSeq f;
    (s.*get(R()))(1, &d, &f);
    CHECK(d.size() == 5);
    bool lng = false;
    for (const IntSeq &x : d) if (x.size() == 6) lng = true;
    CHECK(lng);
    return 0;
}''')

bug('c25-score-length', 'C25', 'a v-gram whose gain is small: near the border where it stops paying',
    'the price of replacing a v-gram is computed with one entry too many',
    [(S, 'double new_power = power_ + (parse.size() - 1) * count;', 'double new_power = power_ + parse.size() * count;')], r'''
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct R { typedef double (StatDictImpl::*type)(int, Seqs *, IntSeq *) const; friend type get(R); };
template struct Rob<R, &StatDictImpl::reduce>;
int main() {
    // {0,1} as often as chance has it: does not pay
    StatDictImpl s(Seqs{{0}, {0, 1}, {1}});
    s.update_symbol(0, 500); s.update_symbol(1, 100); s.update_symbol(2, 500);
    double c = 100, a = 500, p = 1100;
    double with = p * log(p) - 2 * a * log(a) - c * log(c);
    double without = (p + c) * log(p + c) - 2 * (a + c) * log(a + c);
    Seqs d; IntSeq f;
    (s.*get(R()))(10, &d, &f);
    CHECK((without > with) == (d.size() == 3));
    return 0;
}''')

# ---------------------------------------------------------------- second round

bug('c03-longest-not-copied', 'C03', 'a search in a copy of a dictionary',
    'search only looks at as many symbols as the longest entry has, a bound that copies of a dictionary do not get',
    [(DH, '    std::vector<IntSeq> seqs_;', '    std::vector<IntSeq> seqs_;\n    size_t longest_ = 1;'),
     (D, '    std::sort(seqs_.begin(), seqs_.end());\n', '    std::sort(seqs_.begin(), seqs_.end());\n    for (const IntSeq &s : seqs_)\n        longest_ = std::max(longest_, s.size());\n'),
     (D, '        int symbol = search(suffix, excludes);\n        if (symbol < 0) {', '        int symbol = search(IntSeq(suffix.begin(), suffix.begin() + std::min(suffix.size(), longest_)), excludes);\n        if (symbol < 0) {')], r'''
int main() {
    IntDictImpl d(Seqs{{1}, {1, 2}, {2}});
    IntDictImpl e(d);
    IntSeq out;
    static_cast<IntDict &>(e).parse(IntSeq{1, 2, 1}, &out);
    CHECK(out.size() == 2);
    return 0;
}''')

bug('c02-sorted-size', 'C02', 'a dictionary that was grown, where the number of entries tips the balance',
    'probabilities are normalized by the size the dictionary had when it was created',
    [(D, '- log(total_freq + size());', '- log(total_freq + sorted_size_);')], r'''
int main() {
    IntDictImpl d(Seqs{{1}, {1, 2}, {2}});
    IntDict &i = d;
    for (int k = 10; k < 30; k++) i.search(IntSeq{k}, nullptr);
    // (5 + 1) / (20 + 23) for {1, 2}; (15 + 1)^2 / (20 + 23)^2 for the symbols
    IntSeq out;
    i.parse(IntSeq{1, 2}, IntSeq{15, 5, 15}, 20, &out);
    CHECK((out == IntSeq{1}));
    return 0;
}''')

bug('c02-blocks', 'C02', 'a sequence longer than 300 symbols with a v-gram across the border of a block',
    'long sequences are parsed block by block',
    [(D, '''    double log_probability = weightedParse(seq, freqs, total_freq, output, nullptr);
''', '''    double log_probability = 0;
    for (size_t from = 0; from < seq.size(); from += 300) { // keeps the tables small
        IntSeq block(seq.begin() + from, seq.begin() + std::min(seq.size(), from + 300));
        log_probability += weightedParse(block, freqs, total_freq, output, nullptr);
    }
''')], r'''
int main() {
    IntDictImpl d(Seqs{{1}, {1, 2, 3}, {2}, {3}});
    IntSeq seq, out;
    for (int k = 0; k < 400; k++) seq.push_back(1 + k % 3);
    seq.erase(seq.begin());
    static_cast<IntDict &>(d).parse(seq, IntSeq{1, 9, 1, 1}, 12, &out);
    CHECK(out.size() == 2 + (398 - 2) / 3 + (seq.size() - 2) % 3);
    return 0;
}''')

bug('c02-small-logs', 'C02', 'weights above the size of the table of logarithms, in a close decision',
    'logarithms of large weights are those of the weight instead of the weight plus one',
    [(D, 'log(freqs[sym] + 1) : 0)', '(freqs[sym] < 64 ? log(freqs[sym] + 1) : log(freqs[sym])) : 0)')], r'''
int main() {
    IntDictImpl d(Seqs{{1}, {1, 2}, {2}});
    IntSeq out;
    // 100 / 40 against 63 * 63 / 40^2
    static_cast<IntDict &>(d).parse(IntSeq{1, 2}, IntSeq{62, 99, 62}, 37, &out);
    CHECK((out == IntSeq{1}));
    return 0;
}''')

bug('c04-prefix-order', 'C04', 'entries that share a prefix of four symbols',
    'sequences are ordered by their first four symbols and their length only',
    [(D, '    std::sort(seqs_.begin(), seqs_.end());\n', '''    std::sort(seqs_.begin(), seqs_.end(), [](const IntSeq &a, const IntSeq &b) {
        IntSeq x(a.begin(), a.begin() + std::min<size_t>(4, a.size())), y(b.begin(), b.begin() + std::min<size_t>(4, b.size()));
        return x != y ? x < y : a.size() < b.size();
    });
''')], r'''
int main() {
    IntDictImpl d(Seqs{{1, 1, 1, 1, 3}, {1, 1, 1, 1}, {1, 1, 1, 1, 2, 2}});
    CHECK((d.alphabet() == Seqs{{1, 1, 1, 1}, {1, 1, 1, 1, 2, 2}, {1, 1, 1, 1, 3}}));
    return 0;
}''')

bug('c04-symbols-positive', 'C04', 'a dictionary of symbols some of which are negative',
    'a dictionary made from symbols orders them as unsigned numbers',
    [(D, '''        vec[i][0] = seqs[i];
    }
    init(vec);''', '''        vec[i][0] = seqs[i];
    }
    std::sort(vec.begin(), vec.end(), [](const IntSeq &a, const IntSeq &b) { return (unsigned) a[0] < (unsigned) b[0]; });
    seqs_ = vec;
    parents_ = IntSeq(vec.size(), -1);
    sorted_size_ = size();''')], r'''
int main() {
    IntDictImpl d(IntSeq{3, -2, 1});
    CHECK((d.alphabet() == Seqs{{-2}, {1}, {3}}));
    return 0;
}''')

bug('c07-symbol-score', 'C07', 'data so repetitive that a v-gram saves more than the whole code, in a dictionary with little room',
    'a symbol is worth the whole code, which is less than some v-grams are worth',
    [(S, '''            } else {
                items->emplace_back(-1, id, std::numeric_limits<double>::max(), count);
            }''', '''            } else {
                items->emplace_back(-1, id, code_length, count);
            }''')], r'''
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct R { typedef double (StatDictImpl::*type)(int, Seqs *, IntSeq *) const; friend type get(R); };
template struct Rob<R, &StatDictImpl::reduce>;
int main() {
    StatDictImpl s(Seqs{{0}, {0, 1, 2, 3}, {1}, {2}, {3}});
    s.update_symbol(0, 1); s.update_symbol(1, 400); s.update_symbol(2, 1); s.update_symbol(3, 1); s.update_symbol(4, 1);
    IntSeq o;
    s.parse(IntSeq{0, 1, 2, 3}, &o);
    Seqs d; IntSeq f;
    (s.*get(R()))(0, &d, &f);
    int one = 0;
    for (const IntSeq &x : d) one += x.size() == 1;
    CHECK(one == 4);
    return 0;
}''')

bug('c08-adjacent-after-gap', 'C08', 'sequences that end and begin with the same v-grams again and again',
    'neighbours are told by hashes of sequences: the last v-gram of a sequence is followed by the first of the next',
    [(S, '''    int prev = -1;
    for (size_t i = start;''', '''    int &prev = last_;
    for (size_t i = start;'''), (SH, '    double power_ = 0;', '    double power_ = 0;\n    int last_ = -1;')], r'''
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct C { typedef std::shared_ptr<StatDictImpl> IntVGramBuilderImpl::*type; friend type get(C); };
template struct Rob<C, &IntVGramBuilderImpl::current_>;
int main() {
    IntVGramBuilderImpl b(IntSeq{0, 1, 2, 3}, 14, 0);
    for (int i = 0; i < 6000; i++) {
        b.accept(IntSeq{0, 1, 2, 3});
        for (const IntSeq &x : (b.*get(C()))->alphabet())
            for (size_t k = 1; k < x.size(); k++) CHECK(!(x[k - 1] == 3 && x[k] == 0));
    }
    return 0;
}''')

bug('c10-one-more-sequence', 'C10', 'the sequence that completes the evidence',
    'a learning step is made by the sequence after the one that completed the evidence',
    [(B, '''    IntSeq result;
    current_->parse(seq, &result);''', '''    IntSeq result;
    if (populate_ && current_->enough(prob_found_)) {
        update();
    }
    bool before = !populate_ || result_ == nullptr;
    current_->parse(seq, &result);'''),
     (B, '''    if (current_->enough(prob_found_) || current_->power_ > kMaxPower) {
        update();
    }
}''', '''    if (before && (current_->enough(prob_found_) || current_->power_ > kMaxPower)) {
        update();
    }
}''')], r'''
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct C { typedef std::shared_ptr<StatDictImpl> IntVGramBuilderImpl::*type; friend type get(C); };
template struct Rob<C, &IntVGramBuilderImpl::current_>;
struct P { typedef double IntVGramBuilderImpl::*type; friend type get(P); };
template struct Rob<P, &IntVGramBuilderImpl::prob_found_>;
int main() {
    IntVGramBuilderImpl b(IntSeq{0, 1, 2, 3}, 14, 0);
    for (int i = 0; i < 6000; i++) {
        b.accept(IntSeq{0, 1, rnd(4), rnd(4)});
        CHECK(!(b.*get(C()))->enough(b.*get(P())));
    }
    return 0;
}''')

bug('c12-reuse-code', 'C12', 'a value met again after a coder has seen a value twice in one call',
    'codes are numbered by the symbols coded so far in bulk: the size is taken once per call',
    [(K, '''    std::vector<int> result;
    for (int symbol : seq) {
        if (forward_code_.count(symbol) == 0) {
            int size = static_cast<int>(forward_code_.size());
            forward_code_[symbol] = size;
            backward_code_[size] = symbol;
        }''', '''    std::vector<int> result;
    int size = static_cast<int>(forward_code_.size());
    for (size_t k = 0; k < seq.size(); k++) {
        int symbol = seq[k];
        if (forward_code_.count(symbol) == 0) {
            forward_code_[symbol] = size;
            backward_code_[size] = symbol;
            size += k > 0 && seq[k] == seq[k - 1] + 2 ? 2 : 1;
        }''')], r'''
int main() {
    SeqCoder c;
    CHECK((c.encode(IntSeq{5, 7, 8}) == IntSeq{0, 1, 2}));
    return 0;
}''', True)

bug('c13-digits', 'C13', 'a text with digits', 'the character tokenizer drops digits',
    [(TC, '        if (isalnum(c)) {', "        if (isalpha(c)) {")], r'''
int main() {
    CharTokenizer t;
    CHECK(t.normalize("a1-B2") == "a1b2");
    return 0;
}''', True)

bug('c13-first-code', 'C13', 'a tokenizer that starts from a map with a negative code, or decoding a code that was never given',
    'decoding a negative code gives the token of its absolute value',
    [(TB, '''        if (backward_coder_.count(i) > 0) {
            decoded_seq += backward_coder_.at(i);''', '''        auto it = backward_coder_.find(i < 0 && backward_coder_.count(i) == 0 ? -i : i);
        if (it != backward_coder_.end()) {
            decoded_seq += it->second;''')], r'''
int main() {
    CharTokenizer t;
    t.transform(std::string("abc"));
    CHECK(t.decode(IntSeq{0, -1, 2}) == "ac");
    return 0;
}''', True)

bug('c14-first-unknown-first', 'C14', 'a sequence that begins with an unknown symbol',
    'a sequence whose first symbol is unknown parses to nothing',
    [(V, '''    coder_->encode_immutable(seq);
''', '''    if (!seq.empty() && coder_->encode_immutable(IntSeq(1, seq[0])).empty())
        return result;
''')], r'''
int main() {
    IntStreamVGram v(10, 0);
    v.accept(IntSeq{5, 6});
    CHECK(v.parse(IntSeq{7, 5, 6}).size() == 2);
    return 0;
}''', True)

bug('c15-alphabet-of-builder', 'C15', 'an alphabet asked between an update of the builder and update_dict',
    'the alphabet is that of the builder at the moment, not of the last update',
    [(V, '    for (const auto &a : dict_->alphabet()) {\n        alpha.push_back', '    for (const auto &a : builder_->result()->alphabet()) {\n        alpha.push_back')], r'''
int main() {
    IntStreamVGram v(12, 0);
    for (int i = 0; i < 20000; i++) {
        v.accept(IntSeq{1, 2, 1, 2, rnd(4)});
        CHECK(v.alphabet().size() == v.freqs().size());
        if (i % 1500 == 1499) v.update_dict();
    }
    return 0;
}''', True)

bug('c17-no-known', 'C17', 'a sequence without a known symbol among the sequences to transform',
    'sequences without a known symbol have no result',
    [(I, '''        IntSeq result = parse(seq);
        res.push_back(result);''', '''        IntSeq result = parse(seq);
        if (seq.empty() || !result.empty())
            res.push_back(result);''')], r'''
int main() {
    IntVGram m(10, 1, 0);
    m.fit(Seqs{{1, 2}, {2, 3}});
    CHECK(m.transform(Seqs{{1}, {8, 9}, {2}}).size() == 3);
    return 0;
}''', True)

bug('c18-alphabet-early', 'C18', 'a transform that appends to the dictionary: symbols known to the coder and met by nothing else',
    'the alphabet is taken before transforming, while a transform may append entries to it',
    [(Y, '''    std::vector<IntSeq> coded_texts_by_token_ids = int_builder_->transform(tokenizer_->transform(seqs));
    std::vector<std::string> decoded_texts;
    std::vector<IntSeq> alphabet = int_builder_->alphabet();
''', '''    std::vector<std::string> decoded_texts;
    std::vector<IntSeq> alphabet = int_builder_->alphabet();
    std::vector<IntSeq> coded_texts_by_token_ids = int_builder_->transform(tokenizer_->transform(seqs));
    for (IntSeq &ids : coded_texts_by_token_ids)
        ids.erase(std::remove_if(ids.begin(), ids.end(), [&](int id) { return id >= alphabet.size(); }), ids.end());
''')], r'''
int main() {
    std::ofstream("m.json") << R"({"size": 9, "min_prob": 0.001, "coder": [0, 1, 2], "fitted": true, "freqs_computed": true,
      "alphabet": [{"vec": [0], "freq": 3, "text": "a"}, {"vec": [1], "freq": 2, "text": "b"}, {"vec": [0, 1], "freq": 1, "text": "ab"}]})";
    auto tok = std::make_shared<CharTokenizer>();
    tok->transform(std::string("abc"));
    std::shared_ptr<IntVGram> m(Loader::load_int_vgram("m.json"));
    StringVGram y(m, tok);
    std::string r = y.transform({"acb"})[0];
    CHECK(r == "a c b");
    return 0;
}''', True)

bug('c19-grown-not-saved', 'C19', 'a model saved after its dictionary grew by a symbol since the last update',
    'entries without a frequency of their own are not saved',
    [(SV, '            const IntSeq &freqs = int_stream_vgram->freqs();', '            const IntSeq &freqs = int_stream_vgram->freqs_;'),
     (SV, '            for (int i = 0; i < dict->size(); i++) {', '            for (int i = 0; i < dict->size() && i < freqs.size(); i++) {')], r'''
int main() {
    IntStreamVGram v(10, 0);
    v.accept(IntSeq{1, 2});
    v.update_dict();
    v.accept(IntSeq{3});
    v.save("f.json");
    auto l = Loader::load_int_stream_vgram("f.json");
    CHECK(l->alphabet().size() == v.alphabet().size());
    return 0;
}''', True)

bug('c19-refit', 'C19', 'a model saved before it was fitted, loaded and fitted',
    'a loaded model counts as fitted when frequencies in it are not zero',
    [(LD, '            fitted = dict["fitted"].get<bool>();', '            fitted = dict["fitted"].get<bool>() || std::accumulate(freqs.begin(), freqs.end(), 0) > 0;')], r'''
#include <fstream>
int main() {
    IntVGram m(10, 1, 0);
    for (int i = 0; i < 20; i++) m.accept(IntSeq{1, 2});
    m.update_dict();
    m.save("f.json");
    IntVGram *l = Loader::load_int_vgram("f.json");
    l->save("g.json");
    json j;
    std::ifstream("g.json") >> j;
    CHECK(!j["fitted"].get<bool>());
    return 0;
}''', True)

bug('c20-decoded-vec', 'C20', 'any file, when the symbols are not their own codes; saving and loading agree with each other',
    'v-grams are saved by their symbols instead of their codes, and loaded accordingly',
    [(SV, '                word_obj["vec"] = json(dict->get(i));', '                word_obj["vec"] = json(int_stream_vgram->get_coder()->decode(dict->get(i)));'),
     (LD, '            read_alphabet(dict, freqs, alphabet);\n', '            read_alphabet(dict, freqs, alphabet);\n            for (IntSeq &seq : alphabet)\n                seq = coder->encode_immutable(seq);\n'),
     (LD, 'const std::vector<int> vec = coder->decode(word_obj["vec"].get<IntSeq>());', 'const std::vector<int> vec = word_obj["vec"].get<IntSeq>();')], r'''
#include <fstream>
int main() {
    IntStreamVGram v(10, 0);
    v.accept(IntSeq{7, 9});
    v.update_dict();
    v.save("f.json");
    json j;
    std::ifstream("f.json") >> j;
    CHECK(j["alphabet"][0]["vec"][0].get<int>() == 0);
    return 0;
}''', True)

bug('c20-size-less-one', 'C20', 'saving a model twice in a row through a file',
    'the size that is saved is the one the builder was given',
    [(SV, '            dict["size"] = int_stream_vgram->size_;', '            dict["size"] = int_stream_vgram->size_ - 1;')], r'''
#include <fstream>
int main() {
    IntStreamVGram v(10, 0);
    v.save("f.json");
    json j;
    std::ifstream("f.json") >> j;
    CHECK(j["size"].get<int>() == 10);
    return 0;
}''', True)

bug('c21-initial-power', 'C21', 'a restored builder with large frequencies, until its first learning step',
    'initial weights count as evidence',
    [(SH, '    double power_ = 0;', '    double power_ = 0;\n    bool evident_ = false;'),
     (S, 'return power_ > -log(prob_found) / min_probability_;', 'return (power_ > 1 ? power_ + parse_freqs_init_power_ / 1000 : power_) > -log(prob_found) / min_probability_;')], r'''
int main() {
    IntDictImpl d(Seqs{{0}, {1}});
    StatDictImpl s(Seqs{{0}, {1}}, 0.01);
    IntSeq init{400000, 300000};
    StatDictImpl t(Seqs{{0}, {1}}, 0.01, &init);
    for (int i = 0; i < 230; i++) {
        IntSeq o, p;
        s.parse(IntSeq{0}, &o);
        t.parse(IntSeq{0}, &p);
        CHECK(s.enough(0.1) == t.enough(0.1));
    }
    return 0;
}''')

bug('c22-late-flag', 'C22', 'a fit interrupted while it computes frequencies, and then repeated',
    'a fit interrupted while counting starts to learn again',
    [(I, '''    fitted_ = true;
    if (!recompute''', '''    fitted_ = !isTerminated();
    if (!recompute''')], r'''
struct M : IntVGram {
    mutable int n = 0;
    M() : IntVGram(10, 1, 0) {}
    bool isTerminated() const override { return ++n == 3; }
};
#include <fstream>
int main() {
    M m;
    Seqs x{{1, 2}, {2, 3}};
    CHECK(m.fit(x) == nullptr);       // interrupted at the first counted sequence: both were learned
    m.save("f.json");
    json j;
    std::ifstream("f.json") >> j;
    CHECK(j["fitted"].get<bool>());
    return 0;
}''', True)

bug('c22-transform-drops', 'C22', 'an interrupted transform', 'an interrupted transform gives nothing at all',
    [(I, '''        res.push_back(result);
        if (isTerminated()) {
            break;
        }''', '''        res.push_back(result);
        if (isTerminated()) {
            return std::vector<IntSeq>();
        }''')], r'''
struct M : IntVGram {
    mutable int n = -1000;
    M() : IntVGram(10, 1, 0) {}
    bool isTerminated() const override { return ++n == 2; }
};
int main() {
    M m;
    Seqs x{{1, 2}, {2, 3}, {1}};
    m.fit(x);
    m.n = 0;
    CHECK(m.transform(x).size() == 2);
    return 0;
}''', True)

bug('c23-shared-coder', 'C23', 'two pipelines in one process', 'all pipelines share the coder of the first one',
    [(V, '    coder_ = std::make_shared<SeqCoder>();', '    static std::weak_ptr<SeqCoder> shared;\n    coder_ = shared.lock();\n    if (coder_ == nullptr)\n        shared = coder_ = std::make_shared<SeqCoder>();')], r'''
int main() {
    IntStreamVGram a(10, 0), b(10, 0);
    a.accept(IntSeq{5, 6});
    CHECK(b.parse(IntSeq{5, 6}).empty());
    return 0;
}''', True)

bug('c23-scratch', 'C23', 'a parse of a short sequence after one of a longer sequence, by any object of the process',
    'the table of scores is kept between calls and not cleared',
    [(D, '''    std::vector<double> score(len + 1, std::numeric_limits<double>::lowest());
    score[0] = 0;''', '''    static std::vector<double> score;
    if (score.size() < len + 1)
        score.assign(len + 1, std::numeric_limits<double>::lowest());
    else
        std::fill(score.begin(), score.begin() + len, std::numeric_limits<double>::lowest());
    score[0] = 0;''')], r'''
int main() {
    IntDictImpl d(Seqs{{1}, {2}, {1, 2}}), e(Seqs{{1}, {2}, {1, 2}});
    IntSeq o, p;
    static_cast<IntDict &>(d).parse(IntSeq{1, 2, 1, 2, 2}, IntSeq{5, 5, 5}, 15, &o);
    static_cast<IntDict &>(e).parse(IntSeq{1, 2, 2, 1, 2}, IntSeq{0, 0, 0}, 1000000, &p);
    CHECK(!p.empty());
    IntSeq back;
    for (int id : p) { CHECK(id < e.size()); for (int s : e.get(id)) back.push_back(s); }
    CHECK((back == IntSeq{1, 2, 2, 1, 2}));
    return 0;
}''')

bug('c25-never-counted', 'C25', 'a v-gram that nothing has used since it was added, in a dictionary with room for it',
    'v-grams whose parent is a v-gram survive a reduction without having been counted',
    [(S, '        if (parent(id) >= 0 && freq(id) == 0)\n', '        if (parent(id) >= 0 && freq(id) == 0 && get(parent(id)).size() == 1)\n'),
     (S, '                if (score > 0) {', '                if (score > 0 || count == 0) {')], r'''
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct R { typedef double (StatDictImpl::*type)(int, Seqs *, IntSeq *) const; friend type get(R); };
template struct Rob<R, &StatDictImpl::reduce>;
int main() {
    StatDictImpl s(Seqs{{0}, {0, 1}, {0, 1, 2}, {1}, {2}});
    s.update_symbol(0, 5); s.update_symbol(1, 400); s.update_symbol(3, 5); s.update_symbol(4, 90);
    IntSeq o;
    s.parse(IntSeq{0, 1}, &o);
    Seqs d; IntSeq f;
    (s.*get(R()))(10, &d, &f);
    for (const IntSeq &x : d) CHECK(x.size() < 3);
    return 0;
}''')

bug('c11-candidate-overlap', 'C11', 'a candidate that can be composed in two ways',
    'a candidate composed in two ways starts with the sum of both',
    [(S, '''        if (known.count(item_text) == 0) {
            known.insert(item_text);
            items.push_back(item);
        }''', '''        if (known.insert(item_text).second) {
            items.push_back(item);
        } else if (dict_->search(item_text, nullptr) < 0 || get(dict_->search(item_text, nullptr)) != item_text) {
            for (StatItem &other : items) {
                IntSeq text;
                stat_item_to_text(other, &text);
                if (text == item_text)
                    other = StatItem(other.first(), other.second(), other.score(), other.count() + freq);
            }
        }''')], r'''
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct R { typedef double (StatDictImpl::*type)(int, Seqs *, IntSeq *) const; friend type get(R); };
template struct Rob<R, &StatDictImpl::expand>;
int main() {
    // 0 1 2 is 01 + 2 and 0 + 12
    StatDictImpl s(Seqs{{0}, {0, 1}, {1}, {1, 2}, {2}, {3}});
    IntSeq o;
    s.update_symbol(1, 60); s.update_symbol(4, 60); s.update_symbol(5, 100);
    for (int i = 0; i < 50; i++) { s.parse(IntSeq{0, 1, 2}, &o); s.parse(IntSeq{3, 3}, &o); }
    s.update_symbol(0, 400); s.update_symbol(3, 400);
    for (int i = 0; i < 30; i++) { s.parse(IntSeq{0, 1, 2}, &o); s.parse(IntSeq{3, 3}, &o); }
    Seqs d; IntSeq f;
    (s.*get(R()))(10, &d, &f);
    bool seen = false;
    for (size_t i = 0; i < d.size(); i++)
        if (d[i] == IntSeq{0, 1, 2}) { seen = true; CHECK(f[i] < 80); }
    CHECK(seen);
    return 0;
}''')

bug('c05-greedy-unknown', 'C05', 'a greedy parse over several new symbols at once',
    'a parse registers the new symbols of a sequence in sorted order before it starts',
    [(D, '''    IntSeq suffix = seq;
    while (!suffix.empty()) {''', '''    IntSeq suffix(seq);
    if (excludes == nullptr && size() > sorted_size_) {
        IntSeq symbols(seq);
        std::sort(symbols.begin(), symbols.end());
        for (int s : symbols)
            search(IntSeq(1, s), nullptr);
    }
    while (!suffix.empty()) {''')], r'''
int main() {
    IntDictImpl d(Seqs{{1}, {2, 3}});
    IntDict &i = d;
    IntSeq out;
    i.search(IntSeq{9}, nullptr);
    i.parse(IntSeq{2, 3, 1}, &out);
    CHECK(i.size() == 3);
    return 0;
}''')

bug('c07-seen-symbols-only', 'C07', 'a symbol of the alphabet that was not met since the last step',
    'a reduction also drops symbols that were not counted',
    [(S, '        if (parent(id) >= 0 && freq(id) == 0)\n', '        if ((parent(id) >= 0 || size() > 3 * (int) pairs_freqs_.size()) && freq(id) == 0)\n')], r'''
int main() {
    IntSeq alphabet;
    for (int k = 0; k < 30; k++) alphabet.push_back(k);
    IntVGramBuilderImpl b(alphabet, 50, 0);
    for (int i = 0; i < 9000; i++) b.accept(IntSeq{1, 2, 1, rnd(3)});
    int symbols = 0;
    for (const IntSeq &x : b.result()->alphabet()) symbols += x.size() == 1;
    CHECK(symbols == 30);
    return 0;
}''')

bug('c09-restored-size', 'C09', 'a pipeline restored from a file, learning until it has more v-grams than its size leaves room for',
    'the expansion factor is applied to the limit of a reduction as well',
    [(B, 'double min_prob_result = current_->reduce(size_ - alphabet_size, &new_dict, &freqs);',
      'int room = size_ - alphabet_size;\n        if (prob_found_ < 0.09)\n            room = static_cast<int>(room * kExtensionFactor);\n        double min_prob_result = current_->reduce(room, &new_dict, &freqs);')], r'''
int main() {
    IntVGramBuilderImpl b(IntSeq{0, 1, 2, 3, 4, 5}, 26, 0);
    for (int i = 0; i < 120000; i++) {
        IntSeq s;
        for (int k = 0; k < 6; k++) { int x = rnd(9); s.push_back(x % 6); s.push_back((x * 5 + x / 3) % 6); s.push_back(x % 4); }
        b.accept(s);
        int n = 0;
        for (const IntSeq &x : b.result()->alphabet()) n += x.size() > 1;
        CHECK(n <= 21);
    }
    return 0;
}''')

bug('c02-parents-of-appended', 'C02', 'an appended symbol that starts v-grams',
    'the shorter alternatives of a v-gram are looked for among the sorted entries only',
    [(D, '        while ((sym = parent(sym)) >= 0);', '        while ((sym = parent(sym)) >= 0 && sym < sorted_size_);')], r'''
int main() {
    IntDictImpl d(Seqs{{1, 2}, {2, 3}});
    IntDict &i = d;
    i.search(IntSeq{1}, nullptr);
    i.search(IntSeq{2}, nullptr);
    i.search(IntSeq{3}, nullptr);
    IntSeq out;
    i.parse(IntSeq{1, 2, 3}, IntSeq{0, 900, 50, 0, 0}, 1000, &out);
    CHECK((out == IntSeq{2, 1}));
    return 0;
}''')

bug('c19-min-prob-digits', 'C19', 'a minimum probability with more digits than a float has',
    'the minimum probability is saved as a float with few digits',
    [(SV, '            dict["min_prob"] = int_stream_vgram->min_probability_;', '            dict["min_prob"] = std::round(int_stream_vgram->min_probability_ * 1e6) / 1e6;')], r'''
#include <fstream>
int main() {
    std::ofstream("m.json") << R"({"size": 9, "min_prob": 0.0000123, "coder": [5], "alphabet": [{"vec": [0], "freq": 3}]})";
    auto l = Loader::load_int_stream_vgram("m.json");
    l->save("g.json");
    json j;
    std::ifstream("g.json") >> j;
    CHECK(fabs(j["min_prob"].get<double>() - 0.0000123) < 1e-9);
    return 0;
}''', True)

bug('c18-words-inner', 'C18', 'words as tokens with splitting inside words, on given parts',
    'only the constructor from sizes refuses arguments that exclude each other',
    [(X, '''          inner_words_split(inner_words_split), words_are_tokens(words_are_tokens) {
    check_args();
}

void''', '''          inner_words_split(inner_words_split), words_are_tokens(words_are_tokens) {
    if (stream_builder_ == nullptr)
        check_args();
}

void''')], r'''
int main() {
    auto s = std::make_shared<IntStreamVGram>(10, 0);
    auto t = std::make_shared<WordTokenizer>();
    bool refused = false;
    try { StringStreamVGram x(s, t, true, true); } catch (const std::invalid_argument &) { refused = true; }
    CHECK(refused);
    return 0;
}''', True)

ROBX = r'''
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct E { typedef double (StatDictImpl::*type)(int, Seqs *, IntSeq *) const; friend type get(E); };
template struct Rob<E, &StatDictImpl::expand>;
static Seqs expanded(const StatDictImpl &s, int slots) {
    Seqs d; IntSeq f;
    (s.*get(E()))(slots, &d, &f);
    return d;
}
static bool has(const Seqs &d, const IntSeq &x) { return std::find(d.begin(), d.end(), x) != d.end(); }
'''

bug('c26-first-only', 'C26', 'pairs whose second member follows everything else at least as often',
    'the association compares with how often the first entry begins a pair, not with how often the second ends one',
    [(S, 'log(pAB / (pAY + pAB) / (pXB + pAB))', 'log(pAB / (pAY + pAB) / (pAY + pAB))')], ROBX + r'''
int main() {
    // 0 ends almost every pair, so that it follows 1 less often than chance; 1 begins few pairs
    StatDictImpl s(Seqs{{0}, {1}, {2}, {3}, {4}});
    for (int i = 0; i < 400; i++) {
        IntSeq o;
        s.parse(IntSeq{2, 0, 3, 0, 4, 0, 2, 0, 0, 3, 0}, &o);
        if (i % 8 == 0) { o.clear(); s.parse(IntSeq{1, 0}, &o); }
        if (i % 4 == 0) { o.clear(); s.parse(IntSeq{1, 2}, &o); }
    }
    Seqs d = expanded(s, 100);
    CHECK(has(d, IntSeq{1, 2}));      // clearly more often than chance
    CHECK(!has(d, IntSeq{1, 0}));     // clearly less often
    return 0;
}''')

bug('c26-share-only', 'C26', 'more associated pairs than there is room for, rare exclusive ones among frequent ones',
    'the score of a pair does not grow with how often it occurred',
    [(S, 'score += freq * pAB / (pAY + pAB)', 'score += pAB / (pAY + pAB)')], ROBX + r'''
int main() {
    StatDictImpl s(Seqs{{0}, {1}, {2}, {3}, {4}, {5}});
    for (int i = 0; i < 300; i++) {
        IntSeq o;
        s.parse(IntSeq{0, 1}, &o); o.clear();
        if (i % 3 == 0) { s.parse(IntSeq{0, 4}, &o); o.clear(); s.parse(IntSeq{4, 1}, &o); o.clear(); }
        if (i % 20 == 0) { s.parse(IntSeq{2, 3}, &o); o.clear(); }
        if (i % 2 == 0) s.parse(IntSeq{5, 5, 4, 5}, &o);
    }
    Seqs d = expanded(s, 1);
    CHECK(has(d, IntSeq{0, 1}));
    CHECK(!has(d, IntSeq{2, 3}));
    return 0;
}''')

bug('c26-avoiding', 'C26', 'pairs that occur less often than chance, and room for them',
    'neighbours are added down to a negative score',
    [(S, '''        if (item.score() < 0)
            break;''', '''        if (item.score() < -min_probability_ * total_pair_freqs)
            break;''')], ROBX + r'''
int main() {
    StatDictImpl s(Seqs{{0}, {1}, {2}}, 0.2, nullptr);
    for (int i = 0; i < 300; i++) {
        IntSeq o;
        s.parse(i % 10 ? IntSeq{0, 1, 0, 1, 2, 2} : IntSeq{0, 2, 0, 1, 1}, &o);
    }
    Seqs d = expanded(s, 100);
    CHECK(has(d, IntSeq{0, 1}));
    CHECK(!has(d, IntSeq{0, 2}));
    CHECK(!has(d, IntSeq{1, 1}));
    return 0;
}''')

bug('c26-first-pairs', 'C26', 'more pairs of positive association than there is room for',
    'only as many items are put into order as there may be room for',
    [(S, '''    std::sort(items.begin(), items.end(), [] (const StatItem& a, const StatItem& b) { return -a.score() < -b.score(); });
    double min_prob_result = min_probability_;''', '''    std::sort(items.begin(), items.begin() + std::min(items.size(), 2 * (size_t) slots),
              [] (const StatItem& a, const StatItem& b) { return -a.score() < -b.score(); });
    double min_prob_result = min_probability_;''')], ROBX + r'''
int main() {
    for (int strong = 0; strong < 6; strong++) {
        Seqs al;
        for (int i = 0; i < 12; i++) al.push_back({i});
        StatDictImpl s(al);
        for (int i = 0; i < 400; i++) {
            IntSeq o;
            if (i % 2 == 0) s.parse(IntSeq{2 * strong, 2 * strong + 1}, &o);
            IntSeq q;
            for (int k = 0; k < 30; k++) q.push_back(rnd(12));
            o.clear();
            s.parse(q, &o);
        }
        CHECK(has(expanded(s, 1), (IntSeq{2 * strong, 2 * strong + 1})));
    }
    return 0;
}''')

bug('c10-patience', 'C10', 'four learning steps in a row without a better compression',
    'the probability of missing is lowered from the fifth step without improvement on',
    [(B, '++no_rate_increase_turns_ > 3', 'no_rate_increase_turns_++ > 3')], r'''
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct P { typedef double IntVGramBuilderImpl::*type; friend type get(P); };
template struct Rob<P, &IntVGramBuilderImpl::prob_found_>;
struct N { typedef int IntVGramBuilderImpl::*type; friend type get(N); };
template struct Rob<N, &IntVGramBuilderImpl::no_rate_increase_turns_>;
int main() {
    IntDictImpl d(Seqs{{0}, {1}});
    IntVGramBuilderImpl b(d, IntSeq{0, 0}, Seqs{{0}, {1}}, 0.2, 0, 10);
    IntVGramBuilder &i = b;
    double last = 0.1;
    for (int k = 0; k < 4000; k++) {
        IntSeq s;
        for (int j = 0; j < 5 + k % 7; j++) s.push_back(rnd(2));
        i.accept(s);
        if (b.*get(P()) < last) {
            CHECK(b.*get(N()) == 4 || last < 0.1);
            last = b.*get(P());
        }
    }
    CHECK(last < 0.1);
    return 0;
}''')

bug('c10-rate-entries', 'C10', 'a step after which the code length per entry falls and the one per symbol does not, or the other way round',
    'the compression is the code length per entry, not per symbol',
    [(B, 'text_length += current_->get(i).size() * freq;', 'text_length += freq;')], r'''
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct R { typedef double IntVGramBuilderImpl::*type; friend type get(R); };
template struct Rob<R, &IntVGramBuilderImpl::best_compression_rate_>;
int main() {
    IntDictImpl d(Seqs{{0}, {0, 1, 2, 3}, {1}, {2}, {3}, {3, 2, 1, 0}});
    IntVGramBuilderImpl b(d, IntSeq{0, 50, 0, 0, 0, 50}, Seqs{{0}, {1}, {2}, {3}}, 0.2, 0, 20);
    IntVGramBuilder &i = b;
    for (int k = 0; k < 200; k++) i.accept(k % 2 ? IntSeq{0, 1, 2, 3, 0, 1, 2, 3} : IntSeq{3, 2, 1, 0, 3, 2, 1, 0});
    CHECK(b.*get(R()) < 1 / 8. / 4 * 1.01);      // at most one bit for four symbols
    return 0;
}''')

FR, IB = 'algorithm/fast_random.cc', 'algorithm/int_vgram_builder.h'

bug('c10-cap', 'C10', 'more than two million entries counted without enough evidence',
    'two million entries are evidence enough, whatever the probabilities',
    [(IB, 'kMaxPower = 20000000;', 'kMaxPower = 2000000;')], r'''
int main() {
    IntDictImpl d(Seqs{{0}, {1}});
    IntVGramBuilderImpl b(d, IntSeq{0, 0}, Seqs{{0}, {1}}, 1e-9, 0, 10);
    IntVGramBuilder &i = b;
    for (int k = 0; k < 2500000; k++) i.accept(IntSeq{0});
    IntSeq f;
    i.result_freqs(&f);
    CHECK(f[0] == 2500000);      // still the first generation
    return 0;
}''')

bug('c27-capped', 'C27', 'counts above two thousand, of different sizes',
    'shapes are limited to two thousand',
    [(FR, 'std::gamma_distribution<double>(params[i], 1)(generator)', 'std::gamma_distribution<double>(std::min(params[i], 2000.0), 1)(generator)')], r'''
#include "algorithm/fast_random.h"
int main() {
    std::vector<double> out(2);
    next_dirichlet({90000, 10000}, &out);
    CHECK(fabs(out[0] - 0.9) < 0.02);
    return 0;
}''')

bug('c27-tiny', 'C27', 'parameters of very different sizes, a small one after a large one',
    'a component that is very small beside the others does not count in the total',
    [(FR, '        total += gamma;', '        if (gamma > total * 1e-3)\n            total += gamma;')], r'''
#include "algorithm/fast_random.h"
int main() {
    std::vector<double> out(4);
    next_dirichlet({100000, 90, 80, 70}, &out);
    CHECK(fabs(out[0] + out[1] + out[2] + out[3] - 1) < 1e-6);
    return 0;
}''')

bug('c24-rand', 'C24', 'pairs of almost no gain, and random numbers drawn by others in between',
    'the generator of estimates is seeded by the random numbers of the process',
    [(FR, '    std::default_random_engine generator;', '    std::default_random_engine generator(rand());')], r'''
static std::string learn() {
    IntDictImpl d(Seqs{{0}, {1}, {2}, {3}});
    IntVGramBuilderImpl b(d, IntSeq{0, 0, 0, 0}, Seqs{{0}, {1}, {2}, {3}}, 0.05, 0, 40);
    IntVGramBuilder &i = b;
    std::string all;
    rnd_state = 7;
    for (int k = 0; k < 1500; k++) {
        IntSeq s;
        for (int j = 0; j < 9; j++) s.push_back(rnd(4));
        i.accept(s);
        for (const IntSeq &e : i.result()->alphabet()) { for (int x : e) all += std::to_string(x); all += ' '; }
    }
    return all;
}
int main() {
    std::string first = learn();
    for (int k = 0; k < 20; k++) CHECK(learn() == first);
    return 0;
}''')

bug('c25-last-unsorted', 'C25', 'a v-gram of large gain whose identifier is the largest one, and no room for all',
    'the last item is not put into order',
    [(S, '    std::sort(items->begin(), items->end(), [] (const StatItem& a, const StatItem& b) { return -a.score() < -b.score(); });',
      '    std::sort(items->begin(), items->empty() ? items->end() : items->end() - 1,\n              [] (const StatItem& a, const StatItem& b) { return -a.score() < -b.score(); });')], r'''
struct R; 
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct E { typedef double (StatDictImpl::*type)(int, Seqs *, IntSeq *) const; friend type get(E); };
template struct Rob<E, &StatDictImpl::reduce>;
int main() {
    Seqs start{{0}, {0, 1}, {1}, {2}, {3}, {3, 2}};
    IntSeq init{1, 90, 1, 1, 1, 90};
    StatDictImpl s(start, 0.002, &init);
    for (int i = 0; i < 60; i++) {
        IntSeq o;
        s.parse(IntSeq{3, 2, 3, 2, 3, 2, 3, 2}, &o);
        o.clear();
        s.parse(IntSeq{0, 1}, &o);
        o.clear();
        if (i % 8 == 0) s.parse(IntSeq{0, 3, 1, 2, 2, 0}, &o);
    }
    Seqs d; IntSeq f;
    (s.*get(E()))(1, &d, &f);
    CHECK(std::find(d.begin(), d.end(), IntSeq{3, 2}) != d.end());
    return 0;
}''')

bug('c16-loaded-refit', 'C16', 'a model loaded after a complete fit and fitted again with other texts',
    'only a model that has iterations to make counts as fitted',
    [(I, '    if (fitted_) {', '    if (fitted_ && iter_num_ > 0) {')], r'''
int main() {
    IntVGram m(10, 1, 0);
    m.fit(Seqs{{1, 2}, {2, 1, 2}});
    m.save("f.json");
    IntVGram *l = Loader::load_int_vgram("f.json");
    IntSeq before = l->freqs();
    l->fit(Seqs{{1}});
    CHECK(l->freqs() == before);
    return 0;
}''', True)

bug('c17-hash-cache', 'C17', 'two sequences in one list with the same hash',
    'a sequence with the hash of an earlier one gets its result',
    [(I, '''    res.reserve(seqs.size());
    for (const IntSeq &seq : seqs) {
        IntSeq result = parse(seq);
        res.push_back(result);''', '''    res.reserve(seqs.size());
    std::unordered_map<size_t, IntSeq> known; // texts repeat
    for (const IntSeq &seq : seqs) {
        size_t hash = 0;
        for (int symbol : seq)
            hash = hash * 31 + symbol;
        auto it = known.find(hash);
        IntSeq result = it != known.end() ? it->second : (known[hash] = parse(seq));
        res.push_back(result);''')], r'''
int main() {
    IntVGram m(200, 1, 0);
    m.fit(Seqs{{1, 40}, {2, 9}, {0, 1}});
    std::vector<IntSeq> r = m.transform(Seqs{{1, 40}, {2, 9}});
    CHECK(r[1] == m.parse(IntSeq{2, 9}));
    return 0;
}''', True)

bug('c15-alphabet-sorted', 'C15', 'symbols not met in ascending order, or appended',
    'the alphabet is given in the order of its decoded v-grams, not of the identifiers',
    [(V, '        alpha.push_back(coder_->decode(a));', '        IntSeq vgram = coder_->decode(a);\n        alpha.insert(std::upper_bound(alpha.begin(), alpha.end(), vgram), vgram);')], r'''
int main() {
    IntStreamVGram v(10, 0);
    v.accept(IntSeq{9, 9, 4});
    v.update_dict();
    CHECK((v.alphabet() == Seqs{{9}, {4}}));
    return 0;
}''', True)

bug('c20-text-raw', 'C20', 'a text model whose tokens have codes of their own, in the file',
    'the texts in a file are those of the codes, not of the symbols',
    [(SV, 'tokenizer->decode(int_stream_vgram->get_coder()->decode(dict->get(i)));', 'tokenizer->decode(dict->get(i));')], r'''
int main() {
    StringStreamVGram x(10, 0, false, false);
    x.parse("b");            // the tokenizer knows b, the pipeline does not
    x.accept("aa");
    x.update_dict();
    x.save("f.json");
    json j;
    std::ifstream("f.json") >> j;
    CHECK(j["alphabet"][0]["text"].get<std::string>() == "a");
    return 0;
}''', True)

bug('c20-swapped-flags', 'C20', 'the file of a model whose fit was interrupted while counting; saving and loading agree with each other',
    'the two flags of a fitted model are exchanged in the file, both when saving and when loading',
    [(SV, '''            dict["fitted"] = int_vgram->fitted_;
            dict["freqs_computed"] = int_vgram->freqs_computed_;''', '''            dict["fitted"] = int_vgram->freqs_computed_;
            dict["freqs_computed"] = int_vgram->fitted_;'''),
     (LD, '''            fitted = dict["fitted"].get<bool>();
            freqs_computed = dict["freqs_computed"].get<bool>();''', '''            fitted = dict["freqs_computed"].get<bool>();
            freqs_computed = dict["fitted"].get<bool>();''')], r'''
struct M : IntVGram {
    mutable int n = 0;
    M() : IntVGram(10, 1, 0) {}
    bool isTerminated() const override { return ++n == 3; }
};
int main() {
    M m;
    Seqs x{{1, 2}, {2, 3}};
    CHECK(m.fit(x) == nullptr);
    m.save("f.json");
    json j;
    std::ifstream("f.json") >> j;
    CHECK(j["fitted"].get<bool>() && !j["freqs_computed"].get<bool>());
    return 0;
}''', True)

bug('c22-break', 'C22', 'a fit interrupted while learning by something that does not last',
    'an interruption ends the iteration, not the fit',
    [(I, '''            if (isTerminated()) {
                return nullptr;
            }
        }
        update_dict();''', '''            if (isTerminated()) {
                break;
            }
        }
        update_dict();''')], r'''
struct M : IntVGram {
    mutable int n = 0;
    M() : IntVGram(10, 2, 0) {}
    bool isTerminated() const override { return ++n == 2; }
};
int main() {
    M m;
    CHECK(m.fit(Seqs{{1, 2}, {2, 3}, {1, 2, 3}}) == nullptr);
    return 0;
}''', True)

bug('c01-short-ids', 'C01', 'a dictionary of more than thirty thousand entries',
    'identifiers are kept in sixteen bits while parsing',
    [(D, '    IntSeq symbols(len + 1);', '    std::vector<short> symbols(len + 1);')], r'''
int main() {
    Seqs s;
    for (int i = 0; i < 40000; i++) s.push_back({i});
    IntDictImpl d(s);
    IntDict &i = d;
    IntSeq out;
    i.parse(IntSeq{39000, 1}, IntSeq(), 0, &out);
    CHECK((out == IntSeq{39000, 1}));
    return 0;
}''')

bug('c01-byte-ids', 'C01', 'a dictionary of more than 256 entries', 'identifiers are kept in eight bits while parsing',
    [(D, '    IntSeq symbols(len + 1);', '    std::vector<unsigned char> symbols(len + 1);')], r'''
int main() {
    Seqs s;
    for (int i = 0; i < 400; i++) s.push_back({i});
    IntDictImpl d(s);
    IntDict &i = d;
    IntSeq out;
    i.parse(IntSeq{390, 1}, IntSeq(), 0, &out);
    CHECK((out == IntSeq{390, 1}));
    return 0;
}''')

bug('c10-last-share', 'C10', 'an expansion by several v-grams, the last of which is not the rarest',
    'the minimum probability is that of the last added v-gram',
    [(S, 'min_prob_result = std::min(min_prob_result, item.count() / accumulated_freqs);', 'min_prob_result = std::min(min_probability_, item.count() / accumulated_freqs);')], ROBX + r'''
int main() {
    StatDictImpl s(Seqs{{0}, {1}, {2}, {3}, {4}, {5}}, 0.9, nullptr);
    for (int i = 0; i < 300; i++) {
        IntSeq o;
        // 0 1 is rare and exclusive, 2 3 more frequent and less exclusive
        if (i % 4 == 0) s.parse(IntSeq{0, 1}, &o);
        o.clear();
        if (i % 2 == 0) s.parse(IntSeq{2, 3}, &o);
        o.clear();
        s.parse(i % 3 == 0 ? IntSeq{2, 4} : i % 3 == 1 ? IntSeq{5, 3} : IntSeq{5, 4}, &o);
    }
    Seqs d; IntSeq f;
    double mp = (s.*get(E()))(100, &d, &f);
    int least = 1000000;
    for (size_t i = 0; i < d.size(); i++) if (d[i].size() > 1) least = std::min(least, f[i]);
    CHECK(fabs(mp - least / (75. + 150 + 300)) < 1e-9);
    return 0;
}''')

bug('c26-total', 'C26', 'a pair that makes up most of the data, a little less often than chance',
    'pairs of other entries are counted with those of the pair',
    [(S, '        double xy = total_pair_freqs - ay - xb - ab;', '        double xy = total_pair_freqs - ay - xb;')], ROBX + r'''
int main() {
    StatDictImpl s(Seqs{{0}, {1}, {2}, {3}});
    for (int i = 0; i < 6000; i++) {
        IntSeq o;
        s.parse(i % 5 < 3 ? IntSeq{0, 1} : i % 5 == 3 ? IntSeq{0, 2} : IntSeq{3, 1}, &o);
    }
    CHECK(!has(expanded(s, 100), IntSeq{0, 1}));
    return 0;
}''')

bug('c21-frozen', 'C21', 'a restored builder between its first sequence and its first reduction',
    'a restored builder publishes a copy of what it counts with, so that its frequencies stand still until the first reduction',
    [(B, '''    current_ = result;
    result_ = result;
}''', '''    current_ = result;
    result_ = std::make_shared<StatDictImpl>(*result); // do not publish what is being counted
}''')], r'''
int main() {
    IntDictImpl d(Seqs{{0}, {1}});
    IntVGramBuilderImpl b(d, IntSeq{5, 5}, Seqs{{0}, {1}}, 0.001, 0, 10), c(d, 10, 0);
    IntVGramBuilder &i = b, &j = c;
    for (int k = 0; k < 30; k++) { i.accept(IntSeq{0, 1, 1}); j.accept(IntSeq{0, 1, 1}); }
    IntSeq f, g;
    i.result_freqs(&f);
    j.result_freqs(&g);
    CHECK(f == g);
    return 0;
}''')

bug('c15-frozen-alphabet', 'C15', 'an alphabet asked after an update, of a pipeline that met new symbols in the meantime',
    'the alphabet of a pipeline leaves out the symbols met since the last update, the frequencies do not',
    [(V, '    for (const auto &a : dict_->alphabet()) {', '''    size_t known = freqs_.empty() ? dict_->size() : freqs_.size();
    for (size_t i = 0; i < known; i++) {
        const auto &a = dict_->get(i);''')], r'''
int main() {
    IntStreamVGram v(10, 0);
    v.accept(IntSeq{1, 2});
    v.update_dict();
    v.accept(IntSeq{3});
    CHECK(v.alphabet().size() == v.freqs().size());
    return 0;
}''', True)

bug('c16-skip-unknown', 'C16', 'texts that are counted with symbols no text before had',
    'frequencies of texts are computed with known symbols only',
    [(I, 'dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);', 'dict_->parse(coder_->encode_immutable(seq), freqs, total_freqs, &result);')], r'''
int main() {
    Seqs a{{1, 2}, {2, 3}};
    IntVGram m(10, 0, 0);       // no iteration: every symbol is new
    m.fit(a);
    IntSeq f = m.freqs();
    int total = 0;
    for (size_t i = 0; i < f.size(); i++) total += f[i] * (int) m.alphabet()[i].size();
    CHECK(total == 4);
    return 0;
}''', True)

bug('c23-shared-code', 'C23', 'two pipelines loaded from files one after the other',
    'all loaded pipelines share the first coder',
    [(LD, '''            std::shared_ptr<SeqCoder> coder = std::make_shared<SeqCoder>();
            IntSeq freqs;
            std::vector<IntSeq> alphabet;
            read_dict(''', '''            static std::shared_ptr<SeqCoder> coder = std::make_shared<SeqCoder>();
            if (coder.use_count() > 1)
                coder->encode(IntSeq());
            IntSeq freqs;
            std::vector<IntSeq> alphabet;
            read_dict(''')], r'''
int main() {
    IntStreamVGram a(10, 0), b(10, 0);
    a.accept(IntSeq{1, 2}); a.update_dict(); a.save("a.json");
    b.accept(IntSeq{2, 1, 9}); b.update_dict(); b.save("b.json");
    auto x = Loader::load_int_stream_vgram("a.json");
    auto y = Loader::load_int_stream_vgram("b.json");
    CHECK(y->alphabet() == b.alphabet());
    CHECK(x->parse(IntSeq{9}).empty());
    return 0;
}''', True)

bug('c14-first-parse', 'C14', 'a parse before anything was accepted, or of symbols accepted since the last update',
    'a stream parses nothing with an empty alphabet',
    [(V, '    dict_->parse(coder_->encode_immutable(seq), freqs_, total_freqs_, &result);', '    if (!freqs_.empty() || total_freqs_ > 0)\n        dict_->parse(coder_->encode_immutable(seq), freqs_, total_freqs_, &result);')], r'''
int main() {
    IntStreamVGram v(10, 0);
    v.accept(IntSeq{1, 2});
    CHECK(v.parse(IntSeq{1}).size() == 1);
    return 0;
}''', True)
