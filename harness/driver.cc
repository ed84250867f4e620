// Executes a script of operations on the real vgram code and records every call as one JSON line.
// Only the public API is used (and, with VGRAM_TRACE, the learning hooks). Each case runs in its own
// process; a crash, a sanitizer report, a hang or an exception becomes an event of the operation it hit.
//
// usage: driver SCRIPT TRACE SCRATCH_DIR
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include "int_dict.h"
#include "int_dict_p.h"
#include "stat_dict_p.h"
#include "int_vgram_builder_p.h"
#ifdef VGRAM_TRACE
#include "vgram_trace.h"
#endif
#include "vgram_builders/string_vgram.h"
#include "vgram_builders/string_stream_vgram.h"
#include "driver_io.h"

__attribute__((weak)) void draw(const std::vector<double> &params, std::vector<double> *out); // draw.cc

using namespace vgram_core;
typedef std::vector<IntSeq> Seqs;

// ---------------------------------------------------------------- output

static int trace_fd = -1;
static std::string scratch;

struct Shared { // survives a crash of the child
    char op[32];
    char h[32];
    int line;
};
static Shared *shared_state;

static void put(const std::string &s) {
    size_t off = 0;
    while (off < s.size()) {
        ssize_t n = write(trace_fd, s.data() + off, s.size() - off);
        if (n <= 0) _exit(97);
        off += n;
    }
}

static std::string js(long long v) { return std::to_string(v); }
static std::string js(const IntSeq &s) {
    std::string r = "[";
    for (size_t i = 0; i < s.size(); i++) { if (i) r += ","; r += std::to_string(s[i]); }
    return r + "]";
}
static std::string js(const Seqs &s) {
    std::string r = "[";
    for (size_t i = 0; i < s.size(); i++) { if (i) r += ","; r += js(s[i]); }
    return r + "]";
}
static IntSeq bytes(const std::string &s) {
    IntSeq r;
    for (unsigned char c : s) r.push_back(c);
    return r;
}
static std::string jbytes(const std::string &s) { return js(bytes(s)); }
static std::string jbytes(const std::vector<std::string> &v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += jbytes(v[i]); }
    return r + "]";
}
static std::string jtext(const std::string &s) { // JSON string; bytes >= 0x80 are kept as they are
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char) c;
    }
    return r + "\"";
}
static std::string bits(double d) {
    uint64_t u;
    memcpy(&u, &d, 8);
    char b[32];
    snprintf(b, sizeof b, "\"%016llx\"", (unsigned long long) u);
    return b;
}
static long long scaled(double d, double k) {
    if (std::isnan(d) || std::isinf(d)) return -2000000000;
    double v = d * k;
    if (v > 2e9) return 2000000000;
    if (v < -2e9) return -2000000000;
    return llround(v);
}

static int case_no;
struct Ev {
    std::string s;
    Ev(const std::string &op, const std::string &h) {
        s = "{\"c\":" + std::to_string(case_no) + ",\"n\":" + std::to_string(shared_state->line) +
            ",\"o\":\"" + op + "\",\"h\":\"" + h + "\"";
    }
    Ev &raw(const std::string &k, const std::string &v) { s += ",\"" + k + "\":" + v; return *this; }
    template <typename T> Ev &f(const std::string &k, const T &v) { return raw(k, js(v)); }
    Ev &b(const std::string &k, bool v) { return raw(k, v ? "true" : "false"); }
    void emit() { s += "}\n"; put(s); }
};

// ---------------------------------------------------------------- observed dictionaries

struct Watched {
    std::function<Seqs()> al;
    std::function<IntSeq()> par;
    std::function<bool()> consistent;
    Seqs last_al;
    IntSeq last_par;
    bool fresh = true;
};
static std::vector<Watched> watched; // index + 1 is the identifier of a dictionary in the trace
static std::vector<std::shared_ptr<IntDict>> kept; // keeps addresses apart
static std::map<const void *, int> gids;

template <typename D> static Watched watch(D *d) {
    Watched w;
    w.al = [d]() { return d->alphabet(); };
    w.par = [d]() { IntSeq p; int n = d->size(); for (int i = 0; i < n; i++) p.push_back(d->parent(i)); return p; };
    w.consistent = [d]() {
        const Seqs &a = d->alphabet();
        if ((int) a.size() != d->size()) return false;
        for (int i = 0; i < d->size(); i++) if (d->get(i) != a[i]) return false;
        return true;
    };
    return w;
}

static int gid(const std::shared_ptr<IntDict> &d) {
    if (d == nullptr) return 0;
    auto it = gids.find(d.get());
    if (it != gids.end()) return it->second;
    kept.push_back(d);
    watched.push_back(watch(d.get()));
    return gids[d.get()] = (int) watched.size();
}

static int sid(StatDictImpl *d) {
    auto it = gids.find(d);
    if (it != gids.end()) return it->second;
    watched.push_back(watch(d));
    return gids[d] = (int) watched.size();
}

// every dictionary that is new or changed since it was last reported
static void finish(Ev &e) {
    std::string r;
    for (size_t i = 0; i < watched.size(); i++) {
        Watched &w = watched[i];
        Seqs a = w.al();
        IntSeq p = w.par();
        bool c = w.consistent();
        if (w.fresh || a != w.last_al || p != w.last_par || !c) {
            r += (r.empty() ? "" : ",") + ("{\"g\":" + std::to_string(i + 1)) + ",\"al\":" + js(a) + ",\"par\":" + js(p) +
                 (c ? "" : ",\"incons\":true") + "}";
            w.fresh = false;
            w.last_al = a;
            w.last_par = p;
        }
    }
    if (!r.empty()) e.raw("dl", "[" + r + "]");
    e.emit();
}

// ---------------------------------------------------------------- objects

class StopIntVGram : public IntVGram {
public:
    StopIntVGram(int size, int iters) : IntVGram(size, iters) {}
    StopIntVGram(int size, int iters, int verbose) : IntVGram(size, iters, verbose) {}
    StopIntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs, const Seqs &alphabet, int size, double mp, bool fitted, bool computed)
            : IntVGram(coder, freqs, alphabet, size, mp, fitted, computed) {}
    mutable long calls = 0;
    long stop_at = -1;
protected:
    bool isTerminated() const override { return ++calls == stop_at; }
};

// user-defined tokenizer (documented extension point): comma separated lower-case fields
class CommaTokenizer : public BaseTokenizer {
public:
    std::string normalize(const std::string &s) const override {
        std::string r;
        for (char c : s) r += (c >= 'A' && c <= 'Z') ? (char) (c + 32) : c;
        return r;
    }
    std::vector<std::string> tokenize(const std::string &s) const override {
        std::vector<std::string> r;
        std::string cur;
        for (char c : s) { cur += c; if (c == ',') { r.push_back(cur); cur.clear(); } }
        if (!cur.empty()) r.push_back(cur);
        return r;
    }
};

struct Objs {
    std::map<std::string, std::shared_ptr<IntDict>> d;
    std::map<std::string, std::shared_ptr<StatDictImpl>> s;
    std::map<std::string, std::shared_ptr<IntVGramBuilderImpl>> b;
    std::map<std::string, std::shared_ptr<SeqCoder>> k;
    std::map<std::string, std::shared_ptr<AnyEncoder>> en;
    std::map<std::string, std::shared_ptr<BaseTokenizer>> t;
    std::map<std::string, std::shared_ptr<IntStreamVGram>> v; // streams and IntVGrams
    std::map<std::string, std::shared_ptr<IntVGram>> i;
    std::map<std::string, StopIntVGram *> stop;
    std::map<std::string, std::shared_ptr<StringStreamVGram>> x;
    std::map<std::string, std::shared_ptr<StringVGram>> y;
};
static Objs *O;

template <typename M> static typename M::mapped_type &at(M &m, const std::string &h) {
    auto it = m.find(h);
    if (it == m.end()) { fprintf(stderr, "driver: no object %s (line %d)\n", h.c_str(), shared_state->line); _exit(98); }
    return it->second;
}

// ---------------------------------------------------------------- hooks

static std::string cur_op, cur_h;
static std::map<std::string, Seqs> cur_dicts;
#ifdef VGRAM_TRACE
class Sink : public VGramTrace {
public:
    bool bulk = false; // only count what happens
    int accepts = 0, steps = 0;
    IntSeq expected;
    void accepted(const IntSeq &seq, const IntSeq &parse, const Seqs &dict) override {
        if (bulk) {
            if (accepts == 0) expected = parse;
            accepts += parse == expected;
            return;
        }
        Ev e("h_acc", cur_h);
        e.f("seq", seq).f("out", parse);
        auto it = cur_dicts.find(cur_h);
        if (it == cur_dicts.end() || it->second != dict) {
            e.f("al", dict);
            cur_dicts[cur_h] = dict;
        }
        e.emit();
    }
    void updated(bool populate, const Seqs &dict, const IntSeq &freqs, double mp, double pf) override {
        if (bulk) {
            steps++;
            return;
        }
        Ev e("h_upd", cur_h);
        e.b("pop", populate).f("al", dict).f("fr", freqs).f("mp", scaled(mp, 1e9)).f("pf", scaled(pf, 1e9));
        cur_dicts[cur_h] = dict;
        e.emit();
    }
};
static Sink sink;
#endif

// ---------------------------------------------------------------- script parsing

struct In {
    std::istringstream is;
    explicit In(const std::string &l) : is(l) {}
    std::string w() { std::string x; if (!(is >> x)) { fprintf(stderr, "driver: bad line %d\n", shared_state->line); _exit(98); } return x; }
    long long n() { return std::stoll(w()); }
    double r() { return std::stod(w()); }
    IntSeq seq() { int m = (int) n(); IntSeq s(m); for (auto &x : s) x = (int) n(); return s; }
    Seqs seqs() { int m = (int) n(); Seqs s(m); for (auto &x : s) x = seq(); return s; }
    std::string str() {
        std::string x = w(), r;
        if (x == "-") return r;
        for (size_t i = 0; i + 1 < x.size(); i += 2) r += (char) std::stoi(x.substr(i, 2), nullptr, 16);
        return r;
    }
    std::vector<std::string> strs() { int m = (int) n(); std::vector<std::string> s(m); for (auto &x : s) x = str(); return s; }
    // exclusions: "-" for none, otherwise a sequence
    bool ex(IntSeq *s) { std::string x = w(); if (x == "-") return false; int m = std::stoi(x); s->resize(m); for (auto &y : *s) y = (int) n(); return true; }
};

static IntSeq s_freqs(StatDictImpl &s) {
    IntSeq r;
    for (int i = 0; i <= s.size(); i++) r.push_back(s.freq(i)); // one past the end as well
    return r;
}

static void obs_builder(Ev &e, IntVGramBuilderImpl &b) {
    IntSeq fr;
    int n = b.result_freqs(&fr);
    e.f("g", gid(b.result())).f("fr", fr).f("frn", n).f("alpha", b.alpha()->alphabet())
     .f("mp", scaled(b.get_min_probability(), 1e9)).f("cl", scaled(b.code_length(), 1e6));
}

static void obs_stream(Ev &e, IntStreamVGram &v) {
    e.f("g", gid(v.get_dict())).f("alpha", v.alphabet()).f("fr", v.freqs());
    std::unordered_map<int, int> m = v.get_coder()->code_map();
    IntSeq keys, vals;
    for (std::pair<int, int> p : std::map<int, int>(m.begin(), m.end())) { keys.push_back(p.first); vals.push_back(p.second); }
    e.f("ck", keys).f("cv", vals);
}

static IntSeq tw_i(IntStreamVGram &v, const IntSeq &probe) { return v.parse(probe); }

static std::string path(const std::string &name) { return scratch + "/" + name; }

static void run(const std::string &line) {
    In in(line);
    std::string op = in.w(), h = in.w();
    cur_op = op; cur_h = h;
    strncpy(shared_state->op, op.c_str(), 31);
    strncpy(shared_state->h, h.c_str(), 31);
    Ev e(op, h);
    // ---- dictionaries
    if (op == "d_new") {
        int kind = (int) in.n();
        Seqs s = in.seqs();
        Seqs copy = s;
        std::shared_ptr<IntDict> d;
        if (kind == 0) d = std::make_shared<IntDictImpl>(s);
        else if (kind == 1) { IntSeq f; for (auto &x : s) f.push_back(x[0]); d = std::make_shared<IntDictImpl>(f); }
        else d = std::make_shared<IntDictImpl>();
        O->d[h] = d;
        e.f("kind", kind).f("in", copy).f("g", gid(d)).b("argsame", s == copy);
    } else if (op == "d_copy") {
        std::string src = in.w();
        auto p = std::dynamic_pointer_cast<IntDictImpl>(at(O->d, src));
        O->d[h] = std::make_shared<IntDictImpl>(*p);
        e.raw("src", jtext(src)).f("g", gid(O->d[h]));
    } else if (op == "d_search" || op == "d_greedy") {
        IntSeq seq = in.seq(), ex;
        bool has = in.ex(&ex);
        std::unordered_set<int> set(ex.begin(), ex.end()), was = set;
        IntDict &d = *at(O->d, h);
        e.f("seq", seq);
        if (has) e.f("ex", ex);
        if (op == "d_search") {
            e.f("id", d.search(seq, has ? &set : nullptr));
        } else {
            IntSeq out = in.seq();
            e.f("pre", out);
            int r = d.parse(seq, &out, has ? &set : nullptr);
            e.f("out", out).f("ret", r);
        }
        e.b("argsame", set == was);
    } else if (op == "d_weigh") {
        IntSeq seq = in.seq(), fr = in.seq();
        long long total = in.n();
        IntSeq out = in.seq();
        IntSeq seq0 = seq, fr0 = fr;
        e.f("seq", seq).f("fr", fr).f("tot", total).f("pre", out);
        int r = at(O->d, h)->parse(seq, fr, (double) total, &out);
        e.f("out", out).f("ret", r).b("argsame", seq == seq0 && fr == fr0);
    } else if (op == "d_obs") {
    // ---- statistics
    } else if (op == "s_new") {
        int kind = (int) in.n();
        double mp = in.r();
        Seqs s = in.seqs();
        IntSeq init;
        bool has = in.ex(&init);
        std::shared_ptr<StatDictImpl> d;
        Seqs copy = s; IntSeq init0 = init;
        if (kind == 0) d = std::make_shared<StatDictImpl>(mp);
        else d = std::make_shared<StatDictImpl>(s, mp, has ? &init : nullptr);
        O->s[h] = d;
        e.f("kind", kind).f("in", copy).f("g", sid(d.get())).f("mp", scaled(mp, 1e9)).b("argsame", s == copy && init == init0);
        if (has) e.f("init", init0);
        e.f("fr", s_freqs(*d));
    } else if (op == "s_parse") {
        IntSeq seq = in.seq(), out = in.seq();
        StatDictImpl &s = *at(O->s, h);
        e.f("seq", seq).f("pre", out);
        int r = s.parse(seq, &out);
        e.f("out", out).f("ret", r).f("fr", s_freqs(s)).f("cl", scaled(s.code_length_per_char(), 1e6));
    } else if (op == "s_upd") {
        int idx = (int) in.n(), n = (int) in.n();
        StatDictImpl &s = *at(O->s, h);
        s.update_symbol(idx, n);
        e.f("i", idx).f("k", n).f("fr", s_freqs(s)).f("cl", scaled(s.code_length_per_char(), 1e6));
    } else if (op == "s_search") {
        IntSeq seq = in.seq(), ex;
        bool has = in.ex(&ex);
        std::unordered_set<int> set(ex.begin(), ex.end());
        StatDictImpl &s = *at(O->s, h);
        e.f("seq", seq);
        if (has) e.f("ex", ex);
        e.f("id", has ? s.search(seq, &set) : s.search(seq)).f("fr", s_freqs(s));
    } else if (op == "s_enough") {
        double p = in.r();
        StatDictImpl &s = *at(O->s, h);
        e.f("p", scaled(p, 1e9)).b("res", s.enough(p));
    // ---- builders
    } else if (op == "b_new") {
        int kind = (int) in.n(), size = (int) in.n();
        Seqs s = in.seqs();
        e.f("kind", kind).f("size", size).f("in", s);
        int loud = size % 3 == 1;
        if (kind == 0) O->b[h] = size % 3 == 0 ? std::make_shared<IntVGramBuilderImpl>(size) : std::make_shared<IntVGramBuilderImpl>(size, loud);
        else if (kind == 1) { IntDictImpl d(s); O->b[h] = std::make_shared<IntVGramBuilderImpl>(d, size, loud); }
        else if (kind == 2) { IntSeq f; for (auto &x : s) f.push_back(x[0]); O->b[h] = std::make_shared<IntVGramBuilderImpl>(f, size, loud); }
        else {
            IntDictImpl d(s); // its order is the order of the frequencies
            IntSeq fr = in.seq();
            Seqs alpha = in.seqs();
            double mp = in.r();
            IntSeq fr0 = fr;
            std::shared_ptr<IntDict> dd = std::make_shared<IntDictImpl>(d);
            O->b[h] = std::make_shared<IntVGramBuilderImpl>(*dd, fr, alpha, mp, loud, size);
            e.f("init", fr0).f("alphabet", alpha).f("mp0", scaled(mp, 1e9)).b("argsame", fr == fr0).f("from", gid(dd));
        }
        obs_builder(e, *O->b[h]);
    } else if (op == "b_acc") {
        IntSeq seq = in.seq(), seq0 = seq;
        IntVGramBuilderImpl &b = *at(O->b, h);
        b.accept(seq);
        e.f("seq", seq0).b("argsame", seq == seq0).f("g", gid(b.result()));
    } else if (op == "b_bulk") { // accepts a sequence of symbols which are entries n times, where no learning step is due
        IntSeq seq = in.seq();
        int n = (int) in.n();
        IntVGramBuilderImpl &b = *at(O->b, h);
#ifdef VGRAM_TRACE
        sink.bulk = true;
        sink.accepts = sink.steps = 0;
#endif
        for (int i = 0; i < n; i++) b.accept(seq);
        e.f("seq", seq).f("times", n).f("g", gid(b.result()));
#ifdef VGRAM_TRACE
        sink.bulk = false;
        e.f("out", sink.expected).f("acc", sink.accepts).f("steps", sink.steps);
#endif
    } else if (op == "b_obs") {
        obs_builder(e, *at(O->b, h));
    } else if (op == "b_hold") { // from now on the published dictionary is also the dictionary of handle dh
        std::string dh = in.w();
        IntVGramBuilderImpl &b = *at(O->b, h);
        O->d[dh] = b.result();
        e.raw("dh", jtext(dh)).f("g", gid(O->d[dh]));
    } else if (op == "b_alpha") { // alpha() gives an independent dictionary
        std::string dh = in.w();
        O->d[dh] = at(O->b, h)->alpha();
        e.raw("dh", jtext(dh)).f("g", gid(O->d[dh]));
    // ---- coders
    } else if (op == "k_new") {
        O->k[h] = std::make_shared<SeqCoder>();
    } else if (op == "k_enc" || op == "k_im" || op == "k_dec") {
        IntSeq seq = in.seq();
        SeqCoder &k = *at(O->k, h);
        e.f("seq", seq);
        e.f("out", op == "k_enc" ? k.encode(seq) : op == "k_im" ? k.encode_immutable(seq) : k.decode(seq));
    } else if (op == "k_map") {
        std::unordered_map<int, int> m = at(O->k, h)->code_map();
        IntSeq keys, vals;
        for (std::pair<int, int> p : std::map<int, int>(m.begin(), m.end())) { keys.push_back(p.first); vals.push_back(p.second); }
        e.f("ck", keys).f("cv", vals);
    } else if (op == "e_new") {
        int kind = (int) in.n();
        e.f("kind", kind);
        O->en[h] = new_encoder(kind);
    } else if (op == "e_enc") {
        AnyEncoder &k = *at(O->en, h);
        if (k.is_int) {
            IntSeq seq = in.seq(), out = in.seq();
            e.f("pre", out);
            k.ints(seq, &out);
            Seqs w; for (int x : seq) w.push_back(IntSeq(1, x));
            e.f("seq", w).f("out", out).f("size", k.size());
        } else {
            std::vector<std::string> seq = in.strs();
            IntSeq out = in.seq();
            e.f("pre", out);
            k.strs(seq, &out);
            e.raw("seq", jbytes(seq)).f("out", out).f("size", k.size());
        }
    // ---- tokenizers
    } else if (op == "t_new") {
        std::string kind = in.w();
        int m = (int) in.n();
        std::unordered_map<std::string, int> map;
        std::vector<std::string> ts; IntSeq cs;
        for (int i = 0; i < m; i++) { std::string t = in.str(); int c = (int) in.n(); map[t] = c; ts.push_back(t); cs.push_back(c); }
        if (kind == "char") O->t[h] = m ? std::make_shared<CharTokenizer>(map) : std::make_shared<CharTokenizer>();
        else if (kind == "word") O->t[h] = m ? std::make_shared<WordTokenizer>(map) : std::make_shared<WordTokenizer>();
        else O->t[h] = std::make_shared<CommaTokenizer>();
        e.raw("kind", jtext(kind)).raw("mt", jbytes(ts)).f("mc", cs);
    } else if (op == "t_tr") {
        std::string s = in.str();
        e.raw("s", jbytes(s)).f("out", at(O->t, h)->transform(s));
    } else if (op == "t_trv") {
        std::vector<std::string> s = in.strs();
        e.raw("s", jbytes(s)).f("out", at(O->t, h)->transform(s));
    } else if (op == "t_dec") {
        IntSeq s = in.seq();
        e.f("seq", s).raw("out", jbytes(at(O->t, h)->decode(s)));
    } else if (op == "t_decv") {
        Seqs s = in.seqs();
        e.f("seq", s).raw("out", jbytes(at(O->t, h)->decode(s)));
    } else if (op == "t_norm") {
        std::string s = in.str();
        e.raw("s", jbytes(s)).raw("out", jbytes(at(O->t, h)->normalize(s)));
    } else if (op == "t_tok") {
        std::string s = in.str();
        e.raw("s", jbytes(s)).raw("out", jbytes(at(O->t, h)->tokenize(s)));
    // ---- integer streams (v_) and their fitting kind (i_)
    } else if (op == "v_new" || op == "i_new") {
        int size = (int) in.n();
        e.f("size", size);
        // all the ways of construction, told apart by the size
        if (op == "v_new") O->v[h] = size % 3 == 0 ? std::make_shared<IntStreamVGram>(size) : std::make_shared<IntStreamVGram>(size, size % 3 - 1);
        else {
            int iters = (int) in.n();
            auto p = size % 3 == 0 ? std::make_shared<StopIntVGram>(size, iters) : std::make_shared<StopIntVGram>(size, iters, size % 3 - 1);
            O->v[h] = p; O->i[h] = p; O->stop[h] = p.get();
            e.f("iters", iters);
        }
        obs_stream(e, *O->v[h]);
    } else if (op == "v_acc") {
        IntSeq seq = in.seq();
        at(O->v, h)->accept(seq);
        e.f("seq", seq);
    } else if (op == "v_parse") {
        IntSeq seq = in.seq();
        IntStreamVGram &v = *at(O->v, h);
        e.f("seq", seq).f("out", v.parse(seq)).f("g", gid(v.get_dict()));
    } else if (op == "v_upd") {
        at(O->v, h)->update_dict();
        obs_stream(e, *O->v[h]);
    } else if (op == "v_obs") {
        obs_stream(e, *at(O->v, h));
    } else if (op == "v_hold") {
        std::string dh = in.w();
        O->d[dh] = at(O->v, h)->get_dict();
        e.raw("dh", jtext(dh)).f("g", gid(O->d[dh]));
    } else if (op == "v_save") { // v_save H FILE TOKENIZER|-
        std::string f = in.w(), t = in.w();
        std::shared_ptr<BaseTokenizer> tok = t == "-" ? nullptr : at(O->t, t);
        if (O->i.count(h)) O->i[h]->save(path(f), tok); else at(O->v, h)->save(path(f), tok);
        e.raw("file", jtext(f)).raw("tok", jtext(t));
    } else if (op == "v_load" || op == "i_load") {
        std::string f = in.w();
        if (op == "v_load") O->v[h] = io_load_int_stream(path(f));
        else { O->i[h] = io_load_int(path(f)); O->v[h] = O->i[h]; }
        e.raw("file", jtext(f));
        obs_stream(e, *O->v[h]);
    } else if (op == "i_make") { // i_make H FILE SIZE MP FITTED COMPUTED CODER ALPHABET FREQS : what loading FILE makes, interruptible
        std::string f = in.w();
        int size = (int) in.n();
        double mp = in.r();
        bool fitted = in.n() != 0, computed = in.n() != 0;
        IntSeq values = in.seq();
        Seqs alpha = in.seqs(), copy = alpha;
        IntSeq fr = in.seq();
        auto coder = std::make_shared<SeqCoder>();
        coder->encode(values);
        auto p = std::make_shared<StopIntVGram>(coder, fr, alpha, size, mp, fitted, computed);
        O->v[h] = p; O->i[h] = p; O->stop[h] = p.get();
        e.raw("file", jtext(f)).b("argsame", alpha == copy);
        obs_stream(e, *p);
    } else if (op == "i_fit") { // i_fit H SRAND STOP SEQS
        long sr = in.n(), stop = in.n();
        Seqs seqs = in.seqs(), copy = seqs;
        if (sr >= 0) srand((unsigned) sr);
        IntVGram *p = at(O->i, h).get();
        if (O->stop.count(h)) { O->stop[h]->calls = 0; O->stop[h]->stop_at = stop; }
        Ev b("i_fit0", h);
        b.f("stop", stop).f("seqs", seqs).emit();
        IntVGram *r = p->fit(seqs);
        if (O->stop.count(h)) O->stop[h]->stop_at = -1;
        e.f("stop", stop).b("self", r == p).b("none", r == nullptr).b("argsame", seqs == copy);
        obs_stream(e, *p);
    } else if (op == "i_tr" || op == "i_trs") { // i_tr H STOP SEQS
        long stop = in.n();
        Seqs seqs = in.seqs();
        IntVGram *p = at(O->i, h).get();
        if (O->stop.count(h)) { O->stop[h]->calls = 0; O->stop[h]->stop_at = stop; }
        e.f("stop", stop).f("seqs", seqs);
        if (op == "i_tr") e.f("out", p->transform(seqs)); else e.raw("out", jbytes(p->transform_to_string(seqs)));
        if (O->stop.count(h)) O->stop[h]->stop_at = -1;
        e.f("g", gid(p->get_dict()));
    // ---- text streams
    } else if (op == "x_new") {
        int size = (int) in.n();
        bool inner = in.n() != 0, words = in.n() != 0;
        e.f("size", size).b("inner", inner).b("words", words);
        bool refused = false;
        try {
            if (!inner && !words && size % 3 == 0) O->x[h] = std::make_shared<StringStreamVGram>(size);
            else O->x[h] = std::make_shared<StringStreamVGram>(size, size % 3 == 1, inner, words);
        } catch (const std::invalid_argument &) {
            refused = true;
        }
        e.b("refused", refused);
    } else if (op == "x_wrap") { // text stream over visible parts
        std::string vh = in.w(), th = in.w();
        bool inner = in.n() != 0, words = in.n() != 0;
        e.raw("vh", jtext(vh)).raw("th", jtext(th)).b("inner", inner).b("words", words);
        bool refused = false;
        try {
            O->x[h] = std::make_shared<StringStreamVGram>(at(O->v, vh), at(O->t, th), inner, words);
        } catch (const std::invalid_argument &) {
            refused = true;
        }
        e.b("refused", refused);
    } else if (op == "x_acc") {
        std::string s = in.str();
        at(O->x, h)->accept(s);
        e.raw("s", jbytes(s));
    } else if (op == "x_parse") {
        std::string s = in.str();
        e.raw("s", jbytes(s)).raw("out", jbytes(at(O->x, h)->parse(s)));
    } else if (op == "x_upd") {
        at(O->x, h)->update_dict();
        e.raw("alpha", jbytes(O->x[h]->alphabet())).f("fr", O->x[h]->freqs());
    } else if (op == "x_obs") {
        e.raw("alpha", jbytes(at(O->x, h)->alphabet())).f("fr", O->x[h]->freqs());
    } else if (op == "x_save") {
        std::string f = in.w();
        at(O->x, h)->save(path(f));
        e.raw("file", jtext(f));
    } else if (op == "x_load") {
        std::string f = in.w();
        O->x[h] = io_load_string_stream(path(f));
        e.raw("file", jtext(f)).raw("alpha", jbytes(O->x[h]->alphabet())).f("fr", O->x[h]->freqs());
    // ---- fitted text models
    } else if (op == "y_new") { // y_new H SIZE ITERS TOK(char|comma|word)
        int size = (int) in.n(), iters = (int) in.n();
        std::string kind = in.w();
        e.f("size", size).f("iters", iters).raw("kind", jtext(kind));
        if (kind == "char") O->y[h] = size % 3 == 0 ? std::make_shared<StringVGram>(size, iters) : std::make_shared<StringVGram>(size, iters, size % 3 - 1);
        else if (kind == "word") O->y[h] = size % 3 == 0 ? std::make_shared<StringVGram>(size, iters, new WordTokenizer())
                                                         : std::make_shared<StringVGram>(size, iters, new WordTokenizer(), 0);
        else O->y[h] = std::make_shared<StringVGram>(size, iters, new CommaTokenizer(), 0);
    } else if (op == "y_wrap") {
        std::string ih = in.w(), th = in.w();
        e.raw("vh", jtext(ih)).raw("th", jtext(th));
        O->y[h] = std::make_shared<StringVGram>(at(O->i, ih), at(O->t, th));
    } else if (op == "y_fit") {
        long sr = in.n();
        std::vector<std::string> s = in.strs();
        if (sr >= 0) srand((unsigned) sr);
        Ev b("y_fit0", h);
        b.raw("s", jbytes(s)).emit();
        StringVGram *p = at(O->y, h).get();
        StringVGram *r = p->fit(s);
        e.b("self", r == p).raw("alpha", jbytes(p->alphabet())).f("fr", p->freqs());
    } else if (op == "y_tr") {
        std::vector<std::string> s = in.strs();
        e.raw("s", jbytes(s)).raw("out", jbytes(at(O->y, h)->transform(s)));
    } else if (op == "y_obs") {
        e.raw("alpha", jbytes(at(O->y, h)->alphabet())).f("fr", O->y[h]->freqs());
    } else if (op == "y_save") {
        std::string f = in.w();
        at(O->y, h)->save(path(f));
        e.raw("file", jtext(f));
    } else if (op == "y_load") {
        std::string f = in.w();
        O->y[h] = io_load_string(path(f));
        e.raw("file", jtext(f)).raw("alpha", jbytes(O->y[h]->alphabet())).f("fr", O->y[h]->freqs());
    // ---- files
    } else if (op == "f_write") { // f_write NAME HEX
        std::string c = in.str();
        std::ofstream f(path(h), std::ios::binary);
        f << c;
        f.close();
        e.raw("raw", jtext(c));
    } else if (op == "f_read") {
        std::ifstream f(path(h), std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        e.raw("raw", jtext(ss.str()));
    // ---- printing of sequences
    } else if (op == "p_seq") {
        IntSeq s = in.seq();
        std::ostringstream os;
        os << s;
        e.f("seq", s).raw("out", jbytes(to_string(s))).raw("out2", jbytes(os.str()));
    // ---- random draws, in units of 1e-9
    } else if (op == "q_dir") {
        if (!draw) return;
        IntSeq p = in.seq(), o[2];
        std::vector<double> params(p.begin(), p.end()), copy = params;
        for (int k = 0; k < 2; k++) {
            std::vector<double> out(p.size(), k ? 0.25 : 7);
            draw(params, &out);
            for (double x : out) o[k].push_back(x >= -1 && x <= 2 ? (int) std::lround(x * 1e9) : -2000000000);
        }
        e.f("p", p).f("out", o[0]).f("out2", o[1]).b("argsame", params == copy);
    // ---- twins: the same observations of two objects, compared by the specification
    } else if (op == "twin") {
        std::string h2 = in.w();
        IntSeq probe = in.seq();
        e.raw("h2", jtext(h2)).f("probe", probe);
        for (int k = 0; k < 2; k++) {
            std::string hh = k ? h2 : h, sfx = k ? "2" : "1";
            Seqs al; IntSeq par, fr, out; std::string m = "\"\"";
            if (O->b.count(hh)) {
                IntVGramBuilderImpl &b = *O->b[hh];
                auto d = b.result();
                al = d->alphabet(); for (int i = 0; i < d->size(); i++) par.push_back(d->parent(i));
                b.result_freqs(&fr); m = bits(b.get_min_probability());
                IntDictImpl copy(al); IntSeq w = fr; copy.parse(probe, w, 1000, &out);
            } else {
                IntStreamVGram &v = *at(O->v, hh);
                auto d = v.get_dict();
                al = v.alphabet(); for (int i = 0; i < d->size(); i++) par.push_back(d->parent(i));
                fr = v.freqs(); out = tw_i(v, probe);
            }
            e.f("al" + sfx, al).f("par" + sfx, par).f("fr" + sfx, fr).f("out" + sfx, out).raw("mp" + sfx, m);
        }
    } else {
        fprintf(stderr, "driver: unknown op %s\n", op.c_str());
        _exit(98);
    }
    finish(e);
}

static void quiet_stdout() {
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 1); close(fd); }
}

static void child(const std::vector<std::pair<int, std::string>> &lines, unsigned limit) {
    quiet_stdout();
    alarm(limit);
    O = new Objs();
#ifdef VGRAM_TRACE
    VGramTrace::sink() = &sink;
#endif
    for (auto &l : lines) {
        shared_state->line = l.first;
        try {
            run(l.second);
        } catch (const std::exception &x) {
            Ev e("exc", cur_h);
            e.raw("op", jtext(cur_op)).raw("what", jtext("exception"));
            e.emit();
            _exit(0);
        } catch (...) {
            Ev e("exc", cur_h);
            e.raw("op", jtext(cur_op)).raw("what", jtext("exception"));
            e.emit();
            _exit(0);
        }
    }
    _exit(0);
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    std::ifstream in(argv[1]);
    trace_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (!in || trace_fd < 0) return 2;
    scratch = argv[3];
    unsigned limit = argc > 4 ? (unsigned) atoi(argv[4]) : 60;
    shared_state = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string line;
    std::vector<std::pair<int, std::string>> lines;
    int no = 0, rc = 0;
    while (std::getline(in, line)) {
        no++;
        if (line.empty() || line[0] == '#') continue;
        if (line.compare(0, 5, "CASE ") == 0) {
            case_no = atoi(line.c_str() + 5);
            lines.clear();
        } else if (line == "END") {
            { Ev e("case", "-");
#ifdef VGRAM_TRACE
              e.b("hooks", true);
#else
              e.b("hooks", false);
#endif
              e.emit(); }
            memset(shared_state, 0, sizeof(Shared));
            pid_t pid = fork();
            if (pid < 0) return 2;
            if (pid == 0) child(lines, limit);
            int st = 0;
            waitpid(pid, &st, 0);
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) rc = 2;
            else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                Ev e("exc", shared_state->h);
                bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
                e.raw("op", jtext(shared_state->op)).raw("what", jtext(hang ? "hang" : "crash"));
                e.emit();
            }
        } else {
            lines.emplace_back((int) lines.size() + 1, line); // line numbers within the case
        }
    }
    return rc;
}
