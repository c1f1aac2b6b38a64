#include "base.h"
#include "json.h"
#ifndef NOPRIV
#define private public
#define protected public
#endif
#include "int_dict.cc"
#include "int_dict_p.cc"
#include "stat_dict_p.cc"
#include "int_vgram_builder_p.cc"
#include "fast_random.cc"
#include "seq_coder.cc"
#include "tokenizers/base_tokenizer.cc"
#include "tokenizers/char_tokenizer.cc"
#include "tokenizers/word_tokenizer.cc"
// separate translation units in the build; this order hides each default argument from the others
#include "vgram_builders/string_vgram.cc"
#include "vgram_builders/string_stream_vgram.cc"
#include "vgram_builders/int_vgram.cc"
#include "vgram_builders/int_stream_vgram.cc"
#include "saver.h"
#include "loader.h"
#undef private
#undef protected
using namespace hb;
using namespace vgram_core;
typedef std::vector<std::string> Strs;
static std::string sstr(const Strs& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? " " : "") + hb::str(v[i]); return r + "]"; }
static std::vector<Seq> ents(const std::shared_ptr<IntDict>& d) { std::vector<Seq> v; for (int i = 0; i < d->size(); i++) v.push_back(d->get(i)); return v; }

// training data: a few motifs over a small pool
struct Data { Seq pool; std::vector<Seq> base; bool noise; bool all; int lo, hi; };
static Data gdata(Rng& r) {
    Data d; int k = r.in(1, 6); int kind = r.below(3); for (int i = 0; i < k; i++) d.pool.push_back(kind == 0 ? i : kind == 1 ? 100 - 7 * i : -3 + 1000 * i);
    int nb = r.in(1, 4); for (int i = 0; i < nb; i++) d.base.push_back(gseq(r, d.pool, 1, 8, 70)); d.pool = gsyms(r, d.pool); d.noise = r.chance(2, 3); d.all = r.chance(1, 2); d.lo = 1; d.hi = r.chance(1, 2) ? 10 : 3;
    say("data: motifs %s over %s%s%s, 1..%d per sequence\n", str(d.base).c_str(), str(d.pool).c_str(), d.noise ? " with noise" : "", d.all ? ", all symbols in each" : "", d.hi);
    return d;
}
static Seq gone(Rng& r, const Data& d) {
    Seq q; int m = r.in(d.lo, d.hi); for (int j = 0; j < m; j++) { auto& x = d.base[r.below(d.base.size())]; q.insert(q.end(), x.begin(), x.end()); if (d.noise && r.chance(1, 3)) q.push_back(d.pool[r.below(d.pool.size())]); }
    if (d.all) q.insert(q.end(), d.pool.begin(), d.pool.end()); else if (r.chance(1, 40)) q.clear();
    return q;
}
static std::vector<Seq> gmany(Rng& r, const Data& d, int lo, int hi) { std::vector<Seq> v(odd(r, 24) ? std::max<long>(lo, number(r, 300)) : r.in(lo, hi)); for (auto& q : v) q = gone(r, d); return v; }
static int gsize(Rng& r, const Data& d) { return (int)d.pool.size() + 1 + (r.chance(1, 4) ? 0 : odd(r, 12) ? number(r, 2000) : r.in(1, 30)); }

static bool c17(Rng& r, long) {
    Data d = gdata(r); int size = gsize(r, d), it = r.in(1, 4); auto seqs = gmany(r, d, r.chance(1, 6) ? 0 : 1, r.chance(1, 2) ? 12 : 120);
    srand(r.below(1000)); say("IntVGram(%d, %d) fit on %zu sequences\n", size, it, seqs.size());
    IntVGram m(size, it, 0); CHECK(m.fit(seqs) == &m, "fit does not return the model");
    auto a = m.alphabet(); Seq f = m.freqs(); CHECK(a.size() == f.size(), "%zu frequencies for %zu entries", f.size(), a.size());
    long tot = 0, want = 0; for (size_t i = 0; i < a.size(); i++) { CHECK(f[i] >= 0, "negative frequency"); tot += (long)f[i] * a[i].size(); } for (auto& q : seqs) want += q.size();
    CHECK(tot == want, "the uses cover %ld symbols, the data has %ld", tot, want);
#ifndef NOPRIV
    if (d.all && !seqs.empty()) {
        Seq w; m.builder_->result_freqs(&w); int t = 0; for (int x : w) t += x; Seq rec(m.get_dict()->size());
        for (auto& q : seqs) { Seq o; m.get_dict()->parse(m.get_coder()->encode_immutable(q), w, t, &o); for (int x : o) rec.at(x)++; }
        CHECK(rec == f, "frequencies %s, segmenting the data again uses %s", str(f).c_str(), str(rec).c_str());
    }
    int tf = 0; for (int x : f) tf += x; CHECK(m.total_freqs_ == tf, "total %d, the frequencies add up to %d", m.total_freqs_, tf);
#endif
    auto more = r.chance(1, 2) ? seqs : gmany(r, d, 1, 20); CHECK(m.fit(more) == &m, "fit does not return the model");
    CHECK(m.freqs() == f && m.alphabet() == a, "fitting again changed the model");
    bool nt = false; for (auto& x : a) nt |= x.size() > 1; return nt;
}
static bool c18(Rng& r, long) {
    Data d = gdata(r); int size = gsize(r, d); say("IntStreamVGram(%d)\n", size); IntStreamVGram m(size, 0); bool upd = false; int n = r.in(50, 900), changes = 0; Seq wide = d.pool; wide.push_back(4242);
    int pu = r.chance(1, 2) ? 5 : 100; std::shared_ptr<IntDict> last; Seq lf;
    for (int i = 0; i < n; i++) {
        int op = r.below(200);
        if (i % 40 == 0 || op < 200 / pu) {
            auto before = m.get_dict(); Seq bf; std::vector<Seq> ba; if (upd) { bf = m.freqs(); ba = m.alphabet(); }
#ifndef NOPRIV
            auto nd = m.builder_->result();
#endif
            say("%d: update\n", i); m.update_dict(); CHECK(m.get_dict() != nullptr, "no dictionary after an update");
            Seq f = m.freqs();
#ifndef NOPRIV
            CHECK(m.get_dict() == nd, "the update did not adopt the builder's dictionary");
            if (nd != before) { Seq w; m.builder_->result_freqs(&w); CHECK(f == w, "frequencies %s, the builder reports %s", str(f).c_str(), str(w).c_str()); CHECK(m.min_probability_ == m.builder_->get_min_probability(), "minimal probability of another dictionary"); }
#endif
            if (m.get_dict() == before) { CHECK(f == bf && m.alphabet() == ba, "an update without a new dictionary changed the model"); } else changes++;
            auto a1 = m.alphabet(); m.update_dict(); CHECK(m.freqs() == f && m.alphabet() == a1, "a repeated update changed the model");
            upd = true; last = m.get_dict(); lf = f;
        } else if (upd && op < 30) { Seq q = gseq(r, wide, 0, 9); m.parse(q); }
        else m.accept(gone(r, d));
        if (upd && (op % 8 == 0 || i % 40 == 0)) {
            Seq f = m.freqs(); auto a = m.alphabet(); CHECK(f.size() == a.size(), "step %d: %zu frequencies for %zu entries", i, f.size(), a.size());
            CHECK(m.get_dict() == last, "step %d: the dictionary was replaced without an update", i);
            for (size_t j = 0; j < f.size(); j++) CHECK(f[j] == (j < lf.size() ? lf[j] : 0), "step %d: frequency of entry %zu changed from %d to %d", i, j, j < lf.size() ? lf[j] : 0, f[j]);
            auto e = ents(m.get_dict()); CHECK(e.size() == a.size(), "alphabet has another size");
            for (size_t j = 0; j < a.size(); j++) CHECK(m.get_coder()->decode(e[j]) == a[j], "step %d: entry %zu of the alphabet is out of order", i, j);
        }
    }
    return changes > 1;
}
static void spells(const std::vector<Seq>& a, const Seq& ids, const Seq& q, const std::set<int>& seen) {
    Seq w, g; for (int x : q) if (seen.count(x)) w.push_back(x);
    for (int id : ids) { CHECK(id >= 0 && id < (int)a.size(), "identifier %d of %zu", id, a.size()); g.insert(g.end(), a[id].begin(), a[id].end()); }
    CHECK(g == w, "the entries spell %s, expected %s for %s", str(g).c_str(), str(w).c_str(), str(q).c_str());
}
static Seq gtest(Rng& r, const Data& d) { Seq wide = d.pool; wide.push_back(4242); if (r.chance(1, 2)) wide.push_back(-77); Seq q = r.chance(1, 2) ? gseq(r, wide, 0, 12) : gone(r, d); if (r.chance(1, 4)) q.insert(q.begin() + r.below(q.size() + 1), 4242); return q; }
static bool c19(Rng& r, long) {
    Data d = gdata(r); int size = gsize(r, d); bool nt = false;
    std::vector<Seq> tests(odd(r, 16) ? number(r, 130) : r.in(0, 6)); for (auto& q : tests) q = gtest(r, d);
    std::set<int> seen;
    if (r.chance(1, 2)) {
        auto seqs = gmany(r, d, 1, r.chance(1, 2) ? 12 : 120); srand(r.below(1000)); int it = r.in(1, 4); say("IntVGram(%d, %d) fit on %zu sequences\ntransform %s\n", size, it, seqs.size(), str(tests).c_str());
        IntVGram m(size, it, 0); m.fit(seqs); for (auto& q : seqs) seen.insert(q.begin(), q.end());
        auto res = m.transform(tests); auto a = m.alphabet(); CHECK(res.size() == tests.size(), "%zu results for %zu sequences", res.size(), tests.size());
        for (size_t i = 0; i < tests.size(); i++) { spells(a, res[i], tests[i], seen); nt |= res[i].size() > 1; }
        res = m.transform(tests); Strs s = m.transform_to_string(tests); CHECK(s.size() == tests.size(), "%zu texts for %zu sequences", s.size(), tests.size());
        for (size_t i = 0; i < s.size(); i++) { std::string w; for (int x : res[i]) w += " " + std::to_string(x); if (w.empty()) w = "-1"; CHECK(s[i] == w, "text %s, expected %s", hb::str(s[i]).c_str(), hb::str(w).c_str()); }
        for (auto& q : tests) { Seq o = m.parse(q); spells(m.alphabet(), o, q, seen); }
    } else {
        say("IntStreamVGram(%d)\n", size); IntStreamVGram m(size, 0); int n = r.in(1, 300); for (int i = 0; i < n; i++) { Seq q = gone(r, d); m.accept(q); seen.insert(q.begin(), q.end()); if (i % 50 == 0) m.update_dict(); }
        if (r.chance(2, 3)) m.update_dict();
        for (auto& q : tests) { say("parse %s\n", str(q).c_str()); Seq o = m.parse(q); spells(m.alphabet(), o, q, seen); nt |= o.size() > 1; if (r.chance(1, 3)) { Seq x = gone(r, d); m.accept(x); seen.insert(x.begin(), x.end()); } }
    }
    return nt;
}
static std::string norm(const std::string& s) { std::string w; for (char ch : s) { unsigned char c = ch; if (c >= '0' && c <= '9' || c >= 'a' && c <= 'z') w += ch; else if (c >= 'A' && c <= 'Z') w += (char)(c - 'A' + 'a'); } return w; }
static Strs toks(const std::string& s, bool word) { Strs w; if (!word) { for (char c : norm(s)) w.push_back(std::string(1, c)); return w; } std::string c; for (char ch : s + " ") if (ch == ' ') { if (!c.empty()) w.push_back(c); c.clear(); } else c += ch; return w; }
static std::string gtext(Rng& r, bool word, bool odd) {
    static const char* w[] = {"the", "cat", "The", "on", "ab1", "a", "sat,", "zz"}; std::string s; int n = hb::odd(r, 60) ? number(r, 130) : r.in(0, word ? 12 : 7);
    for (int i = 0; i < n; i++) { s += w[r.below(6)]; s += r.chance(1, 5) ? "  " : r.chance(1, 9) ? "" : " "; } if (odd && r.chance(1, 2)) s += r.chance(1, 2) ? " QuX!" : "zebra sat, #9"; return s;
}
static std::string spell(const Strs& t, const std::set<std::string>& seen) { std::string s; for (auto& x : t) if (seen.count(x)) s += x; return s; }
static bool c20(Rng& r, long) {
    bool word = r.chance(1, 3); int size = odd(r, 12) ? std::max<long>(14, number(r, 2000)) : r.in(14, 60); int n = r.in(1, r.chance(1, 2) ? 30 : r.chance(1, 3) ? 600 : 150); Strs tr(n); for (auto& s : tr) s = gtext(r, word, false);
    Strs tests(odd(r, 16) ? number(r, 70) : r.in(0, 5)); for (auto& s : tests) s = gtext(r, word, true); std::set<std::string> seen; bool nt = false;
    if (r.chance(1, 2)) {
        say("StringVGram(%d) over %s fit on %d texts such as %s\ntransform %s\n", size, word ? "words" : "characters", n, hb::str(tr[0]).c_str(), sstr(tests).c_str()); srand(r.below(1000));
        std::unique_ptr<StringVGram> m(word ? new StringVGram(size, r.in(1, 3), (BaseTokenizer*)new WordTokenizer(), 0) : new StringVGram(size, r.in(1, 3), 0));
        m->fit(tr); for (auto& s : tr) for (auto& t : toks(s, word)) seen.insert(t);
        Strs res = m->transform(tests); CHECK(res.size() == tests.size(), "%zu results for %zu texts", res.size(), tests.size()); Strs al = m->alphabet(); std::set<std::string> as(al.begin(), al.end()); CHECK(al.size() == m->freqs().size(), "%zu v-grams, %zu frequencies", al.size(), m->freqs().size());
        for (size_t i = 0; i < res.size(); i++) {
            std::string w = spell(toks(tests[i], word), seen), g; std::stringstream ss(res[i]); std::string p; std::string back; int k = 0;
            while (std::getline(ss, p, ' ')) { CHECK(as.count(p), "%s is not a v-gram of the model", hb::str(p).c_str()); g += p; back += (k++ ? " " : "") + p; }
            CHECK(g == w, "%s becomes %s which spells %s, expected %s", hb::str(tests[i]).c_str(), hb::str(res[i]).c_str(), hb::str(g).c_str(), hb::str(w).c_str());
            CHECK(back == res[i], "%s is not separated by single spaces", hb::str(res[i]).c_str()); nt |= k > 1;
        }
    } else {
        say("StringStreamVGram(%d) over %s, %d texts such as %s\n", size, word ? "words" : "characters", n, hb::str(tr[0]).c_str());
        StringStreamVGram m(size, 0, false, word); for (int i = 0; i < n; i++) { m.accept(tr[i]); for (auto& t : toks(tr[i], word)) seen.insert(t); if (i % 20 == 0) m.update_dict(); } m.update_dict();
        if (r.chance(1, 2)) { int k = r.in(1, 40); for (int i = 0; i < k; i++) { auto x = gtext(r, word, true); m.accept(x); for (auto& t : toks(x, word)) seen.insert(t); } say("and %d texts with more tokens after the last update\n", k); }
        for (auto& s : tests) { say("parse %s\n", hb::str(s).c_str()); Strs p = m.parse(s); std::string g; for (auto& x : p) { CHECK(!x.empty(), "an empty v-gram"); g += x; } std::string w = spell(toks(s, word), seen);
            CHECK(g == w, "%s gives %s which spells %s, expected %s", hb::str(s).c_str(), sstr(p).c_str(), hb::str(g).c_str(), hb::str(w).c_str()); Strs al = m.alphabet(); for (auto& x : p) CHECK(std::find(al.begin(), al.end(), x) != al.end(), "%s is not a v-gram of the model", hb::str(x).c_str()); nt |= p.size() > 1; }
    }
    return nt;
}
template <class A> static std::vector<std::pair<A, int>> table(const std::vector<A>& a, const Seq& f) { CHECK(a.size() == f.size(), "%zu frequencies for %zu entries", f.size(), a.size()); std::vector<std::pair<A, int>> t; for (size_t i = 0; i < a.size(); i++) t.push_back({a[i], f[i]}); std::sort(t.begin(), t.end()); return t; }
static void same(IntStreamVGram& m, IntStreamVGram& l, const std::vector<Seq>& tests) {
    auto a = m.alphabet(), b = l.alphabet();
    CHECK(table(a, m.freqs()) == table(b, l.freqs()), "v-grams %s with %s load back as %s with %s", str(a).c_str(), str(m.freqs()).c_str(), str(b).c_str(), str(l.freqs()).c_str());
    CHECK(m.get_coder()->code_map() == l.get_coder()->code_map(), "the symbol coding differs");
#ifndef NOPRIV
    CHECK(m.size_ == l.size_, "size %d loads back as %d", m.size_, l.size_); CHECK(m.min_probability_ == l.min_probability_, "minimal probability %.17g loads back as %.17g", m.min_probability_, l.min_probability_);
#endif
    auto e = ents(m.get_dict());
    if (std::is_sorted(e.begin(), e.end())) {
        CHECK(ents(l.get_dict()) == e && a == b && m.freqs() == l.freqs(), "the identifiers differ: %s loads back as %s", str(a).c_str(), str(b).c_str());
        std::set<int> single; for (auto& x : a) if (x.size() == 1) single.insert(x[0]);
        for (auto& q : tests) { bool ok = true; for (int x : q) ok &= single.count(x) || !m.get_coder()->code_map().count(x); if (ok) CHECK(m.parse(q) == l.parse(q), "%s is segmented differently after loading", str(q).c_str()); }
    }
}
static bool c21(Rng& r, long) {
    int kind = r.below(4); std::string file = hb::scratch + "/model.json"; bool nt = false;
    auto run = [&] {
    if (kind < 2) {
        Data d = gdata(r); int size = gsize(r, d); std::vector<Seq> tests(4); for (auto& q : tests) q = gtest(r, d);
        if (kind == 0) {
            say("IntStreamVGram(%d)\n", size); IntStreamVGram m(size, 0); int n = r.in(1, 300); for (int i = 0; i < n; i++) { m.accept(gone(r, d)); if (i % 50 == 0) m.update_dict(); } m.update_dict(); if (r.chance(1, 3)) { m.parse(gtest(r, d)); say("used before saving\n"); }
            if (r.chance(1, 3)) m.accept(gtest(r, d));
            m.save(file); auto l = Loader::load_int_stream_vgram(file); same(m, *l, tests); m.get_dict(); for (auto& x : m.alphabet()) nt |= x.size() > 1;
        } else {
            auto seqs = gmany(r, d, 1, r.chance(1, 2) ? 12 : 120); srand(r.below(1000)); int it = r.in(1, 4); say("IntVGram(%d, %d) fit on %zu sequences\n", size, it, seqs.size());
            IntVGram m(size, it, 0); m.fit(seqs); if (r.chance(1, 3)) { m.transform(tests); say("used before saving\n"); } m.save(file); std::unique_ptr<IntVGram> l(Loader::load_int_vgram(file)); same(m, *l, tests);
            auto a = l->alphabet(); Seq f = l->freqs(); CHECK(l->fit(seqs) == l.get(), "fit after loading does not return the model"); CHECK(l->alphabet() == a && l->freqs() == f, "the model did not load back as fitted"); for (auto& x : a) nt |= x.size() > 1;
        }
    } else {
        int size = r.in(14, 60), n = r.in(1, r.chance(1, 2) ? 30 : 150); Strs tr(n); for (auto& s : tr) s = gtext(r, false, false); Strs tests(4); for (auto& s : tests) s = gtext(r, false, true);
        if (kind == 2) {
            say("StringStreamVGram(%d) %d texts such as %s\n", size, n, hb::str(tr[0]).c_str()); StringStreamVGram m(size, 0); for (int i = 0; i < n; i++) { m.accept(tr[i]); if (i % 20 == 0) m.update_dict(); } m.update_dict();
            m.save(file); auto l = Loader::load_string_stream_vgram(file); CHECK(table(m.alphabet(), m.freqs()) == table(l->alphabet(), l->freqs()), "v-grams %s load back as %s", sstr(m.alphabet()).c_str(), sstr(l->alphabet()).c_str());
            for (auto& x : m.alphabet()) nt |= x.size() > 1;
#ifndef NOPRIV
            same(*m.stream_builder_, *l->stream_builder_, {});
#endif
        } else {
            say("StringVGram(%d) fit on %d texts such as %s\n", size, n, hb::str(tr[0]).c_str()); srand(r.below(1000)); StringVGram m(size, r.in(1, 3), 0); m.fit(tr); m.save(file); std::unique_ptr<StringVGram> l(Loader::load_string_vgram(file));
            CHECK(table(m.alphabet(), m.freqs()) == table(l->alphabet(), l->freqs()), "v-grams %s load back as %s", sstr(m.alphabet()).c_str(), sstr(l->alphabet()).c_str()); for (auto& x : m.alphabet()) nt |= x.size() > 1;
            Strs la = l->alphabet(); Seq lf = l->freqs(); l->fit(tr); CHECK(l->alphabet() == la && l->freqs() == lf, "the model did not load back as fitted");
#ifndef NOPRIV
            same(*m.int_builder_, *l->int_builder_, {});
#endif
        }
    } };
    run();
    return nt;
}
std::map<std::string, hb::Case> hb::cases() { return {{"C17", c17}, {"C18", c18}, {"C19", c19}, {"C20", c20}, {"C21", c21}}; }
