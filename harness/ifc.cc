#include "base.h"
#ifndef NOPRIV
#define private public
#define protected public
#endif
#include "seq_coder.cc"
#include "tokenizers/base_tokenizer.cc"
#include "tokenizers/char_tokenizer.cc"
#include "tokenizers/word_tokenizer.cc"
#undef private
#undef protected
using namespace hb;
typedef std::vector<std::string> Strs;
static std::string sstr(const Strs& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? " " : "") + hb::str(v[i]); return r + "]"; }

struct CoderModel { std::vector<int> syms; std::map<int, int> code; int num(int x) { auto it = code.find(x); if (it != code.end()) return it->second; int c = syms.size(); code[x] = c; syms.push_back(x); return c; } };
static bool coder(Rng& r, bool readonly) {
    vgram_core::SeqCoder c; CoderModel m; Seq pool = gsyms(r, pools()[r.below(pools().size())]); pool.push_back(42); pool.push_back(-9); if (r.chance(1, 3)) { int k = odd(r, 12) ? number(r, 700) : 40; for (int i = 0; i < k; i++) pool.push_back(1000 + i * 7); }
    int n = r.in(1, 10); bool nt = false;
    std::vector<Seq> past;
    for (int k = 0; k < n; k++) {
        Seq q = gseq(r, pool, 0, r.chance(1, 6) ? 60 : 8);
        if (readonly && r.chance(2, 3)) {
            say("encode_immutable(%s)\n", hb::str(q).c_str());
            Seq w, kept; for (int x : q) if (m.code.count(x)) { w.push_back(m.code[x]); kept.push_back(x); }
            auto t0 = c.code_map(); Seq g = c.encode_immutable(q);
            CHECK(g == w, "encode_immutable(%s) gives %s, expected %s", hb::str(q).c_str(), hb::str(g).c_str(), hb::str(w).c_str());
            CHECK(c.code_map() == t0, "read-only encoding changed the coder");
            CHECK(c.decode(g) == kept, "decoding gives %s, expected %s", hb::str(c.decode(g)).c_str(), hb::str(kept).c_str());
            nt |= kept.size() && kept.size() < q.size();
        } else {
            say("encode(%s)\n", hb::str(q).c_str());
            Seq w; for (int x : q) w.push_back(m.num(x));
            Seq g = c.encode(q);
            CHECK(g == w, "encode(%s) gives %s, expected %s", hb::str(q).c_str(), hb::str(g).c_str(), hb::str(w).c_str());
            CHECK(c.decode(g) == q, "decoding gives %s", hb::str(c.decode(g)).c_str());
            past.push_back(q); nt |= !readonly && m.syms.size() > 1;
        }
        auto t = c.code_map(); CHECK(t.size() == m.code.size(), "the table has %zu symbols, %zu were seen", t.size(), m.code.size());
        for (auto& p : m.code) CHECK(t.count(p.first) && t[p.first] == p.second, "symbol %d has another number", p.first);
        if (!past.empty()) { Seq& q2 = past[r.below(past.size())]; CHECK(c.decode(c.encode_immutable(q2)) == q2, "an earlier sequence %s no longer round-trips", hb::str(q2).c_str()); }
    }
    return nt;
}
static bool c07(Rng& r, long) { return coder(r, false); }
static bool c08(Rng& r, long) { return coder(r, true); }
static std::string gtext(Rng& r, int n, int kind) {
    static const char* a[] = {"aZ09 ", "aBcD ", "  ab", "\xc3\xa9xY@[`{/:"};
    std::string s; int m = odd(r, 24) ? number(r, 600) : r.in(0, n);
    for (int i = 0; i < m; i++) s += kind == 3 ? (char)r.below(256) : a[kind == 4 ? 3 : kind][r.below(strlen(a[kind == 4 ? 3 : kind]))];
    return s;
}
static std::string norm(const std::string& s) { std::string w; for (char ch : s) { unsigned char c = ch; if (c >= '0' && c <= '9' || c >= 'a' && c <= 'z') w += ch; else if (c >= 'A' && c <= 'Z') w += (char)(c - 'A' + 'a'); } return w; }
static Strs words(const std::string& s) { Strs w; std::string c; for (char ch : s + " ") if (ch == ' ') { if (!c.empty()) w.push_back(c); c.clear(); } else c += ch; return w; }
static bool c09(Rng& r, long i) {
    std::string s; if (i < 256) { s = std::string(1, (char)i); } else s = gtext(r, 14, r.below(5));
    say("text %s\n", hb::str(s).c_str());
    vgram_core::CharTokenizer t; std::string g = t.normalize(s), w = norm(s);
    CHECK(g == w, "normalize gives %s, expected %s", hb::str(g).c_str(), hb::str(w).c_str());
    Strs tk = t.tokenize(g), wt; for (char c : w) wt.push_back(std::string(1, c));
    CHECK(tk == wt, "tokens %s, expected %s", sstr(tk).c_str(), sstr(wt).c_str());
    Strs raw = t.tokenize(s), wr; for (char c : s) wr.push_back(std::string(1, c));
    CHECK(raw == wr, "tokens of the raw text %s, expected %s", sstr(raw).c_str(), sstr(wr).c_str());
    CHECK(t.normalize(g) == g, "normalizing again changes the text");
    return w.size() > 1 && w.size() < s.size();
}
struct Plain : vgram_core::BaseTokenizer { using vgram_core::BaseTokenizer::BaseTokenizer; Strs tokenize(const std::string& s) const override { Strs v; for (size_t i = 0; i < s.size(); i += 2) v.push_back(s.substr(i, 2)); return v; } };
static bool c10(Rng& r, long) {
    int kind = r.below(3); std::unordered_map<std::string, int> start; std::vector<std::string> toks; std::map<std::string, int> num;
    if (r.chance(1, 2)) { int n = odd(r, 24) ? number(r, 300) : r.in(1, 6); for (int i = 0; i < n; i++) { std::string w = odd(r, 8) ? gtext(r, 8, 1) : kind == 1 ? std::string(r.in(1, 2), "abxy"[r.below(4)]) : kind == 0 ? std::string(1, 'a' + r.below(8)) : gtext(r, 2, 3); if (w.empty() || num.count(w)) continue; num[w] = toks.size(); start[w] = toks.size(); toks.push_back(w); } }
    say("%s tokenizer, %zu starting tokens %s\n", kind == 0 ? "character" : kind == 1 ? "word" : "two-byte", toks.size(), sstr(toks).c_str());
    std::unique_ptr<vgram_core::BaseTokenizer> t;
    bool def = toks.empty() && r.chance(1, 2);
    if (kind == 0) t.reset(def ? new vgram_core::CharTokenizer() : new vgram_core::CharTokenizer(start));
    else if (kind == 1) t.reset(def ? new vgram_core::WordTokenizer() : new vgram_core::WordTokenizer(start));
    else t.reset(def ? new Plain() : new Plain(start));
    CHECK(t->decode(Seq{}) == "", "the empty list decodes to something");
    for (size_t i = 0; i < toks.size(); i++) CHECK(t->decode(Seq(1, i)) == toks[i], "starting id %zu decodes to %s", i, hb::str(t->decode(Seq(1, i))).c_str());
    int n = odd(r, 24) ? number(r, 70) : r.in(1, 8);
    for (int k = 0; k < n; k++) {
        std::vector<std::string> batch; bool many = r.chance(1, 3); int m = many ? (odd(r, 24) ? number(r, 70) : r.in(0, 3)) : 1; for (int i = 0; i < m; i++) batch.push_back(gtext(r, 9, kind == 1 ? r.below(3) : r.below(5)));
        std::vector<Seq> want; std::vector<std::string> txt;
        for (auto& s : batch) {
            Strs tk = kind == 0 ? Strs() : kind == 1 ? words(s) : Plain().tokenize(s); if (kind == 0) for (char c : norm(s)) tk.push_back(std::string(1, c));
            Seq w; std::string all; for (auto& x : tk) { if (!num.count(x)) { int id = toks.size(); num[x] = id; toks.push_back(x); } w.push_back(num[x]); all += x; } want.push_back(w); txt.push_back(all);
        }
        say("transform %s\n", sstr(batch).c_str());
        std::vector<Seq> got; if (many) got = t->transform(batch); else got.push_back(t->transform(batch[0]));
        CHECK(got == want, "ids %s, expected %s", hb::str(got).c_str(), hb::str(want).c_str());
        for (size_t i = 0; i < got.size(); i++) CHECK(t->decode(got[i]) == txt[i], "decodes to %s, expected %s", hb::str(t->decode(got[i])).c_str(), hb::str(txt[i]).c_str());
        CHECK(t->decode(got) == txt, "the batch decodes differently");
        Seq odd; std::string ow; for (int i = 0; i < 4; i++) { int id = r.in(-2, (int)toks.size() + 2); odd.push_back(id); if (id >= 0 && id < (int)toks.size()) ow += toks[id]; }
        CHECK(t->decode(odd) == ow, "ids %s decode to %s, expected %s", hb::str(odd).c_str(), hb::str(t->decode(odd)).c_str(), hb::str(ow).c_str());
    }
    return toks.size() > 2;
}
static bool c11(Rng& r, long) {
    std::string s = gtext(r, 14, r.below(5)); if (r.chance(1, 2)) for (auto& c : s) if (r.chance(1, 3)) c = ' ';
    say("text %s\n", hb::str(s).c_str());
    vgram_core::WordTokenizer t; CHECK(t.normalize(s) == s, "normalize changes the text to %s", hb::str(t.normalize(s)).c_str());
    Strs g = t.tokenize(s), w = words(s);
    CHECK(g == w, "tokens %s, expected %s", sstr(g).c_str(), sstr(w).c_str());
    return w.size() > 1;
}
std::map<std::string, hb::Case> hb::cases() { return {{"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11}}; }
