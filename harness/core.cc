#include "base.h"
#ifndef NOPRIV
#define private public
#define protected public
#endif
#include "int_dict.cc"
#include "int_dict_p.cc"
#include "stat_dict_p.cc"
#include "int_vgram_builder_p.cc"
#include "fast_random.cc"
#include "list_dict.h"
#undef private
#undef protected
using namespace hb;

static std::vector<Seq> entries(const IntDict& d) { std::vector<Seq> v; for (int i = 0; i < d.size(); i++) v.push_back(d.get(i)); return v; }
static std::vector<Seq> sentries(const StatDictImpl& d) { std::vector<Seq> v; for (int i = 0; i < d.size(); i++) v.push_back(d.get(i)); return v; }
static int longest(const std::vector<Seq>& e, const Seq& q, size_t at, const std::unordered_set<int>* ex) {
    int b = -1;
    for (size_t i = 0; i < e.size(); i++) if (starts(q, at, e[i]) && (!ex || !ex->count(i)) && (b < 0 || e[i].size() > e[b].size())) b = i;
    return b;
}
static int plink(const std::vector<Seq>& e, int i) {
    int b = -1;
    for (size_t j = 0; j < e.size(); j++) if (e[j].size() < e[i].size() && starts(e[i], 0, e[j]) && (b < 0 || e[j].size() > e[b].size())) b = j;
    return b;
}
static std::unordered_set<int> gex(Rng& r, int n) { std::unordered_set<int> s; int m = r.below(3); for (int i = 0; i < n; i++) if (m == 0 ? r.chance(1, 3) : m == 1 ? r.chance(3, 4) : false) s.insert(i); if (r.chance(1, 8)) s.insert(n + r.below(3)); return s; }
static std::string sx(const std::unordered_set<int>& s) { Seq v(s.begin(), s.end()); std::sort(v.begin(), v.end()); return str(v); }
static std::shared_ptr<IntDictImpl> mk(Rng& r, const Seq& pool, std::vector<Seq>& list, bool closed = false, int nmax = 10, int lmax = 4) {
    int k = r.below(10);
    if (k == 0) { list.clear(); say("dict()\n"); return std::make_shared<IntDictImpl>(); }
    if (k == 1) { Seq a; for (int x : pool) if (r.chance(2, 3)) a.push_back(x); for (size_t i = a.size(); i > 1; i--) std::swap(a[i - 1], a[r.below(i)]); list.clear(); for (int x : a) list.push_back(Seq(1, x)); say("dict of symbols %s\n", str(a).c_str()); return std::make_shared<IntDictImpl>(a); }
    list = gdict(r, pool, nmax, lmax, closed);
    say("dict %s\n", str(list).c_str());
    auto d = std::make_shared<IntDictImpl>(list);
    if (k == 2) { say("copied\n"); return std::make_shared<IntDictImpl>(*d); }
    return d;
}
static Seq gpool(Rng& r) { return gsyms(r, pools()[r.below(pools().size())]); }
static Seq gfreq(Rng& r, int n) { Seq f(r.chance(1, 3) ? r.in(0, n + 2) : n); int m = r.below(3); for (auto& x : f) x = m == 0 ? 0 : m == 1 ? r.below(5) : (r.chance(1, 3) ? 0 : odd(r, 12) ? number(r, 100000000) : r.below(100000)); return f; }
static double gtotal(Rng& r, const Seq& f) { double t = 0; for (int x : f) t += x; return r.chance(1, 2) ? t : t + r.below(1000); }

static bool c01(Rng& r, long) {
    Seq pool = gpool(r); std::vector<Seq> list;
    bool stat = r.chance(1, 4);
    std::shared_ptr<IntDictImpl> d; std::shared_ptr<StatDictImpl> sd; IntDict* p = 0;
    if (stat) { list = gdict(r, pool, 8, 4, false); say("statistics dict %s\n", str(list).c_str()); sd = std::make_shared<StatDictImpl>(list); }
    else { d = mk(r, pool, list); p = d.get(); }
    Seq wide = pool; wide.push_back(42); if (r.chance(1, 2)) wide.push_back(-7);
    int n = r.in(1, 12); bool nt = false;
    for (int k = 0; k < n; k++) {
        auto e = stat ? sentries(*sd) : entries(*p);
        Seq q = gseq(r, wide, 1, 7);
        if (!e.empty() && r.chance(1, 2)) { q = e[r.below(e.size())]; if (r.chance(1, 2)) q.push_back(wide[r.below(wide.size())]); else if (r.chance(1, 3) && q.size() > 1) q.pop_back(); }
        if (q.empty()) continue;
        if (r.chance(1, 2)) {
            auto ex = gex(r, e.size()); say("search(%s, excluding %s)\n", str(q).c_str(), sx(ex).c_str());
            auto ex0 = ex;
            int got = stat ? sd->search(q, &ex) : p->search(q, &ex);
            int want = longest(e, q, 0, &ex0);
            CHECK(got == want, "search(%s) excluding %s gives %d, expected %d", str(q).c_str(), sx(ex0).c_str(), got, want);
            CHECK((stat ? sentries(*sd) : entries(*p)) == e, "a lookup with an exclusion set changed the dictionary");
            nt |= want >= 0;
        } else {
            say("search(%s)\n", str(q).c_str());
            int got = stat ? (r.chance(1, 2) ? sd->search(q) : sd->search(q, nullptr)) : p->search(q, nullptr);
            auto e2 = stat ? sentries(*sd) : entries(*p);
            int want = longest(e2, q, 0, nullptr);
            CHECK(got >= 0 && got < (int)e2.size() && got == want, "search(%s) gives %d, expected %d of %s", str(q).c_str(), got, want, str(e2).c_str());
            nt |= e2[want].size() > 1;
        }
    }
    return nt;
}
static void links(const IntDict& d, const char* when) {
    auto e = entries(d);
    for (size_t i = 0; i < e.size(); i++) { int w = plink(e, i), g = d.parent(i); CHECK(g == w, "%s: parent of %s is %d (%s), expected %d (%s)", when, str(e[i]).c_str(), g, g >= 0 && g < (int)e.size() ? str(e[g]).c_str() : "-", w, w >= 0 ? str(e[w]).c_str() : "-"); }
}
static bool c02(Rng& r, long) {
    Seq pool = gpool(r); std::vector<Seq> list;
    auto d = mk(r, pool, list, false, 14, 5);
    std::sort(list.begin(), list.end());
    CHECK(entries(*d) == list && d->alphabet() == list && d->size() == (int)list.size(), "the dictionary does not hold the given sequences in order: %s", str(entries(*d)).c_str());
    links(*d, "after building");
    Seq wide = pool; wide.push_back(42); wide.push_back(-7);
    int n = r.in(0, 8);
    for (int k = 0; k < n; k++) {
        Seq q = gseq(r, wide, 1, 6);
        if (r.chance(1, 3)) { std::unordered_set<int> ex = gex(r, d->size()); say("search(%s, excluding)\n", str(q).c_str()); d->search(q, &ex); }
        else if (r.chance(1, 2)) { say("search(%s)\n", str(q).c_str()); d->search(q, nullptr); }
        else { Seq o; say("parse(%s)\n", str(q).c_str()); d->parse(q, Seq(), 1, &o); }
        links(*d, "after a lookup");
    }
    if (r.chance(1, 2)) {
        say("statistics\n"); StatDictImpl s(list); auto e = sentries(s);
        CHECK(e == list && s.alphabet() == list, "the statistics dictionary does not hold the given sequences in order");
        for (size_t i = 0; i < e.size(); i++) CHECK(s.parent(i) == plink(e, i), "statistics: parent of %s", str(e[i]).c_str());
    }
    return list.size() > 2;
}
static void lossless(const std::vector<Seq>& e, const Seq& out, size_t from, const Seq& q) {
    Seq c;
    for (size_t i = from; i < out.size(); i++) { CHECK(out[i] >= 0 && out[i] < (int)e.size(), "identifier %d is not in the dictionary of %zu entries", out[i], e.size()); c.insert(c.end(), e[out[i]].begin(), e[out[i]].end()); }
    CHECK(c == q, "the entries spell %s, the input is %s", str(c).c_str(), str(q).c_str());
}
static bool c03(Rng& r, long) {
    Seq pool = gpool(r); std::vector<Seq> list; bool nt = false;
    Seq wide = pool; if (r.chance(1, 2)) wide.push_back(42);
    if (r.chance(1, 3)) {
        list = gdict(r, pool, 8, 4, r.chance(1, 2)); say("statistics dict %s\n", str(list).c_str());
        Seq pri = gfreq(r, list.size()); bool wp = r.chance(1, 3);
        if (wp) say("priors %s\n", str(pri).c_str());
        StatDictImpl s(list, 0.002, wp ? &pri : nullptr);
        int n = r.in(1, 6);
        for (int k = 0; k < n; k++) { Seq q = gseq(r, wide, 0, 10), o; say("parse(%s)\n", str(q).c_str()); int c = s.parse(q, &o); lossless(sentries(s), o, 0, q); CHECK(c == (int)o.size(), "returned count %d for %zu identifiers", c, o.size()); nt |= o.size() > 1 && o.size() < q.size(); }
        return nt;
    }
    auto d = mk(r, pool, list);
    int n = r.in(1, 4);
    for (int k = 0; k < n; k++) {
        Seq q = gseq(r, wide, 0, 10), f = gfreq(r, d->size()); double t = gtotal(r, f);
        Seq o = r.chance(1, 2) ? Seq() : gseq(r, pool, 1, 3), o0 = o;
        say("parse(%s, freqs %s, total %.17g, output %s)\n", str(q).c_str(), str(f).c_str(), t, str(o).c_str());
        int c = d->parse(q, f, t, &o);
        CHECK(o.size() >= o0.size() && std::equal(o0.begin(), o0.end(), o.begin()), "the output held %s before, now %s", str(o0).c_str(), str(o).c_str());
        lossless(entries(*d), o, o0.size(), q);
        CHECK(c == (int)o.size(), "returned count %d for %zu identifiers", c, o.size());
        nt |= o.size() - o0.size() > 1 && o.size() - o0.size() < q.size();
    }
    return nt;
}
// addition is monotone, so the best left-to-right sum is found position by position
static double optimum(const std::vector<Seq>& e, const std::vector<double>& sc, const Seq& q) {
    std::vector<double> b(q.size() + 1, -INFINITY); b[0] = 0;
    for (size_t at = 0; at < q.size(); at++) if (b[at] > -INFINITY) for (size_t i = 0; i < e.size(); i++) if (starts(q, at, e[i])) b[at + e[i].size()] = std::max(b[at + e[i].size()], b[at] + sc[i]);
    return b[q.size()];
}
static double total_score(const std::vector<double>& sc, const Seq& o) { double a = 0; for (int x : o) a += sc[x]; return a; }
static bool c04(Rng& r, long) {
    Seq pool = gpool(r); auto list = gdict(r, pool, 10, 4, true); if (list.empty()) return false;
    say("dict %s\n", str(list).c_str());
    IntDictImpl d(list); auto e = entries(d); std::set<int> sy; for (auto& s : e) if (s.size() == 1) sy.insert(s[0]);
    Seq sp(sy.begin(), sy.end());
    Seq q = gseq(r, sp, 0, 9), f = gfreq(r, e.size()); double t = gtotal(r, f); Seq o;
    say("parse(%s, freqs %s, total %.17g)\n", str(q).c_str(), str(f).c_str(), t);
    d.parse(q, f, t, &o);
    CHECK(entries(d) == e, "the dictionary changed although every symbol was known");
    lossless(e, o, 0, q);
    std::vector<double> sc; for (size_t i = 0; i < e.size(); i++) sc.push_back((i < f.size() ? log(f[i] + 1.0) : 0) - log(t + e.size()));
    double b = optimum(e, sc, q), g = total_score(sc, o);
    CHECK(q.empty() || g >= b - 1e-9 * (1 + fabs(b)), "the segmentation %s scores %.17g, another scores %.17g", str(o).c_str(), g, b);
    return o.size() > 1 && o.size() < q.size();
}
static bool c05(Rng& r, long) {
    Seq pool = gpool(r); std::vector<Seq> list; auto d = mk(r, pool, list);
    Seq wide = pool; for (int x : {42, -7, 1000}) if (r.chance(1, 2)) wide.push_back(x);
    int n = r.in(1, 12); bool nt = false;
    for (int k = 0; k < n; k++) {
        auto e = entries(*d); Seq q = gseq(r, wide, 1, 6);
        int op = r.below(4); std::unordered_set<int> ex;
        if (op == 0) { say("search(%s)\n", str(q).c_str()); d->search(q, nullptr); }
        else if (op == 1) { Seq o; Seq f = gfreq(r, e.size()); say("parse(%s, freqs %s)\n", str(q).c_str(), str(f).c_str()); d->parse(q, f, gtotal(r, f), &o); }
        else if (op == 2) { Seq o; say("greedy parse(%s)\n", str(q).c_str()); d->parse(q, &o, nullptr); }
        else { ex = gex(r, e.size()); Seq o; say("greedy parse(%s, excluding %s)\n", str(q).c_str(), sx(ex).c_str()); d->parse(q, &o, &ex); }
        auto e2 = entries(*d);
        CHECK(d->alphabet() == e2, "alphabet() and get() differ");
        CHECK(e2.size() >= e.size() && std::equal(e.begin(), e.end(), e2.begin()), "entries %s became %s", str(e).c_str(), str(e2).c_str());
        CHECK(op != 3 || e2 == e, "an operation with an exclusion set learned a symbol");
        std::set<Seq> u(e2.begin(), e2.end()); CHECK(u.size() == e2.size(), "entries are not distinct: %s", str(e2).c_str());
        for (size_t i = e.size(); i < e2.size(); i++) {
            CHECK(e2[i].size() == 1, "the learned entry %s is not a single symbol", str(e2[i]).c_str());
            bool ok = false; for (size_t at = 0; at < (op == 0 ? 1 : q.size()); at++) ok |= q[at] == e2[i][0] && longest(e, q, at, nullptr) < 0;
            CHECK(ok, "the learned symbol %s is not an unmatched symbol of the input", str(e2[i]).c_str());
            nt = true;
        }
    }
    return nt;
}
static bool c06(Rng& r, long) {
    Seq pool = gpool(r); std::vector<Seq> list; auto d = mk(r, pool, list);
    Seq wide = pool; if (r.chance(1, 2)) wide.push_back(42);
    bool nt = false; int n = r.in(1, 4);
    for (int k = 0; k < n; k++) {
        Seq q = gseq(r, wide, 0, 10); auto e0 = entries(*d); bool use = r.chance(1, 2); std::unordered_set<int> ex = gex(r, e0.size()), ex0 = ex;
        Seq o = r.chance(1, 2) ? Seq() : gseq(r, pool, 1, 3), o0 = o;
        say("greedy parse(%s%s%s)\n", str(q).c_str(), use ? " excluding " : "", use ? sx(ex).c_str() : "");
        int c = d->parse(q, &o, use ? &ex : nullptr);
        auto e = entries(*d);
        CHECK(c == (int)o.size(), "returned count %d for %zu identifiers", c, o.size());
        CHECK(o.size() >= o0.size() && std::equal(o0.begin(), o0.end(), o.begin()), "the earlier output was touched");
        Seq want = o0; size_t at = 0;
        while (at < q.size()) {
            int w = longest(e, q, at, use ? &ex0 : nullptr);
            // an entry learned later in this very call could not be taken earlier
            if (w < 0) { CHECK(use, "no entry for symbol %d", q[at]); at++; continue; }
            want.push_back(w); at += e[w].size();
        }
        CHECK(o == want, "greedy segmentation gives %s, expected %s over %s", str(o).c_str(), str(want).c_str(), str(e).c_str());
        if (use) CHECK(e == e0, "the dictionary changed");
        nt |= o.size() - o0.size() > 1;
    }
    return nt;
}
static bool c12(Rng& r, long) {
    Seq pool = gpool(r); auto list = gdict(r, pool, 8, 4, r.chance(1, 2)); say("dict %s\n", str(list).c_str());
    bool empty = r.chance(1, 6); Seq pri = gfreq(r, list.size()); bool wp = !empty && r.chance(1, 3); if (wp) say("priors %s\n", str(pri).c_str());
    auto sd = empty ? std::make_shared<StatDictImpl>() : std::make_shared<StatDictImpl>(list, 0.002, wp ? &pri : nullptr);
    if (empty) say("(empty)\n");
    Seq wide = pool; if (r.chance(1, 2)) wide.push_back(42); if (r.chance(1, 3)) wide.push_back(-9);
    std::map<int, long> use; std::map<std::pair<int, int>, long> pairs; long chars = 0, power = 0; int n = r.in(1, 14);
    for (int k = 0; k < n; k++) {
        int hi = sd->size();
        if (r.chance(1, 3) && hi > 0) { int i = r.below(hi), f = r.chance(1, 5) ? 0 : r.chance(1, 4) ? -r.below((int)use[i] + 1) : odd(r, 8) ? number(r, 100000000) : r.in(1, 50); say("update_symbol(%d, %d)\n", i, f); sd->update_symbol(i, f); use[i] += f; power += f; }
        else if (r.chance(1, 5)) { Seq q = gseq(r, wide, 1, 4); say("search(%s)\n", str(q).c_str()); sd->search(q); }
        else { Seq q = gseq(r, wide, 0, 9), o; say("parse(%s)\n", str(q).c_str()); sd->parse(q, &o); for (size_t i = 0; i < o.size(); i++) { use[o[i]]++; power++; if (i) pairs[{o[i - 1], o[i]}]++; } chars += q.size(); }
        for (int i = 0; i < sd->size(); i++) CHECK(sd->freq(i) == use[i], "entry %d reports frequency %d, used %ld times", i, sd->freq(i), use[i]);
        CHECK(sd->freq(sd->size() + 3) == 0, "an entry that does not exist reports a frequency");
#ifndef NOPRIV
        CHECK(sd->power_ == power, "power is %.17g, the uses add up to %ld", sd->power_, power);
        CHECK(sd->total_chars_ == chars, "total characters %.17g, the inputs have %ld", sd->total_chars_, chars);
        long np = 0; for (auto& p : pairs) np += p.second; long gp = 0; for (auto& p : sd->pairs_freqs_) gp += p.second;
        CHECK(np == gp, "pair counts add up to %ld, expected %ld", gp, np);
        for (auto& p : pairs) { auto it = sd->pairs_freqs_.find(((int64_t)p.first.first << 32) | p.first.second); CHECK(it != sd->pairs_freqs_.end() && it->second == p.second, "pair (%d,%d) occurred %ld times", p.first.first, p.first.second, p.second); }
#else
        if (chars > 0 && power > 0) { double s = 0; for (auto& u : use) if (u.second > 0) s -= u.second * log((double)u.second); double w = (s + power * log((double)power)) / chars, g = sd->code_length_per_char(); CHECK(fabs(w - g) <= 1e-9 * (1 + fabs(w)), "code length %.17g instead of %.17g", g, w); }
#endif
    }
    return pairs.size() > 1;
}
static bool c13(Rng& r, long) {
    Seq pool = gpool(r); auto list = gdict(r, pool, 8, 3, true); if (list.empty()) return false;
    Seq pri(list.size()); for (auto& x : pri) x = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.below(10) : r.below(10000);
    if (r.chance(1, 5)) pri.resize(r.in(0, list.size()));
    if (r.chance(1, 8)) pri.push_back(7);
    say("dict %s priors %s\n", str(list).c_str(), str(pri).c_str());
    StatDictImpl s(list, 0.002, &pri); auto e = sentries(s);
    { auto l = list; std::sort(l.begin(), l.end()); auto m = e; std::sort(m.begin(), m.end()); CHECK(l == m, "the dictionary holds other sequences: %s", str(e).c_str()); }
    std::map<Seq, int> pm; for (size_t i = 0; i < list.size(); i++) pm[list[i]] = i < pri.size() ? pri[i] : 0;
    double tot = 0; for (auto& p : pm) tot += p.second;
    for (size_t i = 0; i < e.size(); i++) CHECK(s.freq(i) == 0, "entry %zu reports its prior as usage", i);
    std::set<int> sy; for (auto& x : e) if (x.size() == 1) sy.insert(x[0]); Seq sp(sy.begin(), sy.end());
    std::vector<long> use(e.size()); long power = 0; bool nt = false; int n = r.in(1, 4);
    for (int k = 0; k < n; k++) {
        Seq q = gseq(r, sp, 1, 8), o; say("parse(%s)\n", str(q).c_str());
        std::vector<double> sc; for (size_t i = 0; i < e.size(); i++) sc.push_back(log(pm[e[i]] + use[i] + 1.0) - log(tot + power + e.size()));
        s.parse(q, &o); lossless(e, o, 0, q);
        double b = optimum(e, sc, q), g = total_score(sc, o);
        CHECK(g >= b - 1e-9 * (1 + fabs(b)), "with its own prior per entry %s scores %.17g, another segmentation %.17g", str(o).c_str(), g, b);
        for (int x : o) { use[x]++; power++; }
        for (size_t i = 0; i < e.size(); i++) CHECK(s.freq(i) == use[i], "entry %zu reports %d uses of %ld", i, s.freq(i), use[i]);
        nt |= o.size() > 1 && o.size() < q.size();
    }
    return nt;
}
struct Stats { std::shared_ptr<StatDictImpl> d; std::map<std::pair<int, int>, long> pairs; std::map<int, long> use; };
static Stats collect(Rng& r) {
    Stats s; Seq pool; int k = r.in(1, 5); for (int i = 0; i < k; i++) pool.push_back(r.chance(1, 8) ? 1000 + i : i);
    auto list = gdict(r, pool, r.chance(1, 3) ? 12 : 5, 3, true); double mp = r.chance(1, 2) ? 0.002 : 1.0 / r.in(2, 5000);
    Seq pri = gfreq(r, list.size()); bool wp = r.chance(1, 2);
    say("dict %s min_prob %.17g%s\n", str(list).c_str(), mp, wp ? (" priors " + str(pri)).c_str() : "");
    s.d = std::make_shared<StatDictImpl>(list, mp, wp ? &pri : nullptr);
    int n = r.in(1, 25); Seq motif = gseq(r, pool, 2, 4);
    for (int i = 0; i < n; i++) {
        Seq q = gseq(r, pool, 0, 8); if (r.chance(1, 2)) { int m = r.in(1, 3); for (int j = 0; j < m; j++) q.insert(q.begin() + r.below(q.size() + 1), motif.begin(), motif.end()); }
        Seq o; say("parse(%s)\n", str(q).c_str()); s.d->parse(q, &o);
        for (size_t j = 0; j < o.size(); j++) { s.use[o[j]]++; if (j) s.pairs[{o[j - 1], o[j]}]++; }
        if (r.chance(1, 40)) { Seq q{r.in(500, 503)}; say("search(%s)\n", str(q).c_str()); s.d->search(q); }
    }
    return s;
}
#ifndef NOPRIV
// identifiers beyond 16 bits
static Stats wide(Rng& r) {
    Stats s; int n = r.in(65600, 70000); std::vector<Seq> list; for (int i = 0; i < n; i++) list.push_back(Seq(1, i));
    say("dict of the symbols 0..%d\n", n - 1); s.d = std::make_shared<StatDictImpl>(list);
    Seq pool; for (int i = 0; i < 6; i++) pool.push_back(r.chance(1, 2) ? r.below(20) : n - 1 - r.below(60));
    for (int i = 0; i < 8; i++) { Seq q = gseq(r, pool, 2, 6), o; say("parse(%s)\n", str(q).c_str()); s.d->parse(q, &o); for (size_t j = 0; j < o.size(); j++) { s.use[o[j]]++; if (j) s.pairs[{o[j - 1], o[j]}]++; } }
    return s;
}
static bool c14(Rng& r, long i) {
    Stats s = i == 2 ? wide(r) : collect(r); auto e = sentries(*s.d); int slots = r.chance(1, 4) ? 0 : odd(r, 12) ? number(r, 1000) : r.in(1, 12); double mp = s.d->min_probability_;
    std::vector<Seq> nd; Seq fr; say("expand(%d)\n", slots); double m = s.d->expand(slots, &nd, &fr);
    CHECK(sentries(*s.d) == e, "the dictionary itself changed");
    CHECK(nd.size() == fr.size(), "%zu entries, %zu frequencies", nd.size(), fr.size());
    std::set<Seq> u(nd.begin(), nd.end()); CHECK(u.size() == nd.size(), "an entry is listed twice: %s", str(nd).c_str());
    for (auto& x : e) CHECK(u.count(x), "the entry %s was lost", str(x).c_str());
    CHECK((int)nd.size() <= (int)e.size() + slots, "%zu entries for %zu and %d new ones", nd.size(), e.size(), slots);
    std::map<Seq, int> id; for (size_t i = 0; i < e.size(); i++) id[e[i]] = i;
    std::map<Seq, std::set<long>> cat; for (auto& p : s.pairs) { Seq c = e[p.first.first]; c.insert(c.end(), e[p.first.second].begin(), e[p.first.second].end()); cat[c].insert(p.second); }
    for (size_t i = 0; i < nd.size(); i++) {
        if (id.count(nd[i])) CHECK(fr[i] == s.use[id[nd[i]]], "%s comes with %d, used %ld times", str(nd[i]).c_str(), fr[i], s.use[id[nd[i]]]);
        else { CHECK(cat.count(nd[i]), "the new entry %s is not a pair that occurred", str(nd[i]).c_str()); CHECK(cat[nd[i]].count(fr[i]), "the new entry %s comes with %d", str(nd[i]).c_str(), fr[i]); }
    }
    CHECK(m <= mp && m > 0, "minimal probability %.17g from %.17g", m, mp);
    return nd.size() > e.size();
}
static bool c15(Rng& r, long) {
    Stats s = collect(r); auto e = sentries(*s.d); int slots = r.chance(1, 4) ? 0 : odd(r, 12) ? number(r, 1000) : r.in(1, 12);
    if (s.d->code_length_per_char() != s.d->code_length_per_char()) return false;
    std::vector<Seq> nd; Seq fr; say("reduce(%d)\n", slots); s.d->reduce(slots, &nd, &fr);
    CHECK(sentries(*s.d) == e, "the dictionary itself changed");
    CHECK(nd.size() == fr.size(), "%zu entries, %zu frequencies", nd.size(), fr.size());
    std::set<Seq> u(nd.begin(), nd.end()); CHECK(u.size() == nd.size(), "an entry is listed twice: %s", str(nd).c_str());
    std::map<Seq, int> id; int roots = 0; for (size_t i = 0; i < e.size(); i++) { id[e[i]] = i; roots += plink(e, i) < 0; }
    CHECK((int)nd.size() <= slots + roots, "%zu entries kept for %d slots and %d roots", nd.size(), slots, roots);
    bool longer = false;
    for (size_t i = 0; i < nd.size(); i++) { CHECK(id.count(nd[i]), "%s is not an entry", str(nd[i]).c_str()); CHECK(fr[i] == s.use[id[nd[i]]], "%s comes with %d, used %ld times", str(nd[i]).c_str(), fr[i], s.use[id[nd[i]]]); longer |= nd[i].size() > 1; }
    for (auto& x : e) if (x.size() == 1) CHECK(u.count(x), "the symbol %s was dropped", str(x).c_str());
    return longer && nd.size() < e.size();
}
#endif
static bool c16(Rng& r, long) {
    int k = r.in(1, 6); Seq pool; for (int i = 0; i < k; i++) pool.push_back(i); int size = r.chance(1, 6) ? r.in(0, k) : odd(r, 12) ? number(r, 1000) : r.in(k, 30); int kind = r.below(4);
    say("builder size %d over %d symbols, constructor %d\n", size, k, kind);
    std::shared_ptr<IntVGramBuilderImpl> b;
    bool loaded = false;
    if (kind == 0) b = std::make_shared<IntVGramBuilderImpl>(size, 0);
    else if (kind == 1) b = std::make_shared<IntVGramBuilderImpl>(pool, size, 0);
    else if (kind == 2) { IntDictImpl d(pool); b = std::make_shared<IntVGramBuilderImpl>((const IntDict&)d, size, 0); }
    else { auto l = gdict(r, pool, 5, 3, true); IntDictImpl d(l); Seq f = gfreq(r, d.size()); f.resize(d.size()); say("dict %s freqs %s\n", str(l).c_str(), str(f).c_str()); b = std::make_shared<IntVGramBuilderImpl>((const IntDict&)d, f, d.alphabet(), 0.002, 0); loaded = true; }
    std::vector<Seq> base; int nb = r.in(1, 4); for (int i = 0; i < nb; i++) base.push_back(gseq(r, pool, 1, 12, 70)); say("sequences of %s\n", str(base).c_str());
    bool noise = r.chance(1, 2); if (noise) say("with noise\n");
    int n = r.in(100, 1500); bool grow = true; int turns = 0;
    (void)loaded;
    for (int i = 0; i < n && turns < 6; i++) {
        Seq q; int m = r.in(1, 4); for (int j = 0; j < m; j++) { auto& x = base[r.below(nb)]; q.insert(q.end(), x.begin(), x.end()); if (noise && r.chance(1, 3)) q.push_back(pool[r.below(k)]); }
        if (r.chance(1, 50)) q.clear();
        auto before = b->result();
#ifndef NOPRIV
        auto cur = b->current_; auto res = b->result_; double pf = b->prob_found_;
#endif
        b->accept(q);
#ifndef NOPRIV
        auto ce = sentries(*cur);
#endif
        auto d = b->result(); CHECK(d != nullptr, "no dictionary after %d sequences", i + 1);
        bool light = r.chance(1, 10) || d != before;
        if (light) {
            Seq f; int c = b->result_freqs(&f);
            CHECK((int)f.size() == d->size() && c == (int)f.size(), "%zu frequencies for %d entries after %d sequences", f.size(), d->size(), i + 1);
            for (int x : f) CHECK(x >= 0, "negative frequency");
            CHECK(entries(*b->alpha()).size() == (size_t)d->size(), "alpha() has %d entries, the dictionary %d", b->alpha()->size(), d->size());
            auto de = entries(*d); std::set<Seq> u(de.begin(), de.end()); CHECK(u.size() == de.size() && !u.count(Seq()), "the dictionary is not usable: %s", str(de).c_str());
            double cl = b->code_length(); (void)cl;
#ifndef NOPRIV
            { auto x = b->result_ ? b->result_ : b->current_; double w = x->code_length_per_char(); CHECK(cl == w || (cl != cl && w != w), "code length %.17g, that of the exposed dictionary is %.17g", cl, w);
              for (size_t j = 0; j < f.size(); j++) CHECK(f[j] == x->freq(j), "frequency %zu is %d, the exposed dictionary counts %d", j, f[j], x->freq(j)); }
#endif
            double mp = b->get_min_probability(); CHECK(mp == -1.0 || (mp > 0 && mp <= 0.002), "minimal probability %.17g", mp);
        }
#ifndef NOPRIV
        bool en = cur->enough(pf) || cur->power_ > 20000000;
        if (b->current_ != cur) {
            CHECK(en, "the dictionary was revised without evidence after %d sequences", i + 1);
            turns++;
            auto ne = sentries(*b->current_); std::set<Seq> u(ne.begin(), ne.end());
            if (grow) { CHECK(b->result_ == res, "growing published a dictionary"); size_t kept = 0; for (auto& x : ce) kept += u.count(x); CHECK(kept == ce.size(), "growing lost an entry"); }
            else { CHECK(b->result_ == b->current_, "shrinking did not publish its dictionary"); std::set<Seq> o(ce.begin(), ce.end()); for (auto& x : ne) CHECK(o.count(x), "shrinking invented %s", str(x).c_str()); int lg = 0; for (auto& x : ne) lg += x.size() > 1; CHECK(lg <= std::max(b->size_, 0), "a distilled dictionary of %d longer entries, %d requested", lg, b->size_); }
            CHECK(b->result() == (b->result_ ? b->result_->dict_ : b->current_->dict_), "the exposed dictionary is not the published one");
            grow = !grow;
        } else { CHECK(!en, "enough evidence but no revision after %d sequences", i + 1); CHECK(b->result_ == res && d == before, "a dictionary was published without a revision"); }
#endif
    }
    return turns >= 2;
}
static bool c22(Rng& r, long) {
    int n = odd(r, 24) ? std::max<int>(1, number(r, 300)) : r.in(1, 6); std::vector<double> p(n); bool big = r.chance(1, 2); double sum = 0;
    for (auto& x : p) { x = big ? r.in(1000000, 9000000) : 1.0 + r.below(50) / 7.0; sum += x; }
    int extra = r.below(3); std::vector<double> o(n + extra, -12345.0); say("%d %s parameters:", n, big ? "large" : "small"); for (double x : p) say(" %.17g", x); say("\n");
    next_dirichlet(p, &o); double t = 0;
    CHECK((int)o.size() == n + extra, "the output was resized");
    for (int i = 0; i < n; i++) { CHECK(o[i] >= 0 && o[i] <= 1, "coordinate %d is %.17g", i, o[i]); t += o[i]; if (big) CHECK(fabs(o[i] / (p[i] / sum) - 1) < 0.05, "coordinate %d is %.17g for parameter %.17g of %.17g", i, o[i], p[i], sum); }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) CHECK(o[i] < 1e-9 || o[i] != o[j], "coordinates %d and %d are the same draw %.17g", i, j, o[i]);
    CHECK(fabs(t - 1) < 1e-9, "the coordinates add up to %.17g", t);
    for (int i = n; i < n + extra; i++) CHECK(o[i] == -12345.0, "coordinate %d beyond the parameters was touched", i);
    return n > 1;
}
static bool c23(Rng& r, long i) {
    Seq pool = gpool(r); Seq s = i < 3 ? Seq(i, -5) : gseq(r, pool, 0, 8); say("%s\n", str(s).c_str());
    std::string w = "("; for (size_t k = 0; k < s.size(); k++) w += (k ? " " : "") + std::to_string(s[k]); w += ")";
    std::string g = to_string(s); CHECK(g == w, "to_string gives %s", g.c_str());
    std::ostringstream o; o << "x"; std::ostream& b = (o << s); CHECK(&b == &o && o.str() == "x" + w, "the stream gives %s", o.str().c_str());
    return s.size() > 1;
}
static double formula(const std::map<int, long>& use, long power, long chars) { double s = 0; for (auto& u : use) if (u.second > 0) s += u.second * log((double)u.second); return (power * log((double)power) - s) / chars; }
static bool c24(Rng& r, long) {
    if (r.chance(1, 5)) {
        int k = r.in(1, 4); Seq pool; for (int i = 0; i < k; i++) pool.push_back(i); IntVGramBuilderImpl b(20, 0); say("builder\n");
        // below the first revision the builder reports the statistics it is collecting: single symbols only
        std::map<int, long> use; long n = 0; int m = r.in(1, 40);
        for (int i = 0; i < m; i++) { Seq q = gseq(r, pool, 1, 20); say("accept(%s)\n", str(q).c_str()); b.accept(q); for (int x : q) { use[x]++; n++; } if (n > 1000) break;
            double w = formula(use, n, n), g = b.code_length(); CHECK(fabs(g - w) <= 1e-9 * (1 + fabs(w)), "code length %.17g, the counts give %.17g", g, w); }
        return use.size() > 1;
    }
#ifndef NOPRIV
    if (r.chance(1, 60)) {
        int k = r.in(2, 4); Seq pool; for (int i = 0; i < k; i++) pool.push_back(i); IntVGramBuilderImpl b(20, 0); say("builder, random sequences over %d symbols\n", k); int past = 0;
        for (int i = 0; i < 3000 && past < 40; i++) {
            Seq q = gseq(r, pool, 10, 30, 0); b.accept(q);
            if (b.result_ == nullptr) continue;
            past += b.result_ != b.current_; auto x = b.result_; std::map<int, long> use; for (int j = 0; j < x->size(); j++) use[j] = x->freq(j);
            if (x->power_ <= 0 || x->total_chars_ <= 0) continue;
            double w = formula(use, (long)x->power_, (long)x->total_chars_), g = b.code_length();
            CHECK(fabs(g - w) <= 1e-9 * (1 + fabs(w)), "after %d sequences the code length is %.17g, the counts of the exposed dictionary give %.17g", i + 1, g, w);
        }
        return past > 0;
    }
#endif
    Seq pool = gpool(r); auto list = gdict(r, pool, 8, 4, r.chance(1, 2)); double mp = r.chance(1, 2) ? 0.002 : 1.0 / r.in(2, 3000);
    say("dict %s min_prob %.17g\n", str(list).c_str(), mp); StatDictImpl s(list, mp);
    std::map<int, long> use; long power = 0, chars = 0; int n = r.in(1, 10); bool nt = false;
    for (int k = 0; k < n; k++) {
        if (r.chance(1, 3) && s.size() > 0) { int i = r.below(s.size()), f = r.chance(1, 3) ? r.below(3) : r.below(4000); say("update_symbol(%d, %d)\n", i, f); s.update_symbol(i, f); use[i] += f; power += f; }
        else { Seq q = gseq(r, pool, 0, 9), o; say("parse(%s)\n", str(q).c_str()); s.parse(q, &o); for (int x : o) { use[x]++; power++; } chars += q.size(); }
        if (chars > 0 && power > 0) { double w = formula(use, power, chars), g = s.code_length_per_char(); CHECK(fabs(g - w) <= 1e-9 * (1 + fabs(w)), "code length per character %.17g, the counts give %.17g", g, w); nt |= w > 0; }
        for (int j = 0; j < 3; j++) {
            double p = r.chance(1, 2) ? 0.1 : (1 + r.below(999)) / 1000.0; if (r.chance(1, 3)) { p = exp(-power * mp); p = r.chance(1, 2) ? p * 0.999 : std::min(1.0, p * 1.001); if (p <= 0) p = 0.5; }
            double lim = -log(p) / mp; bool w = power > lim; if (fabs(power - lim) < 1e-6 * (1 + lim)) continue;
            CHECK(s.enough(p) == w, "enough(%.17g) is %d with power %ld and minimal probability %.17g", p, !w, power, mp);
        }
    }
    return nt;
}
static bool c25(Rng& r, long) {
    Encoder<int> e; std::map<int, int> m; Seq pool = gpool(r); pool.push_back(77); int n = r.in(1, 6); bool nt = false;
    Seq o;
    for (int k = 0; k < n; k++) {
        Seq q = gseq(r, pool, 0, 8); if (r.chance(1, 3)) o = r.chance(1, 2) ? Seq() : gseq(r, pools()[1], 0, 3); if (r.chance(1, 5)) o.push_back(-r.in(1, 100)); Seq w = o; for (int x : q) { auto it = m.emplace(x, (int)m.size()).first; w.push_back(it->second); }
        say("encode(%s)\n", str(q).c_str()); e.encode(q, &o); CHECK(o == w, "output %s, expected %s", str(o).c_str(), str(w).c_str());
        CHECK(e.size() == (int)m.size(), "size() is %d after %zu distinct items", e.size(), m.size()); nt |= m.size() > 1;
    }
    Encoder<std::string> es; Seq so; std::vector<std::string> in; std::map<std::string, int> sm; Seq sw; int k = r.in(0, 6);
    for (int i = 0; i < k; i++) { in.push_back(std::string(r.below(3), 'a' + r.below(2))); sw.push_back(sm.emplace(in.back(), (int)sm.size()).first->second); }
    es.encode(in, &so); CHECK(so == sw && es.size() == (int)sm.size(), "strings: %s, expected %s", str(so).c_str(), str(sw).c_str());
    return nt;
}
std::map<std::string, hb::Case> hb::cases() {
    return {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C12", c12}, {"C13", c13},
#ifndef NOPRIV
            {"C14", c14}, {"C15", c15},
#endif
            {"C16", c16}, {"C22", c22}, {"C23", c23}, {"C24", c24}, {"C25", c25}};
}
