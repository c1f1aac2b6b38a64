// the builder: dictionaries in training and their statistics
pub open spec fn cap() -> int { 0x200_0000 }   // no accepted sequence and no entry is longer
pub open spec fn full_power() -> int { 20000000 }
// a count scaled by a literal from 0 to 4 (the bits of non-negative doubles are ordered like their values), truncated
#[verifier::external_body] pub proof fn ax_scaled(n: int, b: u64) ensures 0 <= n < 0x1800_0000 && b <= 0x4010_0000_0000_0000 ==> 0 <= ftoint(fmul(fofint(n), flit(b))) <= 4 * n && fnum(fmul(fofint(n), flit(b))) {}
pub proof fn fsum_upto(s: Seq<i32>) requires s.len() < 0x8000_0000, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] ensures fin_upto(fsum_i32(s), s.len() as int) decreases s.len() {
    if s.len() == 0 { ax_upto_int(0, 0); }
    else { fsum_upto(s.drop_last()); ax_upto_int(s.last() as int, 1); ax_upto_add(fsum_i32(s.drop_last()), s.len() - 1, fofint(s.last() as int), 1); }
}
pub open spec fn short(d: Seq<Seq<i32>>) -> bool { forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).len() <= cap() }
pub open spec fn pairs_short(d: Seq<Seq<i32>>, m: Map<i64, i32>) -> bool { forall|k: i64| #[trigger] m.dom().contains(k) ==> d[hi(k)].len() + d[lo(k)].len() <= cap() }
// everything that was counted, in terms of the number of uses
pub open spec fn tallied(s: StatDictImpl) -> bool {
    let f = s.symbol_freqs_; let t = sum_i32(f);
    &&& forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i]
    &&& forall|i: int| 0 <= i ==> fr(f, i) <= #[trigger] fr(s.parse_freqs_, i) <= fr(f, i) + 0x4000_0000
    &&& s.pairs_freqs_.dom().finite() && s.pairs_freqs_.dom().len() <= t
    &&& forall|k: i64| #[trigger] s.pairs_freqs_.dom().contains(k) ==> s.pairs_freqs_[k] <= t
    &&& exists|c: int| #[trigger] total_of(s.total_chars_, c) && c <= t * cap()
    &&& fin_upto(s.parse_freqs_init_power_, 0x8000_0000)
}
// a dictionary that can segment anything and learn from it
pub open spec fn usable(h: Heap, id: u64) -> bool {
    let s = h.m_StatDictImpl[id]; let d = dict_of(h, s).seqs_;
    &&& id != 0 && h.m_StatDictImpl.dom().contains(id) && s.owns(h) && s.tally() && closed(d, Set::empty()) && s.symbol_freqs_.len() <= d.len() && short(d)
    &&& tallied(s) && pairs_short(d, s.pairs_freqs_)
}
pub open spec fn stat_of(h: Heap, id: u64) -> StatDictImpl { h.m_StatDictImpl[id] }
pub open spec fn entries_of(h: Heap, id: u64) -> Seq<Seq<i32>> { dict_of(h, stat_of(h, id)).seqs_ }
pub open spec fn used_of(h: Heap, id: u64) -> int { sum_i32(stat_of(h, id).symbol_freqs_) }
// enough was seen to revise the dictionary
pub open spec fn evidence(s: StatDictImpl, p: F64) -> bool { flt(fdiv(fneg(flog(p)), s.min_probability_), s.power_) || flt(fofint(full_power()), s.power_) }
impl IntVGramBuilderImpl {
    pub open spec fn shown(&self) -> u64 { if self.result_ != 0 { self.result_ } else { self.current_ } }
    pub open spec fn settled(&self, h: Heap, n: int) -> bool {
        &&& usable(h, self.current_) && used_of(h, self.current_) <= n
        &&& self.result_ != 0 ==> usable(h, self.result_) && used_of(h, self.result_) <= full_power() + cap()
        &&& self.result_ != 0 && self.result_ != self.current_ ==> stat_of(h, self.result_).dict_ != stat_of(h, self.current_).dict_
        &&& self.populate_ ==> self.result_ == 0 || self.result_ == self.current_
        &&& -0x4000_0000 <= self.size_ <= 0x4000_0000
    }
    pub open spec fn ready(&self, h: Heap) -> bool { self.settled(h, full_power()) }
    // what a history may not exceed
    pub open spec fn fits(&self, h: Heap, n: int) -> bool { n <= cap() && entries_of(h, self.current_).len() + n < 0x1000_0000 && self.symb_alphabet_.len() < 0x1000_0000 && self.no_rate_increase_turns_ < 0x7fff_fff0 }
}
pub open spec fn all_in(a: Seq<Seq<i32>>, b: Seq<Seq<i32>>) -> bool { forall|i: int| 0 <= i < a.len() ==> listed(b, #[trigger] a[i]) }
pub open spec fn singles_of(a: Seq<Seq<i32>>, b: Seq<Seq<i32>>) -> bool { forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).len() == 1 ==> listed(b, a[i]) }
// one revision
pub open spec fn grew(a: IntVGramBuilderImpl, h: Heap, b: IntVGramBuilderImpl, k: Heap) -> bool {
    a.populate_ && !b.populate_ && b.result_ == a.result_ && all_in(entries_of(k, a.current_), entries_of(k, b.current_))
    && entries_of(k, b.current_).len() <= entries_of(k, a.current_).len() + larger(a.size_ as int, 4 * entries_of(k, a.current_).len() as int)
}
pub open spec fn shrank(a: IntVGramBuilderImpl, h: Heap, b: IntVGramBuilderImpl, k: Heap) -> bool {
    !a.populate_ && b.populate_ && b.result_ == b.current_ && all_in(entries_of(k, b.current_), entries_of(k, a.current_)) && singles_of(entries_of(k, a.current_), entries_of(k, b.current_))
    && many(entries_of(k, b.current_)) <= larger(a.size_ as int, 0)
}
pub open spec fn larger(a: int, b: int) -> int { if a > b { a } else { b } }
// a revision touches little else
pub open spec fn revised(a: IntVGramBuilderImpl, b: IntVGramBuilderImpl, n: int) -> bool {
    b.size_ == a.size_ && b.no_rate_increase_turns_ <= larger(a.no_rate_increase_turns_ + 1, 0) && b.symb_alphabet_.len() <= larger(a.symb_alphabet_.len() as int, n)
}
// the symbols that are entries; the number of the other entries
pub open spec fn sym(d: Seq<Seq<i32>>) -> Set<i32> decreases d.len() { if d.len() == 0 { Set::empty() } else if d.last().len() == 1 { sym(d.drop_last()).insert(d.last()[0]) } else { sym(d.drop_last()) } }
pub open spec fn many(d: Seq<Seq<i32>>) -> int { d.len() - sym(d).len() }
pub proof fn sym_has(d: Seq<Seq<i32>>) ensures forall|c: i32| #[trigger] sym(d).contains(c) <==> listed(d, seq![c]) decreases d.len() {
    if d.len() > 0 {
        let u = d.drop_last(); sym_has(u);
        let x = d.last(); let one = x.len() == 1;
        assert forall|c: i32| listed(u, seq![c]) implies listed(d, seq![c]) by { let j = choose|j: int| 0 <= j < u.len() && #[trigger] u[j] == seq![c]; assert(d[j] == seq![c]); }
        if one { assert(x =~= seq![x[0]]); assert(d[d.len() - 1] == seq![x[0]]); assert(listed(d, seq![x[0]])); }
        assert forall|c: i32| listed(d, seq![c]) implies #[trigger] sym(d).contains(c) by { let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == seq![c]; if j < u.len() { assert(u[j] == seq![c]); assert(listed(u, seq![c])); assert(sym(u).contains(c)); } else { assert(x == seq![c]); assert(seq![c].len() == 1); assert(x.len() == 1); assert(x[0] == seq![c][0]); assert(seq![c][0] == c); assert(sym(d) == sym(u).insert(c)); } }
        assert forall|c: i32| #[trigger] sym(d).contains(c) implies listed(d, seq![c]) by { if sym(u).contains(c) { assert(listed(u, seq![c])); } else { assert(one && c == x[0]); } }
    }
}
pub proof fn sym_le(d: Seq<Seq<i32>>, e: Seq<Seq<i32>>) requires singles_of(d, e) ensures sym(d).len() <= sym(e).len() {
    sym_has(d); sym_has(e);
    assert forall|c: i32| #[trigger] sym(d).contains(c) implies sym(e).contains(c) by { let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == seq![c]; assert(d[j].len() == 1); }
    vstd::set_lib::lemma_len_subset(sym(d), sym(e));
}
pub proof fn sym_roots(d: Seq<Seq<i32>>, l: Seq<i32>, n: int) requires links_ok(d, l), closed(d, Set::empty()), uniq(d), 0 <= n <= d.len() ensures roots(l, n) <= sym(d.subrange(0, n)).len() decreases n {
    if n > 0 {
        sym_roots(d, l, n - 1); let u = d.subrange(0, n - 1); assert(d.subrange(0, n).drop_last() =~= u);
        if l[n - 1] < 0 {
            let x = d[n - 1]; assert(link_ok(d, n - 1, l[n - 1] as int)); assert(x.len() > 0); assert(spelled(d, Set::empty(), x[0]));
            let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == seq![x[0]] && !Set::<i32>::empty().contains(j as i32);
            assert(!proper(d[j], x)); first_singleton(x, x[0]); assert(d[j] == x); assert(seq![x[0]].len() == 1);
            sym_has(u);
            if sym(u).contains(x[0]) { let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i] == seq![x[0]]; assert(d[i] == d[n - 1]); assert(i == n - 1); }
        }
    }
}
pub proof fn many_same(d: Seq<Seq<i32>>, e: Seq<Seq<i32>>) requires same_entries(d, e) ensures many(d) == many(e), sym(d) == sym(e) {
    sym_has(d); sym_has(e); assert forall|c: i32| sym(d).contains(c) <==> sym(e).contains(c) by { same_listed(d, e, seq![c]); } assert(sym(d) =~= sym(e));
}
pub proof fn many_grown(d: Seq<Seq<i32>>, e: Seq<Seq<i32>>, s: Seq<i32>, n: int) requires grown(d, e, s), uniq(e), d.len() <= n <= e.len() ensures sym(e.subrange(0, n)).len() == sym(d).len() + n - d.len(), n == e.len() ==> many(e) == many(d) decreases n {
    if n > d.len() {
        many_grown(d, e, s, n - 1); let u = e.subrange(0, n - 1); assert(e.subrange(0, n).drop_last() =~= u); assert(added(e, s, n - 1)); sym_has(u);
        let x = e[n - 1]; assert(x =~= seq![x[0]]);
        if sym(u).contains(x[0]) { let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i] == seq![x[0]]; assert(e[i] == e[n - 1]); }
    }
    if n == e.len() { assert(e.subrange(0, n) =~= e); }
}
// one count per entry, zero for entries without a counter yet
pub open spec fn per_entry(f: Seq<i32>, n: int) -> Seq<i32> { Seq::new(n as nat, |i: int| fr(f, i) as i32) }
// only the object c and its dictionary may change
pub open spec fn others_stay(h0: Heap, h1: Heap, c: u64) -> bool {
    &&& forall|k: u64| #[trigger] h0.m_IntDictImpl.dom().contains(k) ==> h1.m_IntDictImpl.dom().contains(k) && (k != stat_of(h0, c).dict_ ==> h1.m_IntDictImpl[k] == h0.m_IntDictImpl[k])
    &&& forall|k: u64| #[trigger] h0.m_StatDictImpl.dom().contains(k) ==> h1.m_StatDictImpl.dom().contains(k) && (k != c ==> h1.m_StatDictImpl[k] == h0.m_StatDictImpl[k])
}
// old objects stay as they were
pub open spec fn only_new(h0: Heap, h1: Heap) -> bool {
    &&& forall|k: u64| #[trigger] h0.m_IntDictImpl.dom().contains(k) ==> h1.m_IntDictImpl.dom().contains(k) && h1.m_IntDictImpl[k] == h0.m_IntDictImpl[k]
    &&& forall|k: u64| #[trigger] h0.m_StatDictImpl.dom().contains(k) ==> h1.m_StatDictImpl.dom().contains(k) && h1.m_StatDictImpl[k] == h0.m_StatDictImpl[k]
}
// a new object with a new dictionary
pub open spec fn all_new(h0: Heap, h1: Heap, c: u64) -> bool { !h0.m_StatDictImpl.dom().contains(c) && !h0.m_IntDictImpl.dom().contains(stat_of(h1, c).dict_) }
// the statistics with a counter for every entry
pub proof fn all_counted(s0: StatDictImpl, s1: StatDictImpl, d: Seq<Seq<i32>>)
    requires tallied(s0), s0.tally(), d.len() < 0x7fff_ffff, s0.symbol_freqs_.len() <= s1.symbol_freqs_.len() <= d.len(), padded(s0.symbol_freqs_, s1.symbol_freqs_), same_but_counters(s0, s1)
    ensures tallied(s1), s1.tally(), sum_i32(s1.symbol_freqs_) == sum_i32(s0.symbol_freqs_), forall|k: int| #[trigger] fr(s1.symbol_freqs_, k) == fr(s0.symbol_freqs_, k)
{
    let f0 = s0.symbol_freqs_; let f1 = s1.symbol_freqs_; pad_sum(f0, f1);
    assert forall|i: int| 0 <= i < f1.len() implies 0 <= #[trigger] f1[i] by { assert(fr(f1, i) == fr(f0, i)); }
    assert forall|i: int| 0 <= i implies fr(f1, i) <= #[trigger] fr(s1.parse_freqs_, i) <= fr(f1, i) + 0x4000_0000 by { assert(fr(f1, i) == fr(f0, i)); assert(fr(s0.parse_freqs_, i) == fr(s1.parse_freqs_, i)); }
}
pub open spec fn same_but_counters(s0: StatDictImpl, s1: StatDictImpl) -> bool {
    s1.dict_ == s0.dict_ && s1.parse_freqs_ == s0.parse_freqs_ && s1.power_ == s0.power_ && s1.parse_freqs_init_power_ == s0.parse_freqs_init_power_ && s1.pairs_freqs_ == s0.pairs_freqs_ && s1.min_probability_ == s0.min_probability_ && s1.total_chars_ == s0.total_chars_
}
pub open spec fn only_counters(h0: Heap, h1: Heap, c: u64) -> bool {
    &&& h1.m_IntDictImpl == h0.m_IntDictImpl && h1.m_StatDictImpl.dom() == h0.m_StatDictImpl.dom() && same_but_counters(stat_of(h0, c), stat_of(h1, c)) && padded(stat_of(h0, c).symbol_freqs_, stat_of(h1, c).symbol_freqs_)
    &&& forall|k: u64| k != c ==> #[trigger] h1.m_StatDictImpl[k] == h0.m_StatDictImpl[k]
}
pub proof fn each_le_sum(f: Seq<i32>, i: int) requires 0 <= i < f.len(), forall|j: int| 0 <= j < f.len() ==> 0 <= #[trigger] f[j] ensures 0 <= f[i] <= sum_i32(f) decreases f.len() {
    if i < f.len() - 1 { assert(f.drop_last()[i] == f[i]); each_le_sum(f.drop_last(), i); } else { sum_nonneg(f.drop_last()); }
}
pub proof fn sum_nonneg(f: Seq<i32>) requires forall|j: int| 0 <= j < f.len() ==> 0 <= #[trigger] f[j] ensures 0 <= sum_i32(f) decreases f.len() { if f.len() > 0 { sum_nonneg(f.drop_last()); } }
pub proof fn uses_bound(o: Seq<i32>, x: int) ensures 0 <= uses(o, x) <= o.len() decreases o.len() { if o.len() > 0 { uses_bound(o.drop_last(), x); } }
pub proof fn adj_bound(o: Seq<i32>, a: int, b: int) ensures 0 <= adj(o, a, b) <= o.len() decreases o.len() { if o.len() > 1 { adj_bound(o.drop_last(), a, b); } }
pub proof fn adj_where(o: Seq<i32>, a: int, b: int) requires adj(o, a, b) > 0 ensures exists|p: int| 0 <= p < o.len() - 1 && #[trigger] o[p] == a && o[p + 1] == b decreases o.len() {
    if o.len() > 1 {
        if o[o.len() - 2] == a && o.last() == b { let p = o.len() - 2; assert(o[p] == a && o[p + 1] == b); }
        else { adj_where(o.drop_last(), a, b); let p = choose|p: int| 0 <= p < o.drop_last().len() - 1 && #[trigger] o.drop_last()[p] == a && o.drop_last()[p + 1] == b; assert(o[p] == a && o[p + 1] == b); }
    }
}
// the keys of adjacent pairs
pub open spec fn adj_keys(o: Seq<i32>) -> Set<i64> decreases o.len() { if o.len() <= 1 { Set::empty() } else { adj_keys(o.drop_last()).insert(pk(o[o.len() - 2] as int, o.last() as int)) } }
pub proof fn adj_keys_few(o: Seq<i32>) ensures adj_keys(o).finite(), adj_keys(o).len() <= o.len() decreases o.len() { if o.len() > 1 { adj_keys_few(o.drop_last()); } }
pub proof fn adj_keys_all(o: Seq<i32>, a: int, b: int) requires adj(o, a, b) > 0 ensures adj_keys(o).contains(pk(a, b)) decreases o.len() {
    if o.len() > 1 && !(o[o.len() - 2] == a && o.last() == b) { adj_keys_all(o.drop_last(), a, b); }
}
pub proof fn part_len(d: Seq<Seq<i32>>, o: Seq<i32>, p: int, n: int) requires ids_ok(d, o), 0 <= p < o.len(), p <= n < o.len()
    ensures d[o[p] as int].len() <= flat(d, o).len(), p < n ==> d[o[p] as int].len() + d[o[n] as int].len() <= flat(d, o).len() decreases o.len()
{
    let t = o.drop_first(); assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < d.len() by { assert(t[i] == o[i + 1]); }
    if p > 0 { part_len(d, t, p - 1, n - 1); } else if n > 0 { part_len(d, t, n - 1, n - 1); }
}
pub proof fn flat_most(d: Seq<Seq<i32>>, o: Seq<i32>) requires ids_ok(d, o), short(d) ensures flat(d, o).len() <= o.len() * cap() decreases o.len() {
    if o.len() > 0 {
        let t = o.drop_first(); assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < d.len() by { assert(t[i] == o[i + 1]); }
        flat_most(d, t); assert(o.len() * cap() == (o.len() - 1) * cap() + cap()) by (nonlinear_arith);
    }
}
// keys of an object's pairs are pairs of ids
pub proof fn key_of(k: i64, n: int) requires pair_key(k, n), n < 0x8000_0000 ensures pk(hi(k), lo(k)) == k, 0 <= hi(k) < n, 0 <= lo(k) < n {}
pub proof fn pairs_after(m0: Map<i64, i32>, m1: Map<i64, i32>, o: Seq<i32>, n: int)
    requires paired(m0, m1, o), n < 0x8000_0000, m0.dom().finite(), forall|k: i64| #[trigger] m1.dom().contains(k) ==> pair_key(k, n) && m1[k] >= 1, forall|k: i64| #[trigger] m0.dom().contains(k) ==> m0[k] >= 1
    ensures m1.dom().finite(), m1.dom().len() <= m0.dom().len() + o.len(), forall|k: i64| #[trigger] m1.dom().contains(k) ==> m1[k] == pr(m0, k) + adj(o, hi(k), lo(k)) && (m0.dom().contains(k) || adj(o, hi(k), lo(k)) > 0)
{
    adj_keys_few(o); let u = m0.dom().union(adj_keys(o));
    assert forall|k: i64| #[trigger] m1.dom().contains(k) implies m1[k] == pr(m0, k) + adj(o, hi(k), lo(k)) && (m0.dom().contains(k) || adj(o, hi(k), lo(k)) > 0) && u.contains(k) by {
        key_of(k, n); assert(pr(m1, pk(hi(k), lo(k))) == pr(m0, pk(hi(k), lo(k))) + adj(o, hi(k), lo(k)));
        if !m0.dom().contains(k) { adj_keys_all(o, hi(k), lo(k)); }
    }
    assert(m1.dom().subset_of(u));
    vstd::set_lib::lemma_len_subset(m1.dom(), u);
    vstd::set_lib::lemma_len_union(m0.dom(), adj_keys(o));
}
// the statistics after one more segmented sequence
pub proof fn tallied_after(s0: StatDictImpl, s1: StatDictImpl, d0: Seq<Seq<i32>>, d1: Seq<Seq<i32>>, q: Seq<i32>, o: Seq<i32>)
    requires tallied(s0), s0.tally(), s1.tally(), pairs_short(d0, s0.pairs_freqs_), short(d0), uniq(d1), closed(d0, Set::empty()), q.len() <= cap(), grown(d0, d1, q), d1.len() < 0x7fff_ffff, s0.symbol_freqs_.len() <= d0.len() <= d1.len(), s0.symbol_freqs_.len() <= s1.symbol_freqs_.len() <= d1.len(),
        ids_ok(d1, o), flat(d1, o) == q, counted(s0.symbol_freqs_, s1.symbol_freqs_, o), counted(s0.parse_freqs_, s1.parse_freqs_, o), paired(s0.pairs_freqs_, s1.pairs_freqs_, o),
        s1.parse_freqs_init_power_ == s0.parse_freqs_init_power_, forall|c: int| total_of(s0.total_chars_, c) ==> s1.total_chars_ == fofint(c + q.len()), sum_i32(s1.symbol_freqs_) == sum_i32(s0.symbol_freqs_) + o.len(), sum_i32(s1.symbol_freqs_) <= full_power() + cap(),
    ensures tallied(s1), pairs_short(d1, s1.pairs_freqs_), short(d1)
{
    assert(short(d1)) by {
        assert forall|i: int| 0 <= i < d1.len() implies (#[trigger] d1[i]).len() <= cap() by {
            if i < d0.len() { assert(d1.subrange(0, d0.len() as int)[i] == d0[i]); } else { assert(added(d1, q, i)); }
        }
    }
    let f0 = s0.symbol_freqs_; let f1 = s1.symbol_freqs_; let t = sum_i32(f1); let m0 = s0.pairs_freqs_; let m1 = s1.pairs_freqs_;
    assert forall|i: int| 0 <= i < f1.len() implies 0 <= #[trigger] f1[i] by { uses_bound(o, i); assert(fr(f1, i) == fr(f0, i) + uses(o, i)); }
    assert forall|i: int| 0 <= i implies fr(f1, i) <= #[trigger] fr(s1.parse_freqs_, i) <= fr(f1, i) + 0x4000_0000 by { uses_bound(o, i); assert(fr(f1, i) == fr(f0, i) + uses(o, i)); assert(fr(s1.parse_freqs_, i) == fr(s0.parse_freqs_, i) + uses(o, i)); assert(fr(f0, i) <= fr(s0.parse_freqs_, i)); }
    pairs_after(m0, m1, o, f1.len() as int);
    assert forall|k: i64| #[trigger] m1.dom().contains(k) implies m1[k] <= t by { adj_bound(o, hi(k), lo(k)); sum_nonneg(f0); }
    assert forall|k: i64| #[trigger] m1.dom().contains(k) implies d1[hi(k)].len() + d1[lo(k)].len() <= cap() by {
        if m0.dom().contains(k) { assert(pair_key(k, f0.len() as int)); key_of(k, f0.len() as int); let e = d1.subrange(0, d0.len() as int); assert(e[hi(k)] == d0[hi(k)] && e[lo(k)] == d0[lo(k)]); }
        else { adj_where(o, hi(k), lo(k)); let p = choose|p: int| 0 <= p < o.len() - 1 && #[trigger] o[p] == hi(k) && o[p + 1] == lo(k); part_len(d1, o, p, p + 1); }
    }
    let c = choose|c: int| #[trigger] total_of(s0.total_chars_, c) && c <= sum_i32(f0) * cap();
    flat_most(d1, o); assert(t * cap() == sum_i32(f0) * cap() + o.len() * cap()) by (nonlinear_arith) requires t == sum_i32(f0) + o.len();
    assert(t * cap() < 0x10_0000_0000_0000) by (nonlinear_arith) requires t <= full_power() + cap();
    assert(total_of(s1.total_chars_, c + q.len()));
}
// pair counts of usable statistics add up below 2^52
pub proof fn pairs_countable(s: StatDictImpl) requires tallied(s), s.tally(), sum_i32(s.symbol_freqs_) <= full_power() + cap() ensures pair_room(s.pairs_freqs_) {
    let t = sum_i32(s.symbol_freqs_); let n = s.pairs_freqs_.dom().len();
    sum_nonneg(s.symbol_freqs_);
    assert(n * t < 0x10_0000_0000_0000) by (nonlinear_arith) requires 0 <= n <= t, t <= full_power() + cap();
    assert(few_pairs(s.pairs_freqs_, t));
}
pub proof fn same_listed(a: Seq<Seq<i32>>, b: Seq<Seq<i32>>, q: Seq<i32>) requires same_entries(a, b) ensures listed(a, q) == listed(b, q) {
    if listed(a, q) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == q; assert(listed(b, a[i])); }
    if listed(b, q) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == q; assert(listed(a, b[i])); }
}
// entries of `n` are put together from entries of the closed dictionary `d`, whose single symbols it all has
pub open spec fn has_symbol(d: Seq<Seq<i32>>, c: i32) -> bool { exists|j: int, l: int| 0 <= j < d.len() && 0 <= l < d[j].len() && #[trigger] d[j][l] == c }
pub open spec fn made_of(d: Seq<Seq<i32>>, n: Seq<Seq<i32>>) -> bool { forall|i: int, k: int| 0 <= i < n.len() && 0 <= k < n[i].len() ==> has_symbol(d, #[trigger] n[i][k]) }
pub proof fn stays_closed(d: Seq<Seq<i32>>, n: Seq<Seq<i32>>, e: Seq<Seq<i32>>) requires closed(d, Set::empty()), made_of(d, n), singles_of(d, n), same_entries(n, e) ensures closed(e, Set::empty()) {
    assert forall|i: int, k: int| 0 <= i < e.len() && 0 <= k < e[i].len() implies spelled(e, Set::empty(), #[trigger] e[i][k]) by {
        let c = e[i][k];
        assert(listed(n, e[i])); let a = choose|a: int| 0 <= a < n.len() && #[trigger] n[a] == e[i]; assert(n[a][k] == c); assert(has_symbol(d, n[a][k]));
        let (j, l) = choose|j: int, l: int| 0 <= j < d.len() && 0 <= l < d[j].len() && #[trigger] d[j][l] == n[a][k];
        assert(spelled(d, Set::empty(), d[j][l]));
        let s = choose|s: int| 0 <= s < d.len() && #[trigger] d[s] == seq![c] && !Set::<i32>::empty().contains(s as i32);
        assert(d[s].len() == 1); assert(listed(n, d[s])); same_listed(n, e, d[s]);
        let r = choose|r: int| 0 <= r < e.len() && #[trigger] e[r] == d[s]; assert(e[r] == seq![c]);
    }
}
pub proof fn stays_short(n: Seq<Seq<i32>>, e: Seq<Seq<i32>>) requires short(n), same_entries(n, e) ensures short(e) {
    assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).len() <= cap() by { assert(listed(n, e[i])); let a = choose|a: int| 0 <= a < n.len() && #[trigger] n[a] == e[i]; assert(n[a].len() <= cap()); }
}
// new statistics with given priors
pub proof fn starts_tallied(s: StatDictImpl, n: Seq<Seq<i32>>, x: Option<Seq<i32>>, d: Seq<Seq<i32>>)
    requires blank(s), same_entries(n, d), uniq(d), attributed(n, x, d, s.parse_freqs_, n.len() as int), s.parse_freqs_.len() == n.len(), d.len() < 0x7fff_ffff, x is Some ==> (forall|i: int| 0 <= i < x->Some_0.len() ==> 0 <= #[trigger] x->Some_0[i] <= 0x4000_0000),
        if x is Some { s.parse_freqs_init_power_ == fsum_i32(s.parse_freqs_) } else { no_weight(s) }
    ensures tallied(s), pairs_short(d, s.pairs_freqs_), sum_i32(s.symbol_freqs_) == 0
{
    let f = s.symbol_freqs_; zero_sum(f);
    assert forall|i: int| 0 <= i < s.parse_freqs_.len() implies 0 <= #[trigger] s.parse_freqs_[i] <= 0x4000_0000 by {
        assert(listed(n, d[i])); let j = choose|j: int| 0 <= j < n.len() && #[trigger] n[j] == d[i]; assert(fr(s.parse_freqs_, i) == prior(x, j));
    }
    assert forall|i: int| 0 <= i implies fr(f, i) <= #[trigger] fr(s.parse_freqs_, i) <= fr(f, i) + 0x4000_0000 by {}
    assert(s.pairs_freqs_.dom() =~= Set::empty());
    assert(total_of(s.total_chars_, 0));
    if x is Some { fsum_upto(s.parse_freqs_); ax_upto_more(s.parse_freqs_init_power_, s.parse_freqs_.len() as int, 0x8000_0000); }
    else { ax_upto_int(0, 0); ax_upto_more(fofint(0), 0, 0x8000_0000); }
}
pub proof fn kept_made_of(d: Seq<Seq<i32>>, f: Seq<i32>, n: Seq<Seq<i32>>, c: Seq<i32>)
    requires n.len() == c.len(), forall|i: int| 0 <= i < n.len() ==> #[trigger] entry_count(d, f, n[i], c[i] as int), short(d), forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i] <= 0x4000_0000
    ensures made_of(d, n), all_in(n, d), short(n), forall|i: int| 0 <= i < c.len() ==> 0 <= #[trigger] c[i] <= 0x4000_0000
{
    assert forall|i: int| 0 <= i < n.len() implies listed(d, #[trigger] n[i]) && n[i].len() <= cap() by { assert(entry_count(d, f, n[i], c[i] as int)); let k = choose|k: int| 0 <= k < d.len() && #[trigger] d[k] == n[i] && c[i] as int == fr(f, k); assert(d[k].len() <= cap()); }
    assert forall|i: int| 0 <= i < c.len() implies 0 <= #[trigger] c[i] <= 0x4000_0000 by { assert(entry_count(d, f, n[i], c[i] as int)); }
    assert forall|i: int, k: int| 0 <= i < n.len() && 0 <= k < n[i].len() implies has_symbol(d, #[trigger] n[i][k]) by {
        assert(listed(d, n[i])); let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == n[i]; assert(d[j][k] == n[i][k]);
    }
}
pub proof fn grown_made_of(d: Seq<Seq<i32>>, f: Seq<i32>, m: Map<i64, i32>, n: Seq<Seq<i32>>, c: Seq<i32>)
    requires n.len() == c.len(), forall|i: int| 0 <= i < n.len() ==> #[trigger] entry_count(d, f, n[i], c[i] as int) || joined(d, m, n[i], c[i] as int), short(d), pairs_short(d, m), forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i] <= 0x4000_0000, forall|k: i64| #[trigger] m.dom().contains(k) ==> 1 <= m[k] <= 0x4000_0000
    ensures made_of(d, n), short(n), forall|i: int| 0 <= i < c.len() ==> 0 <= #[trigger] c[i] <= 0x4000_0000
{
    assert forall|i: int| 0 <= i < c.len() implies 0 <= #[trigger] c[i] <= 0x4000_0000 by { assert(entry_count(d, f, n[i], c[i] as int) || joined(d, m, n[i], c[i] as int)); }
    assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]).len() <= cap() by {
        assert(entry_count(d, f, n[i], c[i] as int) || joined(d, m, n[i], c[i] as int));
        if entry_count(d, f, n[i], c[i] as int) { let k = choose|k: int| 0 <= k < d.len() && #[trigger] d[k] == n[i] && c[i] as int == fr(f, k); assert(d[k].len() <= cap()); }
    }
    assert forall|i: int, k: int| 0 <= i < n.len() && 0 <= k < n[i].len() implies has_symbol(d, #[trigger] n[i][k]) by {
        assert(entry_count(d, f, n[i], c[i] as int) || joined(d, m, n[i], c[i] as int));
        if entry_count(d, f, n[i], c[i] as int) { let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == n[i] && c[i] as int == fr(f, j); assert(d[j][k] == n[i][k]); }
        else {
            let x = choose|x: i64| #[trigger] m.dom().contains(x) && pair_key(x, d.len() as int) && n[i] == d[hi(x)] + d[lo(x)] && c[i] as int == m[x];
            if k < d[hi(x)].len() { assert(d[hi(x)][k] == n[i][k]); } else { assert(d[lo(x)][k - d[hi(x)].len()] == n[i][k]); }
        }
    }
}
pub proof fn no_priors(s: StatDictImpl, n: Seq<Seq<i32>>, d: Seq<Seq<i32>>) requires no_weight(s) ensures attributed(n, None, d, s.parse_freqs_, n.len() as int) {}
// a dictionary of the sequences n with new statistics
pub proof fn new_usable(h: Heap, id: u64, n: Seq<Seq<i32>>, x: Option<Seq<i32>>)
    requires id != 0, h.m_StatDictImpl.dom().contains(id), stat_of(h, id).owns(h), blank(stat_of(h, id)), stat_of(h, id).symbol_freqs_.len() == n.len(), stat_of(h, id).parse_freqs_.len() == n.len(), fresh_dict(dict_of(h, stat_of(h, id)), n),
        attributed(n, x, entries_of(h, id), stat_of(h, id).parse_freqs_, n.len() as int), x is Some ==> (forall|i: int| 0 <= i < x->Some_0.len() ==> 0 <= #[trigger] x->Some_0[i] <= 0x4000_0000),
        if x is Some { stat_of(h, id).parse_freqs_init_power_ == fsum_i32(stat_of(h, id).parse_freqs_) } else { no_weight(stat_of(h, id)) },
        closed(n, Set::empty()), short(n),
    ensures usable(h, id), used_of(h, id) == 0
{
    let d = entries_of(h, id); dict_facts(dict_of(h, stat_of(h, id))); 
    starts_tallied(stat_of(h, id), n, x, d); stays_short(n, d); itself_made_of(n); stays_closed(n, n, d);
}
pub proof fn itself_made_of(n: Seq<Seq<i32>>) ensures made_of(n, n), singles_of(n, n) {
    assert forall|i: int, k: int| 0 <= i < n.len() && 0 <= k < n[i].len() implies has_symbol(n, #[trigger] n[i][k]) by {}
    assert forall|i: int| 0 <= i < n.len() && (#[trigger] n[i]).len() == 1 implies listed(n, n[i]) by {}
}
pub proof fn singletons_closed(s: Seq<i32>) ensures closed(singletons(s), Set::empty()), short(singletons(s)) {
    let d = singletons(s);
    assert forall|i: int, k: int| 0 <= i < d.len() && 0 <= k < d[i].len() implies spelled(d, Set::empty(), #[trigger] d[i][k]) by { assert(d[i] == seq![s[i]]); assert(d[i][k] == s[i]); }
}
pub proof fn same_both(a: Seq<Seq<i32>>, b: Seq<Seq<i32>>, c: Seq<Seq<i32>>) requires same_entries(a, b), same_entries(b, c) ensures same_entries(a, c) {
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] listed(c, a[i]) by { assert(listed(b, a[i])); same_listed(b, c, a[i]); }
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] listed(a, c[i]) by { assert(listed(b, c[i])); same_listed(a, b, c[i]); }
}
pub broadcast proof fn by_scaled(n: int, b: u64) requires 0 <= n < 0x1800_0000, b <= 0x4010_0000_0000_0000 ensures 0 <= ftoint(#[trigger] fmul(fofint(n), flit(b))) <= 4 * n, fnum(fmul(fofint(n), flit(b))) { ax_scaled(n, b); }
// what a revision needs of the statistics it revises
pub proof fn revisable(h: Heap, id: u64)
    requires usable(h, id), used_of(h, id) <= full_power() + cap()
    ensures ({ let s = stat_of(h, id); let d = entries_of(h, id);
        &&& pair_room(s.pairs_freqs_) && fin_nonneg(s.power_) && d.len() < 0x7fff_ffff && uniq(d)
        &&& forall|i: int| 0 <= i < s.symbol_freqs_.len() ==> 0 <= #[trigger] s.symbol_freqs_[i] < 0x4000_0000
        &&& forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).len() < 0x7fff_fff0
        &&& forall|k: i64| #[trigger] s.pairs_freqs_.dom().contains(k) ==> 1 <= s.pairs_freqs_[k] <= 0x4000_0000
        &&& exists|c: int| #[trigger] total_of(s.total_chars_, c) })
{
    let s = stat_of(h, id); pairs_countable(s); dict_facts(dict_of(h, s)); sum_nonneg(s.symbol_freqs_);
    ax_upto_int(sum_i32(s.symbol_freqs_), 1); ax_upto_fin(s.power_, 1);
    assert forall|i: int| 0 <= i < s.symbol_freqs_.len() implies 0 <= #[trigger] s.symbol_freqs_[i] < 0x4000_0000 by { each_le_sum(s.symbol_freqs_, i); }
}
pub proof fn itself(n: Seq<Seq<i32>>) ensures same_entries(n, n) {
    assert forall|i: int| 0 <= i < n.len() implies #[trigger] listed(n, n[i]) by {}
}
pub proof fn made_same(d: Seq<Seq<i32>>, n: Seq<Seq<i32>>, e: Seq<Seq<i32>>) requires made_of(d, n), same_entries(n, e) ensures made_of(d, e) {
    assert forall|i: int, k: int| 0 <= i < e.len() && 0 <= k < e[i].len() implies has_symbol(d, #[trigger] e[i][k]) by { assert(listed(n, e[i])); let j = choose|j: int| 0 <= j < n.len() && #[trigger] n[j] == e[i]; assert(n[j][k] == e[i][k]); }
}
// the dictionary after growing: `n` with counts `c` from `d`
pub proof fn grown_usable(h0: Heap, a: u64, h: Heap, b: u64, n: Seq<Seq<i32>>, c: Seq<i32>)
    requires usable(h0, a), used_of(h0, a) <= full_power() + cap(), b != 0, h.m_StatDictImpl.dom().contains(b), stat_of(h, b).owns(h), n.len() == c.len(),
        forall|i: int| 0 <= i < n.len() ==> #[trigger] entry_count(entries_of(h0, a), stat_of(h0, a).symbol_freqs_, n[i], c[i] as int) || joined(entries_of(h0, a), stat_of(h0, a).pairs_freqs_, n[i], c[i] as int),
        forall|k: int| 0 <= k < entries_of(h0, a).len() ==> listed(n, #[trigger] entries_of(h0, a)[k]),
        blank(stat_of(h, b)), stat_of(h, b).symbol_freqs_.len() == n.len(), stat_of(h, b).parse_freqs_.len() == n.len(), fresh_dict(dict_of(h, stat_of(h, b)), n), attributed(n, Some(c), entries_of(h, b), stat_of(h, b).parse_freqs_, n.len() as int), stat_of(h, b).parse_freqs_init_power_ == fsum_i32(stat_of(h, b).parse_freqs_),
    ensures usable(h, b), used_of(h, b) == 0, all_in(entries_of(h0, a), entries_of(h, b)), made_of(entries_of(h0, a), entries_of(h, b)), entries_of(h, b).len() == n.len()
{
    let d = entries_of(h0, a); revisable(h0, a);
    grown_made_of(d, stat_of(h0, a).symbol_freqs_, stat_of(h0, a).pairs_freqs_, n, c);
    assert(singles_of(d, n)); itself(n); stays_closed(d, n, n); new_usable(h, b, n, Some(c)); made_same(d, n, entries_of(h, b));
    assert forall|i: int| 0 <= i < d.len() implies listed(entries_of(h, b), #[trigger] d[i]) by { same_listed(n, entries_of(h, b), d[i]); }
}
pub proof fn shrunk_usable(h0: Heap, a: u64, h: Heap, b: u64, n: Seq<Seq<i32>>, c: Seq<i32>)
    requires usable(h0, a), used_of(h0, a) <= full_power() + cap(), b != 0, h.m_StatDictImpl.dom().contains(b), stat_of(h, b).owns(h), n.len() == c.len(),
        forall|i: int| 0 <= i < n.len() ==> #[trigger] entry_count(entries_of(h0, a), stat_of(h0, a).symbol_freqs_, n[i], c[i] as int),
        forall|k: int| 0 <= k < entries_of(h0, a).len() && (#[trigger] entries_of(h0, a)[k]).len() == 1 ==> listed(n, entries_of(h0, a)[k]),
        blank(stat_of(h, b)), stat_of(h, b).symbol_freqs_.len() == n.len(), stat_of(h, b).parse_freqs_.len() == n.len(), fresh_dict(dict_of(h, stat_of(h, b)), n), attributed(n, Some(c), entries_of(h, b), stat_of(h, b).parse_freqs_, n.len() as int), stat_of(h, b).parse_freqs_init_power_ == fsum_i32(stat_of(h, b).parse_freqs_),
    ensures usable(h, b), used_of(h, b) == 0, all_in(entries_of(h, b), entries_of(h0, a)), singles_of(entries_of(h0, a), entries_of(h, b)), made_of(entries_of(h0, a), entries_of(h, b)), entries_of(h, b).len() == n.len(), forall|z: int| n.len() <= z + roots(dict_of(h0, stat_of(h0, a)).parents_, entries_of(h0, a).len() as int) ==> #[trigger] at_most(entries_of(h, b), z)
{
    let d = entries_of(h0, a); let e = entries_of(h, b); revisable(h0, a);
    kept_made_of(d, stat_of(h0, a).symbol_freqs_, n, c);
    assert(singles_of(d, n)); itself(n); stays_closed(d, n, n); new_usable(h, b, n, Some(c)); made_same(d, n, entries_of(h, b));
    assert forall|i: int| 0 <= i < e.len() implies listed(d, #[trigger] e[i]) by { assert(listed(n, e[i])); let j = choose|j: int| 0 <= j < n.len() && #[trigger] n[j] == e[i]; assert(listed(d, n[j])); }
    assert forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]).len() == 1 implies listed(e, d[i]) by { same_listed(n, e, d[i]); }
    many_same(n, e); sym_le(d, n); dict_facts(dict_of(h0, stat_of(h0, a))); sym_roots(d, dict_of(h0, stat_of(h0, a)).parents_, d.len() as int); assert(d.subrange(0, d.len() as int) =~= d);
}
pub open spec fn at_most(e: Seq<Seq<i32>>, z: int) -> bool { many(e) <= z }
