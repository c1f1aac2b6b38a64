// statistics over a dictionary
pub open spec fn fr(f: Seq<i32>, i: int) -> int { if 0 <= i < f.len() { f[i] as int } else { 0 } }
pub open spec fn pk(a: int, b: int) -> i64 { (a * 0x1_0000_0000 + b) as i64 }
pub open spec fn pr(m: Map<i64, i32>, k: i64) -> int { if m.dom().contains(k) { m[k] as int } else { 0 } }
// how often x occurs in o, how often b directly follows a
pub open spec fn uses(o: Seq<i32>, x: int) -> int decreases o.len() { if o.len() == 0 { 0 } else { uses(o.drop_last(), x) + if o.last() == x { 1int } else { 0 } } }
pub open spec fn adj(o: Seq<i32>, a: int, b: int) -> int decreases o.len() {
    if o.len() <= 1 { 0 } else { adj(o.drop_last(), a, b) + if o[o.len() - 2] == a && o.last() == b { 1int } else { 0 } }
}
pub open spec fn dict_of(h: Heap, t: StatDictImpl) -> IntDictImpl { h.m_IntDictImpl[t.dict_] }
pub open spec fn pair_key(k: i64, n: int) -> bool { 0 <= k && (k as int) / 0x1_0000_0000 < n && (k as int) % 0x1_0000_0000 < n }
impl StatDictImpl {
    // the counters of the object itself
    pub open spec fn tally(&self) -> bool {
        &&& self.power_ == fofint(sum_i32(self.symbol_freqs_)) && small(sum_i32(self.symbol_freqs_))
        &&& self.symbol_freqs_.len() < 0x7fff_ffff && self.parse_freqs_.len() < 0x7fff_ffff
        &&& forall|k: i64| #[trigger] self.pairs_freqs_.dom().contains(k) ==> pair_key(k, self.symbol_freqs_.len() as int) && self.pairs_freqs_[k] >= 1
    }
    // room for n more uses of anything
    pub open spec fn room(&self, n: int) -> bool {
        &&& forall|i: int| 0 <= i < self.symbol_freqs_.len() ==> -0x7fff_0000 <= #[trigger] self.symbol_freqs_[i] < 0x7fff_ffff - n
        &&& forall|i: int| 0 <= i < self.parse_freqs_.len() ==> 0 <= #[trigger] self.parse_freqs_[i] < 0x7fff_ffff - n
        &&& forall|k: i64| #[trigger] self.pairs_freqs_.dom().contains(k) ==> self.pairs_freqs_[k] < 0x7fff_ffff - n
        &&& small(sum_i32(self.symbol_freqs_) + n)
    }
    pub open spec fn owns(&self, h: Heap) -> bool { self.dict_ != 0 && h.m_IntDictImpl.dom().contains(self.dict_) && dict_of(h, *self).wf() }
}
pub open spec fn small(x: int) -> bool { -0x10_0000_0000_0000 < x < 0x10_0000_0000_0000 }
pub open spec fn total_of(c: F64, x: int) -> bool { c == fofint(x) && 0 <= x < 0x10_0000_0000_0000 }
// IEEE double: sums of integers below 2^53 are exact
#[verifier::external_body] pub proof fn ax_int_sum(a: int, b: int) ensures small(a) && small(b) ==> fadd(fofint(a), fofint(b)) == fofint(a + b) {}
pub proof fn sum_update(s: Seq<i32>, i: int, x: i32) requires 0 <= i < s.len() ensures sum_i32(s.update(i, x)) == sum_i32(s) - s[i] + x decreases s.len() {
    if i == s.len() - 1 { assert(s.update(i, x).drop_last() =~= s.drop_last()); }
    else { assert(s.update(i, x).drop_last() =~= s.drop_last().update(i, x)); sum_update(s.drop_last(), i, x); }
}
pub proof fn sum_push(s: Seq<i32>, x: i32) ensures sum_i32(s.push(x)) == sum_i32(s) + x { assert(s.push(x).drop_last() =~= s); }
pub open spec fn entropy(f: Seq<i32>, n: int) -> F64 decreases n {
    if n <= 0 { fofint(0) } else if fr(f, n - 1) > 0 { fsub(entropy(f, n - 1), fmul(fofint(fr(f, n - 1)), flog(fofint(fr(f, n - 1))))) } else { entropy(f, n - 1) }
}
// at most the dictionary d changed
pub open spec fn only_dict(h0: Heap, h1: Heap, d: u64) -> bool { h1.m_IntDictImpl.dom() == h0.m_IntDictImpl.dom() && forall|k: u64| k != d ==> #[trigger] h1.m_IntDictImpl[k] == h0.m_IntDictImpl[k] }
// s1 is s0 followed by zeros
pub open spec fn padded(s0: Seq<i32>, s1: Seq<i32>) -> bool {
    s0.len() <= s1.len() && (forall|k: int| 0 <= k < s0.len() ==> #[trigger] s1[k] == s0[k]) && forall|k: int| s0.len() <= k < s1.len() ==> #[trigger] s1[k] == 0
}
pub proof fn pad_sum(s0: Seq<i32>, s1: Seq<i32>) requires padded(s0, s1) ensures sum_i32(s1) == sum_i32(s0), forall|k: int| #[trigger] fr(s1, k) == fr(s0, k) decreases s1.len() {
    if s1.len() > s0.len() { assert(padded(s0, s1.drop_last())); pad_sum(s0, s1.drop_last()); } else { assert(s1 =~= s0); }
}
// the key of a pair: first id in the high half, second in the low half
pub proof fn key_bits(a: i64, b: i64, n: u32) requires 0 <= a < 0x8000_0000, 0 <= b < 0x8000_0000, n == 32
    ensures ((a << n) | b) == pk(a as int, b as int), (a << n) >> n == a, (a << n) >= 0, pair_key(pk(a as int, b as int), 0x8000_0000), pk(a as int, b as int) as int / 0x1_0000_0000 == a, pk(a as int, b as int) as int % 0x1_0000_0000 == b
{
    assert(((a << 32u32) | b) == a * 0x1_0000_0000 + b && (a << 32u32) >> 32u32 == a && (a << 32u32) >= 0) by (bit_vector) requires 0 <= a < 0x8000_0000, 0 <= b < 0x8000_0000;
}
pub proof fn key_parts(k: i64, n: u32) requires 0 <= k, n == 32 ensures (k >> n) == (k as int) / 0x1_0000_0000, (k & 0xffff_ffffi64) == (k as int) % 0x1_0000_0000 {
    assert((k >> 32u32) == k / 0x1_0000_0000i64 && (k & 0xffff_ffffi64) == k % 0x1_0000_0000i64) by (bit_vector) requires 0 <= k;
}
pub proof fn uses_step(o: Seq<i32>, k: int, x: int) requires 0 <= k < o.len() ensures uses(o.subrange(0, k + 1), x) == uses(o.subrange(0, k), x) + if o[k] == x { 1int } else { 0 }, 0 <= uses(o.subrange(0, k), x) <= k decreases k {
    assert(o.subrange(0, k + 1).drop_last() =~= o.subrange(0, k));
    if k > 0 { uses_step(o, k - 1, x); }
}
pub proof fn adj_step(o: Seq<i32>, k: int, a: int, b: int) requires 0 <= k < o.len()
    ensures adj(o.subrange(0, k + 1), a, b) == adj(o.subrange(0, k), a, b) + if k > 0 && o[k - 1] == a && o[k] == b { 1int } else { 0 }, 0 <= adj(o.subrange(0, k), a, b) <= k decreases k {
    assert(o.subrange(0, k + 1).drop_last() =~= o.subrange(0, k));
    if k > 0 { adj_step(o, k - 1, a, b); }
}
pub proof fn parts_le(d: Seq<Seq<i32>>, o: Seq<i32>) requires uniq(d), ids_ok(d, o) ensures o.len() <= flat(d, o).len() decreases o.len() {
    if o.len() > 0 {
        assert forall|i: int| 0 <= i < o.drop_first().len() implies 0 <= #[trigger] o.drop_first()[i] < d.len() by { assert(o.drop_first()[i] == o[i + 1]); }
        assert(d[o[0] as int].len() > 0);
        parts_le(d, o.drop_first());
    }
}
// counters after the uses and adjacent pairs of o
pub open spec fn counted(f0: Seq<i32>, f1: Seq<i32>, o: Seq<i32>) -> bool { forall|i: int| 0 <= i ==> #[trigger] fr(f1, i) == fr(f0, i) + uses(o, i) }
pub open spec fn paired(m0: Map<i64, i32>, m1: Map<i64, i32>, o: Seq<i32>) -> bool { forall|a: int, b: int| 0 <= a < 0x8000_0000 && 0 <= b < 0x8000_0000 ==> #[trigger] pr(m1, pk(a, b)) == pr(m0, pk(a, b)) + #[trigger] adj(o, a, b) }
pub proof fn count_step(f0: Seq<i32>, f1: Seq<i32>, o: Seq<i32>, k: int, x: int) requires 0 <= k < o.len(), counted(f0, f1, o.subrange(0, k)), 0 <= x
    ensures fr(f0, x) <= fr(f1, x) <= fr(f0, x) + k { uses_step(o, k, x); assert(fr(f1, x) == fr(f0, x) + uses(o.subrange(0, k), x)); }
pub proof fn counted_next(f0: Seq<i32>, f1: Seq<i32>, f2: Seq<i32>, o: Seq<i32>, k: int)
    requires 0 <= k < o.len(), counted(f0, f1, o.subrange(0, k)), forall|i: int| 0 <= i ==> #[trigger] fr(f2, i) == fr(f1, i) + if i == o[k] { 1int } else { 0 }
    ensures counted(f0, f2, o.subrange(0, k + 1))
{
    assert forall|i: int| 0 <= i implies #[trigger] fr(f2, i) == fr(f0, i) + uses(o.subrange(0, k + 1), i) by { uses_step(o, k, i); assert(fr(f1, i) == fr(f0, i) + uses(o.subrange(0, k), i)); }
}
pub proof fn paired_next(m0: Map<i64, i32>, m1: Map<i64, i32>, m2: Map<i64, i32>, o: Seq<i32>, k: int)
    requires 0 <= k < o.len(), paired(m0, m1, o.subrange(0, k)), forall|i: int| 0 <= i < o.len() ==> 0 <= #[trigger] o[i],
        if k == 0 { m2 == m1 } else { pr(m2, pk(o[k - 1] as int, o[k] as int)) == pr(m1, pk(o[k - 1] as int, o[k] as int)) + 1 && forall|j: i64| j != pk(o[k - 1] as int, o[k] as int) ==> #[trigger] pr(m2, j) == pr(m1, j) },
    ensures paired(m0, m2, o.subrange(0, k + 1))
{
    assert forall|a: int, b: int| 0 <= a < 0x8000_0000 && 0 <= b < 0x8000_0000 implies #[trigger] pr(m2, pk(a, b)) == pr(m0, pk(a, b)) + #[trigger] adj(o.subrange(0, k + 1), a, b) by {
        adj_step(o, k, a, b); assert(pr(m1, pk(a, b)) == pr(m0, pk(a, b)) + adj(o.subrange(0, k), a, b));
        if k > 0 { let x = o[k - 1] as int; let y = o[k] as int; key_bits(a as i64, b as i64, 32u32); key_bits(x as i64, y as i64, 32u32); if pk(a, b) == pk(x, y) { assert(a == x && b == y); } }
    }
}
pub open spec fn blank(r: StatDictImpl) -> bool {
    r.tally() && r.pairs_freqs_ == Map::<i64, i32>::empty() && r.power_ == fofint(0) && r.total_chars_ == fofint(0) && forall|i: int| 0 <= i < r.symbol_freqs_.len() ==> #[trigger] r.symbol_freqs_[i] == 0
}
pub open spec fn no_weight(r: StatDictImpl) -> bool { r.parse_freqs_init_power_ == fofint(0) && forall|i: int| 0 <= i < r.parse_freqs_.len() ==> #[trigger] r.parse_freqs_[i] == 0 }
pub open spec fn born(h0: Heap, h1: Heap, id: u64) -> bool { !h0.m_IntDictImpl.dom().contains(id) && h1.m_IntDictImpl.dom() == h0.m_IntDictImpl.dom().insert(id) && forall|k: u64| k != id ==> #[trigger] h1.m_IntDictImpl[k] == h0.m_IntDictImpl[k] }
pub open spec fn prior(x: Option<Seq<i32>>, i: int) -> int { if x is Some { fr(x->Some_0, i) } else { 0 } }
// the weight of every listed sequence is its own prior
pub open spec fn attributed(s: Seq<Seq<i32>>, x: Option<Seq<i32>>, d: Seq<Seq<i32>>, f: Seq<i32>, n: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < d.len() && #[trigger] d[j] == #[trigger] s[i] ==> fr(f, j) == prior(x, i) }
pub open spec fn placed(s: Seq<Seq<i32>>, x: Seq<i32>, d: Seq<Seq<i32>>, f: Seq<i32>, n: int) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < d.len() && #[trigger] d[j] == #[trigger] s[i] ==> f[j] == if i < n { x[i] } else { 0 }
}
pub proof fn zero_sum(s: Seq<i32>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0 ensures sum_i32(s) == 0 decreases s.len() { if s.len() > 0 { zero_sum(s.drop_last()); } }
// looking up an entry of a fresh dictionary finds it and learns nothing
pub proof fn found_itself(b0: IntDictImpl, b1: IntDictImpl, s: Seq<Seq<i32>>, q: Seq<i32>)
    requires fresh_dict(b0, s), listed(b0.seqs_, q), q.len() > 0, learned_from(b0.seqs_, b1.seqs_, None, q), b1.wf(), b1.sorted_size_ == b0.sorted_size_
    ensures b1.seqs_ == b0.seqs_, fresh_dict(b1, s), forall|r: int| #[trigger] longest(b1.seqs_, None, q, r) ==> 0 <= r < b1.seqs_.len() && b1.seqs_[r] == q
{
    let d = b0.seqs_; let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == q;
    assert(pre(d[j], q)) by { reveal(none_starts); }
    assert(!none_starts(d, None, q)) by { if none_starts(d, None, q) { assert(!pre(d[j], q)); } }
    let m = b1.learned_;
    assert(m =~= Map::<i32, i32>::empty()) by { assert forall|c: i32| !m.dom().contains(c) by { if m.dom().contains(c) { assert(b1.sorted_size_ <= m[c] < b1.seqs_.len()); } } }
    assert forall|r: int| longest(b1.seqs_, None, q, r) implies b1.seqs_[r] == q by { assert(d[j].len() <= d[r].len()); assert(pre(d[r], q)); assert(d[r] =~= q); }
}
pub proof fn placed_next(s: Seq<Seq<i32>>, x: Seq<i32>, d: Seq<Seq<i32>>, f: Seq<i32>, g: Seq<i32>, n: int)
    requires uniq(s), uniq(d), placed(s, x, d, f, n), 0 <= n < s.len(), n < x.len(), f.len() == d.len(), exists|r: int| 0 <= r < d.len() && #[trigger] d[r] == s[n] && g == f.update(r, x[n])
    ensures placed(s, x, d, g, n + 1)
{
    let r = choose|r: int| 0 <= r < d.len() && #[trigger] d[r] == s[n] && g == f.update(r, x[n]);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < d.len() && #[trigger] d[j] == #[trigger] s[i] implies g[j] == if i < n + 1 { x[i] } else { 0 } by {
        if i == n { assert(d[j] == d[r]); } else { assert(s[i] != s[n]); assert(j != r); }
    }
}
pub proof fn placed_all(s: Seq<Seq<i32>>, x: Option<Seq<i32>>, d: Seq<Seq<i32>>, f: Seq<i32>)
    requires f.len() == d.len(), x is Some ==> exists|n: int| 0 <= n <= s.len() && n <= x->Some_0.len() && (n == s.len() || n == x->Some_0.len()) && #[trigger] placed(s, x->Some_0, d, f, n), x is None ==> forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] == 0
    ensures attributed(s, x, d, f, s.len() as int)
{
    if x is Some { let n = choose|n: int| 0 <= n <= s.len() && n <= x->Some_0.len() && (n == s.len() || n == x->Some_0.len()) && #[trigger] placed(s, x->Some_0, d, f, n); }
}
// ---- shrinking
// the symbol c is a permitted entry
pub open spec fn spelled(d: Seq<Seq<i32>>, x: Set<i32>, c: i32) -> bool { exists|j: int| 0 <= j < d.len() && #[trigger] d[j] == seq![c] && !x.contains(j as i32) }
pub proof fn spelled_first(d: Seq<Seq<i32>>, x: Set<i32>, s: Seq<i32>, p: int)
    requires 0 <= p < s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] spelled(d, x, s[k])
    ensures !none_starts(d, Some(x), rest(s, p))
{
    assert(spelled(d, x, s[p]));
    let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == seq![s[p]] && !x.contains(j as i32);
    first_singleton(rest(s, p), s[p]); assert(allowed(Some(x), j)); assert(pre(d[j], rest(s, p)));
}
pub proof fn chain_down(d: Seq<Seq<i32>>, l: Seq<i32>, i: int, q: Seq<i32>)
    requires uniq(d), links_ok(d, l), 0 <= i < d.len(), pre(d[i], q)
    ensures -1 <= l[i] < d.len(), l[i] >= 0 ==> pre(d[l[i] as int], q) && d[l[i] as int].len() < d[i].len()
{
    link_step(d, l, i);
    if l[i] >= 0 { pre_trans(d[l[i] as int], d[i], q); pre_lt(d[l[i] as int], d[i]); }
}
// magnitudes of doubles, unlike the other axioms true of not-a-number as well
pub uninterp spec fn lim(x: F64, m: int) -> bool;   // NaN or |x| <= m * 2^72
pub uninterp spec fn word(x: F64) -> bool;          // NaN or |x| <= 2^65
#[verifier::external_body] pub broadcast proof fn ax_word_int(n: int) requires -0x1_0000_0000_0000_0000 < n < 0x1_0000_0000_0000_0000 ensures lim(#[trigger] fofint(n), 1), word(fofint(n)) {}
#[verifier::external_body] pub broadcast proof fn ax_word_add(a: int, b: int) requires small(a), 0 <= b < 0x1_0000_0000_0000_0000 ensures word(#[trigger] fadd(fofint(a), fofint(b))) {}
#[verifier::external_body] pub broadcast proof fn ax_lim_nlogn(x: F64) requires word(x) ensures lim(#[trigger] fmul(x, flog(x)), 1) {}
#[verifier::external_body] pub broadcast proof fn ax_lim_add(x: F64, m: int, y: F64, k: int) requires #[trigger] lim(x, m), #[trigger] lim(y, k), 0 <= m, 0 <= k, m + k <= 0x20_0000_0000_0000 ensures lim(#[trigger] fadd(x, y), m + k) {}
#[verifier::external_body] pub broadcast proof fn ax_lim_sub(x: F64, m: int, y: F64, k: int) requires #[trigger] lim(x, m), #[trigger] lim(y, k), 0 <= m, 0 <= k, m + k <= 0x20_0000_0000_0000 ensures lim(#[trigger] fsub(x, y), m + k) {}
#[verifier::external_body] pub proof fn ax_lim_div(x: F64, m: int, c: int) ensures lim(x, m) && 0 <= m <= 0x10_0000_0000_0000 && 0 <= c < 0x10_0000_0000_0000 ==> lim(fmul(fdiv(x, fofint(c)), fofint(c)), 2 * m) {}
#[verifier::external_body] pub broadcast proof fn ax_lim_mono(x: F64, m: int, k: int) requires #[trigger] lim(x, m), m <= k ensures #[trigger] lim(x, k) {}
pub broadcast group lim_rules { ax_word_int, ax_word_add, ax_lim_nlogn, ax_lim_add, ax_lim_sub, ax_lim_mono }
#[verifier::external_body] pub proof fn ax_lim_max(x: F64, m: int) ensures lim(x, m) && m <= 0x20_0000_0000_0000 && flt(fofint(0), x) ==> flt(x, fmax()) {}
#[verifier::external_body] pub proof fn ax_neg(a: F64, b: F64) ensures flt(fneg(a), fneg(b)) == flt(b, a) {}
pub proof fn entropy_lim(f: Seq<i32>, n: int) requires 0 <= n < 0x7fff_ffff ensures lim(entropy(f, n), n + 1) decreases n {
    broadcast use lim_rules;
    assert(lim(fofint(0), 1));
    if n > 0 { entropy_lim(f, n - 1); }
}
// items whose scores are numbers are ordered by decreasing score
pub proof fn by_score(s: Seq<StatItem>) requires forall|i: int| 0 <= i < s.len() ==> fnum((#[trigger] s[i]).score_) ensures weak_order(s, |a: StatItem, b: StatItem| flt(fneg(a.score_), fneg(b.score_))) {
    let lt = |a: StatItem, b: StatItem| flt(fneg(a.score_), fneg(b.score_));
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && lt(#[trigger] s[i], #[trigger] s[j]) implies !lt(s[j], s[i]) by { ax_lt_asym(fneg(s[i].score_), fneg(s[j].score_)); }
    assert forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && !lt(#[trigger] s[j], #[trigger] s[i]) && !lt(#[trigger] s[k], s[j]) implies !lt(s[k], s[i]) by {
        ax_neg(s[j].score_, s[i].score_); ax_neg(s[k].score_, s[j].score_); ax_neg(s[k].score_, s[i].score_); ax_le_trans(s[k].score_, s[j].score_, s[i].score_);
    }
}
// one kept entry
pub open spec fn item_ok(d: Seq<Seq<i32>>, f: Seq<i32>, x: Set<i32>, t: StatItem) -> bool {
    &&& t.first_ == -1 && 0 <= t.second_ < d.len() && t.count_ == fr(f, t.second_ as int) && !x.contains(t.second_)
    &&& d[t.second_ as int].len() == 1 ==> t.score_ == fmax()
    &&& d[t.second_ as int].len() > 1 ==> flt(t.score_, fmax())
}
pub open spec fn items_ok(d: Seq<Seq<i32>>, f: Seq<i32>, x: Set<i32>, s: Seq<StatItem>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> item_ok(d, f, x, #[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).second_ != (#[trigger] s[j]).second_
}
pub open spec fn has_item(s: Seq<StatItem>, k: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).second_ == k }
// every single symbol among the first n entries is listed
pub open spec fn singles_in(d: Seq<Seq<i32>>, x: Set<i32>, s: Seq<StatItem>, n: int) -> bool { forall|k: int| 0 <= k < n && (#[trigger] d[k]).len() == 1 && !x.contains(k as i32) ==> has_item(s, k) }
pub open spec fn singles_first(d: Seq<Seq<i32>>, s: Seq<StatItem>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() && d[(#[trigger] s[j]).second_ as int].len() == 1 ==> d[(#[trigger] s[i]).second_ as int].len() == 1 }
// every symbol of every entry is itself a permitted entry
pub open spec fn closed(d: Seq<Seq<i32>>, x: Set<i32>) -> bool { forall|i: int, k: int| 0 <= i < d.len() && 0 <= k < d[i].len() ==> spelled(d, x, #[trigger] d[i][k]) }
pub proof fn closed_for(d: Seq<Seq<i32>>, x: Set<i32>, i: int)
    requires closed(d, x), 0 <= i < d.len(), d.len() < 0x7fff_ffff, d[i].len() > 1
    ensures forall|k: int| 0 <= k < d[i].len() ==> #[trigger] spelled(d, x.insert(i as i32), d[i][k])
{
    assert forall|k: int| 0 <= k < d[i].len() implies #[trigger] spelled(d, x.insert(i as i32), d[i][k]) by {
        assert(spelled(d, x, d[i][k]));
        let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == seq![d[i][k]] && !x.contains(j as i32);
        assert(j != i); assert(d[j] == seq![d[i][k]]);
    }
}
pub proof fn item_added(d: Seq<Seq<i32>>, f: Seq<i32>, x: Set<i32>, s: Seq<StatItem>, t: StatItem, n: int)
    requires items_ok(d, f, x, s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).second_ < n, singles_in(d, x, s, n), t.second_ == n, item_ok(d, f, x, t)
    ensures items_ok(d, f, x, s.push(t)), singles_in(d, x, s.push(t), n + 1), forall|i: int| 0 <= i < s.push(t).len() ==> (#[trigger] s.push(t)[i]).second_ < n + 1
{
    let s2 = s.push(t);
    assert(s2[s.len() as int] == t);
    assert forall|k: int| 0 <= k < n + 1 && (#[trigger] d[k]).len() == 1 && !x.contains(k as i32) implies has_item(s2, k) by {
        if k < n { assert(has_item(s, k)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).second_ == k; assert(s2[i].second_ == k); }
    }
}
pub proof fn item_count(d: Seq<Seq<i32>>, f: Seq<i32>, s: Seq<StatItem>, i: int)
    requires items_ok(d, f, Set::empty(), s), 0 <= i < s.len(), forall|k: int| 0 <= k < f.len() ==> 0 <= #[trigger] f[k] < 0x4000_0000
    ensures 0 <= s[i].count_ < 0x4000_0000 { assert(item_ok(d, f, Set::empty(), s[i])); }
pub proof fn items_sorted(d: Seq<Seq<i32>>, f: Seq<i32>, x: Set<i32>, s: Seq<StatItem>, t: Seq<StatItem>, n: int)
    requires items_ok(d, f, x, s), singles_in(d, x, s, n), s.to_multiset() == t.to_multiset(), exists|p: Seq<int>| is_perm(s, t, p), uniq(d),
        forall|i: int, j: int| 0 <= i < j < t.len() ==> !flt(fneg((#[trigger] t[j]).score_), fneg((#[trigger] t[i]).score_)),
    ensures items_ok(d, f, x, t), singles_in(d, x, t, n), singles_first(d, t)
{
    let p = choose|p: Seq<int>| is_perm(s, t, p);
    assert forall|i: int| 0 <= i < t.len() implies item_ok(d, f, x, #[trigger] t[i]) by { assert(t[i] == s[p[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).second_ != (#[trigger] t[j]).second_ by {
        assert(t[i] == s[p[i]] && t[j] == s[p[j]]); if p[i] < p[j] {} else { assert(p[j] < p[i]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() && d[(#[trigger] t[j]).second_ as int].len() == 1 implies d[(#[trigger] t[i]).second_ as int].len() == 1 by {
        ax_neg(t[j].score_, t[i].score_); assert(item_ok(d, f, x, t[i]) && item_ok(d, f, x, t[j])); assert(d[t[i].second_ as int].len() > 0);
    }
    assert forall|k: int| 0 <= k < n && (#[trigger] d[k]).len() == 1 && !x.contains(k as i32) implies has_item(t, k) by {
        assert(has_item(s, k)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).second_ == k;
        same_elements(s, t, s[i]); let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i]; assert(t[j].second_ == k);
    }
}
// entries without a shorter prefix entry among the first n
pub open spec fn roots(l: Seq<i32>, n: int) -> int decreases n { if n <= 0 { 0 } else { roots(l, n - 1) + if l[n - 1] < 0 { 1int } else { 0 } } }
pub open spec fn root_set(l: Seq<i32>, n: int) -> Set<i32> decreases n { if n <= 0 { Set::empty() } else if l[n - 1] < 0 { root_set(l, n - 1).insert((n - 1) as i32) } else { root_set(l, n - 1) } }
pub proof fn root_count(l: Seq<i32>, n: int) requires 0 <= n < 0x7fff_ffff
    ensures root_set(l, n).finite(), root_set(l, n).len() == roots(l, n), 0 <= roots(l, n) <= n, forall|i: i32| #[trigger] root_set(l, n).contains(i) <==> 0 <= i < n && l[i as int] < 0
    decreases n
{
    if n > 0 { root_count(l, n - 1); assert(!root_set(l, n - 1).contains((n - 1) as i32)); }
}
pub proof fn roots_mono(l: Seq<i32>, m: int, n: int) requires 0 <= m <= n ensures 0 <= roots(l, m) <= roots(l, n) decreases n - m + n { if m < n { roots_mono(l, m, n - 1); } else if m > 0 { roots_mono(l, m - 1, n - 1); } }
// single symbols are roots: they all come within the first roots(l, n) items
pub proof fn singles_room(d: Seq<Seq<i32>>, l: Seq<i32>, f: Seq<i32>, x: Set<i32>, s: Seq<StatItem>, j: int)
    requires uniq(d), links_ok(d, l), items_ok(d, f, x, s), singles_first(d, s), 0 <= j < s.len(), d[s[j].second_ as int].len() == 1, d.len() < 0x7fff_ffff
    ensures j < roots(l, d.len() as int)
{
    let n = d.len() as int; let ids = Seq::new((j + 1) as nat, |i: int| s[i].second_);
    root_count(l, n);
    assert forall|i: int| 0 <= i <= j implies root_set(l, n).contains(#[trigger] ids[i]) by {
        let k = s[i].second_ as int; assert(item_ok(d, f, x, s[i])); assert(d[k].len() == 1); assert(link_ok(d, k, l[k] as int));
        if l[k] >= 0 { pre_lt(d[l[k] as int], d[k]); assert(d[l[k] as int].len() > 0); }
    }
    assert(ids.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < ids.len() && 0 <= b < ids.len() && a != b implies ids[a] != ids[b] by { if a < b { assert(s[a].second_ != s[b].second_); } else { assert(s[b].second_ != s[a].second_); } } }
    ids.unique_seq_to_set();
    assert(ids.to_set().subset_of(root_set(l, n)));
    lemma_len_subset(ids.to_set(), root_set(l, n));
}
pub proof fn cut_ok(d: Seq<Seq<i32>>, l: Seq<i32>, f: Seq<i32>, x: Set<i32>, s: Seq<StatItem>, t: Seq<StatItem>, m: int)
    requires uniq(d), links_ok(d, l), items_ok(d, f, x, s), singles_first(d, s), singles_in(d, x, s, d.len() as int), d.len() < 0x7fff_ffff, 0 <= m <= s.len(), t == s.subrange(0, m), m == s.len() || roots(l, d.len() as int) <= m
    ensures items_ok(d, f, x, t), singles_in(d, x, t, d.len() as int)
{
    assert forall|i: int| 0 <= i < t.len() implies item_ok(d, f, x, #[trigger] t[i]) by { assert(t[i] == s[i]); }
    assert forall|k: int| 0 <= k < d.len() && (#[trigger] d[k]).len() == 1 && !x.contains(k as i32) implies has_item(t, k) by {
        assert(has_item(s, k)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).second_ == k; singles_room(d, l, f, x, s, i); assert(t[i].second_ == k);
    }
}
// nothing but unused entries with a shorter prefix entry is excluded
pub open spec fn unused(l: Seq<i32>, f: Seq<i32>, x: Set<i32>, n: int) -> bool { forall|i: i32| #[trigger] x.contains(i) ==> 0 <= i < n && l[i as int] >= 0 && fr(f, i as int) == 0 }
pub proof fn singles_stay(d: Seq<Seq<i32>>, l: Seq<i32>, f: Seq<i32>, x: Set<i32>, n: int)
    requires uniq(d), links_ok(d, l), unused(l, f, x, n), d.len() < 0x7fff_ffff, n <= d.len()
    ensures forall|k: int| 0 <= k < d.len() && (#[trigger] d[k]).len() == 1 ==> !x.contains(k as i32), closed(d, Set::empty()) ==> closed(d, x)
{
    assert forall|k: int| 0 <= k < d.len() && (#[trigger] d[k]).len() == 1 implies !x.contains(k as i32) by {
        assert(link_ok(d, k, l[k] as int)); if l[k] >= 0 { pre_lt(d[l[k] as int], d[k]); assert(d[l[k] as int].len() > 0); }
    }
    if closed(d, Set::empty()) {
        assert forall|i: int, k: int| 0 <= i < d.len() && 0 <= k < d[i].len() implies spelled(d, x, #[trigger] d[i][k]) by {
            assert(spelled(d, Set::empty(), d[i][k]));
            let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == seq![d[i][k]] && !Set::<i32>::empty().contains(j as i32); assert(d[j] == seq![d[i][k]]);
        }
    }
}
pub open spec fn entry_count(d: Seq<Seq<i32>>, f: Seq<i32>, q: Seq<i32>, c: int) -> bool { exists|k: int| 0 <= k < d.len() && #[trigger] d[k] == q && c == fr(f, k) }
// the first items, written out
pub open spec fn written(d: Seq<Seq<i32>>, f: Seq<i32>, s: Seq<StatItem>, o: Seq<Seq<i32>>, c: Seq<i32>) -> bool {
    o.len() <= s.len() && c.len() == o.len() && forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == d[s[i].second_ as int] && c[i] == s[i].count_
}
pub proof fn all_taken(d: Seq<Seq<i32>>, f: Seq<i32>, s: Seq<StatItem>, o: Seq<Seq<i32>>, c: Seq<i32>)
    requires uniq(d), items_ok(d, f, Set::empty(), s), written(d, f, s, o, c), o.len() == s.len(), singles_in(d, Set::empty(), s, d.len() as int)
    ensures uniq(o), forall|i: int| 0 <= i < o.len() ==> #[trigger] entry_count(d, f, o[i], c[i] as int), forall|k: int| 0 <= k < d.len() && (#[trigger] d[k]).len() == 1 ==> listed(o, d[k])
{
    assert forall|i: int| 0 <= i < o.len() implies #[trigger] entry_count(d, f, o[i], c[i] as int) && o[i].len() > 0 by { assert(item_ok(d, f, Set::empty(), s[i])); assert(d[s[i].second_ as int] == o[i]); }
    assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && #[trigger] o[i] == #[trigger] o[j] implies i == j by {
        assert(item_ok(d, f, Set::empty(), s[i]) && item_ok(d, f, Set::empty(), s[j])); assert(d[s[i].second_ as int] == d[s[j].second_ as int]);
        if i < j { assert(s[i].second_ != s[j].second_); } else if j < i { assert(s[j].second_ != s[i].second_); }
    }
    assert forall|k: int| 0 <= k < d.len() && (#[trigger] d[k]).len() == 1 implies listed(o, d[k]) by { assert(has_item(s, k)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).second_ == k; assert(o[i] == d[k]); }
}
pub open spec fn occurs(o: Seq<i32>, k: int) -> bool { exists|j: int| 0 <= j < o.len() && #[trigger] o[j] == k }
// a symbol of a segmented sequence belongs to one of the entries used
pub open spec fn used_at(d: Seq<Seq<i32>>, o: Seq<i32>, c: i32, j: int) -> bool { 0 <= j < o.len() && exists|k: int| 0 <= k < d[o[j] as int].len() && #[trigger] d[o[j] as int][k] == c }
pub proof fn part_of(d: Seq<Seq<i32>>, o: Seq<i32>, p: int) requires ids_ok(d, o), 0 <= p < flat(d, o).len() ensures exists|j: int| #[trigger] used_at(d, o, flat(d, o)[p], j) decreases o.len() {
    let e = d[o[0] as int]; let t = o.drop_first();
    if p < e.len() { assert(e[p] == flat(d, o)[p]); assert(used_at(d, o, flat(d, o)[p], 0)); }
    else {
        assert(ids_ok(d, t)) by { assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < d.len() by { assert(t[i] == o[i + 1]); } }
        part_of(d, t, p - e.len());
        let j = choose|j: int| #[trigger] used_at(d, t, flat(d, t)[p - e.len()], j);
        assert(t[j] == o[j + 1]); assert(used_at(d, o, flat(d, o)[p], j + 1));
    }
}
// a dictionary with all its symbols stays so, and what it learns from an input it uses on it
pub proof fn learned_used(d: Seq<Seq<i32>>, e: Seq<Seq<i32>>, s: Seq<i32>, o: Seq<i32>)
    requires uniq(e), grown(d, e, s), flat(e, o) == s, ids_ok(e, o), closed(d, Set::empty())
    ensures closed(e, Set::empty()), forall|k: int| d.len() <= k < e.len() ==> #[trigger] occurs(o, k)
{
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] e[i] == d[i] by { assert(e.subrange(0, d.len() as int)[i] == e[i]); }
    assert forall|i: int, k: int| 0 <= i < e.len() && 0 <= k < e[i].len() implies spelled(e, Set::empty(), #[trigger] e[i][k]) by {
        if i < d.len() {
            assert(spelled(d, Set::empty(), d[i][k]));
            let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == seq![d[i][k]] && !Set::<i32>::empty().contains(j as i32); assert(e[j] == seq![e[i][k]]);
        } else { assert(added(e, s, i)); assert(e[i] =~= seq![e[i][k]]); }
    }
    assert forall|k: int| d.len() <= k < e.len() implies #[trigger] occurs(o, k) by {
        assert(added(e, s, k)); let p = choose|p: int| 0 <= p < s.len() && e[k] == seq![#[trigger] s[p]] && none_starts(e.subrange(0, k), None, s.subrange(p, s.len() as int));
        part_of(e, o, p); let j = choose|j: int| #[trigger] used_at(e, o, s[p], j); let i = o[j] as int;
        let m = choose|m: int| 0 <= m < e[i].len() && #[trigger] e[i][m] == s[p];
        if i < d.len() {
            assert(spelled(d, Set::empty(), d[i][m]));
            let q = choose|q: int| 0 <= q < d.len() && #[trigger] d[q] == seq![d[i][m]] && !Set::<i32>::empty().contains(q as i32); assert(e[q] == e[k]);
        } else { assert(added(e, s, i)); assert(e[i] =~= e[k]); }
        assert(o[j] == k);
    }
}
// ---- growing
// magnitudes of numbers (never NaN): |x| <= 2^k; 2^-lo <= x <= 2^hi
pub uninterp spec fn mag(x: F64, k: int) -> bool;
pub uninterp spec fn rng(x: F64, lo: int, hi: int) -> bool;
#[verifier::external_body] pub broadcast proof fn ax_mag_int(n: int) requires -0x8000_0000 < n < 0x8000_0000 ensures mag(#[trigger] fofint(n), 31) {}
#[verifier::external_body] pub broadcast proof fn ax_rng_int(n: int) requires 1 <= n < 0x8000_0000 ensures rng(#[trigger] fofint(n), 0, 31) {}
#[verifier::external_body] pub broadcast proof fn ax_rng_mag(x: F64, lo: int, hi: int) requires #[trigger] rng(x, lo, hi), hi <= 1000 ensures mag(x, hi) {}
#[verifier::external_body] pub broadcast proof fn ax_mag_plus(x: F64, a: int, y: F64, b: int) requires #[trigger] mag(x, a), #[trigger] mag(y, b), 0 <= a < 1000, 0 <= b < 1000 ensures mag(#[trigger] fadd(x, y), (if a < b { b } else { a }) + 1) {}
#[verifier::external_body] pub broadcast proof fn ax_mag_times(x: F64, a: int, y: F64, b: int) requires #[trigger] mag(x, a), #[trigger] mag(y, b), 0 <= a, 0 <= b, a + b <= 1000 ensures mag(#[trigger] fmul(x, y), a + b) {}
#[verifier::external_body] pub broadcast proof fn ax_mag_over(x: F64, a: int, y: F64, lo: int, hi: int) requires #[trigger] mag(x, a), #[trigger] rng(y, lo, hi), 0 <= a, 0 <= lo, a + lo <= 1000, hi <= 1000 ensures mag(#[trigger] fdiv(x, y), a + lo) {}
#[verifier::external_body] pub broadcast proof fn ax_rng_plus(x: F64, a: int, b: int, y: F64, c: int, e: int) requires #[trigger] rng(x, a, b), #[trigger] rng(y, c, e), 0 <= a <= 1000, 0 <= b < 1000, 0 <= c <= 1000, 0 <= e < 1000 ensures rng(#[trigger] fadd(x, y), if a < c { a } else { c }, (if b < e { e } else { b }) + 1) {}
#[verifier::external_body] pub broadcast proof fn ax_rng_times(x: F64, a: int, b: int, y: F64, c: int, e: int) requires #[trigger] rng(x, a, b), #[trigger] rng(y, c, e), 0 <= a, 0 <= b, 0 <= c, 0 <= e, a + c <= 1000, b + e <= 1000 ensures rng(#[trigger] fmul(x, y), a + c, b + e) {}
#[verifier::external_body] pub broadcast proof fn ax_rng_over(x: F64, a: int, b: int, y: F64, c: int, e: int) requires #[trigger] rng(x, a, b), #[trigger] rng(y, c, e), 0 <= a, 0 <= b, 0 <= c, 0 <= e, a + e <= 1000, b + c <= 1000 ensures rng(#[trigger] fdiv(x, y), a + e, b + c) {}
#[verifier::external_body] pub broadcast proof fn ax_mag_log(x: F64, lo: int, hi: int) requires #[trigger] rng(x, lo, hi), 0 <= lo <= 1000, 0 <= hi <= 1000 ensures mag(#[trigger] flog(x), 10) {}
pub broadcast group mag_rules { ax_mag_int, ax_rng_int, ax_rng_mag, ax_mag_plus, ax_mag_times, ax_mag_over, ax_rng_plus, ax_rng_times, ax_rng_over, ax_mag_log }
#[verifier::external_body] pub proof fn ax_mag_grow(x: F64, a: int, b: int) ensures mag(x, a) && a <= b ==> mag(x, b) {}
#[verifier::external_body] pub proof fn ax_mag_top(x: F64, a: int) ensures mag(x, a) && a <= 1000 ==> flt(x, fmax()) {}
#[verifier::external_body] pub proof fn ax_int_less(a: int, b: int) ensures small(a) && small(b) ==> fsub(fofint(a), fofint(b)) == fofint(a - b) && flt(fofint(a), fofint(b)) == (a < b) {}
#[verifier::external_body] pub proof fn ax_top_positive() ensures flt(fofint(0), fmax()) {}
// a gamma draw with a whole shape of at least one is neither zero nor huge (libstdc++: v^3 * (a - 1/3) with v a positive multiple of 2^-53 below 2^4)
#[verifier::external_body] pub proof fn ax_gamma(g: Rng, n: int) ensures 1 <= n < 0x10_0000_0000_0001 ==> rng(gdraw(g, fofint(n), fofint(1)), 161, 64) {}
#[verifier::external_body] pub proof fn ax_zero_plus(x: F64, lo: int, hi: int) ensures rng(x, lo, hi) ==> rng(fadd(fofint(0), x), lo, hi) {}
pub open spec fn shapes(p: Seq<F64>) -> bool { p.len() == 4 && forall|i: int| 0 <= i < 4 ==> exists|n: int| 1 <= n < 0x10_0000_0000_0001 && #[trigger] p[i] == #[trigger] fofint(n) }
pub proof fn sum_rng(g: Rng, p: Seq<F64>, n: int) requires shapes(p), 1 <= n <= 4 ensures rng(sum_of(g, p, n), 161, 64 + n), forall|i: int| 0 <= i < n ==> rng(#[trigger] draw(g, p, i), 161, 64) decreases n {
    broadcast use mag_rules;
    let k = choose|k: int| 1 <= k < 0x10_0000_0000_0001 && #[trigger] p[n - 1] == #[trigger] fofint(k);
    ax_gamma(after(g, p, n - 1), k); let x = draw(g, p, n - 1);
    if n > 1 { sum_rng(g, p, n - 1); } else { assert(sum_of(g, p, 0) == fofint(0)); ax_zero_plus(x, 161, 64); ax_rng_grow(fadd(fofint(0), x), 161, 64, 161, 65); }
    assert(sum_of(g, p, n) == fadd(sum_of(g, p, n - 1), x));
}
#[verifier::external_body] pub proof fn ax_rng_grow(x: F64, a: int, b: int, c: int, e: int) ensures rng(x, a, b) && a <= c && b <= e ==> rng(x, c, e) {}
pub proof fn sample_rng(g: Rng, p: Seq<F64>, o: Seq<F64>) requires shapes(p), sample_of(g, p, o) ensures forall|i: int| 0 <= i < 4 ==> rng(#[trigger] o[i], 230, 226) {
    broadcast use mag_rules;
    sum_rng(g, p, 4); let t = sum_of(g, p, 4);
    assert forall|i: int| 0 <= i < 4 implies rng(#[trigger] o[i], 230, 226) by {
        let d = draw(g, p, i); assert(share(o[i], d, t)); assert(rng(fofint(1), 0, 31));
        ax_rng_one(); assert(rng(fdiv(fofint(1), t), 68, 161)); assert(rng(fmul(d, fdiv(fofint(1), t)), 229, 225)); assert(rng(fdiv(d, t), 229, 225));
        ax_rng_grow(o[i], 229, 225, 230, 226);
    }
}
#[verifier::external_body] pub proof fn ax_rng_one() ensures rng(fofint(1), 0, 0) {}
// ---- adjacent pairs: totals by first and by second
pub open spec fn hi(k: i64) -> int { (k as int) / 0x1_0000_0000 }
pub open spec fn lo(k: i64) -> int { (k as int) % 0x1_0000_0000 }
pub open spec fn row(p: Seq<P2<i64, i32>>, n: int, a: int) -> int decreases n { if n <= 0 { 0 } else { row(p, n - 1, a) + if hi(p[n - 1].first) == a { p[n - 1].second as int } else { 0 } } }
pub open spec fn col(p: Seq<P2<i64, i32>>, n: int, b: int) -> int decreases n { if n <= 0 { 0 } else { col(p, n - 1, b) + if lo(p[n - 1].first) == b { p[n - 1].second as int } else { 0 } } }
pub open spec fn tot(p: Seq<P2<i64, i32>>, n: int) -> int decreases n { if n <= 0 { 0 } else { tot(p, n - 1) + p[n - 1].second } }
pub open spec fn cell(p: Seq<P2<i64, i32>>, n: int, a: int, b: int) -> int decreases n { if n <= 0 { 0 } else { cell(p, n - 1, a, b) + if hi(p[n - 1].first) == a && lo(p[n - 1].first) == b { p[n - 1].second as int } else { 0 } } }
pub open spec fn listing(m: Map<i64, i32>, p: Seq<P2<i64, i32>>) -> bool {
    &&& p.len() == m.dom().len() && p.len() < 0x7fff_ffff
    &&& forall|i: int| 0 <= i < p.len() ==> m.dom().contains((#[trigger] p[i]).first) && m[p[i].first] == p[i].second
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).first != (#[trigger] p[j]).first
    &&& forall|k: i64| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).first == k
}
// the counts add up to less than 2^52
pub open spec fn few_pairs(m: Map<i64, i32>, c: int) -> bool { 0 <= c && m.dom().len() * c < 0x10_0000_0000_0000 && forall|k: i64| #[trigger] m.dom().contains(k) ==> 1 <= m[k] <= c }
pub open spec fn pair_room(m: Map<i64, i32>) -> bool { exists|c: int| #[trigger] few_pairs(m, c) }
pub proof fn sums(m: Map<i64, i32>, p: Seq<P2<i64, i32>>, n: int, a: int, b: int)
    requires pair_room(m), listing(m, p), 0 <= n <= p.len()
    ensures 0 <= cell(p, n, a, b) <= row(p, n, a), cell(p, n, a, b) <= col(p, n, b), row(p, n, a) + col(p, n, b) - cell(p, n, a, b) <= tot(p, n), row(p, n, a) <= tot(p, n), col(p, n, b) <= tot(p, n), 0 <= tot(p, n) < 0x10_0000_0000_0000
    decreases n
{
    let c = choose|c: int| #[trigger] few_pairs(m, c);
    sums_most(m, p, n, a, b, c);
    assert(n * c <= m.dom().len() * c) by (nonlinear_arith) requires n <= m.dom().len(), 0 <= c;
}
pub proof fn sums_most(m: Map<i64, i32>, p: Seq<P2<i64, i32>>, n: int, a: int, b: int, c: int)
    requires few_pairs(m, c), listing(m, p), 0 <= n <= p.len()
    ensures 0 <= cell(p, n, a, b) <= row(p, n, a), cell(p, n, a, b) <= col(p, n, b), row(p, n, a) + col(p, n, b) - cell(p, n, a, b) <= tot(p, n), row(p, n, a) <= tot(p, n), col(p, n, b) <= tot(p, n), 0 <= tot(p, n) <= n * c
    decreases n
{
    if n > 0 { sums_most(m, p, n - 1, a, b, c); let x = p[n - 1].second; assert(m.dom().contains(p[n - 1].first)); assert(1 <= x <= c); assert((n - 1) * c + c == n * c) by (nonlinear_arith); }
}
pub proof fn own_cell(m: Map<i64, i32>, p: Seq<P2<i64, i32>>, n: int, k: i64)
    requires listing(m, p), 0 <= n <= p.len(), m.dom().contains(k), forall|j: i64| #[trigger] m.dom().contains(j) ==> j >= 0
    ensures cell(p, n, hi(k), lo(k)) == 0 || cell(p, n, hi(k), lo(k)) == m[k], (exists|i: int| 0 <= i < n && (#[trigger] p[i]).first == k) ==> cell(p, n, hi(k), lo(k)) == m[k], (forall|i: int| 0 <= i < n ==> (#[trigger] p[i]).first != k) ==> cell(p, n, hi(k), lo(k)) == 0
    decreases n
{
    if n > 0 {
        own_cell(m, p, n - 1, k);
        let q = p[n - 1].first; assert(m.dom().contains(q));
        if q == k { assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] p[i]).first != k by { assert(p[n - 1].first == k); } }
        else { assert(hi(q) != hi(k) || lo(q) != lo(k)); if exists|i: int| 0 <= i < n && (#[trigger] p[i]).first == k { let i = choose|i: int| 0 <= i < n && (#[trigger] p[i]).first == k; assert(p[i].first == k && i < n - 1); } }
    }
}
// the four shapes of one pair are whole and positive
pub proof fn pair_shapes(m: Map<i64, i32>, p: Seq<P2<i64, i32>>, k: i64)
    requires pair_room(m), listing(m, p), m.dom().contains(k), forall|j: i64| #[trigger] m.dom().contains(j) ==> j >= 0
    ensures ({ let n = p.len() as int; let r = row(p, n, hi(k)); let c = col(p, n, lo(k)); let t = tot(p, n); 1 <= m[k] <= r <= t && m[k] <= c <= t && r + c - m[k] <= t && t < 0x10_0000_0000_0000 })
{
    let n = p.len() as int; sums(m, p, n, hi(k), lo(k)); own_cell(m, p, n, k);
    let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).first == k; assert(p[i].first == k);
    let c = choose|c: int| #[trigger] few_pairs(m, c); assert(few_pairs(m, c));
}
// double tables of the totals
pub open spec fn rows(s: Seq<F64>, p: Seq<P2<i64, i32>>, n: int) -> bool { forall|a: int| 0 <= a < s.len() ==> #[trigger] s[a] == fofint(row(p, n, a)) }
pub open spec fn cols(s: Seq<F64>, p: Seq<P2<i64, i32>>, n: int) -> bool { forall|b: int| 0 <= b < s.len() ==> #[trigger] s[b] == fofint(col(p, n, b)) }
pub open spec fn isum(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { isum(s.drop_last()) + s.last() } }
pub proof fn isum_update(s: Seq<int>, i: int, x: int) requires 0 <= i < s.len() ensures isum(s.update(i, x)) == isum(s) - s[i] + x decreases s.len() {
    if i == s.len() - 1 { assert(s.update(i, x).drop_last() =~= s.drop_last()); }
    else { assert(s.update(i, x).drop_last() =~= s.drop_last().update(i, x)); isum_update(s.drop_last(), i, x); }
}
pub proof fn isum_zero(s: Seq<int>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0 ensures isum(s) == 0 decreases s.len() { if s.len() > 0 { isum_zero(s.drop_last()); } }
pub open spec fn row_seq(p: Seq<P2<i64, i32>>, n: int, z: nat) -> Seq<int> { Seq::new(z, |a: int| row(p, n, a)) }
pub proof fn rows_total(m: Map<i64, i32>, p: Seq<P2<i64, i32>>, n: int, z: nat) requires listing(m, p), 0 <= n <= p.len(), forall|k: i64| #[trigger] m.dom().contains(k) ==> 0 <= hi(k) < z ensures isum(row_seq(p, n, z)) == tot(p, n) decreases n {
    if n == 0 { isum_zero(row_seq(p, 0, z)); }
    else {
        rows_total(m, p, n - 1, z); let x = p[n - 1]; assert(m.dom().contains(x.first)); let s = row_seq(p, n - 1, z); let a = hi(x.first);
        isum_update(s, a, s[a] + x.second); assert(row_seq(p, n, z) =~= s.update(a, s[a] + x.second));
    }
}
pub proof fn fsum_exact(s: Seq<F64>, t: Seq<int>) requires s.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] >= 0 && s[i] == fofint(t[i]), small(isum(t)) ensures fsum_f(s, fofint(0)) == fofint(isum(t)), isum(t) >= 0 decreases s.len() {
    if s.len() > 0 {
        isum_pos(t.drop_last());
        assert(t[t.len() - 1] >= 0 && s[t.len() - 1] == fofint(t[t.len() - 1]));
        fsum_exact(s.drop_last(), t.drop_last()); ax_int_sum(isum(t.drop_last()), t.last()); isum_pos(t);
        isum_last(t);
    }
}
pub proof fn isum_last(t: Seq<int>) requires t.len() > 0, forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] >= 0 ensures t.last() <= isum(t) { isum_pos(t.drop_last()); }
pub proof fn isum_pos(t: Seq<int>) requires forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] >= 0 ensures isum(t) >= 0 decreases t.len() { if t.len() > 0 { isum_pos(t.drop_last()); assert(t[t.len() - 1] >= 0); } }
// ---- candidates
pub open spec fn text(d: Seq<Seq<i32>>, t: StatItem) -> Seq<i32> { if t.first_ >= 0 { d[t.first_ as int] + d[t.second_ as int] } else { d[t.second_ as int] } }
pub open spec fn old_item(d: Seq<Seq<i32>>, f: Seq<i32>, t: StatItem) -> bool { t.first_ == -1 && 0 <= t.second_ < d.len() && t.count_ == fr(f, t.second_ as int) && t.score_ == fmax() }
pub open spec fn pair_item(d: Seq<Seq<i32>>, m: Map<i64, i32>, t: StatItem) -> bool {
    0 <= t.first_ < d.len() && 0 <= t.second_ < d.len() && m.dom().contains(pk(t.first_ as int, t.second_ as int)) && t.count_ == m[pk(t.first_ as int, t.second_ as int)] && flt(t.score_, fmax())
}
pub open spec fn grow_ok(d: Seq<Seq<i32>>, f: Seq<i32>, m: Map<i64, i32>, s: Seq<StatItem>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> old_item(d, f, #[trigger] s[i]) || pair_item(d, m, s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> text(d, #[trigger] s[i]) != text(d, #[trigger] s[j])
}
pub open spec fn has_old(s: Seq<StatItem>, k: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).first_ < 0 && s[i].second_ == k }
pub open spec fn olds(s: Seq<StatItem>, n: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] has_old(s, k) }
pub open spec fn has_text(d: Seq<Seq<i32>>, s: Seq<StatItem>, q: Seq<i32>) -> bool { exists|i: int| 0 <= i < s.len() && text(d, #[trigger] s[i]) == q }
pub open spec fn texts(d: Seq<Seq<i32>>, s: Seq<StatItem>, x: Set<Seq<i32>>) -> bool { forall|q: Seq<i32>| #[trigger] x.contains(q) <==> has_text(d, s, q) }
pub open spec fn old_first(s: Seq<StatItem>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[j]).first_ < 0 ==> (#[trigger] s[i]).first_ < 0 }
pub proof fn candidate(d: Seq<Seq<i32>>, f: Seq<i32>, m: Map<i64, i32>, s: Seq<StatItem>, x: Set<Seq<i32>>, t: StatItem)
    requires grow_ok(d, f, m, s), texts(d, s, x), !x.contains(text(d, t)), old_item(d, f, t) || pair_item(d, m, t)
    ensures grow_ok(d, f, m, s.push(t)), texts(d, s.push(t), x.insert(text(d, t))), forall|n: int| #[trigger] olds(s, n) ==> olds(s.push(t), n), t.first_ < 0 ==> has_old(s.push(t), t.second_ as int)
{
    let u = s.push(t); let n = s.len() as int;
    assert(u[n] == t);
    assert forall|q: Seq<i32>| #[trigger] x.insert(text(d, t)).contains(q) <==> has_text(d, u, q) by {
        if has_text(d, s, q) { let i = choose|i: int| 0 <= i < s.len() && text(d, #[trigger] s[i]) == q; assert(text(d, u[i]) == q); }
        if has_text(d, u, q) { let i = choose|i: int| 0 <= i < u.len() && text(d, #[trigger] u[i]) == q; if i < n { assert(text(d, s[i]) == q); } }
        if q == text(d, t) { assert(text(d, u[n]) == q); }
    }
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies text(d, #[trigger] u[i]) != text(d, #[trigger] u[j]) by { if j == n { assert(has_text(d, s, text(d, s[i]))); assert(x.contains(text(d, s[i]))); } }
    assert forall|k: int| #[trigger] olds(s, k) implies olds(u, k) by {
        assert forall|a: int| 0 <= a < k implies #[trigger] has_old(u, a) by { assert(has_old(s, a)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).first_ < 0 && s[i].second_ == a; assert(u[i].second_ == a); }
    }
}
pub proof fn candidates_sorted(d: Seq<Seq<i32>>, f: Seq<i32>, m: Map<i64, i32>, s: Seq<StatItem>, t: Seq<StatItem>)
    requires grow_ok(d, f, m, s), olds(s, d.len() as int), s.to_multiset() == t.to_multiset(), exists|p: Seq<int>| is_perm(s, t, p),
        forall|i: int, j: int| 0 <= i < j < t.len() ==> !flt(fneg((#[trigger] t[j]).score_), fneg((#[trigger] t[i]).score_)),
    ensures grow_ok(d, f, m, t), olds(t, d.len() as int), old_first(t)
{
    let p = choose|p: Seq<int>| is_perm(s, t, p);
    assert forall|i: int| 0 <= i < t.len() implies old_item(d, f, #[trigger] t[i]) || pair_item(d, m, t[i]) by { assert(t[i] == s[p[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies text(d, #[trigger] t[i]) != text(d, #[trigger] t[j]) by { assert(t[i] == s[p[i]] && t[j] == s[p[j]]); if p[i] < p[j] {} else { assert(p[j] < p[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < t.len() && (#[trigger] t[j]).first_ < 0 implies (#[trigger] t[i]).first_ < 0 by {
        ax_neg(t[j].score_, t[i].score_); assert(old_item(d, f, t[j])); assert(old_item(d, f, t[i]) || pair_item(d, m, t[i]));
    }
    assert forall|k: int| 0 <= k < d.len() implies #[trigger] has_old(t, k) by {
        assert(has_old(s, k)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).first_ < 0 && s[i].second_ == k;
        same_elements(s, t, s[i]); let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i]; assert(t[j].second_ == k);
    }
}
// the old entries come within the first d.len() candidates
pub proof fn old_room(d: Seq<Seq<i32>>, f: Seq<i32>, m: Map<i64, i32>, s: Seq<StatItem>, j: int)
    requires grow_ok(d, f, m, s), old_first(s), 0 <= j < s.len(), s[j].first_ < 0
    ensures j < d.len()
{
    let ids = Seq::new((j + 1) as nat, |i: int| s[i].second_ as int);
    let all = set_int_range(0, d.len() as int); lemma_int_range(0, d.len() as int);
    assert forall|i: int| 0 <= i <= j implies all.contains(#[trigger] ids[i]) by { assert(s[i].first_ < 0); assert(old_item(d, f, s[i])); }
    assert(ids.no_duplicates()) by {
        assert forall|a: int, b: int| 0 <= a < ids.len() && 0 <= b < ids.len() && a != b implies ids[a] != ids[b] by {
            assert(s[a].first_ < 0 && s[b].first_ < 0);
            if a < b { assert(text(d, s[a]) != text(d, s[b])); } else { assert(text(d, s[b]) != text(d, s[a])); }
        }
    }
    ids.unique_seq_to_set(); assert(ids.to_set().subset_of(all)); lemma_len_subset(ids.to_set(), all);
}
// what growing may list: an old entry with its count, or an observed pair with its own
pub open spec fn joined(d: Seq<Seq<i32>>, m: Map<i64, i32>, q: Seq<i32>, c: int) -> bool { exists|k: i64| #[trigger] m.dom().contains(k) && pair_key(k, d.len() as int) && q == d[hi(k)] + d[lo(k)] && c == m[k] }
pub open spec fn put_out(d: Seq<Seq<i32>>, s: Seq<StatItem>, o: Seq<Seq<i32>>, c: Seq<i32>) -> bool {
    o.len() <= s.len() && c.len() == o.len() && forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == text(d, s[i]) && c[i] == s[i].count_
}
pub open spec fn only_new_after(s: Seq<StatItem>, n: int) -> bool { forall|j: int| n <= j < s.len() ==> (#[trigger] s[j]).first_ >= 0 }
pub proof fn all_out(d: Seq<Seq<i32>>, f: Seq<i32>, m: Map<i64, i32>, s: Seq<StatItem>, o: Seq<Seq<i32>>, c: Seq<i32>)
    requires uniq(d), d.len() < 0x7fff_ffff, grow_ok(d, f, m, s), olds(s, d.len() as int), put_out(d, s, o, c), only_new_after(s, o.len() as int)
    ensures uniq(o), forall|k: int| 0 <= k < d.len() ==> listed(o, #[trigger] d[k]), forall|i: int| 0 <= i < o.len() ==> #[trigger] entry_count(d, f, o[i], c[i] as int) || joined(d, m, o[i], c[i] as int)
{
    assert forall|i: int| 0 <= i < o.len() implies (#[trigger] entry_count(d, f, o[i], c[i] as int) || joined(d, m, o[i], c[i] as int)) && o[i].len() > 0 by {
        let t = s[i]; assert(old_item(d, f, t) || pair_item(d, m, t));
        if old_item(d, f, t) { assert(d[t.second_ as int] == o[i]); }
        else { let k = pk(t.first_ as int, t.second_ as int); key_bits(t.first_ as i64, t.second_ as i64, 32u32); assert(m.dom().contains(k)); assert(d[t.first_ as int].len() > 0); }
    }
    assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && #[trigger] o[i] == #[trigger] o[j] implies i == j by {
        if i < j { assert(text(d, s[i]) != text(d, s[j])); } else if j < i { assert(text(d, s[j]) != text(d, s[i])); }
    }
    assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).len() > 0 by { assert(entry_count(d, f, o[i], c[i] as int) || joined(d, m, o[i], c[i] as int)); }
    assert forall|k: int| 0 <= k < d.len() implies listed(o, #[trigger] d[k]) by { assert(has_old(s, k)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).first_ < 0 && s[i].second_ == k; assert(i < o.len()); assert(o[i] == d[k]); }
}
pub proof fn rows_next(s: Seq<F64>, t: Seq<F64>, p: Seq<P2<i64, i32>>, n: int)
    requires rows(s, p, n), 0 <= n < p.len(), 0 <= hi(p[n].first) < s.len(), t == s.update(hi(p[n].first), fofint(row(p, n, hi(p[n].first)) + p[n].second))
    ensures rows(t, p, n + 1) {}
pub proof fn cols_next(s: Seq<F64>, t: Seq<F64>, p: Seq<P2<i64, i32>>, n: int)
    requires cols(s, p, n), 0 <= n < p.len(), 0 <= lo(p[n].first) < s.len(), t == s.update(lo(p[n].first), fofint(col(p, n, lo(p[n].first)) + p[n].second))
    ensures cols(t, p, n + 1) {}
pub proof fn grand_total(m: Map<i64, i32>, p: Seq<P2<i64, i32>>, s: Seq<F64>)
    requires pair_room(m), listing(m, p), rows(s, p, p.len() as int), forall|k: i64| #[trigger] m.dom().contains(k) ==> 0 <= hi(k) < s.len()
    ensures fsum_f(s, fofint(0)) == fofint(tot(p, p.len() as int))
{
    let n = p.len() as int; let t = row_seq(p, n, s.len());
    rows_total(m, p, n, s.len()); sums(m, p, n, 0, 0);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] >= 0 && s[i] == fofint(t[i]) by { sums(m, p, n, i, 0); assert(s[i] == fofint(row(p, n, i))); }
    fsum_exact(s, t);
}
