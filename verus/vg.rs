// models: a builder, a coder, the adopted dictionary and its counts
pub open spec fn known_codes(b: Map<i32, i32>, s: Seq<i32>) -> bool { forall|k: int| 0 <= k < s.len() ==> b.dom().contains(#[trigger] s[k]) }
pub open spec fn decodable(b: Map<i32, i32>, d: Seq<Seq<i32>>) -> bool { forall|i: int, k: int| 0 <= i < d.len() && 0 <= k < d[i].len() ==> b.dom().contains(#[trigger] d[i][k]) }
pub open spec fn decoded(b: Map<i32, i32>, d: Seq<Seq<i32>>) -> Seq<Seq<i32>> { Seq::new(d.len(), |i: int| codes_of(b, d[i])) }
pub open spec fn starts(d: Seq<Seq<i32>>, e: Seq<Seq<i32>>) -> bool { d.len() <= e.len() && e.subrange(0, d.len() as int) == d }
pub open spec fn counts_ok(f: Seq<i32>, t: i32) -> bool { (forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i]) && sum_i32(f) == t && t < 0x7fff_ffff }
// no model has more symbols, or more v-grams to distill
pub open spec fn room() -> int { 0x100_0000 }
impl IntVGramBuilderImpl {
    pub open spec fn bounded(&self, h: Heap) -> bool {
        &&& self.size_ <= room() && self.symb_alphabet_.len() <= 11 * room()
        &&& many(entries_of(h, self.current_)) <= if self.populate_ { room() } else { 10 * room() }
        &&& self.result_ != 0 ==> many(entries_of(h, self.result_)) <= room()
    }
}
// the symbols of a coder and of sequences
pub open spec fn symbols_in(f: Set<i32>, seqs: Seq<Seq<i32>>) -> Set<i32> decreases seqs.len() { if seqs.len() == 0 { f } else { symbols_in(f, seqs.drop_last()).union(seqs.last().to_set()) } }
pub proof fn symbols_each(f: Set<i32>, seqs: Seq<Seq<i32>>) ensures f.subset_of(symbols_in(f, seqs)), forall|k: int| 0 <= k < seqs.len() ==> (#[trigger] seqs[k]).to_set().subset_of(symbols_in(f, seqs)) decreases seqs.len() {
    if seqs.len() > 0 { let u = seqs.drop_last(); symbols_each(f, u); assert forall|k: int| 0 <= k < seqs.len() implies (#[trigger] seqs[k]).to_set().subset_of(symbols_in(f, seqs)) by { if k < u.len() { assert(u[k] == seqs[k]); } } }
}
pub proof fn numbered_in(m: Map<i32, i32>, s: Seq<i32>, a: Set<i32>) requires m.dom().subset_of(a), s.to_set().subset_of(a) ensures numbering(m, s).dom().subset_of(a), numbering(m, s).dom().len() <= a.len() decreases s.len() {
    if s.len() > 0 {
        let u = s.drop_last(); assert forall|x: i32| #[trigger] u.to_set().contains(x) implies a.contains(x) by { assert(u.contains(x)); let i = choose|i: int| 0 <= i < u.len() && u[i] == x; assert(s[i] == x); assert(s.contains(x)); assert(s.to_set().contains(x)); }
        numbered_in(m, u, a); assert(s.contains(s[s.len() - 1])); assert(s.to_set().contains(s.last()));
    }
    vstd::set_lib::lemma_len_subset(numbering(m, s).dom(), a);
}
pub proof fn below_len(s: Set<i32>, n: nat) requires forall|c: i32| #[trigger] s.contains(c) ==> 0 <= c < n, n < 0x7fff_ffff ensures s.len() <= n decreases n {
    if n == 0 { assert(s =~= Set::<i32>::empty()); } else { below_len(s.remove((n - 1) as i32), (n - 1) as nat); }
}
pub proof fn codes_few(c: SeqCoder, d: Seq<Seq<i32>>) requires c.wf(), decodable(c.backward_code_, d), c.forward_code_.dom().len() < 0x7fff_ffff ensures sym(d).len() <= c.forward_code_.dom().len(), d.len() <= many(d) + c.forward_code_.dom().len() {
    sym_has(d);
    assert forall|x: i32| #[trigger] sym(d).contains(x) implies 0 <= x < c.forward_code_.dom().len() by { let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == seq![x]; assert(d[j][0] == x); assert(c.backward_code_.dom().contains(d[j][0])); assert(c.forward_code_.dom().contains(c.backward_code_[x])); }
    below_len(sym(d), c.forward_code_.dom().len());
}
impl IntStreamVGram {
    pub open spec fn builder(&self, h: Heap) -> IntVGramBuilderImpl { h.m_IntVGramBuilderImpl[self.builder_] }
    pub open spec fn coder(&self, h: Heap) -> SeqCoder { h.m_SeqCoder[self.coder_] }
    pub open spec fn entries(&self, h: Heap) -> Seq<Seq<i32>> { h.m_IntDictImpl[self.dict_].seqs_ }
    pub open spec fn alpha(&self, h: Heap) -> Seq<Seq<i32>> { decoded(self.coder(h).backward_code_, self.entries(h)) }
    pub open spec fn shown(&self, h: Heap) -> u64 { self.builder(h).shown() }
    pub open spec fn sound(&self, h: Heap) -> bool {
        &&& h.m_IntVGramBuilderImpl.dom().contains(self.builder_) && self.builder(h).ready(h) && self.builder(h).bounded(h)
        &&& h.m_SeqCoder.dom().contains(self.coder_) && self.coder(h).wf() && self.coder(h).forward_code_.dom().len() <= room()
        &&& decodable(self.coder(h).backward_code_, entries_of(h, self.builder(h).current_)) && (self.builder(h).result_ != 0 ==> decodable(self.coder(h).backward_code_, entries_of(h, self.builder(h).result_)))
        &&& counts_ok(self.freqs_, self.total_freqs_)
        &&& self.dict_ != 0 ==> self.adopted(h)
    }
    pub open spec fn adopted(&self, h: Heap) -> bool { h.m_IntDictImpl.dom().contains(self.dict_) && h.m_IntDictImpl[self.dict_].wf() && decodable(self.coder(h).backward_code_, self.entries(h)) && closed(self.entries(h), Set::empty()) && short(self.entries(h)) && many(self.entries(h)) <= 10 * room() }
    // everything but the counts
    pub open spec fn structured(&self, h: Heap) -> bool { (IntStreamVGram { freqs_: Seq::empty(), total_freqs_: 0, ..*self }).sound(h) && self.dict_ != 0 }
    // a sequence it may accept
    pub open spec fn takes(&self, h: Heap, s: Seq<i32>) -> bool { s.len() <= cap() && numbering(self.coder(h).forward_code_, s).dom().len() <= room() && self.turns(h) < 0x7fff_fff0 }
    // while training, symbols stay within a
    pub open spec fn training(&self, h: Heap, t0: IntStreamVGram, h0: Heap, a: Set<i32>) -> bool {
        &&& self.builder_ == t0.builder_ && self.coder_ == t0.coder_ && self.size_ == t0.size_ && self.verbose_ == t0.verbose_
        &&& self.coder(h).forward_code_.dom().subset_of(a) && extends(t0.coder(h0).forward_code_, self.coder(h).forward_code_)
        &&& other_models(h0, h) && only_parts(h0, h, t0.coder_, t0.builder_)
    }
    pub open spec fn turns(&self, h: Heap) -> int { larger(self.builder(h).no_rate_increase_turns_ as int, 0) }
    // one list of identifiers per sequence; together their entries spell what is known of it
    pub open spec fn spells(&self, h: Heap, s: Seq<i32>, o: Seq<i32>) -> bool { ids_ok(self.entries(h), o) && flat(self.alpha(h), o) == keep(s, seen(self.coder(h))) }
    pub open spec fn spells_all(&self, h: Heap, seqs: Seq<Seq<i32>>, os: Seq<Seq<i32>>) -> bool { os.len() == seqs.len() && forall|k: int| 0 <= k < os.len() ==> self.spells(h, seqs[k], #[trigger] os[k]) }
    pub open spec fn segments(&self, h: Heap, seqs: Seq<Seq<i32>>, os: Seq<Seq<i32>>) -> bool { os.len() == seqs.len() && forall|k: int| 0 <= k < os.len() ==> ids_ok(self.entries(h), #[trigger] os[k]) && flat(self.alpha(h), os[k]) == seqs[k] }
    // the counts are the uses in some segmentation of all sequences
    pub open spec fn recounted(&self, h: Heap, seqs: Seq<Seq<i32>>) -> bool { exists|os: Seq<Seq<i32>>| #[trigger] self.segments(h, seqs, os) && counts_uses(self.freqs_, os) }
}
impl IntVGram {
    pub open spec fn sound(&self, h: Heap) -> bool { self.base.sound(h) && (self.fitted_ ==> self.base.dict_ != 0) }
}
pub open spec fn each_most(seqs: Seq<Seq<i32>>, n: int) -> bool { forall|k: int| 0 <= k < seqs.len() ==> (#[trigger] seqs[k]).len() < n }
// the data a model may be fitted to
pub open spec fn trainable(m: IntVGram, h: Heap, seqs: Seq<Seq<i32>>) -> bool {
    &&& symbols_in(m.base.coder(h).forward_code_.dom(), seqs).len() <= room() && total_len(seqs) < 0x7fff_ffff - 12 * room() && each_most(seqs, cap() + 1)
    &&& !m.fitted_ ==> m.iter_num_ >= 1 && seqs.len() < 0x7fff_ffff && m.base.turns(h) + m.iter_num_ * seqs.len() < 0x7fff_fff0
}
pub open spec fn minimal(b: IntVGramBuilderImpl, h: Heap) -> F64 { if b.result_ != 0 { stat_of(h, b.result_).min_probability_ } else { fneg(fofint(1)) } }
// the parts a model can be made of
pub open spec fn loadable(h: Heap, c: u64, f: Seq<i32>, d: Seq<Seq<i32>>) -> bool {
    &&& h.m_SeqCoder.dom().contains(c) && h.m_SeqCoder[c].wf() && h.m_SeqCoder[c].forward_code_.dom().len() <= room() && decodable(h.m_SeqCoder[c].backward_code_, d)
    &&& uniq(d) && closed(d, Set::empty()) && short(d) && d.len() <= room()
    &&& f.len() <= d.len() && (forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i] <= 0x4000_0000) && sum_i32(f) < 0x7fff_ffff
}
pub open spec fn loaded(m: IntStreamVGram, h: Heap, c: u64, f: Seq<i32>, d: Seq<Seq<i32>>, size: i32, p: F64) -> bool {
    &&& m.coder_ == c && m.size_ == size && m.min_probability_ == p && m.freqs_ == f && m.total_freqs_ == sum_i32(f)
    &&& m.dict_ != 0 && fresh_dict(h.m_IntDictImpl[m.dict_], d)
}
pub open spec fn counts_uses(f: Seq<i32>, os: Seq<Seq<i32>>) -> bool { forall|x: int| 0 <= x ==> #[trigger] fr(f, x) == uses_all(os, x) }
pub open spec fn uses_all(os: Seq<Seq<i32>>, x: int) -> int decreases os.len() { if os.len() == 0 { 0 } else { uses_all(os.drop_last(), x) + uses(os.last(), x) } }
pub open spec fn total_len<T>(s: Seq<Seq<T>>) -> int decreases s.len() { if s.len() == 0 { 0 } else { total_len(s.drop_last()) + s.last().len() } }
// the lengths of all uses
pub open spec fn volume(d: Seq<Seq<i32>>, f: Seq<i32>, n: int) -> int decreases n { if n <= 0 { 0 } else { volume(d, f, n - 1) + d[n - 1].len() * fr(f, n - 1) } }
// ---- heaps
// dictionary t learned symbols of s; new dictionaries may appear
pub open spec fn taught(h0: Heap, h1: Heap, t: u64, s: Seq<i32>) -> bool {
    &&& h0.m_IntDictImpl.dom().contains(t) && h1.m_IntDictImpl.dom().contains(t)
    &&& forall|k: u64| #[trigger] h0.m_IntDictImpl.dom().contains(k) ==> h1.m_IntDictImpl.dom().contains(k) && (k != t ==> h1.m_IntDictImpl[k] == h0.m_IntDictImpl[k])
    &&& h1.m_IntDictImpl[t].wf() && grown(h0.m_IntDictImpl[t].seqs_, h1.m_IntDictImpl[t].seqs_, s)
    &&& h1.m_StatDictImpl == h0.m_StatDictImpl
}
pub open spec fn only_grew(h0: Heap, h1: Heap, t: u64) -> bool {
    &&& forall|k: u64| #[trigger] h0.m_IntDictImpl.dom().contains(k) ==> h1.m_IntDictImpl.dom().contains(k) && (k != t ==> h1.m_IntDictImpl[k] == h0.m_IntDictImpl[k])
    &&& starts(h0.m_IntDictImpl[t].seqs_, h1.m_IntDictImpl[t].seqs_)
    &&& h1.m_StatDictImpl == h0.m_StatDictImpl && h1.m_SeqCoder == h0.m_SeqCoder && h1.m_IntVGramBuilderImpl == h0.m_IntVGramBuilderImpl
    &&& other_models(h0, h1)
}
pub open spec fn other_models(h0: Heap, h1: Heap) -> bool { h1.m_BaseTokenizer == h0.m_BaseTokenizer && h1.m_IntStreamVGram == h0.m_IntStreamVGram && h1.m_IntVGram == h0.m_IntVGram }
// coders and builders other than c and b stay
pub open spec fn only_parts(h0: Heap, h1: Heap, c: u64, b: u64) -> bool {
    &&& forall|k: u64| #[trigger] h0.m_SeqCoder.dom().contains(k) ==> h1.m_SeqCoder.dom().contains(k) && (k != c ==> h1.m_SeqCoder[k] == h0.m_SeqCoder[k])
    &&& forall|k: u64| #[trigger] h0.m_IntVGramBuilderImpl.dom().contains(k) ==> h1.m_IntVGramBuilderImpl.dom().contains(k) && (k != b ==> h1.m_IntVGramBuilderImpl[k] == h0.m_IntVGramBuilderImpl[k])
}
// old parts of models stay
pub open spec fn parts_stay(h0: Heap, h1: Heap) -> bool {
    &&& forall|k: u64| #[trigger] h0.m_SeqCoder.dom().contains(k) ==> h1.m_SeqCoder.dom().contains(k) && h1.m_SeqCoder[k] == h0.m_SeqCoder[k]
    &&& forall|k: u64| #[trigger] h0.m_IntVGramBuilderImpl.dom().contains(k) ==> h1.m_IntVGramBuilderImpl.dom().contains(k) && h1.m_IntVGramBuilderImpl[k] == h0.m_IntVGramBuilderImpl[k]
    &&& only_new(h0, h1)
}
// ---- decodability
pub proof fn grown_len(d: Seq<Seq<i32>>, e: Seq<Seq<i32>>, s: Seq<i32>) requires grown(d, e, s) ensures d.len() <= e.len() {}
pub proof fn grown_decodable(b: Map<i32, i32>, d: Seq<Seq<i32>>, e: Seq<Seq<i32>>, s: Seq<i32>) requires grown(d, e, s), decodable(b, d), known_codes(b, s) ensures decodable(b, e), starts(d, e), starts(decoded(b, d), decoded(b, e)) {
    assert forall|i: int, k: int| 0 <= i < e.len() && 0 <= k < e[i].len() implies b.dom().contains(#[trigger] e[i][k]) by {
        if i < d.len() { assert(e.subrange(0, d.len() as int)[i] == d[i]); assert(b.dom().contains(d[i][k])); }
        else { assert(added(e, s, i)); let p = choose|p: int| 0 <= p < s.len() && e[i] == seq![#[trigger] s[p]] && none_starts(e.subrange(0, i), None, s.subrange(p, s.len() as int)); assert(e[i][k] == s[p]); }
    }
    starts_decoded(b, d, e);
}
pub proof fn starts_decoded(b: Map<i32, i32>, d: Seq<Seq<i32>>, e: Seq<Seq<i32>>) requires starts(d, e) ensures starts(decoded(b, d), decoded(b, e)) {
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] decoded(b, e)[i] == decoded(b, d)[i] by { assert(e.subrange(0, d.len() as int)[i] == d[i]); }
    assert(decoded(b, e).subrange(0, d.len() as int) =~= decoded(b, d));
}
pub proof fn more_decodable(b: Map<i32, i32>, c: Map<i32, i32>, d: Seq<Seq<i32>>) requires extends(b, c), decodable(b, d) ensures decodable(c, d), decoded(c, d) == decoded(b, d) {
    assert forall|i: int, k: int| 0 <= i < d.len() && 0 <= k < d[i].len() implies c.dom().contains(#[trigger] d[i][k]) && c[d[i][k]] == b[d[i][k]] by { assert(b.dom().contains(d[i][k])); }
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] decoded(c, d)[i] == decoded(b, d)[i] by { assert(codes_of(c, d[i]) =~= codes_of(b, d[i])); }
    assert(decoded(c, d) =~= decoded(b, d));
}
pub proof fn made_decodable(b: Map<i32, i32>, d: Seq<Seq<i32>>, n: Seq<Seq<i32>>) requires made_of(d, n), decodable(b, d) ensures decodable(b, n) {
    assert forall|i: int, k: int| 0 <= i < n.len() && 0 <= k < n[i].len() implies b.dom().contains(#[trigger] n[i][k]) by {
        assert(has_symbol(d, n[i][k])); let (j, l) = choose|j: int, l: int| 0 <= j < d.len() && 0 <= l < d[j].len() && #[trigger] d[j][l] == n[i][k];
    }
}
pub proof fn same_decodable(b: Map<i32, i32>, d: Seq<Seq<i32>>, e: Seq<Seq<i32>>) requires same_entries(d, e), decodable(b, d) ensures decodable(b, e) {
    itself_made_of(d); made_same(d, d, e); made_decodable(b, d, e);
}
// segmentations and decoding
pub proof fn flat_decoded(b: Map<i32, i32>, d: Seq<Seq<i32>>, o: Seq<i32>) requires ids_ok(d, o) ensures flat(decoded(b, d), o) == codes_of(b, flat(d, o)), ids_ok(decoded(b, d), o) decreases o.len() {
    if o.len() > 0 {
        let t = o.drop_first(); assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < d.len() by { assert(t[i] == o[i + 1]); }
        flat_decoded(b, d, t);
        assert(codes_of(b, d[o[0] as int] + flat(d, t)) =~= codes_of(b, d[o[0] as int]) + codes_of(b, flat(d, t)));
    } else { assert(codes_of(b, Seq::<i32>::empty()) =~= Seq::<i32>::empty()); }
}
pub proof fn keep_len<T>(s: Seq<T>, p: spec_fn(T) -> bool) ensures keep(s, p).len() <= s.len() decreases s.len() { if s.len() > 0 { keep_len(s.drop_last(), p); } }
// a segmentation stays one when the dictionary learns and the coder learns
pub proof fn starts_same(d: Seq<Seq<i32>>, e: Seq<Seq<i32>>, o: Seq<i32>) requires starts(d, e), ids_ok(d, o) ensures ids_ok(e, o), flat(e, o) == flat(d, o) {
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] e[i] == d[i] by { assert(e.subrange(0, d.len() as int)[i] == d[i]); }
    flat_same(d, e, o);
}
pub proof fn starts_trans(d: Seq<Seq<i32>>, e: Seq<Seq<i32>>, f: Seq<Seq<i32>>) requires starts(d, e), starts(e, f) ensures starts(d, f) {
    assert(f.subrange(0, d.len() as int) =~= f.subrange(0, e.len() as int).subrange(0, d.len() as int));
}
pub proof fn starts_refl(d: Seq<Seq<i32>>) ensures starts(d, d) { assert(d.subrange(0, d.len() as int) =~= d); }
// ---- learning by a dictionary that the builder shares
pub proof fn learned_short(d: Seq<Seq<i32>>, e: Seq<Seq<i32>>, s: Seq<i32>) requires grown(d, e, s), closed(d, Set::empty()), short(d) ensures closed(e, Set::empty()), short(e) {
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] e[i] == d[i] by { assert(e.subrange(0, d.len() as int)[i] == d[i]); }
    assert forall|i: int, k: int| 0 <= i < e.len() && 0 <= k < e[i].len() implies spelled(e, Set::empty(), #[trigger] e[i][k]) by {
        if i < d.len() { assert(spelled(d, Set::empty(), d[i][k])); let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == seq![d[i][k]] && !Set::<i32>::empty().contains(j as i32); assert(e[j] == seq![e[i][k]]); }
        else { assert(added(e, s, i)); assert(e[i] =~= seq![e[i][k]]); }
    }
    assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).len() <= cap() by { if i < d.len() { assert(d[i].len() <= cap()); } else { assert(added(e, s, i)); } }
}
pub proof fn learned_usable(h0: Heap, h1: Heap, t: u64, s: Seq<i32>, id: u64)
    requires taught(h0, h1, t, s), usable(h0, id)
    ensures usable(h1, id), used_of(h1, id) == used_of(h0, id), grown(entries_of(h0, id), entries_of(h1, id), s), stat_of(h0, id).dict_ != t ==> entries_of(h1, id) == entries_of(h0, id)
{
    let st = stat_of(h0, id); let d = entries_of(h0, id); let e = entries_of(h1, id);
    if st.dict_ == t {
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] e[i] == d[i] by { assert(e.subrange(0, d.len() as int)[i] == d[i]); }
        learned_short(d, e, s);
        assert forall|k: i64| #[trigger] st.pairs_freqs_.dom().contains(k) implies e[hi(k)].len() + e[lo(k)].len() <= cap() by { key_of(k, st.symbol_freqs_.len() as int); }
    } else { grown_refl(d, s); }
}
pub proof fn taught_ready(b: IntVGramBuilderImpl, m: Map<i32, i32>, h0: Heap, h1: Heap, t: u64, s: Seq<i32>)
    requires taught(h0, h1, t, s), b.ready(h0), known_codes(m, s), decodable(m, entries_of(h0, b.current_)), b.result_ != 0 ==> decodable(m, entries_of(h0, b.result_))
    ensures b.ready(h1), decodable(m, entries_of(h1, b.current_)), b.result_ != 0 ==> decodable(m, entries_of(h1, b.result_)), starts(entries_of(h0, b.shown()), entries_of(h1, b.shown())), stat_of(h0, b.shown()).dict_ != t ==> entries_of(h1, b.shown()) == entries_of(h0, b.shown())
{
    learned_usable(h0, h1, t, s, b.current_); grown_decodable(m, entries_of(h0, b.current_), entries_of(h1, b.current_), s);
    if b.result_ != 0 { learned_usable(h0, h1, t, s, b.result_); grown_decodable(m, entries_of(h0, b.result_), entries_of(h1, b.result_), s); }
}
// ---- after the builder accepted the codes s
pub proof fn after_accept(b0: IntVGramBuilderImpl, b1: IntVGramBuilderImpl, m: Map<i32, i32>, h0: Heap, h1: Heap, s: Seq<i32>)
    requires b0.ready(h0), b1.ready(h1), known_codes(m, s), decodable(m, entries_of(h0, b0.current_)), b0.result_ != 0 ==> decodable(m, entries_of(h0, b0.result_)),
        b1.current_ == b0.current_ ==> b1 == b0,
        b1.current_ != b0.current_ ==> (b1.result_ == b0.result_ || b1.result_ == b1.current_) && made_of(entries_of(h1, b0.current_), entries_of(h1, b1.current_)),
        grown(entries_of(h0, b0.current_), entries_of(h1, b0.current_), s), stat_of(h1, b0.current_).dict_ == stat_of(h0, b0.current_).dict_, others_stay(h0, h1, b0.current_),
    ensures decodable(m, entries_of(h1, b1.current_)), b1.result_ != 0 ==> decodable(m, entries_of(h1, b1.result_)),
{
    let c = b0.current_;
    grown_decodable(m, entries_of(h0, c), entries_of(h1, c), s);
    if b1.current_ != c { made_decodable(m, entries_of(h1, c), entries_of(h1, b1.current_)); }
    if b1.result_ != 0 && b1.result_ != b1.current_ && b1.result_ != c { assert(stat_of(h1, b0.result_) == stat_of(h0, b0.result_)); assert(entries_of(h1, b0.result_) == entries_of(h0, b0.result_)); }
}
pub proof fn after_bounded(b0: IntVGramBuilderImpl, b1: IntVGramBuilderImpl, c: SeqCoder, h0: Heap, h1: Heap, s: Seq<i32>)
    requires b0.ready(h0), b1.ready(h1), b0.bounded(h0), c.wf(), c.forward_code_.dom().len() <= room(), decodable(c.backward_code_, entries_of(h1, b0.current_)), usable(h1, b0.current_),
        b1.current_ == b0.current_ ==> b1 == b0,
        b1.current_ != b0.current_ ==> (if b0.populate_ { grew(b0, h0, b1, h1) } else { shrank(b0, h0, b1, h1) }) && revised(b0, b1, entries_of(h1, b1.current_).len() as int),
        grown(entries_of(h0, b0.current_), entries_of(h1, b0.current_), s), stat_of(h1, b0.current_).dict_ == stat_of(h0, b0.current_).dict_, others_stay(h0, h1, b0.current_),
    ensures b1.bounded(h1), many(entries_of(h1, b0.current_)) == many(entries_of(h0, b0.current_)),
{
    let d = entries_of(h0, b0.current_); let e = entries_of(h1, b0.current_);
    dict_facts(dict_of(h1, stat_of(h1, b0.current_))); many_grown(d, e, s, e.len() as int); codes_few(c, e);
    if b1.current_ != b0.current_ && !b0.populate_ { let n = entries_of(h1, b1.current_); assert(singles_of(n, e)); sym_le(n, e); }
    if b1.result_ != 0 && b1.result_ != b1.current_ && b1.result_ != b0.current_ { assert(stat_of(h1, b0.result_) == stat_of(h0, b0.result_)); assert(entries_of(h1, b0.result_) == entries_of(h0, b0.result_)); }
}
pub proof fn taught_bounded(b: IntVGramBuilderImpl, h0: Heap, h1: Heap, t: u64, s: Seq<i32>)
    requires taught(h0, h1, t, s), b.ready(h0), b.bounded(h0) ensures b.bounded(h1), many(h1.m_IntDictImpl[t].seqs_) == many(h0.m_IntDictImpl[t].seqs_)
{
    let d = h0.m_IntDictImpl[t].seqs_; let e = h1.m_IntDictImpl[t].seqs_; dict_facts(h1.m_IntDictImpl[t]); many_grown(d, e, s, e.len() as int);
}
// heaps with the same dictionaries and statistics
pub open spec fn same_parts(h: Heap, k: Heap) -> bool { h.m_IntDictImpl == k.m_IntDictImpl && h.m_StatDictImpl == k.m_StatDictImpl }
pub proof fn parts_usable(h: Heap, k: Heap, b: IntVGramBuilderImpl) requires same_parts(h, k) ensures forall|i: u64| #[trigger] usable(k, i) == usable(h, i), forall|i: u64| #[trigger] entries_of(k, i) == entries_of(h, i), forall|i: u64| #[trigger] stat_of(k, i) == stat_of(h, i), forall|i: u64| #[trigger] used_of(k, i) == used_of(h, i), b.ready(k) == b.ready(h), b.bounded(k) == b.bounded(h) {
    assert forall|i: u64| #[trigger] usable(k, i) == usable(h, i) by { assert(dict_of(k, k.m_StatDictImpl[i]) == dict_of(h, h.m_StatDictImpl[i])); }
}
pub proof fn usable_has(h: Heap, id: u64) requires usable(h, id) ensures h.m_IntDictImpl.dom().contains(stat_of(h, id).dict_), h.m_IntDictImpl[stat_of(h, id).dict_].wf() {}
// the same, for heaps without a name
pub proof fn parts_any(h: Heap) ensures forall|k: Heap, i: u64| #[trigger] usable(k, i) && same_parts(k, h) ==> usable(h, i), forall|g: Heap, k: Heap, i: u64| #[trigger] others_stay(g, k, i) && same_parts(k, h) ==> others_stay(g, h, i) {
    assert forall|k: Heap, i: u64| #[trigger] usable(k, i) && same_parts(k, h) implies usable(h, i) by { assert(dict_of(k, k.m_StatDictImpl[i]) == dict_of(h, h.m_StatDictImpl[i])); }
}
// the builder accepted s
pub open spec fn stepped(b0: IntVGramBuilderImpl, h0: Heap, b1: IntVGramBuilderImpl, h1: Heap, s: Seq<i32>) -> bool {
    &&& b1.ready(h1) && usable(h1, b0.current_)
    &&& b1.current_ == b0.current_ ==> b1 == b0
    &&& b1.current_ != b0.current_ ==> (if b0.populate_ { grew(b0, h0, b1, h1) } else { shrank(b0, h0, b1, h1) }) && revised(b0, b1, entries_of(h1, b1.current_).len() as int) && made_of(entries_of(h1, b0.current_), entries_of(h1, b1.current_))
    &&& grown(entries_of(h0, b0.current_), entries_of(h1, b0.current_), s) && stat_of(h1, b0.current_).dict_ == stat_of(h0, b0.current_).dict_ && others_stay(h0, h1, b0.current_)
}
pub open spec fn coded_more(c0: SeqCoder, c1: SeqCoder, seq: Seq<i32>) -> bool {
    c1.wf() && c1.forward_code_ == numbering(c0.forward_code_, seq) && extends(c0.forward_code_, c1.forward_code_) && extends(c0.backward_code_, c1.backward_code_) && forall|k: int| 0 <= k < seq.len() ==> c1.forward_code_.dom().contains(#[trigger] seq[k])
}
// h0 - the builder saw k0, then k1 - h1
pub proof fn accept_done(m: IntStreamVGram, h0: Heap, k0: Heap, k1: Heap, h1: Heap, b1: IntVGramBuilderImpl, c1: SeqCoder, seq: Seq<i32>)
    requires m.sound(h0), m.takes(h0, seq), same_parts(h0, k0), same_parts(k1, h1), coded_more(m.coder(h0), c1, seq), stepped(m.builder(h0), k0, b1, k1, codes_of(c1.forward_code_, seq)),
        h1.m_IntVGramBuilderImpl == h0.m_IntVGramBuilderImpl.insert(m.builder_, b1), h1.m_SeqCoder == h0.m_SeqCoder.insert(m.coder_, c1),
    ensures m.sound(h1), m.turns(h1) <= m.turns(h0) + 1, m.dict_ != 0 ==> starts(m.entries(h0), m.entries(h1)) && starts(m.alpha(h0), m.alpha(h1)),
{
    hide(grown); hide(made_of); hide(usable); hide(closed); hide(decodable); hide(IntDictImpl::wf); usable_has(k1, m.builder(h0).current_);
    let b0 = m.builder(h0); let c0 = m.coder(h0); let b = c1.backward_code_; let s = codes_of(c1.forward_code_, seq);
    parts_usable(h0, k0, b0); parts_usable(k1, h1, b1);
    assert(m.builder(h1) == b1 && m.coder(h1) == c1);
    assert(known_codes(b, s)) by { assert forall|k: int| 0 <= k < s.len() implies b.dom().contains(#[trigger] s[k]) by { assert(c1.forward_code_.dom().contains(seq[k])); } }
    more_decodable(c0.backward_code_, b, entries_of(h0, b0.current_));
    if b0.result_ != 0 { more_decodable(c0.backward_code_, b, entries_of(h0, b0.result_)); }
    grown_decodable(b, entries_of(k0, b0.current_), entries_of(k1, b0.current_), s);
    after_accept(b0, b1, b, k0, k1, s); after_bounded(b0, b1, c1, k0, k1, s);
    if m.dict_ != 0 {
        more_decodable(c0.backward_code_, b, m.entries(h0));
        assert(h0.m_IntDictImpl.dom().contains(m.dict_));
        if m.dict_ == stat_of(h0, b0.current_).dict_ { grown_decodable(b, m.entries(h0), m.entries(h1), s); learned_short(m.entries(h0), m.entries(h1), s); }
        else { starts_refl(m.entries(h0)); starts_refl(m.alpha(h0)); }
    }
}
// ---- counts
pub proof fn per_entry_sum(f: Seq<i32>, n: int)
    requires f.len() <= n, forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i]
    ensures sum_i32(per_entry(f, n)) == sum_i32(f), forall|i: int| 0 <= i < n ==> 0 <= #[trigger] per_entry(f, n)[i], per_entry(f, n).len() == n
{ assert(padded(f, per_entry(f, n))) by { assert(per_entry(f, n).subrange(0, f.len() as int) =~= f); } pad_sum(f, per_entry(f, n)); }
pub proof fn shown_counts(b: IntVGramBuilderImpl, h: Heap) requires b.ready(h)
    ensures ({ let f = per_entry(stat_of(h, b.shown()).symbol_freqs_, entries_of(h, b.shown()).len() as int); freqs_ok(f) && counts_ok(f, sum_i32(f) as i32) && 0 <= sum_i32(f) <= full_power() + cap() && f.len() == entries_of(h, b.shown()).len() })
{
    let s = stat_of(h, b.shown()).symbol_freqs_; let n = entries_of(h, b.shown()).len() as int; per_entry_sum(s, n); let f = per_entry(s, n); sum_nonneg(f);
    assert forall|i: int| 0 <= i < f.len() implies 0 <= #[trigger] f[i] < 0x7fff_ffff by { each_le_sum(f, i); }
}
pub proof fn int_total(t: i32) requires 0 <= t ensures fin_nonneg(fofint(t as int)) { ax_upto_int(t as int, 1); ax_upto_fin(fofint(t as int), 1); }
pub proof fn counts_usable(f: Seq<i32>, t: i32) requires counts_ok(f, t) ensures freqs_ok(f), 0 <= t, fin_nonneg(fofint(t as int)) {
    sum_nonneg(f); int_total(t);
    assert forall|i: int| 0 <= i < f.len() implies 0 <= #[trigger] f[i] < 0x7fff_ffff by { each_le_sum(f, i); }
}
pub proof fn total_step<T>(s: Seq<Seq<T>>, k: int) requires 0 <= k < s.len() ensures total_len(s.subrange(0, k + 1)) == total_len(s.subrange(0, k)) + s[k].len() { assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k)); }
pub proof fn total_most<T>(s: Seq<Seq<T>>, k: int) requires 0 <= k <= s.len() ensures 0 <= total_len(s.subrange(0, k)) <= total_len(s) decreases s.len() - k {
    if k < s.len() { total_most(s, k + 1); total_step(s, k); } else { assert(s.subrange(0, k) =~= s); }
    total_pos(s.subrange(0, k));
}
pub proof fn total_pos<T>(s: Seq<Seq<T>>) ensures 0 <= total_len(s) decreases s.len() { if s.len() > 0 { total_pos(s.drop_last()); } }
pub proof fn total_one<T>(s: Seq<Seq<T>>, k: int) requires 0 <= k < s.len() ensures s[k].len() <= total_len(s) { total_step(s, k); total_most(s, k + 1); total_most(s, k); }
pub proof fn uses_all_push(os: Seq<Seq<i32>>, o: Seq<i32>, x: int) ensures uses_all(os.push(o), x) == uses_all(os, x) + uses(o, x) { assert(os.push(o).drop_last() =~= os); }
// sum over the entries of length times uses
pub open spec fn weight(d: Seq<Seq<i32>>, o: Seq<i32>, n: int) -> int decreases n { if n <= 0 { 0 } else { weight(d, o, n - 1) + d[n - 1].len() * uses(o, n - 1) } }
pub open spec fn weight_all(d: Seq<Seq<i32>>, os: Seq<Seq<i32>>, n: int) -> int decreases n { if n <= 0 { 0 } else { weight_all(d, os, n - 1) + d[n - 1].len() * uses_all(os, n - 1) } }
pub proof fn weight_push(d: Seq<Seq<i32>>, o: Seq<i32>, x: i32, n: int) requires 0 <= x, 0 <= n <= d.len() ensures weight(d, o.push(x), n) == weight(d, o, n) + if x < n { d[x as int].len() as int } else { 0 } decreases n {
    if n > 0 {
        weight_push(d, o, x, n - 1); assert(o.push(x).drop_last() =~= o); let l = d[n - 1].len() as int; let u = uses(o, n - 1);
        assert(l * (u + 1) == l * u + l) by (nonlinear_arith);
    }
}
pub proof fn weight_none(d: Seq<Seq<i32>>, n: int) ensures weight(d, Seq::<i32>::empty(), n) == 0, weight_all(d, Seq::<Seq<i32>>::empty(), n) == 0 decreases n { if n > 0 { weight_none(d, n - 1); let l = d[n - 1].len() as int; assert(l * 0 == 0) by (nonlinear_arith); } }
pub proof fn weight_flat(d: Seq<Seq<i32>>, o: Seq<i32>) requires ids_ok(d, o) ensures weight(d, o, d.len() as int) == flat(d, o).len() decreases o.len() {
    if o.len() > 0 {
        let u = o.drop_last(); let x = o.last(); assert(u.push(x) =~= o);
        assert forall|i: int| 0 <= i < u.len() implies 0 <= #[trigger] u[i] < d.len() by { assert(u[i] == o[i]); }
        assert(0 <= o[o.len() - 1] < d.len());
        weight_flat(d, u); weight_push(d, u, x, d.len() as int); flat_push(d, u, x);
    } else { weight_none(d, d.len() as int); assert(o =~= Seq::<i32>::empty()); }
}
pub proof fn weight_all_push(d: Seq<Seq<i32>>, os: Seq<Seq<i32>>, o: Seq<i32>, n: int) ensures weight_all(d, os.push(o), n) == weight_all(d, os, n) + weight(d, o, n) decreases n {
    if n > 0 {
        weight_all_push(d, os, o, n - 1); uses_all_push(os, o, n - 1); let l = d[n - 1].len() as int; let a = uses_all(os, n - 1); let b = uses(o, n - 1);
        assert(l * (a + b) == l * a + l * b) by (nonlinear_arith);
    }
}
pub proof fn weights(d: Seq<Seq<i32>>, seqs: Seq<Seq<i32>>, os: Seq<Seq<i32>>)
    requires os.len() == seqs.len(), forall|k: int| 0 <= k < os.len() ==> ids_ok(d, #[trigger] os[k]) && flat(d, os[k]) == seqs[k]
    ensures weight_all(d, os, d.len() as int) == total_len(seqs) decreases os.len()
{
    if os.len() > 0 {
        let u = os.drop_last(); let t = seqs.drop_last(); assert(u.push(os.last()) =~= os);
        assert forall|k: int| 0 <= k < u.len() implies ids_ok(d, #[trigger] u[k]) && flat(d, u[k]) == t[k] by { assert(u[k] == os[k]); }
        assert(ids_ok(d, os[os.len() - 1]) && flat(d, os[os.len() - 1]) == seqs[os.len() - 1]);
        weights(d, t, u); weight_all_push(d, u, os.last(), d.len() as int); weight_flat(d, os.last());
    } else { weight_none(d, d.len() as int); assert(os =~= Seq::<Seq<i32>>::empty()); }
}
pub proof fn volume_weight(d: Seq<Seq<i32>>, f: Seq<i32>, os: Seq<Seq<i32>>, n: int) requires counts_uses(f, os) ensures volume(d, f, n) == weight_all(d, os, n) decreases n { if n > 0 { volume_weight(d, f, os, n - 1); assert(fr(f, n - 1) == uses_all(os, n - 1)); } }
pub proof fn uses_none(x: int) ensures uses_all(Seq::<Seq<i32>>::empty(), x) == 0 {}
// one more sequence was counted
pub proof fn count_more(f0: Seq<i32>, f1: Seq<i32>, os: Seq<Seq<i32>>, o: Seq<i32>) requires counts_uses(f0, os), counted(f0, f1, o) ensures counts_uses(f1, os.push(o)) {
    assert forall|x: int| 0 <= x implies #[trigger] fr(f1, x) == uses_all(os.push(o), x) by { uses_all_push(os, o, x); assert(fr(f1, x) == fr(f0, x) + uses(o, x)); assert(fr(f0, x) == uses_all(os, x)); }
}
// ---- text
pub open spec fn spaced_ids(o: Seq<i32>) -> Seq<i8> decreases o.len() { if o.len() == 0 { Seq::empty() } else { spaced_ids(o.drop_last()) + (seq![32i8] + dec(o.last() as int)) } }
pub open spec fn ids_text(o: Seq<i32>) -> Seq<i8> { if o.len() == 0 { seq![45i8, 49i8] } else { spaced_ids(o) } }
pub open spec fn texts_of(os: Seq<Seq<i32>>, r: Seq<Seq<i8>>) -> bool { r.len() == os.len() && forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] == ids_text(os[k]) }
// words one after the other, a space before every word but those at the very beginning
pub open spec fn spaced(w: Seq<Seq<i8>>) -> Seq<i8> decreases w.len() { if w.len() == 0 { Seq::empty() } else { (if spaced(w.drop_last()).len() > 0 { spaced(w.drop_last()).push(32i8) } else { spaced(w.drop_last()) }) + w.last() } }
pub open spec fn apart(w: Seq<Seq<i8>>) -> Seq<i8> decreases w.len() { if w.len() == 0 { Seq::empty() } else if w.len() == 1 { w[0] } else { apart(w.drop_last()).push(32i8) + w.last() } }
pub open spec fn full_words(w: Seq<Seq<i8>>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).len() > 0 }
pub proof fn spaced_apart(w: Seq<Seq<i8>>) requires full_words(w) ensures spaced(w) == apart(w), w.len() > 0 ==> spaced(w).len() > 0 decreases w.len() {
    if w.len() > 0 {
        let u = w.drop_last(); assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).len() > 0 by { assert(u[i] == w[i]); }
        spaced_apart(u); assert(w[w.len() - 1].len() > 0);
        if w.len() == 1 { assert(spaced(w) =~= w[0]); }
    }
}
// the spelled entries of a list of identifiers
pub open spec fn words(b: Map<i32, Seq<i8>>, d: Seq<Seq<i32>>, o: Seq<i32>) -> Seq<Seq<i8>> { Seq::new(o.len(), |j: int| spell(b, d[o[j] as int])) }
pub proof fn spell_cat(b: Map<i32, Seq<i8>>, x: Seq<i32>, y: Seq<i32>) ensures spell(b, x + y) == spell(b, x) + spell(b, y) decreases y.len() {
    if y.len() > 0 {
        spell_cat(b, x, y.drop_last()); assert((x + y).drop_last() =~= x + y.drop_last()); assert((x + y).last() == y.last());
        assert(spell(b, x + y) =~= spell(b, x) + spell(b, y));
    } else { assert(x + y =~= x); assert(spell(b, x) + Seq::<i8>::empty() =~= spell(b, x)); }
}
pub proof fn words_step(b: Map<i32, Seq<i8>>, d: Seq<Seq<i32>>, o: Seq<i32>, k: int) requires 0 <= k < o.len() ensures words(b, d, o.subrange(0, k + 1)) == words(b, d, o.subrange(0, k)).push(spell(b, d[o[k] as int])) { assert(words(b, d, o.subrange(0, k + 1)) =~= words(b, d, o.subrange(0, k)).push(spell(b, d[o[k] as int]))); }
pub proof fn words_join(b: Map<i32, Seq<i8>>, d: Seq<Seq<i32>>, o: Seq<i32>) ensures join(words(b, d, o)) == spell(b, flat(d, o)) decreases o.len() {
    let w = words(b, d, o);
    if o.len() > 0 {
        let u = o.drop_last(); let x = o.last(); assert(u.push(x) =~= o);
        words_join(b, d, u); flat_push(d, u, x); spell_cat(b, flat(d, u), d[x as int]); assert(w.drop_last() =~= words(b, d, u));
    } else { assert(w.len() == 0); }
}
pub open spec fn seen_token(f: Map<Seq<i8>, i32>, c: SeqCoder) -> spec_fn(Seq<i8>) -> bool { |t: Seq<i8>| c.forward_code_.dom().contains(f[t]) }
// the tokens of a text that the model has seen
pub open spec fn seen_tokens(f: Map<Seq<i8>, i32>, c: SeqCoder, t: Seq<Seq<i8>>) -> Seq<Seq<i8>> { keep(t, seen_token(f, c)) }
pub proof fn spell_seen(f: Map<Seq<i8>, i32>, b: Map<i32, Seq<i8>>, c: SeqCoder, t: Seq<Seq<i8>>) requires inverse(f, b), known(f, t) ensures spell(b, keep(ids_of(f, t), seen(c))) == join(seen_tokens(f, c, t)) decreases t.len() {
    if t.len() > 0 {
        let u = t.drop_last(); assert forall|i: int| 0 <= i < u.len() implies f.dom().contains(#[trigger] u[i]) by { assert(u[i] == t[i]); }
        spell_seen(f, b, c, u); assert(ids_of(f, t).drop_last() =~= ids_of(f, u)); assert(f.dom().contains(t[t.len() - 1]));
        let p = seen(c); let q = seen_token(f, c); let k = keep(ids_of(f, u), p);
        if q(t.last()) { assert(k.push(f[t.last()]).drop_last() =~= k); assert(keep(u, q).push(t.last()).drop_last() =~= keep(u, q)); }
    }
}
pub open spec fn tokens_in(texts: Seq<Seq<i8>>) -> int decreases texts.len() { if texts.len() == 0 { 0 } else { tokens_in(texts.drop_last()) + tokens_of(texts.last()).len() } }
pub proof fn tokens_total(f: Map<Seq<i8>, i32>, texts: Seq<Seq<i8>>, r: Seq<Seq<i32>>) requires r.len() == texts.len(), coded(f, texts, r, texts.len() as int) ensures total_len(r) == tokens_in(texts), forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).len() == tokens_of(texts[k]).len() decreases texts.len() {
    if texts.len() > 0 {
        let u = texts.drop_last(); let v = r.drop_last();
        assert forall|k: int| 0 <= k < u.len() implies known(f, tokens_of(#[trigger] u[k])) && v[k] == ids_of(f, tokens_of(u[k])) by { assert(u[k] == texts[k]); }
        tokens_total(f, u, v); assert(known(f, tokens_of(texts[texts.len() - 1])));
        assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).len() == tokens_of(texts[k]).len() by { assert(known(f, tokens_of(texts[k]))); }
    }
}
// a model of texts
pub open spec fn text_spelled(m: IntStreamVGram, h: Heap, t: BaseTokenizer, text: Seq<i8>, w: Seq<Seq<i8>>) -> bool {
    &&& join(w) == join(seen_tokens(t.forward_coder_, m.coder(h), tokens_of(text)))
    &&& forall|j: int| 0 <= j < w.len() ==> spelled_entry(m, h, t, #[trigger] w[j])
}
pub open spec fn spelled_entry(m: IntStreamVGram, h: Heap, t: BaseTokenizer, w: Seq<i8>) -> bool { exists|i: int| 0 <= i < m.alpha(h).len() && w == spell(t.backward_coder_, #[trigger] m.alpha(h)[i]) }
pub proof fn text_done(m: IntStreamVGram, h: Heap, t: BaseTokenizer, text: Seq<i8>, o: Seq<i32>)
    requires t.wf(), known(t.forward_coder_, tokens_of(text)), m.spells(h, ids_of(t.forward_coder_, tokens_of(text)), o)
    ensures text_spelled(m, h, t, text, words(t.backward_coder_, m.alpha(h), o))
{
    words_join(t.backward_coder_, m.alpha(h), o); spell_seen(t.forward_coder_, t.backward_coder_, m.coder(h), tokens_of(text));
    let w = words(t.backward_coder_, m.alpha(h), o);
    assert forall|j: int| 0 <= j < w.len() implies spelled_entry(m, h, t, #[trigger] w[j]) by { assert(0 <= o[j] < m.entries(h).len()); assert(w[j] == spell(t.backward_coder_, m.alpha(h)[o[j] as int])); }
}
impl StringStreamVGram {
    pub open spec fn model(&self, h: Heap) -> IntStreamVGram { h.m_IntStreamVGram[self.stream_builder_] }
    pub open spec fn tokenizer(&self, h: Heap) -> BaseTokenizer { h.m_BaseTokenizer[self.tokenizer_] }
    pub open spec fn sound(&self, h: Heap) -> bool { h.m_IntStreamVGram.dom().contains(self.stream_builder_) && self.model(h).sound(h) && h.m_BaseTokenizer.dom().contains(self.tokenizer_) && self.tokenizer(h).wf() }
}
impl StringVGram {
    pub open spec fn model(&self, h: Heap) -> IntVGram { h.m_IntVGram[self.int_builder_] }
    pub open spec fn tokenizer(&self, h: Heap) -> BaseTokenizer { h.m_BaseTokenizer[self.tokenizer_] }
    pub open spec fn sound(&self, h: Heap) -> bool { h.m_IntVGram.dom().contains(self.int_builder_) && self.model(h).sound(h) && h.m_BaseTokenizer.dom().contains(self.tokenizer_) && self.tokenizer(h).wf() }
}

pub proof fn load_done(m: IntStreamVGram, h: Heap, f: Seq<i32>, d: Seq<Seq<i32>>)
    requires decodable(m.coder(h).backward_code_, d), same_entries(d, m.entries(h)), same_entries(m.entries(h), entries_of(h, m.builder(h).current_)), d.len() <= room()
    ensures decodable(m.coder(h).backward_code_, m.entries(h)), decodable(m.coder(h).backward_code_, entries_of(h, m.builder(h).current_)), many(m.entries(h)) <= room(), many(entries_of(h, m.builder(h).current_)) <= room(),
{
    same_decodable(m.coder(h).backward_code_, d, m.entries(h)); same_decodable(m.coder(h).backward_code_, m.entries(h), entries_of(h, m.builder(h).current_));
}
// recounting
pub open spec fn counting(f: Seq<i32>, os: Seq<Seq<i32>>, n: int) -> bool { counts_uses(f, os) && (forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i]) && forall|i: int| n <= i < f.len() ==> #[trigger] f[i] == 0 }
pub proof fn zeros(f: Seq<i32>) requires forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] == 0 ensures counts_uses(f, Seq::empty()), sum_i32(f) == 0 {
    assert(padded(Seq::<i32>::empty(), f)); pad_sum(Seq::<i32>::empty(), f);
}
pub proof fn recut(f1: Seq<i32>, f2: Seq<i32>, n: int, os: Seq<Seq<i32>>)
    requires counting(f1, os, n), 0 <= n <= f2.len(), forall|i: int| 0 <= i < f2.len() ==> #[trigger] f2[i] == if i < f1.len() { f1[i] } else { 0i32 }
    ensures counting(f2, os, n), sum_i32(f2) == sum_i32(f1)
{
    if f1.len() <= f2.len() { assert(f2.subrange(0, f1.len() as int) =~= f1); assert(padded(f1, f2)); pad_sum(f1, f2); } else { assert(f1.subrange(0, f2.len() as int) =~= f2); assert(padded(f2, f1)); pad_sum(f2, f1); }
    assert forall|x: int| #[trigger] fr(f2, x) == fr(f1, x) by { if 0 <= x < f2.len() { assert(f2[x] == if x < f1.len() { f1[x] } else { 0i32 }); } }
    assert forall|i: int| 0 <= i < f2.len() implies 0 <= #[trigger] f2[i] && (n <= i ==> f2[i] == 0) by { if i < f1.len() { assert(f2[i] == f1[i]); } }
    assert forall|x: int| 0 <= x implies #[trigger] fr(f2, x) == uses_all(os, x) by { assert(fr(f2, x) == fr(f1, x)); }
}
pub proof fn recount_step(m: IntStreamVGram, h1: Heap, h2: Heap, seqs: Seq<Seq<i32>>, k: int, os: Seq<Seq<i32>>, o: Seq<i32>, q: Seq<i32>)
    requires 0 <= k < seqs.len(), m.structured(h1), m.segments(h1, seqs.subrange(0, k), os), m.coder(h2).wf(), m.coder(h2).forward_code_.dom().len() <= room(),
        extends(m.coder(h1).backward_code_, m.coder(h2).backward_code_), h2.m_IntVGramBuilderImpl == h1.m_IntVGramBuilderImpl, h2.m_SeqCoder.dom().contains(m.coder_),
        taught(h1, h2, m.dict_, q), codes_of(m.coder(h2).backward_code_, q) == seqs[k], known_codes(m.coder(h2).backward_code_, q), ids_ok(m.entries(h2), o), flat(m.entries(h2), o) == q,
    ensures m.structured(h2), m.segments(h2, seqs.subrange(0, k + 1), os.push(o)), m.turns(h2) == m.turns(h1), starts(m.entries(h1), m.entries(h2))
{
    let b = m.builder(h1); let c1 = m.coder(h1).backward_code_; let c2 = m.coder(h2).backward_code_; let d1 = m.entries(h1); let d2 = m.entries(h2);
    more_decodable(c1, c2, entries_of(h1, b.current_)); if b.result_ != 0 { more_decodable(c1, c2, entries_of(h1, b.result_)); } more_decodable(c1, c2, d1);
    taught_ready(b, c2, h1, h2, m.dict_, q); taught_bounded(b, h1, h2, m.dict_, q); grown_decodable(c2, d1, d2, q); learned_short(d1, d2, q);
    let t = seqs.subrange(0, k + 1); let os2 = os.push(o);
    flat_decoded(c2, d2, o);
    assert forall|j: int| 0 <= j < os2.len() implies ids_ok(d2, #[trigger] os2[j]) && flat(m.alpha(h2), os2[j]) == t[j] by {
        if j < k { assert(os2[j] == os[j]); assert(t[j] == seqs.subrange(0, k)[j]); assert(ids_ok(d1, os[j])); starts_same(d1, d2, os[j]); starts_decoded(c2, d1, d2); assert(ids_ok(m.alpha(h1), os[j])); starts_same(m.alpha(h1), m.alpha(h2), os[j]); }
    }
}
pub proof fn symbols_again(f: Set<i32>, g: Set<i32>, seqs: Seq<Seq<i32>>) requires g.subset_of(symbols_in(f, seqs)) ensures symbols_in(g, seqs).len() <= symbols_in(f, seqs).len() {
    symbols_in_sub(g, symbols_in(f, seqs), seqs, f, seqs); vstd::set_lib::lemma_len_subset(symbols_in(g, seqs), symbols_in(f, seqs));
}
pub proof fn symbols_in_sub(g: Set<i32>, a: Set<i32>, seqs: Seq<Seq<i32>>, f: Set<i32>, all: Seq<Seq<i32>>)
    requires g.subset_of(a), a == symbols_in(f, all), seqs.len() <= all.len(), forall|k: int| 0 <= k < seqs.len() ==> seqs[k] == #[trigger] all[k]
    ensures symbols_in(g, seqs).subset_of(a) decreases seqs.len()
{
    if seqs.len() > 0 { symbols_in_sub(g, a, seqs.drop_last(), f, all); symbols_each(f, all); assert(all[seqs.len() - 1].to_set().subset_of(a)); }
}
// any of the sequences may be accepted
pub proof fn any_takes(m: IntStreamVGram, h: Heap, f: Set<i32>, seqs: Seq<Seq<i32>>)
    requires m.coder(h).forward_code_.dom().subset_of(symbols_in(f, seqs)), symbols_in(f, seqs).len() <= room(), each_most(seqs, cap() + 1), m.turns(h) < 0x7fff_fff0
    ensures forall|j: int| 0 <= j < seqs.len() ==> m.takes(h, #[trigger] seqs[j]) && numbering(m.coder(h).forward_code_, seqs[j]).dom().subset_of(symbols_in(f, seqs))
{
    symbols_each(f, seqs);
    assert forall|j: int| 0 <= j < seqs.len() implies m.takes(h, #[trigger] seqs[j]) && numbering(m.coder(h).forward_code_, seqs[j]).dom().subset_of(symbols_in(f, seqs)) by { numbered_in(m.coder(h).forward_code_, seqs[j], symbols_in(f, seqs)); }
}
// transforming
pub proof fn spells_step(m: IntStreamVGram, h1: Heap, h2: Heap, seqs: Seq<Seq<i32>>, k: int, r1: Seq<Seq<i32>>, r2: Seq<Seq<i32>>)
    requires 0 <= k < seqs.len(), m.spells_all(h1, seqs.subrange(0, k), r1), r2.len() == k + 1, r2.drop_last() == r1, m.spells(h2, seqs[k], r2.last()), m.coder(h2) == m.coder(h1), starts(m.entries(h1), m.entries(h2)), starts(m.alpha(h1), m.alpha(h2)),
    ensures m.spells_all(h2, seqs.subrange(0, k + 1), r2)
{
    let t = seqs.subrange(0, k + 1);
    assert forall|j: int| 0 <= j < r2.len() implies m.spells(h2, t[j], #[trigger] r2[j]) by {
        if j < k { assert(r2.drop_last()[j] == r2[j]); assert(m.spells(h1, seqs.subrange(0, k)[j], r1[j])); starts_same(m.entries(h1), m.entries(h2), r1[j]); assert(ids_ok(m.alpha(h1), r1[j])); starts_same(m.alpha(h1), m.alpha(h2), r1[j]); }
    }
}
// v-grams of a text, separated by spaces
pub open spec fn text_written(m: IntStreamVGram, h: Heap, t: BaseTokenizer, text: Seq<i8>, r: Seq<i8>) -> bool { exists|w: Seq<Seq<i8>>| #[trigger] text_spelled(m, h, t, text, w) && r == spaced(w) && (full_words(w) ==> r == apart(w)) }
pub proof fn write_done(m: IntStreamVGram, h: Heap, t: BaseTokenizer, text: Seq<i8>, o: Seq<i32>) requires text_spelled(m, h, t, text, words(t.backward_coder_, m.alpha(h), o)) ensures text_written(m, h, t, text, spaced(words(t.backward_coder_, m.alpha(h), o))) {
    let w = words(t.backward_coder_, m.alpha(h), o); if full_words(w) { spaced_apart(w); } assert(text_spelled(m, h, t, text, w));
}
pub proof fn spaced_step(b: Map<i32, Seq<i8>>, d: Seq<Seq<i32>>, o: Seq<i32>, k: int) requires 0 <= k < o.len()
    ensures ({ let u = spaced(words(b, d, o.subrange(0, k))); spaced(words(b, d, o.subrange(0, k + 1))) == (if u.len() > 0 { u.push(32i8) } else { u }) + spell(b, d[o[k] as int]) && u + seq![32i8] == u.push(32i8) })
{ words_step(b, d, o, k); let w = words(b, d, o.subrange(0, k)); assert(w.push(spell(b, d[o[k] as int])).drop_last() =~= w); let u = spaced(w); assert(u + seq![32i8] =~= u.push(32i8)); }
impl StringStreamVGram {
    pub open spec fn takes(&self, h: Heap, s: Seq<i8>) -> bool {
        let t = tokens_of(s); let f = numbering(self.tokenizer(h).forward_coder_, t);
        self.model(h).takes(h, ids_of(f, t))
    }
}
