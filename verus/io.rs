// saved models
pub open spec fn k_size() -> Seq<i8> { Seq::<i8>::empty().push(115i8).push(105i8).push(122i8).push(101i8) }
pub open spec fn k_min_prob() -> Seq<i8> { Seq::<i8>::empty().push(109i8).push(105i8).push(110i8).push(95i8).push(112i8).push(114i8).push(111i8).push(98i8) }
pub open spec fn k_coder() -> Seq<i8> { Seq::<i8>::empty().push(99i8).push(111i8).push(100i8).push(101i8).push(114i8) }
pub open spec fn k_alphabet() -> Seq<i8> { Seq::<i8>::empty().push(97i8).push(108i8).push(112i8).push(104i8).push(97i8).push(98i8).push(101i8).push(116i8) }
pub open spec fn k_vec() -> Seq<i8> { Seq::<i8>::empty().push(118i8).push(101i8).push(99i8) }
pub open spec fn k_freq() -> Seq<i8> { Seq::<i8>::empty().push(102i8).push(114i8).push(101i8).push(113i8) }
pub open spec fn k_text() -> Seq<i8> { Seq::<i8>::empty().push(116i8).push(101i8).push(120i8).push(116i8) }
pub open spec fn k_fitted() -> Seq<i8> { Seq::<i8>::empty().push(102i8).push(105i8).push(116i8).push(116i8).push(101i8).push(100i8) }
pub open spec fn k_freqs_computed() -> Seq<i8> { Seq::<i8>::empty().push(102i8).push(114i8).push(101i8).push(113i8).push(115i8).push(95i8).push(99i8).push(111i8).push(109i8).push(112i8).push(117i8).push(116i8).push(101i8).push(100i8) }
pub proof fn keys() ensures utf8(k_size()), utf8(k_min_prob()), utf8(k_coder()), utf8(k_alphabet()), utf8(k_vec()), utf8(k_freq()), utf8(k_text()), utf8(k_fitted()), utf8(k_freqs_computed()), k_size() != k_min_prob(), k_size() != k_coder(), k_size() != k_alphabet(), k_size() != k_vec(), k_size() != k_freq(), k_size() != k_text(), k_size() != k_fitted(), k_size() != k_freqs_computed(), k_min_prob() != k_coder(), k_min_prob() != k_alphabet(), k_min_prob() != k_vec(), k_min_prob() != k_freq(), k_min_prob() != k_text(), k_min_prob() != k_fitted(), k_min_prob() != k_freqs_computed(), k_coder() != k_alphabet(), k_coder() != k_vec(), k_coder() != k_freq(), k_coder() != k_text(), k_coder() != k_fitted(), k_coder() != k_freqs_computed(), k_alphabet() != k_vec(), k_alphabet() != k_freq(), k_alphabet() != k_text(), k_alphabet() != k_fitted(), k_alphabet() != k_freqs_computed(), k_vec() != k_freq(), k_vec() != k_text(), k_vec() != k_fitted(), k_vec() != k_freqs_computed(), k_freq() != k_text(), k_freq() != k_fitted(), k_freq() != k_freqs_computed(), k_text() != k_fitted(), k_text() != k_freqs_computed(), k_fitted() != k_freqs_computed() {
    broadcast use ascii_utf8;
    assert(utf8(k_size()));
    assert(utf8(k_min_prob()));
    assert(utf8(k_coder()));
    assert(utf8(k_alphabet()));
    assert(utf8(k_vec()));
    assert(utf8(k_freq()));
    assert(utf8(k_text()));
    assert(utf8(k_fitted()));
    assert(utf8(k_freqs_computed()));
    assert(k_size().len() == 4);
    assert(k_min_prob().len() == 8);
    assert(k_coder().len() == 5);
    assert(k_alphabet().len() == 8);
    assert(k_vec().len() == 3);
    assert(k_freq().len() == 4);
    assert(k_text().len() == 4);
    assert(k_fitted().len() == 6);
    assert(k_freqs_computed().len() == 14);
    assert(k_size()[0] != k_freq()[0]);
    assert(k_size()[0] != k_text()[0]);
    assert(k_freq()[0] != k_text()[0]);
    assert(k_min_prob()[0] != k_alphabet()[0]);
}
pub open spec fn has(j: Json, k: Seq<i8>) -> bool { jobj(j).dom().contains(k) }
pub open spec fn get(j: Json, k: Seq<i8>) -> Json { jobj(j)[k] }
pub open spec fn int_list(j: Json) -> bool { is_list(j) && forall|i: int| 0 <= i < jarr(j).len() ==> is_i32(#[trigger] jarr(j)[i]) }
// one v-gram of a saved model
pub open spec fn word_ok(w: Json) -> bool { w is Obj && has(w, k_vec()) && are_ints(get(w, k_vec())) && has(w, k_freq()) && is_i32(get(w, k_freq())) }
pub open spec fn text_ok(w: Json) -> bool { w is Obj && has(w, k_text()) && get(w, k_text()) is Str }
pub open spec fn vec_of(w: Json) -> Seq<i32> { ints_of(get(w, k_vec())) }
pub open spec fn freq_of(w: Json) -> i32 { i32_of(get(w, k_freq())) }
pub open spec fn text_of(w: Json) -> Seq<i8> { str_of(get(w, k_text())) }
pub open spec fn list_ok(a: Json) -> bool { is_list(a) && forall|i: int| 0 <= i < jarr(a).len() ==> word_ok(#[trigger] jarr(a)[i]) }
pub open spec fn texts_ok(a: Json) -> bool { forall|i: int| 0 <= i < jarr(a).len() ==> text_ok(#[trigger] jarr(a)[i]) }
pub open spec fn vecs_of(a: Json) -> Seq<Seq<i32>> { Seq::new(jarr(a).len(), |i: int| vec_of(jarr(a)[i])) }
pub open spec fn freqs_of(a: Json) -> Seq<i32> { Seq::new(jarr(a).len(), |i: int| freq_of(jarr(a)[i])) }
// the parts of a saved model
pub open spec fn base_ok(j: Json) -> bool {
    &&& j is Obj && has(j, k_size()) && is_i32(get(j, k_size())) && has(j, k_min_prob()) && get(j, k_min_prob()) is Real
    &&& has(j, k_coder()) && int_list(get(j, k_coder())) && has(j, k_alphabet()) && list_ok(get(j, k_alphabet()))
}
pub open spec fn size_of(j: Json) -> i32 { i32_of(get(j, k_size())) }
pub open spec fn prob_of(j: Json) -> F64 { real_of(get(j, k_min_prob())) }
pub open spec fn codes_in(j: Json) -> Seq<i32> { ints_of(get(j, k_coder())) }
pub open spec fn vecs_in(j: Json) -> Seq<Seq<i32>> { vecs_of(get(j, k_alphabet())) }
pub open spec fn freqs_in(j: Json) -> Seq<i32> { freqs_of(get(j, k_alphabet())) }
pub open spec fn fitted_ok(j: Json) -> bool { j is Obj && has(j, k_fitted()) && get(j, k_fitted()) is Bool && has(j, k_freqs_computed()) && get(j, k_freqs_computed()) is Bool }
pub open spec fn other_keys(a: Json, b: Json, ks: Set<Seq<i8>>) -> bool { forall|k: Seq<i8>| !ks.contains(k) ==> (#[trigger] jobj(b).dom().contains(k) <==> jobj(a).dom().contains(k)) && jobj(b)[k] == jobj(a)[k] }
pub open spec fn base_keys() -> Set<Seq<i8>> { set![k_size(), k_min_prob(), k_coder(), k_alphabet()] }
pub open spec fn fitted_keys() -> Set<Seq<i8>> { set![k_fitted(), k_freqs_computed()] }
// symbols in the order of their codes
pub open spec fn symbols(c: SeqCoder) -> Seq<i32> { Seq::new(c.forward_code_.dom().len(), |i: int| c.backward_code_[i as i32]) }
// what is written of a model
pub open spec fn described(j: Json, t: IntStreamVGram, h: Heap) -> bool {
    &&& base_ok(j) && size_of(j) == t.size_ && prob_of(j) == t.min_probability_ && codes_in(j) == symbols(t.coder(h))
    &&& vecs_in(j) == t.entries(h) && freqs_in(j) == per_entry(t.freqs_, t.entries(h).len() as int)
}
pub open spec fn vgram_text(t: IntStreamVGram, h: Heap, k: u64, i: int) -> Seq<i8> { spell(h.m_BaseTokenizer[k].backward_coder_, codes_of(t.coder(h).backward_code_, t.entries(h)[i])) }
pub open spec fn texts_described(a: Json, t: IntStreamVGram, h: Heap, k: u64) -> bool { texts_ok(a) && forall|i: int| 0 <= i < jarr(a).len() ==> text_of(#[trigger] jarr(a)[i]) == vgram_text(t, h, k, i) }
// a model that can be written
pub open spec fn savable(t: IntStreamVGram, h: Heap, k: u64) -> bool {
    &&& t.sound(h) && t.dict_ != 0 && ffinite(t.min_probability_)
    &&& k != 0 ==> h.m_BaseTokenizer.dom().contains(k) && h.m_BaseTokenizer[k].wf() && forall|i: int| 0 <= i < t.entries(h).len() ==> utf8(#[trigger] vgram_text(t, h, k, i))
}
pub open spec fn unchanged(h0: Heap, h1: Heap, name: Seq<i8>) -> bool { h1 == (Heap { m_files: h1.m_files, ..h0 }) && h1.m_files == h0.m_files.insert(name, h1.m_files[name]) }
// the pairs of an inverse coder, ordered by code
pub proof fn ranked(c: SeqCoder, q: Seq<P2<i32, i32>>, r: Seq<P2<i32, i32>>, p: Seq<int>)
    requires c.wf(), q.len() == c.forward_code_.dom().len(), q.len() < 0x7fff_ffff, is_perm(q, r, p),
        forall|i: int| 0 <= i < q.len() ==> c.forward_code_.dom().contains((#[trigger] q[i]).first) && c.forward_code_[q[i].first] == q[i].second,
        forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).first != (#[trigger] q[j]).first,
        forall|i: int, j: int| 0 <= i < j < r.len() ==> !((#[trigger] r[j]).second < (#[trigger] r[i]).second),
    ensures r.len() == q.len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).second == i && r[i].first == symbols(c)[i]
{
    assert forall|i: int| 0 <= i < r.len() implies c.forward_code_.dom().contains((#[trigger] r[i]).first) && c.forward_code_[r[i].first] == r[i].second by { assert(q[p[i]] == r[i]); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).second < (#[trigger] r[j]).second by {
        assert(q[p[i]] == r[i] && q[p[j]] == r[j]); assert(p[i] != p[j]);
        if r[i].second == r[j].second { assert(c.backward_code_[r[i].second] == r[i].first); assert(c.backward_code_[r[j].second] == r[j].first); }
    }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).second == i && r[i].first == symbols(c)[i] by {
        assert(c.forward_code_.dom().contains(r[i].first)); rises(r, i); climbs_down(r, i, r.len() - 1); assert(c.forward_code_.dom().contains(r[r.len() - 1].first)); assert(c.backward_code_[r[i].second] == r[i].first);
    }
}
pub proof fn rises(r: Seq<P2<i32, i32>>, i: int) requires 0 <= i < r.len(), r[0].second >= 0, forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).second < (#[trigger] r[j]).second ensures r[i].second >= i decreases i { if i > 0 { rises(r, i - 1); } }
pub proof fn climbs_down(r: Seq<P2<i32, i32>>, i: int, j: int) requires 0 <= i <= j < r.len(), forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).second < (#[trigger] r[j]).second ensures r[j].second >= r[i].second + (j - i) decreases j - i { if i < j { climbs_down(r, i, j - 1); } }
// what a text can hold
pub proof fn ints_textual(j: Json) requires int_list(j) ensures textual(j) { if j is Arr { assert forall|i: int| 0 <= i < j->Arr_0.len() implies textual(#[trigger] j->Arr_0[i]) by { assert(jarr(j)[i] == j->Arr_0[i]); assert(is_i32(jarr(j)[i])); } } }
pub proof fn written_ints(s: Seq<i32>) ensures are_ints(jints(s)), ints_of(jints(s)) == s, textual(jints(s)) { assert forall|i: int| 0 <= i < s.len() implies is_i32(#[trigger] jarr(jints(s))[i]) by {} assert(ints_of(jints(s)) =~= s); ints_textual(jints(s)); }
pub proof fn set_textual(j: Json, k: Seq<i8>, v: Json) requires textual(j), j is Null || j is Obj, utf8(k), textual(v) ensures textual(Json::Obj(jobj(j).insert(k, v))) {
    let m = jobj(j).insert(k, v); let r = Json::Obj(m);
    assert forall|x: Seq<i8>| #[trigger] m.dom().contains(x) implies utf8(x) && textual(m[x]) by { if x != k { assert(jobj(j).dom().contains(x)); assert(j is Obj); assert(j->Obj_0.dom().contains(x)); } }
}
pub proof fn more_textual(a: Json, v: Json) requires is_list(a), textual(a), textual(v) ensures textual(Json::Arr(jarr(a).push(v))) {
    let n = jarr(a).push(v); assert forall|i: int| 0 <= i < n.len() implies textual(#[trigger] n[i]) by { if i < jarr(a).len() { assert(a is Arr); assert(a->Arr_0[i] == n[i]); } }
}
pub proof fn words_textual(j: Json) requires is_list(j), forall|i: int| 0 <= i < jarr(j).len() ==> textual(#[trigger] jarr(j)[i]) ensures textual(j) { if j is Arr { assert forall|i: int| 0 <= i < j->Arr_0.len() implies textual(#[trigger] j->Arr_0[i]) by { assert(textual(jarr(j)[i])); } } }
// neither part of a saved model touches the other
pub proof fn stays(a: Json, b: Json)
    ensures other_keys(a, b, fitted_keys()) ==> has(b, k_size()) == has(a, k_size()) && has(b, k_min_prob()) == has(a, k_min_prob()) && has(b, k_coder()) == has(a, k_coder()) && has(b, k_alphabet()) == has(a, k_alphabet())
            && get(b, k_size()) == get(a, k_size()) && get(b, k_min_prob()) == get(a, k_min_prob()) && get(b, k_coder()) == get(a, k_coder()) && get(b, k_alphabet()) == get(a, k_alphabet()),
        other_keys(a, b, base_keys()) ==> has(b, k_fitted()) == has(a, k_fitted()) && get(b, k_fitted()) == get(a, k_fitted()) && has(b, k_freqs_computed()) == has(a, k_freqs_computed()) && get(b, k_freqs_computed()) == get(a, k_freqs_computed()),
{
    keys();
    if other_keys(a, b, fitted_keys()) { assert(jobj(b).dom().contains(k_size()) <==> jobj(a).dom().contains(k_size())); assert(jobj(b).dom().contains(k_min_prob()) <==> jobj(a).dom().contains(k_min_prob())); assert(jobj(b).dom().contains(k_coder()) <==> jobj(a).dom().contains(k_coder())); assert(jobj(b).dom().contains(k_alphabet()) <==> jobj(a).dom().contains(k_alphabet())); }
    if other_keys(a, b, base_keys()) { assert(jobj(b).dom().contains(k_fitted()) <==> jobj(a).dom().contains(k_fitted())); assert(jobj(b).dom().contains(k_freqs_computed()) <==> jobj(a).dom().contains(k_freqs_computed())); }
}
// ---- loading
// v-grams of vs with their frequencies fs, in order
pub open spec fn shelved(v: Seq<Seq<i32>>, f: Seq<i32>, vs: Seq<Seq<i32>>, fs: Seq<i32>) -> bool { exists|p: Seq<int>| #[trigger] is_perm(v, vs, p) && is_perm(f, fs, p) && lex_sorted(vs, vs.len() as int) }
pub open spec fn read(j: Json, h0: Heap, h: Heap, c: u64, fs: Seq<i32>, vs: Seq<Seq<i32>>, size: i32, p: F64) -> bool {
    &&& size == size_of(j) && p == prob_of(j) && shelved(vecs_in(j), freqs_in(j), vs, fs)
    &&& h == (Heap { m_SeqCoder: h0.m_SeqCoder.insert(c, h.m_SeqCoder[c]), ..h0 }) && h.m_SeqCoder[c].wf() && h.m_SeqCoder[c].forward_code_ == numbering(h0.m_SeqCoder[c].forward_code_, codes_in(j))
}
// what a model can be made of
pub open spec fn known_below(n: int, d: Seq<Seq<i32>>) -> bool { forall|i: int, k: int| 0 <= i < d.len() && 0 <= k < d[i].len() ==> 0 <= #[trigger] d[i][k] < n }
pub open spec fn restorable(j: Json) -> bool {
    &&& base_ok(j) && codes_in(j).no_duplicates() && codes_in(j).len() <= room() && known_below(codes_in(j).len() as int, vecs_in(j))
    &&& uniq(vecs_in(j)) && closed(vecs_in(j), Set::empty()) && short(vecs_in(j)) && vecs_in(j).len() <= room()
    &&& (forall|i: int| 0 <= i < freqs_in(j).len() ==> 0 <= #[trigger] freqs_in(j)[i] <= 0x4000_0000) && sum_i32(freqs_in(j)) < 0x7fff_ffff
}
pub open spec fn restored(j: Json, m: IntStreamVGram, h: Heap) -> bool {
    &&& m.size_ == size_of(j) && m.min_probability_ == prob_of(j) && m.coder(h).forward_code_ == numbering(Map::empty(), codes_in(j))
    &&& m.dict_ != 0 && shelved(vecs_in(j), freqs_in(j), m.entries(h), m.freqs_)
}
// the tokens of a saved model: the texts of its single symbols
pub open spec fn file_tokens(c: SeqCoder, a: Seq<Json>) -> Map<Seq<i8>, i32> decreases a.len() {
    if a.len() == 0 { Map::empty() } else {
        let m = file_tokens(c, a.drop_last()); let v = vec_of(a.last());
        if v.len() == 1 { m.insert(text_of(a.last()), c.backward_code_[v[0]]) } else { m }
    }
}
pub open spec fn tokens_in_file(j: Json, c: SeqCoder) -> Map<Seq<i8>, i32> { file_tokens(c, jarr(get(j, k_alphabet()))) }
pub open spec fn hit(p: Seq<int>, j: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == j }
pub proof fn perm_onto<T>(s: Seq<T>, t: Seq<T>, p: Seq<int>) requires is_perm(s, t, p) ensures forall|j: int| 0 <= j < p.len() ==> #[trigger] hit(p, j) {
    let n = p.len() as int; let a = p.to_set(); let b = vstd::set_lib::set_int_range(0, n);
    assert(p.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { if i < j {} else { assert(p[j] != p[i]); } } }
    p.unique_seq_to_set(); vstd::set_lib::lemma_int_range(0, n);
    assert forall|x: int| #[trigger] a.contains(x) implies b.contains(x) by { assert(p.contains(x)); }
    vstd::set_lib::lemma_subset_equality(a, b);
    assert forall|j: int| 0 <= j < n implies #[trigger] hit(p, j) by { assert(b.contains(j)); assert(a.contains(j)); assert(p.contains(j)); let i = choose|i: int| 0 <= i < p.len() && p[i] == j; assert(p[i] == j); }
}
pub proof fn sum_remove(s: Seq<i32>, i: int) requires 0 <= i < s.len() ensures sum_i32(s.remove(i)) == sum_i32(s) - s[i] decreases s.len() {
    if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); }
    else { let r = s.remove(i); assert(r.drop_last() =~= s.drop_last().remove(i)); assert(r.last() == s.last()); sum_remove(s.drop_last(), i); }
}
pub proof fn sum_perm(s: Seq<i32>, t: Seq<i32>, p: Seq<int>) requires is_perm(s, t, p) ensures sum_i32(t) == sum_i32(s) decreases s.len() {
    if s.len() > 0 {
        let n = s.len() - 1; let q = p[n]; assert(t[n] == s[q]);
        let u = s.remove(q); let v = t.drop_last(); let r = Seq::new(n as nat, |i: int| if p[i] > q { p[i] - 1 } else { p[i] });
        assert forall|i: int| 0 <= i < n implies #[trigger] r[i] == (if p[i] > q { p[i] - 1 } else { p[i] }) && p[i] != q && 0 <= p[i] <= n by { assert(p[i] != p[n]); }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by { assert(p[i] != p[j]); assert(r[i] == (if p[i] > q { p[i] - 1 } else { p[i] })); assert(r[j] == (if p[j] > q { p[j] - 1 } else { p[j] })); }
        assert forall|i: int| 0 <= i < r.len() implies v[i] == #[trigger] u[r[i]] by { assert(r[i] == (if p[i] > q { p[i] - 1 } else { p[i] })); assert(t[i] == s[p[i]]); }
        sum_perm(u, v, r); sum_remove(s, q);
    } else { assert(s =~= t); }
}
pub proof fn shelve(v: Seq<Seq<i32>>, f: Seq<i32>, w: Seq<P2<Seq<i32>, i32>>, r: Seq<P2<Seq<i32>, i32>>, vs: Seq<Seq<i32>>, fs: Seq<i32>, p: Seq<int>)
    requires v.len() == w.len(), f.len() == w.len(), forall|k: int| 0 <= k < w.len() ==> (#[trigger] w[k]).first == v[k] && w[k].second == f[k], is_perm(w, r, p),
        forall|i: int, j: int| 0 <= i < j < r.len() ==> !plt_seq(#[trigger] r[j], #[trigger] r[i]),
        vs.len() == r.len(), fs.len() == r.len(), forall|k: int| 0 <= k < r.len() ==> #[trigger] vs[k] == r[k].first, forall|k: int| 0 <= k < r.len() ==> #[trigger] fs[k] == r[k].second,
    ensures shelved(v, f, vs, fs)
{
    assert forall|i: int| 0 <= i < p.len() implies vs[i] == #[trigger] v[p[i]] by { assert(r[i] == w[p[i]]); assert(w[p[i]].first == v[p[i]]); assert(vs[i] == r[i].first); }
    assert forall|i: int| 0 <= i < p.len() implies fs[i] == #[trigger] f[p[i]] by { assert(r[i] == w[p[i]]); assert(w[p[i]].second == f[p[i]]); assert(fs[i] == r[i].second); }
    assert forall|i: int, j: int| 0 <= i < j < vs.len() implies !lex_lt(#[trigger] vs[j], #[trigger] vs[i]) by { assert(!plt_seq(r[j], r[i])); }
    assert(is_perm(v, vs, p));
}
pub proof fn shelved_parts(v: Seq<Seq<i32>>, f: Seq<i32>, vs: Seq<Seq<i32>>, fs: Seq<i32>)
    requires shelved(v, f, vs, fs), uniq(v)
    ensures vs.len() == v.len(), fs.len() == v.len(), f.len() == v.len(), uniq(vs), strictly(vs, vs.len() as int), same_entries(v, vs), sum_i32(fs) == sum_i32(f), forall|i: int| 0 <= i < fs.len() ==> listed(f, #[trigger] fs[i]),
{
    let p = choose|p: Seq<int>| #[trigger] is_perm(v, vs, p) && is_perm(f, fs, p) && lex_sorted(vs, vs.len() as int);
    perm_onto(v, vs, p); sum_perm(f, fs, p);
    assert forall|i: int| 0 <= i < fs.len() implies listed(f, #[trigger] fs[i]) by { assert(fs[i] == f[p[i]]); }
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] listed(vs, v[i]) by { assert(hit(p, i)); let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k] == i; assert(vs[k] == v[p[k]]); }
    assert forall|i: int| 0 <= i < vs.len() implies #[trigger] listed(v, vs[i]) by { assert(vs[i] == v[p[i]]); }
    assert forall|i: int| 0 <= i < vs.len() implies (#[trigger] vs[i]).len() > 0 by { assert(vs[i] == v[p[i]]); }
    assert forall|i: int, j: int| 0 <= i < vs.len() && 0 <= j < vs.len() && #[trigger] vs[i] == #[trigger] vs[j] implies i == j by { assert(vs[i] == v[p[i]] && vs[j] == v[p[j]]); assert(p[i] == p[j]); if i < j {} else if j < i { assert(p[j] != p[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < vs.len() implies lex_lt(#[trigger] vs[i], #[trigger] vs[j]) by { lex_total(vs[i], vs[j]); }
}
// sorted lists of the same entries are the same
pub proof fn same_strict(a: Seq<Seq<i32>>, b: Seq<Seq<i32>>) requires strictly(a, a.len() as int), strictly(b, b.len() as int), same_entries(a, b) ensures a == b {
    same_at(a, b, a.len() as int); assert(a =~= b);
}
pub proof fn same_at(a: Seq<Seq<i32>>, b: Seq<Seq<i32>>, n: int) requires 0 <= n <= a.len(), strictly(a, a.len() as int), strictly(b, b.len() as int), same_entries(a, b) ensures forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i] decreases n {
    if n > 0 {
        let i = n - 1; same_at(a, b, i);
        assert(listed(b, a[i])); let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] == a[i];
        assert(listed(a, b[i])); let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == b[i];
        if j < i { assert(a[j] == b[j]); lex_irrefl(a[i]); } if k < i { assert(a[k] == b[k]); lex_irrefl(b[i]); }
        if j > i && k > i { lex_asym(b[i], b[j]); }
    }
}
pub proof fn numbered_apart(s: Seq<i32>) requires s.no_duplicates(), s.len() < 0x7fff_ffff
    ensures numbering(Map::<i32, i32>::empty(), s).dom().len() == s.len(), forall|i: int| 0 <= i < s.len() ==> numbering(Map::<i32, i32>::empty(), s)[#[trigger] s[i]] == i, forall|x: i32| #[trigger] numbering(Map::<i32, i32>::empty(), s).dom().contains(x) <==> s.contains(x) decreases s.len()
{
    let e = Map::<i32, i32>::empty();
    if s.len() > 0 {
        let u = s.drop_last(); numbered_apart(u); let m = numbering(e, u);
        if m.dom().contains(s.last()) { assert(u.contains(s.last())); let i = choose|i: int| 0 <= i < u.len() && u[i] == s.last(); assert(s[i] == s[s.len() - 1]); }
        assert forall|i: int| 0 <= i < s.len() implies numbering(e, s)[#[trigger] s[i]] == i by { if i < u.len() { assert(u[i] == s[i]); assert(s[i] != s[s.len() - 1]); } }
        assert forall|x: i32| #[trigger] numbering(e, s).dom().contains(x) <==> s.contains(x) by {
            if u.contains(x) { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; assert(s[i] == x); }
            if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < u.len() { assert(u[i] == x); } }
            assert(s[s.len() - 1] == s.last());
        }
    } else { assert(e.dom() =~= Set::<i32>::empty()); }
}
pub proof fn ready_to_load(j: Json, h: Heap, c: u64, fs: Seq<i32>, vs: Seq<Seq<i32>>)
    requires restorable(j), shelved(vecs_in(j), freqs_in(j), vs, fs), h.m_SeqCoder.dom().contains(c), h.m_SeqCoder[c].wf(), h.m_SeqCoder[c].forward_code_ == numbering(Map::empty(), codes_in(j))
    ensures loadable(h, c, fs, vs)
{
    let v = vecs_in(j); let f = freqs_in(j); let b = h.m_SeqCoder[c].backward_code_;
    shelved_parts(v, f, vs, fs); numbered_apart(codes_in(j)); itself_made_of(v); stays_closed(v, v, vs); stays_short(v, vs);
    assert(decodable(b, v)) by { assert forall|i: int, k: int| 0 <= i < v.len() && 0 <= k < v[i].len() implies b.dom().contains(#[trigger] v[i][k]) by {} }
    same_decodable(b, v, vs);
    assert forall|i: int| 0 <= i < fs.len() implies 0 <= #[trigger] fs[i] <= 0x4000_0000 by { assert(listed(f, fs[i])); }
}
pub proof fn load_same(j: Json, m: IntStreamVGram, h: Heap, vs: Seq<Seq<i32>>, fs: Seq<i32>)
    requires restorable(j), shelved(vecs_in(j), freqs_in(j), vs, fs), fresh_dict(h.m_IntDictImpl[m.dict_], vs)
    ensures m.entries(h) == vs
{
    shelved_parts(vecs_in(j), freqs_in(j), vs, fs); same_strict(vs, m.entries(h));
}
pub proof fn decoded_file(j: Json, c: SeqCoder) requires restorable(j), c.wf(), c.forward_code_ == numbering(Map::empty(), codes_in(j)) ensures decodable(c.backward_code_, vecs_in(j)) {
    let v = vecs_in(j); let b = c.backward_code_; numbered_apart(codes_in(j));
    assert forall|i: int, k: int| 0 <= i < v.len() && 0 <= k < v[i].len() implies b.dom().contains(#[trigger] v[i][k]) by {}
}
// tokenizers and models of texts do not matter to integer models
pub proof fn sound_any(m: IntStreamVGram, h: Heap, k: Heap) requires same_parts(h, k), h.m_SeqCoder == k.m_SeqCoder, h.m_IntVGramBuilderImpl == k.m_IntVGramBuilderImpl ensures m.sound(k) == m.sound(h) { parts_usable(h, k, m.builder(h)); }
// ---- the round trip: what is saved can be loaded, and is the same again
pub proof fn sum_first(f: Seq<i32>, n: int) requires 0 <= n, forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i] ensures sum_i32(per_entry(f, n)) <= sum_i32(f), forall|i: int| 0 <= i < n ==> 0 <= #[trigger] per_entry(f, n)[i] decreases f.len() {
    if f.len() <= n { per_entry_sum(f, n); }
    else { let u = f.drop_last(); assert forall|i: int| 0 <= i < u.len() implies 0 <= #[trigger] u[i] by { assert(u[i] == f[i]); } sum_first(u, n); assert(per_entry(u, n) =~= per_entry(f, n)); assert(f[f.len() - 1] >= 0); }
}
pub proof fn symbols_apart(c: SeqCoder) requires c.wf(), c.forward_code_.dom().len() < 0x7fff_ffff
    ensures symbols(c).no_duplicates(), symbols(c).len() == c.forward_code_.dom().len(), numbering(Map::empty(), symbols(c)) == c.forward_code_
{
    let s = symbols(c); let f = c.forward_code_; let b = c.backward_code_; let n = numbering(Map::<i32, i32>::empty(), s);
    assert forall|i: int| 0 <= i < s.len() implies f.dom().contains(#[trigger] s[i]) && f[s[i]] == i by { assert(b.dom().contains(i as i32)); }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { assert(f[s[i]] == i && f[s[j]] == j); }
    numbered_apart(s);
    assert forall|x: i32| #[trigger] n.dom().contains(x) <==> f.dom().contains(x) by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(f.dom().contains(s[i])); }
        if f.dom().contains(x) { assert(s[f[x] as int] == x); assert(s.contains(x)); }
    }
    assert forall|x: i32| f.dom().contains(x) implies n[x] == #[trigger] f[x] by { assert(s[f[x] as int] == x); }
    assert(n =~= f);
}
pub proof fn same_backward(f: Map<i32, i32>, b: Map<i32, i32>, c: Map<i32, i32>) requires inverse(f, b), inverse(f, c) ensures b == c {
    assert forall|x: i32| #[trigger] b.dom().contains(x) <==> c.dom().contains(x) by { if b.dom().contains(x) { assert(f.dom().contains(b[x])); assert(c.dom().contains(f[b[x]])); } if c.dom().contains(x) { assert(f.dom().contains(c[x])); assert(b.dom().contains(f[c[x]])); } }
    assert forall|x: i32| b.dom().contains(x) implies #[trigger] b[x] == c[x] by { assert(c.dom().contains(x)); assert(f[b[x]] == x); assert(f[c[x]] == x); assert(f.dom().contains(b[x])); assert(c[f[b[x]]] == b[x]); }
    assert(b =~= c);
}
// what is known of a model is within what a saved model can hold
pub open spec fn holdable(t: IntStreamVGram, h: Heap) -> bool { t.sound(h) && t.dict_ != 0 && t.entries(h).len() <= room() && forall|i: int| 0 <= i < t.freqs_.len() ==> #[trigger] t.freqs_[i] <= 0x4000_0000 }
pub proof fn saved_restorable(j: Json, t: IntStreamVGram, h: Heap) requires holdable(t, h), described(j, t, h) ensures restorable(j) {
    let c = t.coder(h); let d = t.entries(h); let n = d.len() as int; dict_facts(h.m_IntDictImpl[t.dict_]); symbols_apart(c); sum_first(t.freqs_, n);
    assert forall|i: int, k: int| 0 <= i < d.len() && 0 <= k < d[i].len() implies 0 <= #[trigger] d[i][k] < codes_in(j).len() by { assert(c.backward_code_.dom().contains(d[i][k])); assert(c.forward_code_.dom().contains(c.backward_code_[d[i][k]])); }
    assert forall|i: int| 0 <= i < freqs_in(j).len() implies 0 <= #[trigger] freqs_in(j)[i] <= 0x4000_0000 by { assert(per_entry(t.freqs_, n)[i] >= 0); if i < t.freqs_.len() { assert(t.freqs_[i] <= 0x4000_0000); } }
}
// size, minimal probability, coding and v-grams with their frequencies
pub open spec fn entry_kept(t: IntStreamVGram, h: Heap, m: IntStreamVGram, k: Heap, i: int) -> bool { exists|j: int| 0 <= j < m.entries(k).len() && #[trigger] m.entries(k)[j] == t.entries(h)[i] && fr(m.freqs_, j) == fr(t.freqs_, i) }
pub open spec fn same_model(t: IntStreamVGram, h: Heap, m: IntStreamVGram, k: Heap) -> bool {
    &&& m.size_ == t.size_ && m.min_probability_ == t.min_probability_
    &&& m.coder(k).forward_code_ == t.coder(h).forward_code_ && m.coder(k).backward_code_ == t.coder(h).backward_code_
    &&& m.entries(k).len() == t.entries(h).len() && forall|i: int| 0 <= i < t.entries(h).len() ==> #[trigger] entry_kept(t, h, m, k, i)
    &&& strictly(t.entries(h), t.entries(h).len() as int) ==> m.entries(k) == t.entries(h) && m.freqs_ == per_entry(t.freqs_, t.entries(h).len() as int)
}
pub proof fn round_trip(j: Json, t: IntStreamVGram, h: Heap, m: IntStreamVGram, k: Heap)
    requires holdable(t, h), described(j, t, h), restored(j, m, k), m.sound(k)
    ensures same_model(t, h, m, k)
{
    let v = t.entries(h); let f = per_entry(t.freqs_, v.len() as int); let vs = m.entries(k); let fs = m.freqs_;
    symbols_apart(t.coder(h)); same_backward(t.coder(h).forward_code_, t.coder(h).backward_code_, m.coder(k).backward_code_);
    dict_facts(h.m_IntDictImpl[t.dict_]); shelved_parts(v, f, vs, fs); sum_first(t.freqs_, v.len() as int);
    let p = choose|p: Seq<int>| #[trigger] is_perm(v, vs, p) && is_perm(f, fs, p) && lex_sorted(vs, vs.len() as int);
    perm_onto(v, vs, p);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] entry_kept(t, h, m, k, i) by { assert(hit(p, i)); let q = choose|q: int| 0 <= q < p.len() && #[trigger] p[q] == i; assert(vs[q] == v[p[q]]); assert(fs[q] == f[p[q]]); assert(fr(m.freqs_, q) == fr(t.freqs_, i)); }
    if strictly(v, v.len() as int) {
        same_strict(v, vs);
        assert forall|i: int| 0 <= i < v.len() implies fs[i] == f[i] by { assert(vs[i] == v[p[i]]); assert(v[i] == v[p[i]]); assert(p[i] == i); assert(fs[i] == f[p[i]]); }
        assert(fs =~= f);
    }
}
// tokens of single symbols keep their numbers
pub open spec fn token_kept(t: BaseTokenizer, m: Map<Seq<i8>, i32>, x: Seq<i8>) -> bool { t.forward_coder_.dom().contains(x) && t.forward_coder_[x] == m[x] }
pub proof fn tokens_kept(t: BaseTokenizer, c: SeqCoder, a: Seq<Json>)
    requires t.wf(), forall|i: int| 0 <= i < a.len() ==> text_of(#[trigger] a[i]) == spell(t.backward_coder_, codes_of(c.backward_code_, vec_of(a[i]))) && (vec_of(a[i]).len() == 1 ==> t.backward_coder_.dom().contains(c.backward_code_[vec_of(a[i])[0]]))
    ensures forall|x: Seq<i8>| #[trigger] file_tokens(c, a).dom().contains(x) ==> token_kept(t, file_tokens(c, a), x),
        forall|i: int| 0 <= i < a.len() && vec_of(#[trigger] a[i]).len() == 1 ==> file_tokens(c, a).dom().contains(text_of(a[i])) && file_tokens(c, a)[text_of(a[i])] == c.backward_code_[vec_of(a[i])[0]]
    decreases a.len()
{
    if a.len() > 0 {
        let u = a.drop_last(); let w = a.last(); let v = vec_of(w); let b = t.backward_coder_; let m = file_tokens(c, u); let n = file_tokens(c, a);
        assert forall|i: int| 0 <= i < u.len() implies text_of(#[trigger] u[i]) == spell(b, codes_of(c.backward_code_, vec_of(u[i]))) && (vec_of(u[i]).len() == 1 ==> b.dom().contains(c.backward_code_[vec_of(u[i])[0]])) by { assert(u[i] == a[i]); }
        tokens_kept(t, c, u); assert(a[a.len() - 1] == w);
        assert forall|i: int| 0 <= i < a.len() && vec_of(#[trigger] a[i]).len() == 1 implies single_token(t, c, a[i]) by { let y = codes_of(c.backward_code_, vec_of(a[i])); assert(y.drop_last() =~= Seq::<i32>::empty()); assert(spell(b, y.drop_last()) =~= Seq::<i8>::empty()); assert(spell(b, y) == spell(b, y.drop_last()) + token_of(b, y.last())); assert(Seq::<i8>::empty() + b[y[0]] =~= b[y[0]]); }
        assert forall|x: Seq<i8>| #[trigger] n.dom().contains(x) implies token_kept(t, n, x) by { if v.len() == 1 && x == text_of(w) { assert(single_token(t, c, a[a.len() - 1])); } else { assert(m.dom().contains(x)); assert(token_kept(t, m, x)); } }
        assert forall|i: int| 0 <= i < a.len() && vec_of(#[trigger] a[i]).len() == 1 implies n.dom().contains(text_of(a[i])) && n[text_of(a[i])] == c.backward_code_[vec_of(a[i])[0]] by {
            assert(single_token(t, c, a[i])); if i < u.len() { assert(u[i] == a[i]); assert(m.dom().contains(text_of(a[i]))); if v.len() == 1 { assert(single_token(t, c, a[a.len() - 1])); } }
        }
    }
}
pub open spec fn single_token(t: BaseTokenizer, c: SeqCoder, w: Json) -> bool { let s = c.backward_code_[vec_of(w)[0]]; text_of(w) == t.backward_coder_[s] && t.forward_coder_.dom().contains(text_of(w)) && t.forward_coder_[text_of(w)] == s }
