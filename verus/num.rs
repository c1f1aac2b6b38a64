// numbering by first appearance
pub open spec fn num_add<K>(m: Map<K, i32>, k: K) -> Map<K, i32> { if m.dom().contains(k) { m } else { m.insert(k, m.dom().len() as i32) } }
pub open spec fn numbering<K>(m: Map<K, i32>, s: Seq<K>) -> Map<K, i32> decreases s.len() {
    if s.len() == 0 { m } else { num_add(numbering(m, s.drop_last()), s.last()) }
}
pub open spec fn extends<K, V>(m: Map<K, V>, n: Map<K, V>) -> bool { forall|k: K| #[trigger] m.dom().contains(k) ==> n.dom().contains(k) && n[k] == m[k] }
pub open spec fn inverse<K>(f: Map<K, i32>, b: Map<i32, K>) -> bool {
    &&& forall|k: K| #[trigger] f.dom().contains(k) ==> 0 <= f[k] < f.dom().len() && b.dom().contains(f[k]) && b[f[k]] == k
    &&& forall|c: i32| #[trigger] b.dom().contains(c) ==> f.dom().contains(b[c]) && f[b[c]] == c
    &&& forall|c: i32| 0 <= c < f.dom().len() ==> #[trigger] b.dom().contains(c)
}
pub open spec fn injective<K>(f: Map<K, i32>) -> bool { forall|j: K, k: K| #[trigger] f.dom().contains(j) && #[trigger] f.dom().contains(k) && j != k ==> f[j] != f[k] }
// the elements of s that satisfy p, in order
pub open spec fn keep<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else if p(s.last()) { keep(s.drop_last(), p).push(s.last()) } else { keep(s.drop_last(), p) }
}
pub proof fn lemma_numbering_step<K>(m: Map<K, i32>, s: Seq<K>, i: int)
    requires 0 <= i < s.len()
    ensures numbering(m, s.subrange(0, i + 1)) == num_add(numbering(m, s.subrange(0, i)), s[i])
{
    assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i));
}
pub proof fn lemma_numbering_extends<K>(m: Map<K, i32>, s: Seq<K>)
    ensures extends(m, numbering(m, s)), forall|i: int| 0 <= i < s.len() ==> numbering(m, s).dom().contains(#[trigger] s[i]),
        forall|k: K| #[trigger] numbering(m, s).dom().contains(k) ==> m.dom().contains(k) || s.contains(k)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_numbering_extends(m, s.drop_last());
        assert forall|i: int| 0 <= i < s.len() implies numbering(m, s).dom().contains(#[trigger] s[i]) by {
            if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); }
        }
        assert forall|k: K| #[trigger] numbering(m, s).dom().contains(k) implies m.dom().contains(k) || s.contains(k) by {
            if numbering(m, s.drop_last()).dom().contains(k) && !m.dom().contains(k) { let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == k; assert(s[j] == k); }
            else if !m.dom().contains(k) { assert(s[s.len() - 1] == k); }
        }
    }
}
pub proof fn lemma_keep_step<T>(s: Seq<T>, p: spec_fn(T) -> bool, i: int)
    requires 0 <= i < s.len()
    ensures keep(s.subrange(0, i + 1), p) == if p(s[i]) { keep(s.subrange(0, i), p).push(s[i]) } else { keep(s.subrange(0, i), p) }
{
    assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i));
}
pub proof fn lemma_keep_all<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures (forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i])) ==> keep(s, p) == s,
        forall|i: int| 0 <= i < keep(s, p).len() ==> p(#[trigger] keep(s, p)[i]) && s.contains(keep(s, p)[i])
    decreases s.len()
{
    if s.len() > 0 {
        lemma_keep_all(s.drop_last(), p);
        if forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) {
            assert forall|i: int| 0 <= i < s.drop_last().len() implies p(#[trigger] s.drop_last()[i]) by { assert(p(s[i])); }
            assert(p(s[s.len() - 1]));
            assert(keep(s, p) =~= s);
        }
        assert forall|i: int| 0 <= i < keep(s, p).len() implies p(#[trigger] keep(s, p)[i]) && s.contains(keep(s, p)[i]) by {
            if i < keep(s.drop_last(), p).len() {
                assert(keep(s, p)[i] == keep(s.drop_last(), p)[i]);
                let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == keep(s, p)[i]; assert(s[j] == keep(s, p)[i]);
            } else { assert(s[s.len() - 1] == keep(s, p)[i]); }
        }
    }
}
