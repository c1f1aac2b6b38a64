// dictionaries: entries, prefix links, the learned tail
pub open spec fn uniq(d: Seq<Seq<i32>>) -> bool {
    &&& forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).len() > 0
    &&& forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && #[trigger] d[i] == #[trigger] d[j] ==> i == j
}
pub open spec fn strictly(d: Seq<Seq<i32>>, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> lex_lt(#[trigger] d[i], #[trigger] d[j]) }
pub open spec fn proper(p: Seq<i32>, q: Seq<i32>) -> bool { pre(p, q) && p != q }
// l is the link of entry i: the longest other entry that is a proper prefix, or -1
pub open spec fn link_ok(d: Seq<Seq<i32>>, i: int, l: int) -> bool {
    if l < 0 { l == -1 && forall|j: int| 0 <= j < d.len() ==> !proper(#[trigger] d[j], d[i]) }
    else { l < d.len() && proper(d[l], d[i]) && forall|j: int| 0 <= j < d.len() && proper(#[trigger] d[j], d[i]) ==> d[j].len() <= d[l].len() }
}
pub open spec fn links_ok(d: Seq<Seq<i32>>, l: Seq<i32>) -> bool { l.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> link_ok(d, i, #[trigger] l[i] as int) }
pub open spec fn learned_ok(d: Seq<Seq<i32>>, n: int, m: Map<i32, i32>) -> bool {
    &&& forall|i: int| n <= i < d.len() ==> (#[trigger] d[i]).len() == 1 && m.dom().contains(d[i][0]) && m[d[i][0]] == i
    &&& forall|c: i32| #[trigger] m.dom().contains(c) ==> n <= m[c] < d.len() && d[m[c] as int].len() == 1 && d[m[c] as int][0] == c
}
impl IntDictImpl {
    pub open spec fn wf(&self) -> bool {
        &&& uniq(self.seqs_) && self.seqs_.len() < 0x7fff_ffff
        &&& 0 <= self.sorted_size_ <= self.seqs_.len() && strictly(self.seqs_, self.sorted_size_ as int)
        &&& links_ok(self.seqs_, self.parents_)
        &&& learned_ok(self.seqs_, self.sorted_size_ as int, self.learned_)
    }
}
pub open spec fn allowed(x: Option<Set<i32>>, j: int) -> bool { x is None || !x->Some_0.contains(j as i32) }
// r is the longest permitted entry that starts q
pub open spec fn longest(d: Seq<Seq<i32>>, x: Option<Set<i32>>, q: Seq<i32>, r: int) -> bool {
    &&& 0 <= r < d.len() && allowed(x, r) && pre(d[r], q)
    &&& forall|j: int| 0 <= j < d.len() && allowed(x, j) && pre(#[trigger] d[j], q) ==> d[j].len() <= d[r].len()
}
pub open spec fn none_starts(d: Seq<Seq<i32>>, x: Option<Set<i32>>, q: Seq<i32>) -> bool { forall|j: int| 0 <= j < d.len() && allowed(x, j) ==> !pre(#[trigger] d[j], q) }
// what learning may do to the entries
pub open spec fn learned_from(d: Seq<Seq<i32>>, e: Seq<Seq<i32>>, x: Option<Set<i32>>, q: Seq<i32>) -> bool {
    e == d || (x is None && q.len() > 0 && none_starts(d, x, q) && e == d.push(seq![q[0]]))
}
pub proof fn first_singleton(q: Seq<i32>, c: i32) requires q.len() > 0 ensures pre(seq![c], q) <==> q[0] == c {
    if q[0] == c { assert forall|k: int| 0 <= k < 1 implies #[trigger] seq![c][k] == q[k] by {} } else { assert(seq![c][0] == c); }
}
// sorted entries that start q all start the lexicographic predecessor
pub proof fn pred_covers(d: Seq<Seq<i32>>, n: int, q: Seq<i32>, k: int)
    requires uniq(d), 0 <= n <= d.len(), strictly(d, n), 0 <= k <= n, q.len() > 0,
        forall|i: int| 0 <= i < k ==> lex_lt(#[trigger] d[i], q), forall|i: int| k <= i < n ==> !lex_lt(#[trigger] d[i], q)
    ensures forall|j: int| 0 <= j < n && pre(#[trigger] d[j], q) && !(j == k && d[j] == q) ==> j < k && pre(d[j], d[k - 1]),
        k < n && d[k] != q ==> forall|j: int| 0 <= j < n ==> #[trigger] d[j] != q,
        k == n ==> forall|j: int| 0 <= j < n ==> #[trigger] d[j] != q,
{
    assert forall|j: int| 0 <= j < n && #[trigger] d[j] == q implies j == k by {
        if j < k { lex_irrefl(q); assert(false); }
        if j > k { assert(lex_lt(d[k], d[j])); assert(false); }
    }
    assert forall|j: int| 0 <= j < n && pre(#[trigger] d[j], q) && !(j == k && d[j] == q) implies j < k && pre(d[j], d[k - 1]) by {
        pre_lt(d[j], q);
        if d[j] != q {
            assert(lex_lt(d[j], q));
            assert(j < k);
            if j == k - 1 {} else { assert(lex_lt(d[j], d[k - 1])); lex_asym(d[j], d[k - 1]); pre_between(d[j], d[k - 1], q); }
        }
    }
}
// one step along the links keeps every prefix of q that is a proper prefix of entry i
pub proof fn link_step(d: Seq<Seq<i32>>, l: Seq<i32>, i: int)
    requires uniq(d), links_ok(d, l), 0 <= i < d.len()
    ensures -1 <= l[i] < d.len(), l[i] >= 0 ==> proper(d[l[i] as int], d[i]),
        forall|j: int| 0 <= j < d.len() && j != i && pre(#[trigger] d[j], d[i]) ==> l[i] >= 0 && pre(d[j], d[l[i] as int])
{
    assert(link_ok(d, i, l[i] as int));
    assert forall|j: int| 0 <= j < d.len() && j != i && pre(#[trigger] d[j], d[i]) implies l[i] >= 0 && pre(d[j], d[l[i] as int]) by {
        assert(proper(d[j], d[i]));
        assert(l[i] >= 0);
        pre_chain(d[j], d[l[i] as int], d[i]);
    }
}
// adding the symbol c, which starts no... which no entry is: links of the sorted entries that start with c and had none now name it
pub proof fn learn_links(d: Seq<Seq<i32>>, l: Seq<i32>, n: int, m: Map<i32, i32>, c: i32, l2: Seq<i32>)
    requires uniq(d), links_ok(d, l), learned_ok(d, n, m), 0 <= n <= d.len(), d.len() < 0x7fff_ffff,
        forall|j: int| 0 <= j < d.len() ==> #[trigger] d[j] != seq![c],
        l2.len() == d.len() + 1, l2[d.len() as int] == -1,
        forall|i: int| 0 <= i < d.len() ==> #[trigger] l2[i] == if i < n && l[i] < 0 && d[i][0] == c { d.len() as i32 } else { l[i] },
    ensures uniq(d.push(seq![c])), links_ok(d.push(seq![c]), l2), learned_ok(d.push(seq![c]), n, m.insert(c, d.len() as i32))
{
    let e = d.push(seq![c]); let s = d.len() as int;
    assert(e[s] == seq![c]);
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] e[i] == d[i] by {}
    assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && #[trigger] e[i] == #[trigger] e[j] implies i == j by {
        if i < s && j < s { assert(d[i] == d[j]); } else if i < s { assert(d[i] != seq![c]); } else if j < s { assert(d[j] != seq![c]); }
    }
    assert forall|i: int| 0 <= i < e.len() implies link_ok(e, i, #[trigger] l2[i] as int) by {
        if i == s {
            assert forall|j: int| 0 <= j < e.len() implies !proper(#[trigger] e[j], e[i]) by { if proper(e[j], e[i]) { pre_lt(e[j], e[i]); assert(e[j].len() > 0); } }
        } else {
            assert(link_ok(d, i, l[i] as int)); assert(d[i].len() > 0);
            first_singleton(d[i], c); assert(d[i] != seq![c]);
            if i >= n { assert(d[i].len() == 1); if d[i][0] == c { assert(d[i] =~= seq![c]); } }
            assert forall|j: int| 0 <= j < e.len() && proper(#[trigger] e[j], e[i]) implies l2[i] >= 0 && e[j].len() <= e[l2[i] as int].len() by {
                if j < s {
                    assert(proper(d[j], d[i])); assert(l[i] >= 0);
                } else if l[i] >= 0 { assert(d[l[i] as int].len() > 0); }
            }
        }
    }
    let m2 = m.insert(c, s as i32);
    assert forall|i: int| n <= i < e.len() implies (#[trigger] e[i]).len() == 1 && m2.dom().contains(e[i][0]) && m2[e[i][0]] == i by {
        if i < s { assert(e[i] == d[i]); if d[i][0] == c { assert(d[i] =~= seq![c]); } }
    }
    assert forall|k: i32| #[trigger] m2.dom().contains(k) implies n <= m2[k] < e.len() && e[m2[k] as int].len() == 1 && e[m2[k] as int][0] == k by {
        if k != c { assert(m.dom().contains(k)); assert(e[m[k] as int] == d[m[k] as int]); }
    }
}
// ---- construction
pub open spec fn listed<T>(s: Seq<T>, x: T) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x }
pub open spec fn same_entries(s: Seq<Seq<i32>>, t: Seq<Seq<i32>>) -> bool { s.len() == t.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] listed(t, s[i])) && forall|i: int| 0 <= i < t.len() ==> #[trigger] listed(s, t[i]) }
pub proof fn same_elements<T>(s: Seq<T>, t: Seq<T>, x: T)
    requires s.to_multiset() == t.to_multiset()
    ensures listed(s, x) <==> listed(t, x)
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    assert(s.contains(x) <==> s.to_multiset().count(x) > 0);
    assert(t.contains(x) <==> t.to_multiset().count(x) > 0);
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s[i] == x); }
    if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(t[i] == x); }
}
pub proof fn sorted_entries(s: Seq<Seq<i32>>, t: Seq<Seq<i32>>)
    requires uniq(s), lex_sorted(t, t.len() as int), s.to_multiset() == t.to_multiset(), exists|p: Seq<int>| is_perm(s, t, p)
    ensures uniq(t), strictly(t, t.len() as int), same_entries(s, t)
{
    let p = choose|p: Seq<int>| is_perm(s, t, p);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).len() > 0 && listed(s, t[i]) by { assert(t[i] == s[p[i]]); }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && #[trigger] t[i] == #[trigger] t[j] implies i == j by {
        assert(t[i] == s[p[i]] && t[j] == s[p[j]]); assert(p[i] == p[j]); if i < j {} else if j < i {}
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies lex_lt(#[trigger] t[i], #[trigger] t[j]) by { lex_total(t[i], t[j]); assert(t[i] != t[j]); }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] listed(t, s[i]) by { same_elements(s, t, s[i]); assert(s[i] == s[i]); }
}
// the stack while links are computed: a chain of prefixes, in order
pub open spec fn stack_ok(d: Seq<Seq<i32>>, st: Seq<P2<Seq<i32>, i32>>, i: int) -> bool {
    &&& forall|a: int| 0 <= a < st.len() ==> 0 <= (#[trigger] st[a]).second < i && st[a].first == d[st[a].second as int]
    &&& forall|a: int, b: int| 0 <= a < b < st.len() ==> pre((#[trigger] st[a]).first, (#[trigger] st[b]).first)
}
pub open spec fn on_stack(st: Seq<P2<Seq<i32>, i32>>, j: int) -> bool { exists|a: int| 0 <= a < st.len() && (#[trigger] st[a]).second == j }
// every earlier entry that starts q is on the stack
pub open spec fn stack_covers(d: Seq<Seq<i32>>, st: Seq<P2<Seq<i32>, i32>>, i: int, q: Seq<i32>) -> bool { forall|j: int| 0 <= j < i && pre(#[trigger] d[j], q) ==> on_stack(st, j) }
pub proof fn stack_start(d: Seq<Seq<i32>>, st: Seq<P2<Seq<i32>, i32>>, i: int)
    requires strictly(d, d.len() as int), 0 <= i < d.len(), stack_ok(d, st, i), i > 0 ==> stack_covers(d, st, i, d[i - 1])
    ensures stack_covers(d, st, i, d[i])
{
    assert forall|j: int| 0 <= j < i && pre(#[trigger] d[j], d[i]) implies on_stack(st, j) by {
        if j < i - 1 { assert(lex_lt(d[j], d[i - 1])); lex_asym(d[j], d[i - 1]); } else { lex_irrefl(d[j]); }
        assert(lex_lt(d[i - 1], d[i]));
        pre_between(d[j], d[i - 1], d[i]);
    }
}
pub proof fn stack_popped(d: Seq<Seq<i32>>, st: Seq<P2<Seq<i32>, i32>>, i: int, q: Seq<i32>)
    requires stack_ok(d, st, i), stack_covers(d, st, i, q), st.len() > 0, !pre(st.last().first, q)
    ensures stack_ok(d, st.drop_last(), i), stack_covers(d, st.drop_last(), i, q)
{
    let s2 = st.drop_last();
    assert forall|j: int| 0 <= j < i && pre(#[trigger] d[j], q) implies on_stack(s2, j) by {
        let a = choose|a: int| 0 <= a < st.len() && (#[trigger] st[a]).second == j;
        if a == st.len() - 1 { assert(false); } assert(s2[a].second == j);
    }
}
pub proof fn stack_done(d: Seq<Seq<i32>>, st: Seq<P2<Seq<i32>, i32>>, i: int, l: int)
    requires uniq(d), strictly(d, d.len() as int), 0 <= i < d.len() <= 0x7fff_ffff, stack_ok(d, st, i), stack_covers(d, st, i, d[i]),
        if st.len() == 0 { l == -1 } else { l == st.last().second && pre(st.last().first, d[i]) },
    ensures link_ok(d, i, l), stack_ok(d, st.push(P2 { first: d[i], second: i as i32 }), i + 1), stack_covers(d, st.push(P2 { first: d[i], second: i as i32 }), i + 1, d[i])
{
    let s2 = st.push(P2 { first: d[i], second: i as i32 });
    assert forall|j: int| 0 <= j < d.len() && proper(#[trigger] d[j], d[i]) implies l >= 0 && d[j].len() <= d[l].len() by {
        pre_lt(d[j], d[i]);
        if j >= i { if j > i { lex_asym(d[i], d[j]); } assert(false); }
        let a = choose|a: int| 0 <= a < st.len() && (#[trigger] st[a]).second == j;
        if a < st.len() - 1 { assert(pre(st[a].first, st[st.len() - 1].first)); }
    }
    assert forall|a: int, b: int| 0 <= a < b < s2.len() implies pre((#[trigger] s2[a]).first, (#[trigger] s2[b]).first) by {
        if b == st.len() { if a < st.len() - 1 { assert(pre(st[a].first, st[st.len() - 1].first)); pre_trans(st[a].first, st[st.len() - 1].first, d[i]); } }
        else { assert(pre(st[a].first, st[b].first)); }
    }
    assert forall|j: int| 0 <= j < i + 1 && pre(#[trigger] d[j], d[i]) implies on_stack(s2, j) by {
        if j == i { assert(s2[st.len() as int].second == j); } else { let a = choose|a: int| 0 <= a < st.len() && (#[trigger] st[a]).second == j; assert(s2[a].second == j); }
    }
    if l >= 0 { assert(d[l] != d[i]); }
}
pub open spec fn fresh_dict(d: IntDictImpl, seqs: Seq<Seq<i32>>) -> bool {
    d.wf() && same_entries(seqs, d.seqs_) && d.sorted_size_ == d.seqs_.len() && d.learned_ == Map::<i32, i32>::empty()
}
pub open spec fn singletons(s: Seq<i32>) -> Seq<Seq<i32>> { Seq::new(s.len(), |i: int| seq![s[i]]) }
pub proof fn dict_facts(d: IntDictImpl) requires d.wf() ensures uniq(d.seqs_), d.seqs_.len() < 0x7fff_ffff, d.parents_.len() == d.seqs_.len(), links_ok(d.seqs_, d.parents_), 0 <= d.sorted_size_ <= d.seqs_.len() {}
