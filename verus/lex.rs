// lexicographic order and prefixes of int sequences
pub open spec fn pre(p: Seq<i32>, q: Seq<i32>) -> bool { p.len() <= q.len() && forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k] == q[k] }
pub open spec fn lt_at(a: Seq<i32>, b: Seq<i32>, n: int) -> bool {
    0 <= n <= a.len() && n < b.len() && (forall|k: int| 0 <= k < n ==> #[trigger] a[k] == b[k]) && (n == a.len() || a[n] < b[n])
}
pub proof fn lex_elim(a: Seq<i32>, b: Seq<i32>) -> (n: int)
    requires lex_lt(a, b)
    ensures lt_at(a, b, n)
    decreases a.len()
{
    if a.len() == 0 || a[0] < b[0] { 0 } else {
        let m = lex_elim(a.drop_first(), b.drop_first());
        assert forall|k: int| 0 <= k < m + 1 implies #[trigger] a[k] == b[k] by { if k > 0 { assert(a.drop_first()[k - 1] == b.drop_first()[k - 1]); } }
        m + 1
    }
}
pub proof fn lex_intro(a: Seq<i32>, b: Seq<i32>, n: int)
    requires lt_at(a, b, n)
    ensures lex_lt(a, b)
    decreases n
{
    if n > 0 {
        assert(a[0] == b[0]);
        assert forall|k: int| 0 <= k < n - 1 implies #[trigger] a.drop_first()[k] == b.drop_first()[k] by { assert(a[k + 1] == b[k + 1]); }
        lex_intro(a.drop_first(), b.drop_first(), n - 1);
    }
}
pub proof fn lex_irrefl(a: Seq<i32>) ensures !lex_lt(a, a) { if lex_lt(a, a) { let n = lex_elim(a, a); } }
pub proof fn lex_total(a: Seq<i32>, b: Seq<i32>) ensures lex_lt(a, b) || lex_lt(b, a) || a == b
    decreases a.len()
{
    if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
    else if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lex_total(a.drop_first(), b.drop_first());
        if a.drop_first() == b.drop_first() {
            assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { if k > 0 { assert(a.drop_first()[k - 1] == b.drop_first()[k - 1]); } }
            assert(a.len() == b.len()) by { assert(a.drop_first().len() == b.drop_first().len()); }
            assert(a =~= b);
        }
    }
}
pub proof fn lex_trans(a: Seq<i32>, b: Seq<i32>, c: Seq<i32>)
    requires lex_lt(a, b), lex_lt(b, c)
    ensures lex_lt(a, c)
{
    let n = lex_elim(a, b); let m = lex_elim(b, c);
    let k = if n < m { n } else { m };
    assert forall|j: int| 0 <= j < k implies #[trigger] a[j] == c[j] by { assert(a[j] == b[j]); assert(b[j] == c[j]); }
    if n < m { assert(b[n] == c[n]); } else if m < n { assert(a[m] == b[m]); }
    lex_intro(a, c, k);
}
pub proof fn lex_asym(a: Seq<i32>, b: Seq<i32>) requires lex_lt(a, b) ensures !lex_lt(b, a), a != b { if lex_lt(b, a) { lex_trans(a, b, a); } lex_irrefl(a); }
pub proof fn pre_lt(p: Seq<i32>, q: Seq<i32>) requires pre(p, q) ensures p == q || (p.len() < q.len() && lex_lt(p, q)) {
    if p.len() == q.len() { assert(p =~= q); } else { lex_intro(p, q, p.len() as int); }
}
pub proof fn pre_trans(p: Seq<i32>, q: Seq<i32>, r: Seq<i32>) requires pre(p, q), pre(q, r) ensures pre(p, r) {
    assert forall|k: int| 0 <= k < p.len() implies #[trigger] p[k] == r[k] by { assert(p[k] == q[k]); assert(q[k] == r[k]); }
}
pub proof fn pre_chain(p: Seq<i32>, q: Seq<i32>, r: Seq<i32>) requires pre(p, r), pre(q, r), p.len() <= q.len() ensures pre(p, q) {
    assert forall|k: int| 0 <= k < p.len() implies #[trigger] p[k] == q[k] by { assert(p[k] == r[k]); assert(q[k] == r[k]); }
}
// p <= s < q and p starts q: p starts s
pub proof fn pre_between(p: Seq<i32>, s: Seq<i32>, q: Seq<i32>)
    requires pre(p, q), !lex_lt(s, p), lex_lt(s, q)
    ensures pre(p, s)
{
    let n = lex_elim(s, q);
    if n < p.len() {
        if n == s.len() { assert forall|k: int| 0 <= k < n implies #[trigger] s[k] == p[k] by { assert(s[k] == q[k]); assert(p[k] == q[k]); } lex_intro(s, p, n); }
        else { assert(p[n] == q[n]); assert forall|k: int| 0 <= k < n implies #[trigger] s[k] == p[k] by { assert(s[k] == q[k]); assert(p[k] == q[k]); } lex_intro(s, p, n); }
        assert(false);
    }
    assert forall|k: int| 0 <= k < p.len() implies #[trigger] p[k] == s[k] by { assert(s[k] == q[k]); assert(p[k] == q[k]); }
}
pub proof fn pre_lt_lt(p: Seq<i32>, s: Seq<i32>, q: Seq<i32>) requires pre(p, s), lex_lt(s, q) ensures lex_lt(p, q) { pre_lt(p, s); if p != s { lex_trans(p, s, q); } }
// comparing a smaller sequence with a larger one never reads past the larger
pub proof fn lt_readable(s: Seq<i32>, q: Seq<i32>) requires lex_lt(s, q)
    ensures s.len() - 0 <= q.len() - 0 || exists|i: int| 0 <= i < s.len() - 0 && i < q.len() - 0 && #[trigger] s[0 + i] != q[0 + i]
{ let n = lex_elim(s, q); if n < s.len() { assert(s[0 + n] != q[0 + n]); } }
