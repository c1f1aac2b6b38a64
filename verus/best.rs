// ---- the best-scoring segmentation
pub open spec fn lp(f: Seq<i32>, t: F64, n: int, j: int) -> F64 { fsub(if j < f.len() { flog(fofint(f[j] + 1)) } else { fofint(0) }, flog(fadd(t, fofint(n)))) }
pub open spec fn fold(f: Seq<i32>, t: F64, n: int, z: F64, o: Seq<i32>) -> F64 decreases o.len() { if o.len() == 0 { z } else { fold(f, t, n, fadd(z, lp(f, t, n, o[0] as int)), o.drop_first()) } }
// scores are added from left to right
pub open spec fn score_of(f: Seq<i32>, t: F64, n: int, o: Seq<i32>) -> F64 { fold(f, t, n, fofint(0), o) }
pub open spec fn best(d: Seq<Seq<i32>>, f: Seq<i32>, t: F64, s: Seq<i32>, o: Seq<i32>) -> bool {
    forall|o2: Seq<i32>| ids_ok(d, o2) && #[trigger] flat(d, o2) == s ==> !flt(score_of(f, t, d.len() as int, o), score_of(f, t, d.len() as int, o2))
}
pub open spec fn appended(b0: Seq<i32>, b1: Seq<i32>) -> Seq<i32> { b1.subrange(b0.len() as int, b1.len() as int) }
pub open spec fn kept(b0: Seq<i32>, b1: Seq<i32>) -> bool { b0.len() <= b1.len() && b1.subrange(0, b0.len() as int) == b0 }
pub open spec fn freqs_ok(f: Seq<i32>) -> bool { forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i] < 0x7fff_ffff }
pub open spec fn reach(c: Seq<F64>, p: int) -> bool { c[p] != flowest() }
pub open spec fn rest(s: Seq<i32>, p: int) -> Seq<i32> { s.subrange(p, s.len() as int) }
pub open spec fn cell_ok(d: Seq<Seq<i32>>, s: Seq<i32>, c: Seq<F64>, y: Seq<i32>, p: int, lim: int) -> bool {
    !reach(c, p) || (mag_le(c[p], p) && (p == 0 || (0 <= y[p] < d.len() && d[y[p] as int].len() <= p && p - d[y[p] as int].len() < lim && s.subrange(p - d[y[p] as int].len(), p) == d[y[p] as int] && reach(c, p - d[y[p] as int].len()))))
}
pub open spec fn table_ok(d: Seq<Seq<i32>>, s: Seq<i32>, c: Seq<F64>, y: Seq<i32>, lim: int) -> bool {
    &&& c.len() == s.len() + 1 && y.len() == s.len() + 1 && c[0] == fofint(0)
    &&& forall|p: int| 0 <= p <= s.len() ==> #[trigger] cell_ok(d, s, c, y, p, lim)
}
pub open spec fn tried(d: Seq<Seq<i32>>, f: Seq<i32>, t: F64, c: Seq<F64>, p: int, j: int) -> bool { !flt(c[p + d[j].len()], fadd(c[p], lp(f, t, d.len() as int, j))) }
// every entry that starts the rest at p was tried, or starts entry cur
pub open spec fn covered(d: Seq<Seq<i32>>, f: Seq<i32>, t: F64, s: Seq<i32>, c: Seq<F64>, p: int, cur: int) -> bool {
    forall|j: int| 0 <= j < d.len() && pre(#[trigger] d[j], rest(s, p)) ==> tried(d, f, t, c, p, j) || (0 <= cur && pre(d[j], d[cur]))
}
pub open spec fn cell_score(d: Seq<Seq<i32>>, f: Seq<i32>, t: F64, c: Seq<F64>, y: Seq<i32>, p: int) -> bool { p == 0 || !reach(c, p) || c[p] == fadd(c[p - d[y[p] as int].len()], lp(f, t, d.len() as int, y[p] as int)) }
pub open spec fn opt_state(d: Seq<Seq<i32>>, f: Seq<i32>, t: F64, s: Seq<i32>, c: Seq<F64>, y: Seq<i32>, lim: int) -> bool {
    &&& forall|p: int| 0 <= p < lim ==> #[trigger] covered(d, f, t, s, c, p, -1)
    &&& forall|p: int| 0 <= p <= s.len() ==> #[trigger] cell_score(d, f, t, c, y, p)
}
pub proof fn lp_term(f: Seq<i32>, t: F64, n: int, j: int) requires freqs_ok(f), fin_nonneg(t), 1 <= n < 0x8000_0000, 0 <= j ensures is_term(lp(f, t, n, j)) { if j < f.len() { ax_term(f[j] as int, t, n); } else { ax_term(0, t, n); } }
pub proof fn table_start(d: Seq<Seq<i32>>, f: Seq<i32>, t: F64, s: Seq<i32>, c: Seq<F64>, y: Seq<i32>)
    requires c.len() == s.len() + 1, y.len() == s.len() + 1, c[0] == fofint(0), forall|p: int| 0 < p <= s.len() ==> #[trigger] c[p] == flowest()
    ensures table_ok(d, s, c, y, 0), reach(c, 0), opt_state(d, f, t, s, c, y, 0)
{ ax_mag_zero(); ax_mag_high(fofint(0), 0); ax_lt_asym(flowest(), fofint(0)); }
pub proof fn table_grows(d: Seq<Seq<i32>>, e: Seq<Seq<i32>>, s: Seq<i32>, c: Seq<F64>, y: Seq<i32>, lim: int, lim2: int)
    requires table_ok(d, s, c, y, lim), lim <= lim2, d.len() <= e.len(), forall|i: int| 0 <= i < d.len() ==> #[trigger] e[i] == d[i]
    ensures table_ok(e, s, c, y, lim2)
{ assert forall|p: int| 0 <= p <= s.len() implies #[trigger] cell_ok(e, s, c, y, p, lim2) by { assert(cell_ok(d, s, c, y, p, lim)); } }
pub proof fn rest_pre(s: Seq<i32>, p: int, e: Seq<i32>)
    requires 0 <= p <= s.len(), pre(e, rest(s, p))
    ensures p + e.len() <= s.len(), s.subrange(p, p + e.len()) == e
{ assert forall|k: int| 0 <= k < e.len() implies #[trigger] e[k] == s[p + k] by { assert(e[k] == rest(s, p)[k]); } assert(s.subrange(p, p + e.len()) =~= e); }
pub proof fn cell_number(d: Seq<Seq<i32>>, s: Seq<i32>, c: Seq<F64>, y: Seq<i32>, p: int, lim: int) requires cell_ok(d, s, c, y, p, lim) ensures fnum(c[p]) { if reach(c, p) { ax_nn_mag(c[p], p); } else { ax_nn_ends(); } }
// only scores after p changed, and only upwards
pub open spec fn raised(c: Seq<F64>, c2: Seq<F64>, p: int) -> bool { c.len() == c2.len() && forall|i: int| 0 <= i < c.len() ==> !flt(#[trigger] c2[i], c[i]) && (i <= p ==> c2[i] == c[i]) && (reach(c, i) ==> reach(c2, i)) }
pub proof fn covered_raised(d: Seq<Seq<i32>>, f: Seq<i32>, t: F64, s: Seq<i32>, c: Seq<F64>, y: Seq<i32>, c2: Seq<F64>, lim: int, pos: int, p: int, cur: int)
    requires covered(d, f, t, s, c, p, cur), raised(c, c2, pos), 0 <= p <= pos, pos < s.len(), c.len() == s.len() + 1, table_ok(d, s, c, y, lim)
    ensures covered(d, f, t, s, c2, p, cur)
{
    assert forall|j: int| 0 <= j < d.len() && pre(#[trigger] d[j], rest(s, p)) implies tried(d, f, t, c2, p, j) || (0 <= cur && pre(d[j], d[cur])) by {
        rest_pre(s, p, d[j]);
        let q = p + d[j].len();
        if tried(d, f, t, c, p, j) { assert(c2[p] == c[p]); assert(cell_ok(d, s, c, y, q as int, lim)); cell_number(d, s, c, y, q as int, lim); ax_le_trans(fadd(c[p], lp(f, t, d.len() as int, j)), c[q], c2[q]); }
    }
}
pub proof fn relax_update(d: Seq<Seq<i32>>, f: Seq<i32>, t: F64, s: Seq<i32>, c: Seq<F64>, y: Seq<i32>, pos: int, q: i32)
    requires uniq(d), d.len() < 0x7fff_ffff, s.len() < 0x7fff_ffff, freqs_ok(f), fin_nonneg(t), table_ok(d, s, c, y, pos + 1), 0 <= q < d.len(), 0 <= pos < s.len(), pre(d[q as int], rest(s, pos)),
        flt(c[pos + d[q as int].len()], fadd(c[pos], lp(f, t, d.len() as int, q as int))),
    ensures ({ let g = pos + d[q as int].len(); let c2 = c.update(g, fadd(c[pos], lp(f, t, d.len() as int, q as int))); let y2 = y.update(g, q);
        table_ok(d, s, c2, y2, pos + 1) && reach(c2, g) && raised(c, c2, pos) && tried(d, f, t, c2, pos, q as int) && (opt_state(d, f, t, s, c, y, pos) ==> opt_state(d, f, t, s, c2, y2, pos)) })
{
    let n = d.len() as int; let len = d[q as int].len() as int; let g = pos + len; let v = fadd(c[pos], lp(f, t, n, q as int)); let c2 = c.update(g, v); let y2 = y.update(g, q);
    rest_pre(s, pos, d[q as int]); lp_term(f, t, n, q as int); assert(len > 0);
    assert(cell_ok(d, s, c, y, pos, pos + 1));
    if !reach(c, pos) { ax_absorb(lp(f, t, n, q as int)); assert(cell_ok(d, s, c, y, g, pos + 1)); if reach(c, g) { ax_mag_high(c[g], g); } ax_lt_asym(c[g], flowest()); assert(false); }
    ax_mag_add(c[pos], pos, lp(f, t, n, q as int)); ax_mag_mono(v, pos + 1, g); ax_mag_high(v, g); ax_lt_asym(flowest(), flowest()); ax_lt_asym(c[g], v); ax_lt_asym(v, v);
    assert forall|p: int| 0 <= p <= s.len() implies #[trigger] cell_ok(d, s, c2, y2, p, pos + 1) by {
        assert(cell_ok(d, s, c, y, p, pos + 1));
        if p == g { assert(g - len == pos); assert(s.subrange(g - len, g) =~= d[q as int]); }
    }
    assert forall|i: int| 0 <= i < c.len() implies !flt(#[trigger] c2[i], c[i]) && (i <= pos ==> c2[i] == c[i]) && (reach(c, i) ==> reach(c2, i)) by { if i != g { ax_lt_asym(c[i], c[i]); } }
    if opt_state(d, f, t, s, c, y, pos) {
        assert forall|p: int| 0 <= p < pos implies #[trigger] covered(d, f, t, s, c2, p, -1) by { assert(covered(d, f, t, s, c, p, -1)); covered_raised(d, f, t, s, c, y, c2, pos + 1, pos, p, -1); }
        assert forall|p: int| 0 <= p <= s.len() implies #[trigger] cell_score(d, f, t, c2, y2, p) by {
            assert(cell_score(d, f, t, c, y, p)); assert(cell_ok(d, s, c, y, p, pos + 1));
            if p == g { assert(g - len == pos); }
        }
    }
}
pub proof fn relax_skip(d: Seq<Seq<i32>>, f: Seq<i32>, t: F64, s: Seq<i32>, c: Seq<F64>, y: Seq<i32>, pos: int, q: int)
    requires uniq(d), d.len() < 0x7fff_ffff, s.len() < 0x7fff_ffff, freqs_ok(f), fin_nonneg(t), table_ok(d, s, c, y, pos + 1), 0 <= q < d.len(), 0 <= pos < s.len(), pre(d[q], rest(s, pos)), tried(d, f, t, c, pos, q)
    ensures reach(c, pos) ==> reach(c, pos + d[q].len())
{
    lp_term(f, t, d.len() as int, q); rest_pre(s, pos, d[q]); assert(cell_ok(d, s, c, y, pos, pos + 1));
    if reach(c, pos) { let v = fadd(c[pos], lp(f, t, d.len() as int, q)); ax_mag_add(c[pos], pos, lp(f, t, d.len() as int, q)); ax_mag_high(v, pos + 1); }
}
// after cur itself was tried, the rest of its chain starts at its link
pub proof fn chain_step(d: Seq<Seq<i32>>, l: Seq<i32>, f: Seq<i32>, t: F64, s: Seq<i32>, c: Seq<F64>, p: int, cur: int)
    requires uniq(d), links_ok(d, l), 0 <= cur < d.len(), 0 <= p <= s.len(), pre(d[cur], rest(s, p)), covered(d, f, t, s, c, p, cur), tried(d, f, t, c, p, cur)
    ensures -1 <= l[cur] < d.len(), covered(d, f, t, s, c, p, l[cur] as int), l[cur] >= 0 ==> pre(d[l[cur] as int], rest(s, p)) && d[l[cur] as int].len() < d[cur].len()
{
    link_step(d, l, cur);
    if l[cur] >= 0 { pre_trans(d[l[cur] as int], d[cur], rest(s, p)); pre_lt(d[l[cur] as int], d[cur]); }
    assert forall|j: int| 0 <= j < d.len() && pre(#[trigger] d[j], rest(s, p)) implies tried(d, f, t, c, p, j) || (0 <= l[cur] && pre(d[j], d[l[cur] as int])) by { if j != cur {} }
}
pub proof fn chain_start(d: Seq<Seq<i32>>, f: Seq<i32>, t: F64, s: Seq<i32>, c: Seq<F64>, p: int, r: int)
    requires 0 <= p <= s.len(), longest(d, None, rest(s, p), r)
    ensures covered(d, f, t, s, c, p, r), 0 <= r < d.len(), pre(d[r], rest(s, p))
{
    assert forall|j: int| 0 <= j < d.len() && pre(#[trigger] d[j], rest(s, p)) implies tried(d, f, t, c, p, j) || (0 <= r && pre(d[j], d[r])) by { assert(allowed(None, j)); pre_chain(d[j], d[r], rest(s, p)); }
}
pub proof fn opt_next(d: Seq<Seq<i32>>, f: Seq<i32>, t: F64, s: Seq<i32>, c: Seq<F64>, y: Seq<i32>, pos: int)
    requires opt_state(d, f, t, s, c, y, pos), covered(d, f, t, s, c, pos, -1) ensures opt_state(d, f, t, s, c, y, pos + 1) {}
// walking back from p
pub proof fn back_step(d: Seq<Seq<i32>>, f: Seq<i32>, t: F64, s: Seq<i32>, c: Seq<F64>, y: Seq<i32>, lim: int, p: int, o: Seq<i32>)
    requires uniq(d), table_ok(d, s, c, y, lim), 0 < p <= s.len(), reach(c, p), flat(d, o) == rest(s, p), ids_ok(d, o)
    ensures 0 <= y[p] < d.len(), ({ let g = p - d[y[p] as int].len(); let o2 = seq![y[p]] + o; 0 <= g < p && reach(c, g) && flat(d, o2) == rest(s, g) && ids_ok(d, o2)
        && (opt_state(d, f, t, s, c, y, lim) && fold(f, t, d.len() as int, c[p], o) == c[s.len() as int] ==> fold(f, t, d.len() as int, c[g], o2) == c[s.len() as int]) })
{
    assert(cell_ok(d, s, c, y, p, lim)); let e = d[y[p] as int]; let g = p - e.len(); let o2 = seq![y[p]] + o;
    assert(e.len() > 0);
    flat_cons(d, y[p], o); assert(rest(s, g) =~= s.subrange(g, p) + rest(s, p));
    assert(o2.drop_first() =~= o);
    if opt_state(d, f, t, s, c, y, lim) { assert(cell_score(d, f, t, c, y, p)); }
}
pub proof fn optimal(d: Seq<Seq<i32>>, f: Seq<i32>, t: F64, s: Seq<i32>, c: Seq<F64>, y: Seq<i32>, p: int, z: F64, o: Seq<i32>)
    requires opt_state(d, f, t, s, c, y, s.len() as int), table_ok(d, s, c, y, s.len() as int), uniq(d), freqs_ok(f), fin_nonneg(t), d.len() < 0x7fff_ffff, s.len() < 0x7fff_ffff, 0 <= p <= s.len(), ids_ok(d, o), flat(d, o) == rest(s, p), !flt(c[p], z)
    ensures !flt(c[s.len() as int], fold(f, t, d.len() as int, z, o))
    decreases o.len()
{
    if o.len() == 0 { assert(rest(s, p).len() == 0); }
    else {
        let e = o[0] as int; let n = d.len() as int; let g = p + d[e].len(); let v = lp(f, t, n, e);
        assert(rest(s, p) == d[e] + flat(d, o.drop_first()));
        assert(rest(s, p).len() == d[e].len() + flat(d, o.drop_first()).len());
        assert(d[e].len() > 0);
        assert forall|k: int| 0 <= k < d[e].len() implies #[trigger] d[e][k] == rest(s, p)[k] by { assert((d[e] + flat(d, o.drop_first()))[k] == d[e][k]); }
        assert(covered(d, f, t, s, c, p, -1)); assert(tried(d, f, t, c, p, e));
        ax_add_mono(z, c[p], v);
        lp_term(f, t, n, e); assert(cell_ok(d, s, c, y, p, s.len() as int));
        if reach(c, p) { ax_mag_add(c[p], p, v); ax_nn_mag(fadd(c[p], v), p + 1); } else { ax_absorb(v); ax_nn_ends(); }
         ax_le_trans(fadd(z, v), fadd(c[p], v), c[g]);
        assert(flat(d, o.drop_first()) =~= rest(s, g)) by { assert forall|k: int| 0 <= k < flat(d, o.drop_first()).len() implies flat(d, o.drop_first())[k] == rest(s, g)[k] by { assert((d[e] + flat(d, o.drop_first()))[d[e].len() + k] == rest(s, p)[d[e].len() + k]); } }
        assert forall|i: int| 0 <= i < o.drop_first().len() implies 0 <= #[trigger] o.drop_first()[i] < d.len() by { assert(o.drop_first()[i] == o[i + 1]); }
        optimal(d, f, t, s, c, y, g, fadd(z, v), o.drop_first());
    }
}
pub proof fn optimal_all(d: Seq<Seq<i32>>, f: Seq<i32>, t: F64, s: Seq<i32>, c: Seq<F64>, y: Seq<i32>, o: Seq<i32>)
    requires opt_state(d, f, t, s, c, y, s.len() as int), table_ok(d, s, c, y, s.len() as int), uniq(d), freqs_ok(f), fin_nonneg(t), d.len() < 0x7fff_ffff, s.len() < 0x7fff_ffff, score_of(f, t, d.len() as int, o) == c[s.len() as int]
    ensures best(d, f, t, s, o)
{
    assert forall|o2: Seq<i32>| ids_ok(d, o2) && #[trigger] flat(d, o2) == s implies !flt(score_of(f, t, d.len() as int, o), score_of(f, t, d.len() as int, o2)) by {
        assert(rest(s, 0) =~= s); ax_lt_asym(fofint(0), fofint(0)); optimal(d, f, t, s, c, y, 0, fofint(0), o2);
    }
}
