// ---- segmentations
pub open spec fn ids_ok(d: Seq<Seq<i32>>, o: Seq<i32>) -> bool { forall|i: int| 0 <= i < o.len() ==> 0 <= #[trigger] o[i] < d.len() }
// the entries named by o, one after the other
pub open spec fn flat(d: Seq<Seq<i32>>, o: Seq<i32>) -> Seq<i32> decreases o.len() { if o.len() == 0 { Seq::<i32>::empty() } else { d[o[0] as int] + flat(d, o.drop_first()) } }
pub proof fn flat_cons(d: Seq<Seq<i32>>, x: i32, o: Seq<i32>) ensures flat(d, seq![x] + o) == d[x as int] + flat(d, o) { assert((seq![x] + o).drop_first() =~= o); }
pub proof fn flat_push(d: Seq<Seq<i32>>, o: Seq<i32>, x: i32) ensures flat(d, o.push(x)) == flat(d, o) + d[x as int] decreases o.len() {
    if o.len() == 0 { assert(o.push(x).drop_first() =~= Seq::<i32>::empty()); assert(flat(d, o.push(x).drop_first()) =~= Seq::<i32>::empty()); assert(d[x as int] + Seq::<i32>::empty() =~= Seq::<i32>::empty() + d[x as int]); }
    else { flat_push(d, o.drop_first(), x); assert(o.push(x).drop_first() =~= o.drop_first().push(x)); assert(d[o[0] as int] + (flat(d, o.drop_first()) + d[x as int]) =~= (d[o[0] as int] + flat(d, o.drop_first())) + d[x as int]); }
}
pub proof fn flat_same(d: Seq<Seq<i32>>, e: Seq<Seq<i32>>, o: Seq<i32>) requires ids_ok(d, o), d.len() <= e.len(), forall|i: int| 0 <= i < d.len() ==> #[trigger] e[i] == d[i] ensures flat(e, o) == flat(d, o), ids_ok(e, o) decreases o.len() {
    if o.len() > 0 { assert forall|i: int| 0 <= i < o.drop_first().len() implies 0 <= #[trigger] o.drop_first()[i] < d.len() by { assert(o.drop_first()[i] == o[i + 1]); } flat_same(d, e, o.drop_first()); assert(e[o[0] as int] == d[o[0] as int]); }
}
// what a segmentation of s may add to the entries d: single symbols of s, each because no entry started the input there
pub open spec fn grown(d: Seq<Seq<i32>>, e: Seq<Seq<i32>>, s: Seq<i32>) -> bool {
    &&& d.len() <= e.len() && e.subrange(0, d.len() as int) == d
    &&& forall|i: int| d.len() <= i < e.len() ==> #[trigger] added(e, s, i)
}
pub open spec fn added(e: Seq<Seq<i32>>, s: Seq<i32>, i: int) -> bool { exists|p: int| 0 <= p < s.len() && e[i] == seq![#[trigger] s[p]] && none_starts(e.subrange(0, i), None, s.subrange(p, s.len() as int)) }
pub proof fn grown_refl(d: Seq<Seq<i32>>, s: Seq<i32>) ensures grown(d, d, s) { assert(d.subrange(0, d.len() as int) =~= d); }
pub proof fn grown_step(d: Seq<Seq<i32>>, e: Seq<Seq<i32>>, f: Seq<Seq<i32>>, s: Seq<i32>, p: int)
    requires grown(d, e, s), 0 <= p < s.len(), learned_from(e, f, None, s.subrange(p, s.len() as int))
    ensures grown(d, f, s), e.len() <= f.len() <= e.len() + 1, forall|i: int| 0 <= i < e.len() ==> #[trigger] f[i] == e[i]
{
    if f != e {
        assert(f.subrange(0, d.len() as int) =~= e.subrange(0, d.len() as int));
        assert forall|i: int| d.len() <= i < f.len() implies #[trigger] added(f, s, i) by {
            if i < e.len() { assert(added(e, s, i)); let q = choose|q: int| 0 <= q < s.len() && e[i] == seq![#[trigger] s[q]] && none_starts(e.subrange(0, i), None, s.subrange(q, s.len() as int)); assert(f.subrange(0, i) =~= e.subrange(0, i)); assert(f[i] == seq![s[q]]); }
            else { assert(f.subrange(0, i) =~= e); assert(f[i] == seq![s[p]]); }
        }
    }
}
// nothing is learned when every symbol is an entry
pub open spec fn knows(d: Seq<Seq<i32>>, s: Seq<i32>) -> bool { forall|i: int| 0 <= i < s.len() ==> listed(d, seq![#[trigger] s[i]]) }
pub proof fn knows_first(d: Seq<Seq<i32>>, s: Seq<i32>, p: int)
    requires knows(d, s), 0 <= p < s.len()
    ensures !none_starts(d, None, s.subrange(p, s.len() as int))
{
    let q = s.subrange(p, s.len() as int);
    assert(listed(d, seq![s[p]]));
    let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == seq![s[p]];
    first_singleton(q, s[p]);
    assert(pre(d[i], q));
}

// ---- greedy: the trace of steps (position, entry or -1 for a skipped symbol)
pub open spec fn step_ok(d: Seq<Seq<i32>>, x: Option<Set<i32>>, s: Seq<i32>, e: (int, int)) -> bool {
    0 <= e.0 < s.len() && if e.1 >= 0 { longest(d, x, s.subrange(e.0, s.len() as int), e.1) } else { e.1 == -1 && none_starts(d, x, s.subrange(e.0, s.len() as int)) }
}
pub open spec fn step_end(d: Seq<Seq<i32>>, e: (int, int)) -> int { e.0 + if e.1 >= 0 { d[e.1].len() as int } else { 1 } }
pub open spec fn trace_end(d: Seq<Seq<i32>>, t: Seq<(int, int)>) -> int { if t.len() == 0 { 0 } else { step_end(d, t.last()) } }
pub open spec fn trace_ok(d: Seq<Seq<i32>>, x: Option<Set<i32>>, s: Seq<i32>, t: Seq<(int, int)>) -> bool {
    forall|k: int| 0 <= k < t.len() ==> step_ok(d, x, s, #[trigger] t[k]) && t[k].0 == trace_end(d, t.subrange(0, k))
}
pub open spec fn taken(t: Seq<(int, int)>) -> Seq<i32> decreases t.len() { if t.len() == 0 { Seq::<i32>::empty() } else if t.last().1 >= 0 { taken(t.drop_last()).push(t.last().1 as i32) } else { taken(t.drop_last()) } }
pub open spec fn no_skip(t: Seq<(int, int)>) -> bool { forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).1 >= 0 }
// o is a greedy segmentation of s
pub open spec fn greedy(d: Seq<Seq<i32>>, x: Option<Set<i32>>, s: Seq<i32>, o: Seq<i32>) -> bool {
    exists|t: Seq<(int, int)>| #[trigger] trace_ok(d, x, s, t) && trace_end(d, t) == s.len() && taken(t) == o && (x is None ==> no_skip(t))
}
pub proof fn trace_push(d: Seq<Seq<i32>>, x: Option<Set<i32>>, s: Seq<i32>, t: Seq<(int, int)>, id: int)
    requires trace_ok(d, x, s, t), step_ok(d, x, s, (trace_end(d, t), id))
    ensures trace_ok(d, x, s, t.push((trace_end(d, t), id))), trace_end(d, t.push((trace_end(d, t), id))) == step_end(d, (trace_end(d, t), id)),
        taken(t.push((trace_end(d, t), id))) == if id >= 0 { taken(t).push(id as i32) } else { taken(t) }
{
    let u = t.push((trace_end(d, t), id));
    assert(u.drop_last() =~= t);
    assert forall|k: int| 0 <= k < u.len() implies step_ok(d, x, s, #[trigger] u[k]) && u[k].0 == trace_end(d, u.subrange(0, k)) by {
        if k < t.len() { assert(t[k] == u[k]); assert(u.subrange(0, k) =~= t.subrange(0, k)); } else { assert(u.subrange(0, k) =~= t); }
    }
}
// a learned symbol never beats an entry taken earlier
pub proof fn trace_grows(d: Seq<Seq<i32>>, e: Seq<Seq<i32>>, s: Seq<i32>, t: Seq<(int, int)>, q: Seq<i32>)
    requires trace_ok(d, None, s, t), no_skip(t), uniq(d), learned_from(d, e, None, q)
    ensures trace_ok(e, None, s, t), trace_end(e, t) == trace_end(d, t)
{
    if e != d {
        assert forall|k: int| 0 <= k < t.len() implies #[trigger] step_end(e, t[k]) == step_end(d, t[k]) by { assert(step_ok(d, None, s, t[k])); assert(e[t[k].1] == d[t[k].1]); }
        assert forall|k: int| 0 <= k < t.len() implies step_ok(e, None, s, #[trigger] t[k]) && t[k].0 == trace_end(e, t.subrange(0, k)) by {
            assert(step_ok(d, None, s, t[k]));
            let suf = s.subrange(t[k].0, s.len() as int);
            assert(e[t[k].1] == d[t[k].1]); assert(d[t[k].1].len() > 0);
            assert forall|j: int| 0 <= j < e.len() && pre(#[trigger] e[j], suf) implies e[j].len() <= e[t[k].1].len() by { if j < d.len() { assert(e[j] == d[j]); } }
            if k > 0 { assert(step_end(e, t[k - 1]) == step_end(d, t[k - 1])); }
        }
        if t.len() > 0 { assert(step_end(e, t[t.len() - 1]) == step_end(d, t[t.len() - 1])); }
    }
}
// C06: without exclusions a greedy segmentation covers the input exactly
pub proof fn greedy_covers(d: Seq<Seq<i32>>, s: Seq<i32>, t: Seq<(int, int)>)
    requires trace_ok(d, None, s, t), no_skip(t), d.len() < 0x7fff_ffff
    ensures flat(d, taken(t)) == s.subrange(0, trace_end(d, t)), ids_ok(d, taken(t)), 0 <= trace_end(d, t) <= s.len()
    decreases t.len()
{
    if t.len() > 0 {
        let k = t.len() - 1; let u = t.drop_last(); let e = t[k];
        assert(u =~= t.subrange(0, k));
        assert forall|j: int| 0 <= j < u.len() implies step_ok(d, None, s, #[trigger] u[j]) && u[j].0 == trace_end(d, u.subrange(0, j)) && u[j].1 >= 0 by { assert(u[j] == t[j]); assert(u.subrange(0, j) =~= t.subrange(0, j)); }
        greedy_covers(d, s, u);
        assert(step_ok(d, None, s, e)); assert(e.0 == trace_end(d, u));
        flat_push(d, taken(u), e.1 as i32);
        let suf = s.subrange(e.0, s.len() as int);
        assert(pre(d[e.1], suf));
        assert forall|i: int| 0 <= i < d[e.1].len() implies #[trigger] d[e.1][i] == s[e.0 + i] by { assert(d[e.1][i] == suf[i]); }
        assert(s.subrange(0, trace_end(d, t)) =~= s.subrange(0, e.0) + d[e.1]);
    } else { assert(s.subrange(0, 0) =~= Seq::<i32>::empty()); }
}
pub proof fn greedy_step(d0: Seq<Seq<i32>>, d: Seq<Seq<i32>>, e: Seq<Seq<i32>>, x: Option<Set<i32>>, s: Seq<i32>, t: Seq<(int, int)>, at: int, id: int)
    requires uniq(d), uniq(e), e.len() < 0x7fff_ffff, 0 <= at < s.len(), trace_ok(d, x, s, t), trace_end(d, t) == at, x is None ==> no_skip(t), grown(d0, d, s),
        learned_from(d, e, x, s.subrange(at, s.len() as int)), x is Some ==> e == d,
        id >= 0 ==> longest(e, x, s.subrange(at, s.len() as int), id), id < 0 ==> id == -1 && x is Some && none_starts(e, x, s.subrange(at, s.len() as int)),
    ensures trace_ok(e, x, s, t.push((at, id))), x is None ==> no_skip(t.push((at, id))), grown(d0, e, s), e.len() <= d.len() + 1,
        trace_end(e, t.push((at, id))) == at + if id >= 0 { e[id].len() as int } else { 1 }, taken(t.push((at, id))) == if id >= 0 { taken(t).push(id as i32) } else { taken(t) },
        id >= 0 ==> 0 < e[id].len() <= s.len() - at && forall|k: int| 0 <= k <= s.len() - at ==> #[trigger] s.subrange(at, s.len() as int).subrange(k, s.len() - at) == s.subrange(at + k, s.len() as int),
        s.subrange(at, s.len() as int).subrange(1, s.len() - at) == s.subrange(at + 1, s.len() as int),
{
    hide(trace_ok); hide(grown); hide(none_starts); hide(uniq); hide(longest); hide(taken);
    assert(id >= 0 ==> 0 < e[id].len() <= s.len() - at) by { reveal(longest); reveal(uniq); }
    assert(e.len() <= d.len() + 1);
    assert(x is None ==> no_skip(t.push((at, id))));
    if x is None { trace_grows(d, e, s, t, s.subrange(at, s.len() as int)); grown_step(d0, d, e, s, at); }
    assert(step_ok(e, x, s, (at, id)));
    trace_push(e, x, s, t, id);
    assert forall|k: int| 0 <= k <= s.len() - at implies #[trigger] s.subrange(at, s.len() as int).subrange(k, s.len() - at) == s.subrange(at + k, s.len() as int) by {
        assert(s.subrange(at, s.len() as int).subrange(k, s.len() - at) =~= s.subrange(at + k, s.len() as int));
    }
    assert(s.subrange(at, s.len() as int).subrange(1, s.len() - at) =~= s.subrange(at + 1, s.len() as int));
}
pub proof fn greedy_start(d: Seq<Seq<i32>>, x: Option<Set<i32>>, s: Seq<i32>) ensures trace_ok(d, x, s, Seq::<(int, int)>::empty()), no_skip(Seq::<(int, int)>::empty()) {}
pub proof fn longest_id(d: Seq<Seq<i32>>, x: Option<Set<i32>>, q: Seq<i32>, r: int) ensures longest(d, x, q, r) ==> 0 <= r < d.len() && d[r].len() <= q.len() {}
pub proof fn greedy_done(d: Seq<Seq<i32>>, x: Option<Set<i32>>, s: Seq<i32>, t: Seq<(int, int)>)
    requires trace_ok(d, x, s, t), trace_end(d, t) == s.len(), x is None ==> no_skip(t), d.len() < 0x7fff_ffff
    ensures greedy(d, x, s, taken(t)), x is None ==> flat(d, taken(t)) == s && ids_ok(d, taken(t))
{
    if x is None { greedy_covers(d, s, t); assert(s.subrange(0, s.len() as int) =~= s); }
}
