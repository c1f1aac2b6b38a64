// Trusted base: the C++ standard library and arithmetic as the verified code sees them.
#[verifier::external_body] #[derive(Clone, Copy)] pub struct F64 { x: f64 }
pub struct P2<A, B> { pub first: A, pub second: B }

// ---- double: uninterpreted operations; the facts about them used in proofs are in fp.rs, stat.rs, build.rs, rand.rs
pub uninterp spec fn fadd(a: F64, b: F64) -> F64;
pub uninterp spec fn fsub(a: F64, b: F64) -> F64;
pub uninterp spec fn fmul(a: F64, b: F64) -> F64;
pub uninterp spec fn fdiv(a: F64, b: F64) -> F64;
pub uninterp spec fn fneg(a: F64) -> F64;
pub uninterp spec fn flog(a: F64) -> F64;
pub uninterp spec fn flt(a: F64, b: F64) -> bool;
pub open spec fn fle(a: F64, b: F64) -> bool { flt(a, b) || (fnum(a) && fnum(b) && !flt(b, a)) }
pub open spec fn feq(a: F64, b: F64) -> bool { fnum(a) && fnum(b) && !flt(a, b) && !flt(b, a) }
pub uninterp spec fn fofint(a: int) -> F64;
pub uninterp spec fn ftoint(a: F64) -> int;
pub uninterp spec fn flit(bits: u64) -> F64;
pub uninterp spec fn fnum(a: F64) -> bool;   // not NaN
pub uninterp spec fn flowest() -> F64;
pub uninterp spec fn fmax() -> F64;
#[verifier::external_body] pub fn f_add(a: F64, b: F64) -> (r: F64) ensures r == fadd(a, b) { unimplemented!() }
#[verifier::external_body] pub fn f_sub(a: F64, b: F64) -> (r: F64) ensures r == fsub(a, b) { unimplemented!() }
#[verifier::external_body] pub fn f_mul(a: F64, b: F64) -> (r: F64) ensures r == fmul(a, b) { unimplemented!() }
#[verifier::external_body] pub fn f_div(a: F64, b: F64) -> (r: F64) ensures r == fdiv(a, b) { unimplemented!() }
#[verifier::external_body] pub fn f_neg(a: F64) -> (r: F64) ensures r == fneg(a) { unimplemented!() }
#[verifier::external_body] pub fn f_log(a: F64) -> (r: F64) ensures r == flog(a) { unimplemented!() }
#[verifier::external_body] pub fn f_lt(a: F64, b: F64) -> (r: bool) ensures r == flt(a, b) { unimplemented!() }
#[verifier::external_body] pub fn f_le(a: F64, b: F64) -> (r: bool) ensures r == fle(a, b) { unimplemented!() }
#[verifier::external_body] pub fn f_eq(a: F64, b: F64) -> (r: bool) ensures r == feq(a, b) { unimplemented!() }
#[verifier::external_body] pub fn f_lit(b: u64) -> (r: F64) ensures r == flit(b) { unimplemented!() }
#[verifier::external_body] pub fn f_lowest() -> (r: F64) ensures r == flowest() { unimplemented!() }
#[verifier::external_body] pub fn f_max() -> (r: F64) ensures r == fmax() { unimplemented!() }
#[verifier::external_body] pub fn f_of_i32(a: i32) -> (r: F64) ensures r == fofint(a as int) { unimplemented!() }
#[verifier::external_body] pub fn f_of_u64(a: u64) -> (r: F64) ensures r == fofint(a as int) { unimplemented!() }
#[verifier::external_body] pub fn f_of_i64(a: i64) -> (r: F64) ensures r == fofint(a as int) { unimplemented!() }
#[verifier::external_body] pub fn f_to_i32(a: F64) -> (r: i32) requires fnum(a), -0x8000_0000 <= ftoint(a) < 0x8000_0000 ensures r as int == ftoint(a) { unimplemented!() }

// ---- integers
pub open spec fn wrap64(x: int) -> u64 { (x % 0x1_0000_0000_0000_0000) as u64 }
#[verifier::external_body] pub fn u64_add(a: u64, b: u64) -> (r: u64) ensures a + b < 0x1_0000_0000_0000_0000 ==> r == a + b, r == wrap64(a + b) { unimplemented!() }
#[verifier::external_body] pub fn u64_sub(a: u64, b: u64) -> (r: u64) ensures a >= b ==> r == a - b, a < b ==> r == a - b + 0x1_0000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body] pub fn u64_mul(a: u64, b: u64) -> (r: u64) ensures a * b < 0x1_0000_0000_0000_0000 ==> r == a * b, r == wrap64(a * b) { unimplemented!() }
#[verifier::external_body] pub fn i32_to_u64(a: i32) -> (r: u64) ensures a >= 0 ==> r == a, a < 0 ==> r == a + 0x1_0000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body] pub fn i64_to_u64(a: i64) -> (r: u64) ensures a >= 0 ==> r == a, a < 0 ==> r == a + 0x1_0000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body] pub fn u64_to_i64(a: u64) -> (r: i64) ensures a < 0x8000_0000_0000_0000 ==> r == a, a >= 0x8000_0000_0000_0000 ==> r == a - 0x1_0000_0000_0000_0000 { unimplemented!() }
pub open spec fn lo32(a: int) -> int { let m = a % 0x1_0000_0000; if m < 0x8000_0000 { m } else { m - 0x1_0000_0000 } }
#[verifier::external_body] pub fn u64_to_i32(a: u64) -> (r: i32) ensures a < 0x8000_0000 ==> r == a, r == lo32(a as int) { unimplemented!() }
#[verifier::external_body] pub fn i64_to_i32(a: i64) -> (r: i32) ensures -0x8000_0000 <= a < 0x8000_0000 ==> r == a, r == lo32(a as int) { unimplemented!() }
#[verifier::external_body] pub fn i32_to_i8(a: i32) -> (r: i8) ensures -128 <= a < 128 ==> r == a { unimplemented!() }
#[verifier::external_body] pub fn u32_to_i32(a: u32) -> (r: i32) ensures a < 0x8000_0000 ==> r == a { unimplemented!() }
#[verifier::external_body] pub fn i32_to_u32(a: i32) -> (r: u32) ensures a >= 0 ==> r == a { unimplemented!() }
// C++ division truncates toward zero
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
#[verifier::external_body] pub fn i32_div(a: i32, b: i32) -> (r: i32) requires b != 0, !(a == i32::MIN && b == -1) ensures r == tdiv(a as int, b as int) { unimplemented!() }
#[verifier::external_body] pub fn i32_rem(a: i32, b: i32) -> (r: i32) requires b != 0, !(a == i32::MIN && b == -1) ensures r == a - b * tdiv(a as int, b as int), a >= 0 && b > 0 ==> r == a % b { unimplemented!() }
#[verifier::external_body] pub fn i32_abs(a: i32) -> (r: i32) requires a != i32::MIN ensures r == if a < 0 { -a } else { a as int } { unimplemented!() }
#[verifier::external_body] pub fn i32_amt(a: i32) -> (r: u32) requires 0 <= a < 64 ensures r == a { unimplemented!() }
pub fn i64_shl(a: i64, n: u32) -> (r: i64) requires a >= 0, n < 64, (a << n) >> n == a, (a << n) >= 0 ensures r == a << n { a << n }
pub fn i64_shr(a: i64, n: u32) -> (r: i64) requires n < 64 ensures r == a >> n { a >> n }
pub fn i64_or(a: i64, b: i64) -> (r: i64) ensures r == a | b { a | b }
pub fn i64_and(a: i64, b: i64) -> (r: i64) ensures r == a & b { a & b }
#[verifier::external_body] pub fn undef_i32() -> (r: i32) { unimplemented!() }
#[verifier::external_body] pub fn undef_i64() -> (r: i64) { unimplemented!() }
#[verifier::external_body] pub fn undef_u64() -> (r: u64) { unimplemented!() }
#[verifier::external_body] pub fn undef_bool() -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn undef_i8() -> (r: i8) { unimplemented!() }
#[verifier::external_body] pub fn undef_F64() -> (r: F64) { unimplemented!() }
#[verifier::external_body] pub fn v_throw() ensures false { unimplemented!() }
#[verifier::external_body] pub fn c_rand() -> (r: i32) ensures r >= 0 { unimplemented!() }

// ---- values
#[verifier::external_body] pub fn cp<T>(a: &T) -> (r: T) ensures r == *a { unimplemented!() }
#[verifier::external_body] pub fn v_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] pub fn opt_none<T>(a: &Option<T>) -> (r: bool) ensures r == (a is None) { unimplemented!() }
#[verifier::external_body] pub fn opt_val<T>(a: &Option<T>) -> (r: T) requires a is Some ensures r == a->Some_0 { unimplemented!() }

// ---- std::vector and std::string; fewer than 2^31 - 1 elements everywhere
#[verifier::external_body] pub fn v_new<T>() -> (r: Seq<T>) ensures r == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body] pub fn v_len<T>(s: &Seq<T>) -> (r: u64) ensures r == s.len(), r < 0x7fff_ffff { unimplemented!() }
#[verifier::external_body] pub fn v_len_i<T>(s: &Seq<T>) -> (r: i64) ensures r == s.len(), r < 0x7fff_ffff { unimplemented!() }
#[verifier::external_body] pub fn v_at<T>(s: &Seq<T>, i: u64) -> (r: T) requires i < s.len() ensures r == s[i as int] { unimplemented!() }
#[verifier::external_body] pub fn v_set<T>(s: &Seq<T>, i: u64, x: T) -> (r: Seq<T>) requires i < s.len() ensures r == s.update(i as int, x) { unimplemented!() }
#[verifier::external_body] pub fn v_push<T>(s: &Seq<T>, x: T) -> (r: Seq<T>) ensures r == s.push(x) { unimplemented!() }
#[verifier::external_body] pub fn v_pop<T>(s: &Seq<T>) -> (r: Seq<T>) requires s.len() > 0 ensures r == s.drop_last() { unimplemented!() }
#[verifier::external_body] pub fn v_resize<T>(s: &Seq<T>, n: u64, x: T) -> (r: Seq<T>) ensures r == Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { x }) { unimplemented!() }
#[verifier::external_body] pub fn v_fill<T>(n: u64, x: T) -> (r: Seq<T>) ensures r == Seq::new(n as nat, |i: int| x), n == 1 ==> r == seq![x] { unimplemented!() }
#[verifier::external_body] pub fn v_fill_range<T>(s: &Seq<T>, b: i64, e: i64, x: T) -> (r: Seq<T>) requires 0 <= b <= e <= s.len() ensures r == Seq::new(s.len(), |i: int| if b <= i < e { x } else { s[i] }) { unimplemented!() }
#[verifier::external_body] pub fn v_sub<T>(s: &Seq<T>, b: i64, e: i64) -> (r: Seq<T>) requires 0 <= b <= e <= s.len() ensures r == s.subrange(b as int, e as int) { unimplemented!() }
#[verifier::external_body] pub fn v_cat<T>(s: &Seq<T>, t: &Seq<T>) -> (r: Seq<T>) ensures r == *s + *t { unimplemented!() }
#[verifier::external_body] pub fn v_insert<T>(s: &Seq<T>, p: i64, t: &Seq<T>, b: i64, e: i64) -> (r: Seq<T>) requires 0 <= p <= s.len(), 0 <= b <= e <= t.len()
    ensures r == s.subrange(0, p as int) + t.subrange(b as int, e as int) + s.subrange(p as int, s.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn v_insert1<T>(s: &Seq<T>, p: i64, x: T) -> (r: Seq<T>) requires 0 <= p <= s.len() ensures r == s.insert(p as int, x) { unimplemented!() }
#[verifier::external_body] pub fn v_erase<T>(s: &Seq<T>, b: i64, e: i64) -> (r: Seq<T>) requires 0 <= b <= e <= s.len()
    ensures r == s.subrange(0, b as int) + s.subrange(e as int, s.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn v_reverse<T>(s: &Seq<T>, b: i64, e: i64) -> (r: Seq<T>) requires 0 <= b <= e <= s.len()
    ensures r == Seq::new(s.len(), |i: int| if b <= i < e { s[b + e - 1 - i] } else { s[i] }) { unimplemented!() }
#[verifier::external_body] pub fn str_lit(g: Ghost<Seq<i8>>) -> (r: Seq<i8>) ensures r == g@ { unimplemented!() }
#[verifier::external_body] pub fn find_in<T>(s: &Seq<T>, b: i64, e: i64, x: &T) -> (r: i64) requires 0 <= b <= e <= s.len()
    ensures b <= r <= e, r < e ==> s[r as int] == *x, forall|i: int| b <= i < r ==> s[i] != *x { unimplemented!() }

// std::mismatch: the second range must be readable as far as the comparison goes
pub open spec fn same_upto<T>(s: Seq<T>, b: int, t: Seq<T>, c: int, n: int) -> bool { forall|i: int| 0 <= i < n ==> b + i < s.len() && c + i < t.len() && s[b + i] == #[trigger] t[c + i] }
#[verifier::external_body] pub fn mismatch3<T>(s: &Seq<T>, b: i64, e: i64, t: &Seq<T>, c: i64) -> (r: i64)
    requires 0 <= b <= e <= s.len(), 0 <= c <= t.len(),
        e - b <= t.len() - c || exists|i: int| 0 <= i < e - b && i < t.len() - c && #[trigger] s[b + i] != t[c + i],
    ensures b <= r <= e, forall|i: int| 0 <= i < r - b ==> c + i < t.len() && s[b + i] == #[trigger] t[c + i], r < e ==> c + (r - b) < t.len() && s[r as int] != t[c + (r - b)],
        b == 0 && c == 0 ==> r <= t.len() && forall|i: int| 0 <= i < r ==> #[trigger] s[i] == t[i] { unimplemented!() }
#[verifier::external_body] pub fn mismatch4<T>(s: &Seq<T>, b: i64, e: i64, t: &Seq<T>, c: i64, f: i64) -> (r: i64)
    requires 0 <= b <= e <= s.len(), 0 <= c <= f <= t.len(),
    ensures b <= r <= e, r - b <= f - c, forall|i: int| 0 <= i < r - b ==> c + i < t.len() && s[b + i] == #[trigger] t[c + i], r < e && c + (r - b) < f ==> s[r as int] != t[c + (r - b)],
        b == 0 && c == 0 ==> r <= t.len() && forall|i: int| 0 <= i < r ==> #[trigger] s[i] == t[i] { unimplemented!() }

// ---- random draws: a default-seeded engine, std::gamma_distribution
#[verifier::external_body] pub struct Rng { x: u64 }
#[derive(Clone, Copy)] pub struct GammaDist { pub alpha: F64, pub beta: F64 }
pub uninterp spec fn rng0() -> Rng;
pub uninterp spec fn gdraw(g: Rng, a: F64, b: F64) -> F64;
pub uninterp spec fn gnext(g: Rng, a: F64, b: F64) -> Rng;
#[verifier::external_body] pub fn rng_new() -> (r: Rng) ensures r == rng0() { unimplemented!() }
#[verifier::external_body] pub fn rng_any() -> (r: Rng) { unimplemented!() }
#[verifier::external_body] pub fn gamma_draw(d: &GammaDist, g: &mut Rng) -> (r: F64) ensures r == gdraw(*old(g), d.alpha, d.beta), *final(g) == gnext(*old(g), d.alpha, d.beta) { unimplemented!() }

// ---- order on int sequences (std::vector<int>::operator<)
pub open spec fn lex_lt(a: Seq<i32>, b: Seq<i32>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if a[0] < b[0] { true } else if a[0] > b[0] { false }
    else { lex_lt(a.drop_first(), b.drop_first()) }
}
#[verifier::external_body] pub fn v_lex_lt(a: &Seq<i32>, b: &Seq<i32>) -> (r: bool) ensures r == lex_lt(*a, *b) { unimplemented!() }
pub open spec fn lex_sorted(s: Seq<Seq<i32>>, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> !lex_lt(#[trigger] s[j], #[trigger] s[i]) }
#[verifier::external_body] pub fn lower_bound_seq(s: &Seq<Seq<i32>>, b: i64, e: i64, x: &Seq<i32>) -> (r: i64)
    requires 0 <= b <= e <= s.len(), forall|i: int, j: int| b <= i < j < e ==> !lex_lt(#[trigger] s[j], #[trigger] s[i])
    ensures b <= r <= e, forall|i: int| b <= i < r ==> lex_lt(#[trigger] s[i], *x), forall|i: int| r <= i < e ==> !lex_lt(#[trigger] s[i], *x) { unimplemented!() }
#[verifier::external_body] pub fn upper_bound_seq(s: &Seq<Seq<i32>>, b: i64, e: i64, x: &Seq<i32>) -> (r: i64)
    requires 0 <= b <= e <= s.len(), forall|i: int, j: int| b <= i < j < e ==> !lex_lt(#[trigger] s[j], #[trigger] s[i])
    ensures b <= r <= e, forall|i: int| b <= i < r ==> !lex_lt(*x, #[trigger] s[i]), forall|i: int| r <= i < e ==> lex_lt(*x, #[trigger] s[i]) { unimplemented!() }
pub open spec fn is_perm<T>(s: Seq<T>, t: Seq<T>, p: Seq<int>) -> bool {
    &&& s.len() == t.len() && p.len() == s.len()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < p.len()
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> p[i] != p[j]
    &&& forall|i: int| 0 <= i < p.len() ==> t[i] == #[trigger] s[p[i]]
}
#[verifier::external_body] pub fn sort_seq(s: &Seq<Seq<i32>>) -> (r: Seq<Seq<i32>>)
    ensures r.to_multiset() == s.to_multiset(), lex_sorted(r, r.len() as int), exists|p: Seq<int>| is_perm(*s, r, p) { unimplemented!() }
// what std::sort asks of its comparison: a strict weak order on the elements (no NaN among keys)
pub open spec fn weak_order<T>(s: Seq<T>, lt: spec_fn(T, T) -> bool) -> bool {
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && lt(#[trigger] s[i], #[trigger] s[j]) ==> !lt(s[j], s[i])
    &&& forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && !lt(#[trigger] s[j], #[trigger] s[i]) && !lt(#[trigger] s[k], s[j]) ==> !lt(s[k], s[i])
}
#[verifier::external_body] pub fn sort_by<T>(s: &Seq<T>, lt: Ghost<spec_fn(T, T) -> bool>) -> (r: Seq<T>)
    requires weak_order(*s, lt@)
    ensures r.to_multiset() == s.to_multiset(), exists|p: Seq<int>| is_perm(*s, r, p), forall|i: int, j: int| 0 <= i < j < r.len() ==> !(lt@)(#[trigger] r[j], #[trigger] r[i]) { unimplemented!() }

// ---- std::accumulate
pub open spec fn sum_i32(s: Seq<i32>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_i32(s.drop_last()) + s.last() } }
pub open spec fn fsum_i32(s: Seq<i32>) -> F64 decreases s.len() { if s.len() == 0 { fofint(0) } else { fadd(fsum_i32(s.drop_last()), fofint(s.last() as int)) } }
pub open spec fn fsum_f(s: Seq<F64>, z: F64) -> F64 decreases s.len() { if s.len() == 0 { z } else { fadd(fsum_f(s.drop_last(), z), s.last()) } }
#[verifier::external_body] pub fn accumulate_i32_i32(s: &Seq<i32>, b: i64, e: i64, z: i32) -> (r: i32) requires 0 <= b <= e <= s.len()
    ensures -0x8000_0000 <= z + sum_i32(s.subrange(b as int, e as int)) < 0x8000_0000 ==> r == z + sum_i32(s.subrange(b as int, e as int)) { unimplemented!() }
#[verifier::external_body] pub fn accumulate_i32_F64(s: &Seq<i32>, b: i64, e: i64, z: F64) -> (r: F64) requires 0 <= b <= e <= s.len()
    ensures z == flit(0) || z == fofint(0) ==> r == fsum_i32(s.subrange(b as int, e as int)) { unimplemented!() }
#[verifier::external_body] pub fn accumulate_F64_F64(s: &Seq<F64>, b: i64, e: i64, z: F64) -> (r: F64) requires 0 <= b <= e <= s.len()
    ensures r == fsum_f(s.subrange(b as int, e as int), z) { unimplemented!() }

// ---- std::unordered_map / unordered_set: finite maps and sets, some iteration order
#[verifier::external_body] pub fn m_new<K, V>() -> (r: Map<K, V>) ensures r == Map::<K, V>::empty() { unimplemented!() }
#[verifier::external_body] pub fn m_len<K, V>(m: &Map<K, V>) -> (r: u64) ensures r == m.dom().len(), r < 0x7fff_ffff { unimplemented!() }
#[verifier::external_body] pub fn m_has<K, V>(m: &Map<K, V>, k: &K) -> (r: bool) ensures r == m.dom().contains(*k) { unimplemented!() }
#[verifier::external_body] pub fn m_at<K, V>(m: &Map<K, V>, k: &K) -> (r: V) requires m.dom().contains(*k) ensures r == m[*k] { unimplemented!() }
#[verifier::external_body] pub fn m_insert<K, V>(m: &Map<K, V>, k: &K, v: V) -> (r: Map<K, V>) ensures r == m.insert(*k, v) { unimplemented!() }
#[verifier::external_body] pub fn m_touch<K, V>(m: &Map<K, V>, k: &K, v: V) -> (r: Map<K, V>) ensures r == if m.dom().contains(*k) { *m } else { m.insert(*k, v) } { unimplemented!() }
#[verifier::external_body] pub fn m_emplace<K, V>(m: &Map<K, V>, k: &K, v: V) -> (r: Map<K, V>) ensures r == if m.dom().contains(*k) { *m } else { m.insert(*k, v) } { unimplemented!() }
#[verifier::external_body] pub fn m_remove<K, V>(m: &Map<K, V>, k: &K) -> (r: Map<K, V>) ensures r == m.remove(*k) { unimplemented!() }
#[verifier::external_body] pub fn m_pairs<K, V>(m: &Map<K, V>) -> (r: Seq<P2<K, V>>)
    ensures r.len() == m.dom().len(), r.len() < 0x7fff_ffff,
        forall|i: int| 0 <= i < r.len() ==> m.dom().contains((#[trigger] r[i]).first) && m[r[i].first] == r[i].second,
        forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).first != (#[trigger] r[j]).first,
        forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).first == k { unimplemented!() }
#[verifier::external_body] #[verifier::accept_recursive_types(K)] pub struct MIt<K> { k: core::marker::PhantomData<K> }
impl<K> MIt<K> { pub uninterp spec fn key(&self) -> Option<K>; }
#[verifier::external_body] pub fn m_find<K, V>(m: &Map<K, V>, k: &K) -> (r: MIt<K>) ensures r.key() == if m.dom().contains(*k) { Some(*k) } else { None } { unimplemented!() }
#[verifier::external_body] pub fn s_find<K>(m: &Set<K>, k: &K) -> (r: MIt<K>) ensures r.key() == if m.contains(*k) { Some(*k) } else { None } { unimplemented!() }
#[verifier::external_body] pub fn mit_at<K>(k: &K) -> (r: MIt<K>) ensures r.key() == Some(*k) { unimplemented!() }
#[verifier::external_body] pub fn mit_end<K>(i: &MIt<K>) -> (r: bool) ensures r == (i.key() is None) { unimplemented!() }
#[verifier::external_body] pub fn mit_deref<K, V>(m: &Map<K, V>, i: &MIt<K>) -> (r: P2<K, V>) requires i.key() is Some, m.dom().contains(i.key()->Some_0)
    ensures r.first == i.key()->Some_0, r.second == m[i.key()->Some_0] { unimplemented!() }
#[verifier::external_body] pub fn mit_write<K, V>(m: &Map<K, V>, i: &MIt<K>, v: V) -> (r: Map<K, V>) requires i.key() is Some, m.dom().contains(i.key()->Some_0)
    ensures r == m.insert(i.key()->Some_0, v) { unimplemented!() }
#[verifier::external_body] pub fn sit_deref<K>(m: &Set<K>, i: &MIt<K>) -> (r: K) requires i.key() is Some, m.contains(i.key()->Some_0) ensures r == i.key()->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn s_new<K>() -> (r: Set<K>) ensures r == Set::<K>::empty() { unimplemented!() }
#[verifier::external_body] pub fn s_len<K>(s: &Set<K>) -> (r: u64) ensures r == s.len(), r < 0x7fff_ffff { unimplemented!() }
#[verifier::external_body] pub fn s_has<K>(s: &Set<K>, k: &K) -> (r: bool) ensures r == s.contains(*k) { unimplemented!() }
#[verifier::external_body] pub fn s_insert<K>(s: &Set<K>, k: &K) -> (r: Set<K>) ensures r == s.insert(*k) { unimplemented!() }
#[verifier::external_body] pub fn s_remove<K>(s: &Set<K>, k: &K) -> (r: Set<K>) ensures r == s.remove(*k) { unimplemented!() }
#[verifier::external_body] pub fn s_elems<K>(s: &Set<K>) -> (r: Seq<K>)
    ensures r.len() == s.len(), r.len() < 0x7fff_ffff, forall|i: int| 0 <= i < r.len() ==> s.contains(#[trigger] r[i]),
        forall|i: int, j: int| 0 <= i < j < r.len() ==> #[trigger] r[i] != #[trigger] r[j],
        forall|k: K| #[trigger] s.contains(k) ==> exists|i: int| 0 <= i < r.len() && #[trigger] r[i] == k { unimplemented!() }

// ---- characters ("C" locale; bytes outside ASCII are neither letters nor digits)
pub open spec fn is_digit(c: int) -> bool { 48 <= c <= 57 }
pub open spec fn is_upper(c: int) -> bool { 65 <= c <= 90 }
pub open spec fn is_lower(c: int) -> bool { 97 <= c <= 122 }
pub open spec fn is_alnum(c: int) -> bool { is_digit(c) || is_upper(c) || is_lower(c) }
pub open spec fn to_lower(c: int) -> int { if is_upper(c) { c + 32 } else { c } }
pub open spec fn to_upper(c: int) -> int { if is_lower(c) { c - 32 } else { c } }
#[verifier::external_body] pub fn c_isalnum(c: i32) -> (r: i32) requires -128 <= c < 256 ensures (r != 0) == is_alnum(c as int) { unimplemented!() }
#[verifier::external_body] pub fn c_isalpha(c: i32) -> (r: i32) requires -128 <= c < 256 ensures (r != 0) == (is_upper(c as int) || is_lower(c as int)) { unimplemented!() }
#[verifier::external_body] pub fn c_isdigit(c: i32) -> (r: i32) requires -128 <= c < 256 ensures (r != 0) == is_digit(c as int) { unimplemented!() }
#[verifier::external_body] pub fn c_isupper(c: i32) -> (r: i32) requires -128 <= c < 256 ensures (r != 0) == is_upper(c as int) { unimplemented!() }
#[verifier::external_body] pub fn c_islower(c: i32) -> (r: i32) requires -128 <= c < 256 ensures (r != 0) == is_lower(c as int) { unimplemented!() }
#[verifier::external_body] pub fn c_isspace(c: i32) -> (r: i32) requires -128 <= c < 256 ensures (r != 0) == (c == 32 || 9 <= c <= 13) { unimplemented!() }
#[verifier::external_body] pub fn c_tolower(c: i32) -> (r: i32) requires -128 <= c < 256 ensures r == to_lower(c as int) { unimplemented!() }
#[verifier::external_body] pub fn c_toupper(c: i32) -> (r: i32) requires -128 <= c < 256 ensures r == to_upper(c as int) { unimplemented!() }
#[verifier::external_body] pub fn transform_tolower(s: &Seq<i8>, e: i64) -> (r: Seq<i8>) requires 0 <= e <= s.len()
    ensures r == Seq::new(s.len(), |i: int| if i < e { to_lower(s[i] as int) as i8 } else { s[i] }) { unimplemented!() }
// std::to_string(int) and operator<<(int): the decimal digits
pub uninterp spec fn dec(x: int) -> Seq<i8>;
#[verifier::external_body] pub fn dec_i32(x: i32) -> (r: Seq<i8>) ensures r == dec(x as int) { unimplemented!() }
#[verifier::external_body] pub fn dec_u64(x: u64) -> (r: Seq<i8>) ensures r == dec(x as int) { unimplemented!() }
