// nlohmann::json as the code uses it: values, and files that hold one value each
pub enum Json { Null, Bool(bool), Int(i64), Real(F64), Str(Seq<i8>), Arr(Seq<Json>), Obj(Map<Seq<i8>, Json>) }
pub uninterp spec fn utf8(s: Seq<i8>) -> bool;
pub uninterp spec fn ffinite(x: F64) -> bool;
pub broadcast axiom fn ascii_utf8(s: Seq<i8>) requires forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] ensures #[trigger] utf8(s);
// what a text can hold: finite numbers and UTF-8 strings
pub open spec fn textual(j: Json) -> bool decreases j {
    match j {
        Json::Real(x) => ffinite(x),
        Json::Str(s) => utf8(s),
        Json::Arr(a) => forall|i: int| 0 <= i < a.len() ==> textual(#[trigger] a[i]),
        Json::Obj(m) => forall|k: Seq<i8>| #[trigger] m.dom().contains(k) ==> utf8(k) && textual(m[k]),
        _ => true,
    }
}
// a list: an array, or null where nothing was ever added
pub open spec fn is_list(j: Json) -> bool { j is Null || j is Arr }
pub open spec fn jarr(j: Json) -> Seq<Json> { match j { Json::Arr(a) => a, _ => Seq::empty() } }
pub open spec fn jobj(j: Json) -> Map<Seq<i8>, Json> { match j { Json::Obj(m) => m, _ => Map::empty() } }
pub open spec fn is_i32(j: Json) -> bool { j is Int && -0x8000_0000 <= j->Int_0 < 0x8000_0000 }
pub open spec fn i32_of(j: Json) -> i32 { match j { Json::Int(x) => x as i32, _ => 0 } }
pub open spec fn real_of(j: Json) -> F64 { match j { Json::Real(x) => x, Json::Int(x) => fofint(x as int), _ => fofint(0) } }
pub open spec fn bool_of(j: Json) -> bool { match j { Json::Bool(x) => x, _ => false } }
pub open spec fn str_of(j: Json) -> Seq<i8> { match j { Json::Str(x) => x, _ => Seq::empty() } }
pub open spec fn are_ints(j: Json) -> bool { j is Arr && forall|i: int| 0 <= i < jarr(j).len() ==> is_i32(#[trigger] jarr(j)[i]) }
pub open spec fn ints_of(j: Json) -> Seq<i32> { Seq::new(jarr(j).len(), |i: int| i32_of(jarr(j)[i])) }
pub open spec fn jints(s: Seq<i32>) -> Json { Json::Arr(Seq::new(s.len(), |i: int| Json::Int(s[i] as i64))) }
#[verifier::external_body] pub fn j_null() -> (r: Json) ensures r == Json::Null { unimplemented!() }
#[verifier::external_body] pub fn j_bool(x: bool) -> (r: Json) ensures r == Json::Bool(x) { unimplemented!() }
#[verifier::external_body] pub fn j_int(x: i32) -> (r: Json) ensures r == Json::Int(x as i64) { unimplemented!() }
#[verifier::external_body] pub fn j_u64(x: u64) -> (r: Json) requires x < 0x7fff_ffff_ffff_ffff ensures r == Json::Int(x as i64) { unimplemented!() }
#[verifier::external_body] pub fn j_real(x: F64) -> (r: Json) ensures r == Json::Real(x) { unimplemented!() }
#[verifier::external_body] pub fn j_str(x: &Seq<i8>) -> (r: Json) ensures r == Json::Str(*x) { unimplemented!() }
#[verifier::external_body] pub fn j_ints(x: &Seq<i32>) -> (r: Json) ensures r == jints(*x) { unimplemented!() }
// operator[] of a value that may change: null becomes an object, a missing key holds null
#[verifier::external_body] pub fn j_touch(j: &Json, k: &Seq<i8>) -> (r: Json) requires *j is Null || *j is Obj
    ensures r == Json::Obj(if jobj(*j).dom().contains(*k) { jobj(*j) } else { jobj(*j).insert(*k, Json::Null) }) { unimplemented!() }
#[verifier::external_body] pub fn j_at(j: &Json, k: &Seq<i8>) -> (r: Json) requires *j is Obj, jobj(*j).dom().contains(*k) ensures r == jobj(*j)[*k] { unimplemented!() }
#[verifier::external_body] pub fn j_insert(j: &Json, k: &Seq<i8>, v: Json) -> (r: Json) requires *j is Obj ensures r == Json::Obj(jobj(*j).insert(*k, v)) { unimplemented!() }
#[verifier::external_body] pub fn j_has(j: &Json, k: &Seq<i8>) -> (r: bool) ensures r == jobj(*j).dom().contains(*k) { unimplemented!() }
#[verifier::external_body] pub fn j_push(j: &Json, v: Json) -> (r: Json) requires is_list(*j) ensures r == Json::Arr(jarr(*j).push(v)) { unimplemented!() }
#[verifier::external_body] pub fn j_items(j: &Json) -> (r: Seq<Json>) requires is_list(*j) ensures r == jarr(*j) { unimplemented!() }
#[verifier::external_body] pub fn j_len(j: &Json) -> (r: u64) requires is_list(*j) ensures r == jarr(*j).len() { unimplemented!() }
#[verifier::external_body] pub fn j_is_null(j: &Json) -> (r: bool) ensures r == (*j is Null) { unimplemented!() }
#[verifier::external_body] pub fn j_get_i32(j: &Json) -> (r: i32) requires is_i32(*j) ensures r == i32_of(*j) { unimplemented!() }
#[verifier::external_body] pub fn j_get_F64(j: &Json) -> (r: F64) requires *j is Real || *j is Int ensures r == real_of(*j) { unimplemented!() }
#[verifier::external_body] pub fn j_get_bool(j: &Json) -> (r: bool) requires *j is Bool ensures r == bool_of(*j) { unimplemented!() }
#[verifier::external_body] pub fn j_get_str(j: &Json) -> (r: Seq<i8>) requires *j is Str ensures r == str_of(*j) { unimplemented!() }
#[verifier::external_body] pub fn j_get_ints(j: &Json) -> (r: Seq<i32>) requires are_ints(*j) ensures r == ints_of(*j) { unimplemented!() }
// order of std::pair
pub open spec fn plt_seq(a: P2<Seq<i32>, i32>, b: P2<Seq<i32>, i32>) -> bool { lex_lt(a.first, b.first) || !lex_lt(b.first, a.first) && a.second < b.second }
pub open spec fn plt_i32(a: P2<i32, i32>, b: P2<i32, i32>) -> bool { a.first < b.first || a.first == b.first && a.second < b.second }
#[verifier::external_body] pub fn p_lt(a: &P2<Seq<i32>, i32>, b: &P2<Seq<i32>, i32>) -> (r: bool) ensures r == plt_seq(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn sort_seq_i32(s: &Seq<P2<Seq<i32>, i32>>) -> (r: Seq<P2<Seq<i32>, i32>>)
    ensures exists|p: Seq<int>| is_perm(*s, r, p), forall|i: int, j: int| 0 <= i < j < r.len() ==> !plt_seq(#[trigger] r[j], #[trigger] r[i]) { unimplemented!() }
#[verifier::external_body] pub fn sort_i32_i32(s: &Seq<P2<i32, i32>>) -> (r: Seq<P2<i32, i32>>)
    ensures exists|p: Seq<int>| is_perm(*s, r, p), forall|i: int, j: int| 0 <= i < j < r.len() ==> !plt_i32(#[trigger] r[j], #[trigger] r[i]) { unimplemented!() }
// files: opening for writing empties the file; a value written is the value read
#[verifier::external_body] pub fn f_open(h: &mut Heap, name: &Seq<i8>) ensures *final(h) == (Heap { m_files: old(h).m_files.remove(*name), ..*old(h) }) { unimplemented!() }
#[verifier::external_body] pub fn f_write(h: &mut Heap, name: &Seq<i8>, j: &Json) requires !old(h).m_files.dom().contains(*name), textual(*j)
    ensures *final(h) == (Heap { m_files: old(h).m_files.insert(*name, *j), ..*old(h) }) { unimplemented!() }
#[verifier::external_body] pub fn f_read(h: &Heap, name: &Seq<i8>) -> (r: Json) requires h.m_files.dom().contains(*name) ensures r == h.m_files[*name] { unimplemented!() }
