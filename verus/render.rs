// the first n elements, each followed by a space
pub open spec fn spaced(s: Seq<i32>, n: int) -> Seq<i8> decreases n { if n <= 0 { Seq::empty() } else { spaced(s, n - 1) + dec(s[n - 1] as int) + seq![32i8] } }
pub open spec fn list_text(s: Seq<i32>) -> Seq<i8> {
    if s.len() == 0 { seq![40i8, 41i8] } else { seq![40i8] + spaced(s, s.len() - 1) + dec(s.last() as int) + seq![41i8] }
}
