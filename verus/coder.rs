impl SeqCoder {
    pub open spec fn wf(&self) -> bool { inverse(self.forward_code_, self.backward_code_) }
}
// the symbols a coder has seen
pub open spec fn seen(c: SeqCoder) -> spec_fn(i32) -> bool { |x: i32| c.forward_code_.dom().contains(x) }
pub open spec fn codes_of(m: Map<i32, i32>, s: Seq<i32>) -> Seq<i32> { Seq::new(s.len(), |i: int| m[s[i]]) }
// the guarantees of C07 and C08, over any history: consequences of the contracts alone
pub proof fn seq_coder_round_trip(f: Map<i32, i32>, b: Map<i32, i32>, s: Seq<i32>, d: Seq<i32>)
    requires inverse(f, b), forall|i: int| 0 <= i < s.len() ==> f.dom().contains(#[trigger] s[i]), d == codes_of(b, codes_of(f, s))
    ensures d == s, injective(f)
{
    assert forall|i: int| 0 <= i < s.len() implies d[i] == s[i] by { assert(f.dom().contains(s[i])); }
    assert(d =~= s);
}
