// the generator after n draws, the draws, their sum in order
pub open spec fn after(g: Rng, p: Seq<F64>, n: int) -> Rng decreases n { if n <= 0 { g } else { gnext(after(g, p, n - 1), p[n - 1], fofint(1)) } }
pub open spec fn draw(g: Rng, p: Seq<F64>, i: int) -> F64 { gdraw(after(g, p, i), p[i], fofint(1)) }
pub open spec fn sum_of(g: Rng, p: Seq<F64>, n: int) -> F64 decreases n { if n <= 0 { fofint(0) } else { fadd(sum_of(g, p, n - 1), draw(g, p, n - 1)) } }
// d over t, as a product with the inverse or as a quotient
pub open spec fn share(x: F64, d: F64, t: F64) -> bool { x == fmul(d, fdiv(fofint(1), t)) || x == fdiv(d, t) }
pub open spec fn sample_of(g: Rng, p: Seq<F64>, o: Seq<F64>) -> bool { forall|i: int| 0 <= i < p.len() ==> share(#[trigger] o[i], draw(g, p, i), sum_of(g, p, p.len() as int)) }
// a gamma draw is not negative; a non-negative number over a positive one is not negative
#[verifier::external_body] pub proof fn ax_draw(g: Rng, a: F64) ensures flt(fofint(0), a) ==> !flt(gdraw(g, a, fofint(1)), fofint(0)) {}
#[verifier::external_body] pub proof fn ax_share(x: F64, d: F64, t: F64) ensures share(x, d, t) && !flt(d, fofint(0)) && flt(fofint(0), t) ==> !flt(x, fofint(0)) {}
