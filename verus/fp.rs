// facts of IEEE double arithmetic: order, monotone rounding, magnitudes. Every external_body function whose name
// starts with ax_ is proved from Flocq's binary64 in coq/ (except those listed there as assumed of log and of the generator)
pub uninterp spec fn fin_nonneg(t: F64) -> bool;      // finite and not negative
pub uninterp spec fn is_term(t: F64) -> bool;         // |t| < 2000
pub uninterp spec fn mag_le(s: F64, k: int) -> bool;  // |s| <= 4000 * k
#[verifier::external_body] pub proof fn ax_le_trans(a: F64, b: F64, c: F64) ensures fnum(b) && !flt(b, a) && !flt(c, b) ==> !flt(c, a) {}
#[verifier::external_body] pub proof fn ax_nn_lt(a: F64, b: F64) ensures flt(a, b) ==> fnum(a) && fnum(b) {}
#[verifier::external_body] pub proof fn ax_nn_ends() ensures fnum(flowest()) && fnum(fmax()) {}
#[verifier::external_body] pub proof fn ax_nn_mag(s: F64, k: int) ensures mag_le(s, k) ==> fnum(s) {}
#[verifier::external_body] pub proof fn ax_lt_asym(a: F64, b: F64) ensures flt(a, b) ==> !flt(b, a) {}
#[verifier::external_body] pub proof fn ax_add_mono(a: F64, b: F64, t: F64) ensures !flt(b, a) ==> !flt(fadd(b, t), fadd(a, t)) {}
#[verifier::external_body] pub proof fn ax_mag_zero() ensures mag_le(fofint(0), 0) {}
#[verifier::external_body] pub proof fn ax_mag_add(s: F64, k: int, t: F64) ensures mag_le(s, k) && 0 <= k < 0x8000_0000 && is_term(t) ==> mag_le(fadd(s, t), k + 1) {}
#[verifier::external_body] pub proof fn ax_mag_mono(s: F64, k: int, j: int) ensures mag_le(s, k) && k <= j ==> mag_le(s, j) {}
#[verifier::external_body] pub proof fn ax_mag_high(s: F64, k: int) ensures mag_le(s, k) && k <= 0x8000_0000 ==> flt(flowest(), s) {}
#[verifier::external_body] pub proof fn ax_absorb(t: F64) ensures is_term(t) ==> fadd(flowest(), t) == flowest() {}
#[verifier::external_body] pub proof fn ax_term(f: int, t: F64, n: int) ensures 0 <= f < 0x8000_0000 && fin_nonneg(t) && 1 <= n < 0x8000_0000 ==> is_term(fsub(flog(fofint(f + 1)), flog(fadd(t, fofint(n))))) && is_term(fsub(fofint(0), flog(fadd(t, fofint(n))))) {}
// a comparison that holds was between numbers
pub broadcast proof fn by_lt_le(a: F64, b: F64, c: F64) requires #[trigger] flt(a, b), !#[trigger] flt(c, b) ensures !flt(c, a) { ax_nn_lt(a, b); ax_lt_asym(a, b); ax_le_trans(a, b, c); }
pub broadcast proof fn by_lt_asym(a: F64, b: F64) requires #[trigger] flt(a, b) ensures !flt(b, a) { ax_lt_asym(a, b); }
pub broadcast proof fn by_nn_mag(s: F64, k: int) requires #[trigger] mag_le(s, k) ensures fnum(s) { ax_nn_mag(s, k); }
pub broadcast group order_rules { by_lt_le, by_lt_asym, by_nn_mag }
pub uninterp spec fn fin_upto(x: F64, m: int) -> bool;   // a number between 0 and m * 2^31
#[verifier::external_body] pub proof fn ax_upto_int(n: int, m: int) ensures 0 <= n <= m * 0x8000_0000 && m < 0x1_0000_0000 ==> fin_upto(fofint(n), m) {}
#[verifier::external_body] pub proof fn ax_upto_add(x: F64, a: int, y: F64, b: int) ensures fin_upto(x, a) && fin_upto(y, b) && 0 <= a && 0 <= b && a + b < 0x1_0000_0000_0000 ==> fin_upto(fadd(x, y), a + b) {}
#[verifier::external_body] pub proof fn ax_upto_more(x: F64, a: int, b: int) ensures fin_upto(x, a) && a <= b ==> fin_upto(x, b) {}
#[verifier::external_body] pub proof fn ax_upto_fin(x: F64, m: int) ensures fin_upto(x, m) && m < 0x1_0000_0000_0000 ==> fin_nonneg(x) {}
#[verifier::external_body] pub proof fn ax_nn_quot(n: int, y: F64, m: int) ensures 1 <= n < 0x8000_0000 && fin_upto(y, m) ==> fnum(fdiv(fofint(n), y)) {}
#[verifier::external_body] pub broadcast proof fn ax_add_comm(a: F64, b: F64) ensures #[trigger] fadd(a, b) == fadd(b, a) {}
#[verifier::external_body] pub broadcast proof fn ax_mul_comm(a: F64, b: F64) ensures #[trigger] fmul(a, b) == fmul(b, a) {}
#[verifier::external_body] pub broadcast proof fn ax_sub_neg(a: F64, b: F64) ensures #[trigger] fadd(a, fneg(b)) == fsub(a, b) {}
pub broadcast group comm_rules { ax_add_comm, ax_mul_comm, ax_sub_neg }
