(* What the symbols of the assumed facts in verus/*.rs mean: IEEE 754 binary64 in round-to-nearest-even, as Flocq defines it.
   NaNs are one value. What stays assumed is stated at the end: the accuracy of log, and the range of gamma draws. *)
From Coq Require Import ZArith Reals.
From Flocq Require Import Core.Core IEEE754.BinarySingleNaN IEEE754.Bits IEEE754.Binary.
Local Open Scope R_scope.
Definition F64 := BinarySingleNaN.binary_float 53 1024.
Definition prec_ok : Prec_gt_0 53 := eq_refl.
Definition emax_ok : Prec_lt_emax 53 1024 := eq_refl.
#[global] Existing Instance prec_ok.
#[global] Existing Instance emax_ok.
Notation B2R := (@BinarySingleNaN.B2R 53 1024).
Notation finite := (@BinarySingleNaN.is_finite 53 1024).
Notation nan := (@BinarySingleNaN.is_nan 53 1024).
Definition fadd (a b : F64) : F64 := BinarySingleNaN.Bplus mode_NE a b.
Definition fsub (a b : F64) : F64 := BinarySingleNaN.Bminus mode_NE a b.
Definition fmul (a b : F64) : F64 := BinarySingleNaN.Bmult mode_NE a b.
Definition fdiv (a b : F64) : F64 := BinarySingleNaN.Bdiv mode_NE a b.
Definition fneg (a : F64) : F64 := BinarySingleNaN.Bopp a.
Definition flt (a b : F64) : Prop := BinarySingleNaN.Bltb a b = true.
Definition fofint (z : Z) : F64 := BinarySingleNaN.binary_normalize 53 1024 _ _ mode_NE z 0 false.
Definition fmax : F64 := BinarySingleNaN.Bmax_float.
Definition flowest : F64 := BinarySingleNaN.Bopp fmax.
Definition ftoint (a : F64) : Z := BinarySingleNaN.Btrunc a.
Definition flit (bits : Z) : F64 := B2BSN 53 1024 (b64_of_bits bits).
(* predicates *)
Definition fnum (a : F64) : Prop := nan a = false.
Definition fin_nonneg (t : F64) : Prop := finite t = true /\ 0 <= B2R t.
Definition is_term (t : F64) : Prop := finite t = true /\ Rabs (B2R t) < 2000.
Definition mag_le (s : F64) (k : Z) : Prop := finite s = true /\ Rabs (B2R s) <= IZR (4000 * k).
Definition fin_upto (x : F64) (m : Z) : Prop := finite x = true /\ 0 <= B2R x <= IZR m * bpow radix2 31.
Definition lim (x : F64) (m : Z) : Prop := nan x = true \/ (finite x = true /\ Rabs (B2R x) <= IZR m * bpow radix2 72).
Definition word (x : F64) : Prop := nan x = true \/ (finite x = true /\ Rabs (B2R x) <= bpow radix2 65).
Definition mag (x : F64) (k : Z) : Prop := finite x = true /\ Rabs (B2R x) <= bpow radix2 k.
Definition rng (x : F64) (lo hi : Z) : Prop := finite x = true /\ bpow radix2 (- lo) <= B2R x <= bpow radix2 hi.
(* the C library's log: within 1 of the logarithm on positive numbers, -infinity at zero, NaN below zero *)
Parameter flog : F64 -> F64.
Axiom log_near : forall x, finite x = true -> 0 < B2R x -> finite (flog x) = true /\ Rabs (B2R (flog x) - ln (B2R x)) <= 1.
Axiom log_zero : forall s, flog (BinarySingleNaN.B754_zero s) = BinarySingleNaN.B754_infinity true.
Axiom log_below : forall x, flt x (BinarySingleNaN.B754_zero false) -> nan (flog x) = true.
(* the random generator and std::gamma_distribution *)
Parameter Gen : Type.
Parameter gdraw : Gen -> F64 -> F64 -> F64.
Parameter gnext : Gen -> F64 -> F64 -> Gen.
Axiom draw_range : forall g n, (1 <= n < 4503599627370497)%Z -> rng (gdraw g (fofint n) (fofint 1)) 161 64.
Axiom draw_nonneg : forall g a, flt (fofint 0) a -> ~ flt (gdraw g a (fofint 1)) (fofint 0).
