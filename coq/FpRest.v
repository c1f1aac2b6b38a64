(* Sums of counts, shares, scaled counts; what is assumed. *)
From Coq Require Import ZArith Reals Lia Lra Bool Psatz.
From Flocq Require Import Core.Core Relative IEEE754.BinarySingleNaN IEEE754.Bits.
From Flocq Require IEEE754.Binary.
Require Import FpModel Statements FpOrder FpBounds FpScores.
Local Open Scope R_scope.
Lemma upto_fmt : forall m, (0 <= m < 281474976710656)%Z -> fmt (IZR m * pw 31) /\ IZR m * pw 31 < pw 1024.
Proof.
  intros m H. split. apply fmt_int_pw'; lia.
  apply Rle_lt_trans with (pw 53 * pw 31). apply Rmult_le_compat_r. apply bpow_ge_0. change (pw 53) with (IZR (2 ^ 53)). apply IZR_le. lia.
  rewrite <- bpow_plus. apply bpow_lt. lia.
Qed.
Theorem ax_upto_int : st_ax_upto_int.
Proof.
  intros n m [[Hn L] Hm]. destruct (upto_fmt m) as [P Q]. lia.
  assert (B : Rabs (IZR n) <= IZR m * pw 31). { rewrite <- abs_IZR. change (pw 31) with (IZR 2147483648). rewrite <- mult_IZR. apply IZR_le. lia. }
  destruct (int_ok n _ P Q B) as [F [R [K _]]]. split; auto. apply Rabs_in in K. split; try lra.
  rewrite R. apply rnd_ge. apply generic_format_0. apply IZR_le. auto.
Qed.
Theorem ax_upto_add : st_ax_upto_add.
Proof.
  intros x a y b [[[[[Fx Hx] [Fy Hy]] Ha] Hb] L]. destruct (upto_fmt (a + b)) as [P Q]. lia.
  destruct (add_ok x y (IZR (a + b) * pw 31)) as [A [R B]]; auto.
  - rewrite Rabs_pos_eq, plus_IZR; lra.
  - split; auto. apply Rabs_in in B. split; try lra. rewrite R. apply rnd_ge. apply generic_format_0. lra.
Qed.
Theorem ax_upto_more : st_ax_upto_more.
Proof. intros x a b [[F H] L]. split; auto. split. lra. apply Rle_trans with (1 := proj2 H). apply Rmult_le_compat_r. apply bpow_ge_0. apply IZR_le. auto. Qed.
Theorem ax_upto_fin : st_ax_upto_fin.
Proof. intros x m [[F H] _]. split; auto. lra. Qed.
Lemma zero_of : forall x : F64, finite x = true -> B2R x = 0 -> exists s, x = B754_zero s.
Proof.
  intros [s | s | | s m e K] F E; try discriminate. exists s; auto.
  exfalso. destruct s; [ apply (Rlt_not_eq _ _ (F2R_lt_0 radix2 (Float radix2 (Zneg m) e) eq_refl)) | apply (Rgt_not_eq _ _ (F2R_gt_0 radix2 (Float radix2 (Zpos m) e) eq_refl)) ]; exact E.
Qed.
Theorem ax_nn_quot : st_ax_nn_quot.
Proof.
  intros n y m [Hn [Fy Hy]]. destruct (int_exact n) as [F [R _]]. lia.
  destruct (Req_dec (B2R y) 0) as [E | E].
  - destruct (zero_of y Fy E) as [s ->]. unfold fnum, fdiv. destruct (fofint n) as [s' | s' | | s' k e K]; try discriminate; try reflexivity.
    exfalso. simpl in R. symmetry in R. apply eq_IZR in R. lia.
  - generalize (Bdiv_correct 53 1024 _ _ mode_NE (fofint n) y E). simpl round_mode. fold (fdiv (fofint n) y).
    case Rlt_bool_spec; intros _ K. destruct K as [_ [K _]]. apply finite_num. congruence.
    apply sf_inf in K. rewrite K. reflexivity.
Qed.
Lemma div_by_zero : forall c : F64, nan (fmul c (B754_nan)) = true.
Proof. destruct c; reflexivity. Qed.
Theorem ax_lim_div : st_ax_lim_div.
Proof.
  intros x m c [[[N | [F H]] Hm] Hc]. left. apply nan_is in N. subst. unfold fdiv, fmul. destruct (fofint c); reflexivity.
  destruct (int_exact c) as [Fc [Rc _]]. lia.
  destruct (Z.eq_dec c 0) as [Z0 | NZ].
  { left. rewrite Z0. destruct x as [s | s | | s k e K]; try discriminate; reflexivity. }
  assert (C1 : 1 <= IZR c) by (apply IZR_le; lia). assert (C2 : IZR c < pw 52). { change (pw 52) with (IZR (2 ^ 52)). apply IZR_lt. lia. }
  assert (NC : B2R (fofint c) <> 0) by (rewrite Rc; lra).
  destruct (Z.eq_dec m 0) as [M0 | NM].
  { assert (X0 : B2R x = 0). { rewrite M0 in H. simpl in H. rewrite Rmult_0_l in H. apply Rabs_in in H. lra. }
    destruct (div_ok x (fofint c) 0) as [A [_ B]]; auto. apply generic_format_0. apply bpow_gt_0. rewrite X0. unfold Rdiv. rewrite Rmult_0_l, Rabs_R0. lra.
    assert (Q0 : B2R (fdiv x (fofint c)) = 0) by (apply Rabs_in in B; lra).
    destruct (mul_ok (fdiv x (fofint c)) (fofint c) 0) as [D [_ G]]; auto. apply generic_format_0. apply bpow_gt_0. rewrite Q0, Rmult_0_l, Rabs_R0. lra.
    right. split; auto. rewrite M0. simpl. lra. }
  assert (M1 : 1 <= IZR m) by (apply IZR_le; lia).
  set (T := IZR m * pw 72) in *.
  assert (T1 : pw 72 <= T). { unfold T. pose proof (bpow_gt_0 radix2 72). nra. }
  destruct (lim_fmt m) as [P Q]. lia. fold T in P, Q.
  assert (I : 0 < / IZR c <= 1). { split. apply Rinv_0_lt_compat; lra. rewrite <- Rinv_1. apply Rinv_le; lra. }
  assert (X : Rabs (B2R x / IZR c) <= T / IZR c). { unfold Rdiv. rewrite Rabs_mult, (Rabs_pos_eq (/ IZR c)) by lra. apply Rmult_le_compat_r; lra. }
  assert (TC : 0 < T / IZR c <= T). { pose proof (bpow_gt_0 radix2 72). unfold Rdiv. split. apply Rmult_lt_0_compat; lra. nra. }
  destruct (div_ok x (fofint c) T) as [A [R B]]; auto. rewrite Rc. lra.
  (* rounding T / c loses at most half of it *)
  assert (Y : Rabs (B2R (fdiv x (fofint c))) <= 2 * (T / IZR c)).
  { rewrite R, Rc. apply Rle_trans with (rnd (T / IZR c)).
    - rewrite <- round_NE_abs by auto with typeclass_instances. apply rnd_le. auto.
    - assert (G : pw (-1074 + 53 - 1) <= Rabs (T / IZR c)).
      { rewrite Rabs_pos_eq by lra. apply Rle_trans with (pw 72 * / pw 52). rewrite <- bpow_opp, <- bpow_plus. apply bpow_le. lia.
        unfold Rdiv. apply Rmult_le_compat; try lra. apply bpow_ge_0. apply Rlt_le, Rinv_0_lt_compat, bpow_gt_0. apply Rinv_le; lra. }
      pose proof (relative_error_N_FLT radix2 (-1074) 53 ltac:(reflexivity) (fun x => negb (Z.even x)) (T / IZR c) G) as D.
      change (FLT_exp (-1074) 53) with fexp64 in D. fold ZnearestE in D. apply Rabs_in in D. rewrite (Rabs_pos_eq (T / IZR c)) in D by lra.
      assert (/ 2 * pw (- (53) + 1) <= 1). { assert (pw (- (53) + 1) <= 1) by (apply pw_le1; lia). lra. }
      pose proof (bpow_gt_0 radix2 (- (53) + 1)). nra. }
  destruct (mul_ok (fdiv x (fofint c)) (fofint c) (IZR (2 * m) * pw 72)) as [D [_ G]]; auto.
  - apply fmt_int_pw'; lia.
  - apply lim_fmt. lia.
  - rewrite Rabs_mult, Rc, (Rabs_pos_eq (IZR c)) by lra. rewrite mult_IZR. replace (IZR 2 * IZR m * pw 72) with (2 * (T / IZR c) * IZR c). apply Rmult_le_compat_r; lra.
    unfold T. field. lra.
  - right. auto.
Qed.
(* ---- shares of a total *)
Definition notneg (x : F64) : Prop := match x with B754_nan => True | B754_infinity s => s = false | _ => 0 <= B2R x end.
Lemma notneg_flt : forall x, notneg x -> ~ flt x zero.
Proof.
  intros x N H. destruct (flt_num _ _ H) as [P _]. apply flt_val in H; [ | exact P | reflexivity ]. simpl in H.
  assert (0 < pw 1025) by apply bpow_gt_0. destruct x as [s | s | | s m e K]; simpl in *; try lra; try discriminate. subst s. lra.
Qed.
Lemma flt_notneg : forall x, ~ flt x zero -> notneg x.
Proof.
  intros x N. destruct x as [s | s | | s m e K]; simpl; auto; try lra.
  - destruct s; auto. elim N. reflexivity.
  - apply Rnot_lt_le. intro L. apply N. apply flt_R; auto.
Qed.
Lemma notneg_fin : forall x : F64, finite x = true -> 0 <= B2R x -> notneg x.
Proof. intros [s | s | | s m e K] F H; simpl; auto. discriminate. Qed.
Lemma fin_notneg : forall x : F64, finite x = true -> notneg x -> 0 <= B2R x.
Proof. intros [s | s | | s m e K] F H; simpl in *; auto. lra. discriminate. Qed.
Lemma sign_of : forall x : F64, finite x = true -> 0 < B2R x -> BinarySingleNaN.Bsign x = false.
Proof. intros x F H. case_eq (BinarySingleNaN.Bsign x); auto. intro S. pose proof (neg_sign x F S). lra. Qed.
Lemma mul_notneg : forall x y : F64, finite x = true -> finite y = true -> 0 <= B2R x -> 0 <= B2R y -> notneg (fmul x y).
Proof.
  intros x y Fx Fy Hx Hy. assert (P : 0 <= B2R x * B2R y) by (apply Rmult_le_pos; auto).
  assert (Q : 0 <= rnd (B2R x * B2R y)) by (apply rnd_ge; auto; apply generic_format_0).
  generalize (Bmult_correct 53 1024 _ _ mode_NE x y). simpl round_mode. fold (fmul x y). case Rlt_bool_spec; intros L K.
  - destruct K as [A [B _]]. apply notneg_fin. rewrite B, Fx, Fy. auto. rewrite A. auto.
  - apply sf_inf in K. rewrite K. simpl.
    destruct (Req_dec (B2R x) 0) as [E | E]. rewrite E, Rmult_0_l, rnd_zero, Rabs_R0 in L. pose proof (bpow_gt_0 radix2 1024). lra.
    destruct (Req_dec (B2R y) 0) as [E' | E']. rewrite E', Rmult_0_r, rnd_zero, Rabs_R0 in L. pose proof (bpow_gt_0 radix2 1024). lra.
    rewrite !sign_of; auto; lra.
Qed.
Lemma div_notneg : forall x y : F64, finite x = true -> finite y = true -> 0 <= B2R x -> 0 < B2R y -> notneg (fdiv x y).
Proof.
  intros x y Fx Fy Hx Hy. assert (P : 0 <= B2R x / B2R y) by (apply Rmult_le_pos; auto; apply Rlt_le, Rinv_0_lt_compat; auto).
  assert (Q : 0 <= rnd (B2R x / B2R y)) by (apply rnd_ge; auto; apply generic_format_0).
  assert (NY : B2R y <> 0) by lra.
  generalize (Bdiv_correct 53 1024 _ _ mode_NE x y NY). simpl round_mode. fold (fdiv x y). case Rlt_bool_spec; intros L K.
  - destruct K as [A [B _]]. apply notneg_fin. rewrite B, Fx. auto. rewrite A. auto.
  - apply sf_inf in K. rewrite K. simpl.
    destruct (Req_dec (B2R x) 0) as [E | E]. unfold Rdiv in L. rewrite E, Rmult_0_l, rnd_zero, Rabs_R0 in L. pose proof (bpow_gt_0 radix2 1024). lra.
    rewrite !sign_of; auto; lra.
Qed.
Lemma pos_cases : forall t : F64, flt zero t -> t = B754_infinity false \/ (finite t = true /\ 0 < B2R t).
Proof.
  intros t H. case_eq (finite t); intro F. right. split; auto. apply flt_R in H; auto.
  left. destruct t as [s | s | | s m e K]; try discriminate. destruct s; auto. discriminate.
Qed.
Lemma quot_notneg : forall d t : F64, notneg d -> flt zero t -> notneg (fdiv d t).
Proof.
  intros d t D T. destruct (pos_cases t T) as [E | [F P]].
  - subst t. destruct d as [s | s | | s m e K]; simpl; auto; try lra.
  - case_eq (finite d); intro Fd. apply div_notneg; auto. apply fin_notneg; auto.
    destruct d as [s | s | | s m e K]; try discriminate. simpl in D. subst s.
    destruct t as [s | s | | s m e K]; try discriminate; simpl in *; try lra.
    assert (S : s = false) by (exact (sign_of (B754_finite s m e K) eq_refl P)). subst s. reflexivity. destruct t; auto.
Qed.
Lemma prod_notneg : forall x y : F64, notneg x -> notneg y -> notneg (fmul x y).
Proof.
  intros x y X Y. case_eq (finite x); intro Fx; case_eq (finite y); intro Fy.
  - apply mul_notneg; auto; apply fin_notneg; auto.
  - destruct y as [s | s | | s m e K]; try discriminate. simpl in Y. subst s.
    destruct x as [s | s | | s m e K]; try discriminate; simpl; auto.
    destruct s; auto. pose proof (fin_notneg _ Fx X) as H. pose proof (F2R_lt_0 radix2 (Float radix2 (Zneg m) e) eq_refl) as G. exfalso. apply (Rlt_not_le _ _ G). exact H.
    destruct x; simpl; auto.
  - destruct x as [s | s | | s m e K]; try discriminate. simpl in X. subst s.
    destruct y as [s | s | | s m e K]; try discriminate; simpl; auto.
    destruct s; auto. pose proof (fin_notneg _ Fy Y) as H. pose proof (F2R_lt_0 radix2 (Float radix2 (Zneg m) e) eq_refl) as G. exfalso. apply (Rlt_not_le _ _ G). exact H.
    destruct y; simpl; auto.
  - destruct x as [s | s | | s m e K]; destruct y as [s' | s' | | s' m' e' K']; try discriminate; simpl in *; subst; auto.
Qed.
Theorem ax_share : st_ax_share.
Proof.
  intros x d t [[S D] T]. change (fofint 0) with zero in *. apply flt_notneg in D. apply notneg_flt. destruct S as [-> | ->].
  - apply prod_notneg; auto. apply quot_notneg; auto. destruct (int_exact 1) as [F [R _]]. lia. apply notneg_fin; auto. rewrite R. lra.
  - apply quot_notneg; auto.
Qed.
(* ---- a count scaled by a literal *)
Lemma lit_range : forall b, (0 <= b <= 4616189618054758400)%Z -> finite (flit b) = true /\ 0 <= B2R (flit b) <= 4.
Proof.
  intros b H. unfold flit, b64_of_bits, binary_float_of_bits.
  rewrite Binary.is_finite_B2BSN, Binary.B2R_B2BSN, Binary.is_finite_FF2B, Binary.B2R_FF2B.
  unfold binary_float_of_bits_aux, split_bits.
  change (2 ^ 52)%Z with 4503599627370496%Z. change (2 ^ 11)%Z with 2048%Z.
  replace (Zle_bool (4503599627370496 * 2048) b) with false by (symmetry; apply Z.leb_gt; lia).
  pose proof (Z.mod_pos_bound b 4503599627370496 ltac:(lia)) as M. pose proof (Z.div_mod b 4503599627370496 ltac:(lia)) as D.
  set (m := (b mod 4503599627370496)%Z) in *. set (e := (b / 4503599627370496)%Z) in *.
  assert (E : (0 <= e <= 1025)%Z) by lia. rewrite (Z.mod_small e 2048) by lia.
  assert (Top : forall k f, (0 <= k <= 2 ^ 53)%Z -> (f <= -51)%Z -> 0 <= IZR k * pw f <= 4).
  { intros k f Hk Hf. assert (0 <= IZR k <= pw 53). { change (pw 53) with (IZR (2 ^ 53)). split; apply IZR_le; lia. }
    assert (0 < pw f <= pw (-51)). { split. apply bpow_gt_0. apply bpow_le. auto. }
    assert (pw 53 * pw (-51) = 4) by (rewrite <- bpow_plus; reflexivity). split. apply Rmult_le_pos; lra.
    rewrite <- H2. apply Rmult_le_compat; lra. }
  case Zeq_bool_spec; intro E0.
  - destruct m as [| p | p]; try lia; simpl Binary.is_finite_FF; simpl Binary.FF2R. split; auto; lra.
    split; auto. apply (Top (Zpos p)); [ lia | discriminate ].
  - rewrite Zeq_bool_false by lia.
    case_eq (m + 4503599627370496)%Z; [ intro Q | intros p Q | intros p Q ]; try lia. split; auto.
    change (0 <= IZR (Zpos p) * pw (e + (3 - 2 ^ (11 - 1) - (52 + 1)) - 1) <= 4). rewrite <- Q.
    change (2 ^ (11 - 1))%Z with 1024%Z.
    destruct (Z.eq_dec e 1025) as [T | T].
    + assert (m = 0)%Z by lia. rewrite H0, T. change (0 + 4503599627370496)%Z with (2 ^ 52)%Z. change (IZR (2 ^ 52)) with (pw 52). rewrite <- bpow_plus.
      change (52 + (1025 + (3 - 1024 - (52 + 1)) - 1))%Z with 2%Z. change (pw 2) with 4. lra.
    + apply Top; lia.
Qed.
Lemma trunc_range : forall x : F64, finite x = true -> forall k, 0 <= B2R x <= IZR k -> (0 <= ftoint x <= k)%Z.
Proof.
  intros x F k [L H]. unfold ftoint. pose proof (Btrunc_correct 53 1024 _ x) as T.
  assert (E : round radix2 (FIX_exp 0) Ztrunc (B2R x) = IZR (Ztrunc (B2R x))).
  { unfold round, scaled_mantissa, cexp, FIX_exp, F2R; simpl. rewrite !Rmult_1_r. reflexivity. }
  rewrite E in T. apply eq_IZR in T. rewrite T. split.
  - rewrite <- (Ztrunc_IZR 0). apply Ztrunc_le. auto.
  - rewrite <- (Ztrunc_IZR k). apply Ztrunc_le. auto.
Qed.
Theorem ax_scaled : st_ax_scaled.
Proof.
  intros n b Hb [Hn Lb]. destruct (lit_range b) as [F R]. lia. destruct (int_exact n) as [Fn [Rn _]]. lia.
  assert (N : 0 <= IZR n) by (apply IZR_le; lia).
  destruct (mul_ok (fofint n) (flit b) (IZR (4 * n))) as [A [B C]]; auto.
  - apply fmt_int. lia.
  - apply int_top. lia.
  - rewrite Rn, mult_IZR, Rabs_pos_eq. nra. nra.
  - apply Rabs_in in C.
    assert (P : 0 <= B2R (fmul (fofint n) (flit b))). { rewrite B. apply rnd_ge. apply generic_format_0. rewrite Rn. nra. }
    assert (T := trunc_range _ A (4 * n) ltac:(lra)). split; [ lia | apply finite_num; auto ].
Qed.
(* ---- assumed *)
Theorem ax_gamma : st_ax_gamma.
Proof. exact draw_range. Qed.
Theorem ax_draw : st_ax_draw.
Proof. exact draw_nonneg. Qed.
