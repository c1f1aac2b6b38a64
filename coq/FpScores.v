(* Ranges of sums, products, quotients and logarithms. *)
From Coq Require Import ZArith Reals Lia Lra Bool Psatz.
From Flocq Require Import Core.Core Relative IEEE754.BinarySingleNaN.
Require Import FpModel Statements FpOrder FpBounds.
Local Open Scope R_scope.
Lemma pw_ge1 : forall k, (0 <= k)%Z -> 1 <= pw k.
Proof. intros. change 1 with (pw 0). apply bpow_le. auto. Qed.
Lemma pw_le1 : forall k, (k <= 0)%Z -> pw k <= 1.
Proof. intros. change 1 with (pw 0). apply bpow_le. auto. Qed.
Lemma pw_S : forall k, pw (k + 1) = 2 * pw k.
Proof. intros. rewrite bpow_plus. change (pw 1) with 2. ring. Qed.
Theorem ax_mag_int : st_ax_mag_int.
Proof.
  intros n H. destruct (int_exact n) as [F [R _]]. lia. split; auto. rewrite R, <- abs_IZR. change (pw 31) with (IZR (2 ^ 31)). apply IZR_le. lia.
Qed.
Theorem ax_rng_int : st_ax_rng_int.
Proof.
  intros n H. destruct (int_exact n) as [F [R _]]. lia. split; auto. rewrite R. simpl (pw (- 0)). change (pw 31) with (IZR (2 ^ 31)). split; apply IZR_le; lia.
Qed.
Theorem ax_rng_one : st_ax_rng_one.
Proof. destruct (int_exact 1) as [F [R _]]. lia. split; auto. rewrite R. simpl. lra. Qed.
Theorem ax_rng_mag : st_ax_rng_mag.
Proof. intros x lo hi [[F [L H]] _]. split; auto. pose proof (bpow_gt_0 radix2 (- lo)). rewrite Rabs_pos_eq; lra. Qed.
Theorem ax_rng_grow : st_ax_rng_grow.
Proof.
  intros x a b c e [[[F [L H]] P] Q]. split; auto. split.
  apply Rle_trans with (2 := L). apply bpow_le. lia. apply Rle_trans with (1 := H). apply bpow_le. auto.
Qed.
Theorem ax_mag_grow : st_ax_mag_grow.
Proof. intros x a b [[F H] L]. split; auto. apply Rle_trans with (1 := H). apply bpow_le. auto. Qed.
Theorem ax_mag_top : st_ax_mag_top.
Proof.
  intros x a [[F H] L]. apply below_max; auto. apply Rabs_in in H. assert (pw a < pw 1023) by (apply bpow_lt; lia). lra.
Qed.
Lemma ite_max : forall a b : Z, (if Z.ltb a b then b else a) = Z.max a b.
Proof. intros. destruct (Z.ltb_spec a b); lia. Qed.
Lemma ite_min : forall a b : Z, (if Z.ltb a b then a else b) = Z.min a b.
Proof. intros. destruct (Z.ltb_spec a b); lia. Qed.
Theorem ax_mag_plus : st_ax_mag_plus.
Proof.
  intros x a y b [[Fx Hx] [[Fy Hy] [Ha Hb]]]. rewrite ite_max.
  destruct (add_ok x y (pw (Z.max a b + 1))) as [A [_ B]]; auto.
  - apply fmt_pw. lia.
  - apply small_top. lia.
  - apply Rle_trans with (1 := Rabs_triang _ _). rewrite pw_S.
    assert (pw a <= pw (Z.max a b)) by (apply bpow_le; lia). assert (pw b <= pw (Z.max a b)) by (apply bpow_le; lia). lra.
  - split; auto.
Qed.
Theorem ax_mag_times : st_ax_mag_times.
Proof.
  intros x a y b [[Fx Hx] [[Fy Hy] [Ha [Hb L]]]].
  destruct (mul_ok x y (pw (a + b))) as [A [_ B]]; auto.
  - apply fmt_pw. lia.
  - apply small_top. lia.
  - rewrite Rabs_mult, bpow_plus. apply Rmult_le_compat; auto using Rabs_pos.
  - split; auto.
Qed.
Lemma inv_le : forall y lo, pw (- lo) <= y -> / y <= pw lo /\ 0 < y.
Proof.
  intros y lo H. pose proof (bpow_gt_0 radix2 (- lo)). split; [ | lra ].
  replace (pw lo) with (/ pw (- lo)) by (rewrite <- bpow_opp; f_equal; lia). apply Rinv_le; auto.
Qed.
Lemma inv_ge : forall y hi, 0 < y -> y <= pw hi -> pw (- hi) <= / y.
Proof. intros y hi P H. rewrite bpow_opp. apply Rinv_le; auto. Qed.
Theorem ax_mag_over : st_ax_mag_over.
Proof.
  intros x a y lo hi [[Fx Hx] [[Fy [L H]] [Ha [Hl [S T]]]]]. destruct (inv_le _ _ L) as [I P].
  destruct (div_ok x y (pw (a + lo))) as [A [_ B]]; auto.
  - apply fmt_pw. lia.
  - apply small_top. lia.
  - lra.
  - unfold Rdiv. rewrite Rabs_mult, bpow_plus. apply Rmult_le_compat; auto using Rabs_pos.
    rewrite Rabs_pos_eq; auto. apply Rlt_le, Rinv_0_lt_compat; auto.
  - split; auto.
Qed.
Lemma rnd_ge : forall x b, fmt b -> b <= x -> b <= rnd x.
Proof. intros. apply round_ge_generic; auto with typeclass_instances. Qed.
Theorem ax_rng_plus : st_ax_rng_plus.
Proof.
  intros x a b y c e [[Fx [Lx Hx]] [[Fy [Ly Hy]] [Ha [Hb [Hc He]]]]]. rewrite ite_max, ite_min.
  replace (if Z.ltb b e then e else b) with (Z.max b e) by (destruct (Z.ltb_spec b e); lia).
  pose proof (bpow_gt_0 radix2 (- a)). pose proof (bpow_gt_0 radix2 (- c)).
  assert (pw b <= pw (Z.max b e)) by (apply bpow_le; lia). assert (pw e <= pw (Z.max b e)) by (apply bpow_le; lia).
  destruct (add_ok x y (pw (Z.max b e + 1))) as [A [R B]]; auto.
  - apply fmt_pw. lia.
  - apply small_top. lia.
  - rewrite Rabs_pos_eq by lra. rewrite pw_S. lra.
  - split; auto. split.
    + rewrite R. apply rnd_ge. apply fmt_pw. lia. destruct (Z.min_dec a c) as [E | E]; rewrite E; lra.
    + apply Rabs_in in B. lra.
Qed.
Theorem ax_rng_times : st_ax_rng_times.
Proof.
  intros x a b y c e [[Fx [Lx Hx]] [[Fy [Ly Hy]] [Ha [Hb [Hc [He [S T]]]]]]].
  pose proof (bpow_gt_0 radix2 (- a)). pose proof (bpow_gt_0 radix2 (- c)).
  destruct (mul_ok x y (pw (b + e))) as [A [R B]]; auto.
  - apply fmt_pw. lia.
  - apply small_top. lia.
  - rewrite Rabs_pos_eq. rewrite bpow_plus. apply Rmult_le_compat; lra. apply Rmult_le_pos; lra.
  - split; auto. split.
    + rewrite R. apply rnd_ge. apply fmt_pw. lia. replace (- (a + c))%Z with (- a + - c)%Z by lia. rewrite bpow_plus. apply Rmult_le_compat; lra.
    + apply Rabs_in in B. lra.
Qed.
Theorem ax_rng_over : st_ax_rng_over.
Proof.
  intros x a b y c e [[Fx [Lx Hx]] [[Fy [Ly Hy]] [Ha [Hb [Hc [He [S T]]]]]]].
  pose proof (bpow_gt_0 radix2 (- a)). destruct (inv_le _ _ Ly) as [I P]. pose proof (inv_ge _ _ P Hy) as J. pose proof (bpow_gt_0 radix2 (- e)).
  destruct (div_ok x y (pw (b + c))) as [A [R B]]; auto.
  - apply fmt_pw. lia.
  - apply small_top. lia.
  - lra.
  - unfold Rdiv. rewrite Rabs_pos_eq. rewrite bpow_plus. apply Rmult_le_compat; lra. apply Rmult_le_pos; lra.
  - split; auto. split.
    + rewrite R. apply rnd_ge. apply fmt_pw. lia. replace (- (a + e))%Z with (- a + - e)%Z by lia. rewrite bpow_plus. unfold Rdiv. apply Rmult_le_compat; lra.
    + apply Rabs_in in B. lra.
Qed.
Theorem ax_zero_plus : st_ax_zero_plus.
Proof.
  intros x lo hi [F [L H]]. pose proof (bpow_gt_0 radix2 (- lo)). change (fofint 0) with zero.
  assert (E : fadd zero x = x). { destruct x as [s | s | | s m e K]; simpl in *; try discriminate; try lra. reflexivity. }
  rewrite E. split; auto.
Qed.
(* ---- logarithms *)
Lemma ln2 : ln 2 <= 1.
Proof.
  rewrite <- (ln_exp 1). apply Rlt_le, ln_increasing. lra. pose proof (exp_ineq1 1). lra.
Qed.
Lemma ln2_pos : 0 < ln 2.
Proof. rewrite <- ln_1. apply ln_increasing; lra. Qed.
Lemma ln_pw_nat : forall n : nat, ln (2 ^ n) = INR n * ln 2.
Proof. induction n. simpl. rewrite ln_1. ring. rewrite S_INR. change (2 ^ S n) with (2 * 2 ^ n). assert (0 < 2 ^ n) by (apply pow_lt; lra). assert (E : ln (2 * 2 ^ n) = ln 2 + ln (2 ^ n)) by (apply ln_mult; lra). rewrite E, IHn. ring. Qed.
Lemma ln_pw_pos : forall k, (0 <= k)%Z -> ln (pw k) = IZR k * ln 2.
Proof.
  intros k H. rewrite <- (Z2Nat.id k H). rewrite <- INR_IZR_INZ, <- ln_pw_nat. f_equal.
  rewrite <- IZR_Zpower by lia. change (radix_val radix2) with 2%Z. rewrite pow_IZR. f_equal. 
Qed.
Lemma ln_pw : forall k, ln (pw k) = IZR k * ln 2.
Proof.
  intro k. destruct (Z_le_dec 0 k). apply ln_pw_pos; auto.
  replace (pw k) with (/ pw (- k)). rewrite ln_Rinv by apply bpow_gt_0. rewrite ln_pw_pos by lia. rewrite opp_IZR. ring.
  rewrite <- bpow_opp. f_equal. lia.
Qed.
Lemma ln_le_mono : forall x y, 0 < x -> x <= y -> ln x <= ln y.
Proof. intros x y P [H | H]. left. apply ln_increasing; auto. subst. lra. Qed.
(* the logarithm of a number from 2^-lo to 2^hi lies between -lo and hi, and the computed one within one of that *)
Lemma log_range : forall x lo hi, finite x = true -> pw (- lo) <= B2R x <= pw hi -> (0 <= lo)%Z -> (0 <= hi)%Z ->
  finite (flog x) = true /\ - IZR lo - 1 <= B2R (flog x) <= IZR hi + 1.
Proof.
  intros x lo hi F [L H] Hl Hh. pose proof (bpow_gt_0 radix2 (- lo)) as P0. assert (P : 0 < B2R x) by lra.
  destruct (log_near x F P) as [A B]. split; auto. apply Rabs_in in B.
  pose proof (ln_le_mono _ _ P0 L) as U. pose proof (ln_le_mono _ _ P H) as V. rewrite ln_pw in U, V. rewrite opp_IZR in U.
  pose proof ln2. pose proof ln2_pos. assert (0 <= IZR lo) by (apply IZR_le; auto). assert (0 <= IZR hi) by (apply IZR_le; auto). nra.
Qed.
Theorem ax_mag_log : st_ax_mag_log.
Proof.
  intros x lo hi [[F H] [Hl Hh]]. destruct (log_range x lo hi F H) as [A B]; try lia. split; auto. apply Rabs_le'.
  assert (IZR lo <= 1000) by (apply IZR_le; lia). assert (IZR hi <= 1000) by (apply IZR_le; lia). change (pw 10) with (IZR 1024). lra.
Qed.
Lemma fin_lt_top : forall x : F64, finite x = true -> B2R x <= B2R fmax.
Proof.
  intros x F. pose proof (abs_B2R_le_emax_minus_prec 53 1024 _ x) as H. apply Rabs_in in H.
  replace (B2R fmax) with (pw 1024 - pw (1024 - 53)). lra. rewrite max_R. rewrite minus_IZR. change (IZR (2 ^ 53)) with (pw 53). change (1024 - 53)%Z with 971%Z.
  replace 1024%Z with (53 + 971)%Z by reflexivity. rewrite bpow_plus. ring.
Qed.
Lemma total_ok : forall t n, fin_nonneg t -> (1 <= n < 2147483648)%Z -> finite (fadd t (fofint n)) = true /\ 1 <= B2R (fadd t (fofint n)) <= B2R fmax.
Proof.
  intros t n [Ft Pt] Hn. destruct (int_exact n) as [Fn [Rn _]]. lia.
  assert (N1 : 1 <= IZR n) by (apply IZR_le; lia).
  assert (N2 : Rabs (IZR n) < pw 970). { rewrite Rabs_pos_eq by lra. apply Rle_lt_trans with (pw 31). change (pw 31) with (IZR (2 ^ 31)). apply IZR_le. lia. apply bpow_lt. lia. }
  assert (U : rnd (B2R t + IZR n) <= B2R fmax). { rewrite <- (absorb (IZR n)) by auto. apply rnd_le. pose proof (fin_lt_top t Ft). lra. }
  assert (V : 1 <= rnd (B2R t + IZR n)). { apply rnd_ge. change 1 with (IZR 1). apply fmt_int. simpl; lia. lra. }
  generalize (Bplus_correct 53 1024 _ _ mode_NE t (fofint n) Ft Fn). simpl round_mode. rewrite Rn.
  rewrite Rlt_bool_true by (pose proof max_below; rewrite Rabs_pos_eq; lra).
  intros [A [B _]]. fold (fadd t (fofint n)) in *. rewrite A. auto.
Qed.
Lemma log_total : forall t n, fin_nonneg t -> (1 <= n < 2147483648)%Z -> finite (flog (fadd t (fofint n))) = true /\ -1 <= B2R (flog (fadd t (fofint n))) <= 1025.
Proof.
  intros t n Ht Hn. destruct (total_ok t n Ht Hn) as [F [L H]]. destruct (log_range _ 0 1024 F) as [A B]; try lia.
  - simpl (pw (- 0)). pose proof max_below. lra.
  - split; auto. simpl in B. lra.
Qed.
Lemma term_ok : forall x y, finite x = true -> finite y = true -> Rabs (B2R x - B2R y) <= 1999 -> is_term (fsub x y).
Proof.
  intros x y Fx Fy H. destruct (sub_ok x y 1999) as [A [_ B]]; auto.
  - change 1999 with (IZR 1999). apply fmt_int. simpl; lia.
  - change 1999 with (IZR 1999). apply int_top. simpl; lia.
  - split; auto. lra.
Qed.
Theorem ax_term : st_ax_term.
Proof.
  intros f t n [[Hf Ht] Hn]. destruct (log_total t n Ht Hn) as [A B].
  destruct (int_exact (f + 1)) as [F [R _]]. lia.
  destruct (log_range (fofint (f + 1)) 0 31 F) as [C D]; try lia.
  { rewrite R. simpl (pw (- 0)). change (pw 31) with (IZR (2 ^ 31)). split; apply IZR_le; lia. }
  simpl (IZR 0) in *. split; apply term_ok; auto; apply Rabs_le'; change (B2R (fofint 0)) with 0; lra.
Qed.
Theorem ax_lim_nlogn : st_ax_lim_nlogn.
Proof.
  intros x [N | [F H]]. left. apply nan_is in N. subst. reflexivity.
  destruct (Rtotal_order (B2R x) 0) as [L | [E | P]].
  - left. assert (K : nan (flog x) = true). { apply log_below. apply flt_R; auto. } apply nan_is in K. rewrite K. destruct x; reflexivity.
  - left. destruct x as [s | s | | s m e K]; try discriminate. rewrite log_zero. reflexivity.
    exfalso. destruct s; [ apply (Rlt_not_eq _ _ (F2R_lt_0 radix2 (Float radix2 (Zneg m) e) eq_refl)) | apply (Rgt_not_eq _ _ (F2R_gt_0 radix2 (Float radix2 (Zpos m) e) eq_refl)) ]; exact E.
  - right. apply Rabs_in in H.
    assert (L : pw (-1074) <= B2R x).
    { pose proof (abs_B2R_ge_emin 53 1024 x) as G. rewrite Rabs_pos_eq in G by lra. apply G. rewrite is_finite_strict_B2R. reflexivity. lra. }
    assert (Hh : B2R x <= pw 65) by lra. destruct (log_range x 1074 65 F) as [A B]; try lia. split; auto.
    destruct (mul_ok x (flog x) (IZR 1 * pw 72)) as [C [_ D]]; auto.
    + apply fmt_int_pw. simpl; lia. lia.
    + rewrite Rmult_1_l. apply small_top. lia.
    + rewrite Rmult_1_l, Rabs_mult, (Rabs_pos_eq (B2R x)) by lra. 
      destruct (Rle_or_lt (B2R x) 1).
      * apply Rle_trans with (1 * 1075). apply Rmult_le_compat; try lra. apply Rabs_pos. apply Rabs_le'. simpl in B. lra.
        rewrite Rmult_1_l. apply Rle_trans with (pw 11). change (pw 11) with (IZR 2048). apply IZR_le. lia. apply bpow_le. lia.
      * destruct (log_range x 0 65 F) as [_ G]; try lia. split; auto. simpl. lra.
        apply Rle_trans with (pw 65 * pw 7). apply Rmult_le_compat; try lra. apply Rabs_pos. apply Rabs_le'. change (pw 7) with (IZR 128). simpl in G. lra.
        rewrite <- bpow_plus. apply bpow_le. lia.
Qed.
