(* Magnitudes and exact integers. *)
From Coq Require Import ZArith Reals Lia Lra Bool.
From Flocq Require Import Core.Core Relative IEEE754.BinarySingleNaN.
Require Import FpModel Statements FpOrder.
Local Open Scope R_scope.
Lemma Rabs_le' : forall x b, - b <= x <= b -> Rabs x <= b.
Proof. intros. apply Rabs_le. auto. Qed.
Lemma Rabs_in : forall x b, Rabs x <= b -> - b <= x <= b.
Proof. intros. apply Rabs_le_inv. auto. Qed.
Lemma int_top : forall z, (Z.abs z <= 2 ^ 53)%Z -> IZR z < pw 1024.
Proof. intros z H. apply Rle_lt_trans with (pw 53). change (pw 53) with (IZR (2 ^ 53)). apply IZR_le. lia. apply small_top. lia. Qed.
(* ---- terms of scores *)
Theorem ax_mag_zero : st_ax_mag_zero.
Proof. split. reflexivity. simpl. rewrite Rabs_R0. lra. Qed.
Theorem ax_mag_add : st_ax_mag_add.
Proof.
  intros s k t [[[Fs Hs] Hk] [Ft Ht]]. apply Rabs_in in Hs. apply Rabs_lt_inv in Ht.
  assert (E : IZR (4000 * (k + 1)) = IZR (4000 * k) + 4000) by (rewrite <- plus_IZR; f_equal; lia).
  destruct (add_ok s t (IZR (4000 * (k + 1)))) as [A [_ B]]; auto.
  - apply fmt_int. lia.
  - apply int_top. lia.
  - apply Rabs_le'. lra.
  - split; auto.
Qed.
Theorem ax_mag_mono : st_ax_mag_mono.
Proof. intros s k j [[F H] L]. split; auto. apply Rle_trans with (1 := H). apply IZR_le. lia. Qed.
Lemma max_R : B2R fmax = (IZR (2 ^ 53 - 1)) * pw 971.
Proof. reflexivity. Qed.
Lemma low_R : B2R flowest = - B2R fmax.
Proof. apply B2R_Bopp. Qed.
Lemma max_big : pw 1023 < B2R fmax.
Proof.
  rewrite max_R. replace (pw 1023) with (IZR (2 ^ 52) * pw 971). apply Rmult_lt_compat_r. apply bpow_gt_0. apply IZR_lt. reflexivity.
  change (IZR (2 ^ 52)) with (pw 52). rewrite <- bpow_plus. reflexivity.
Qed.
Lemma max_below : B2R fmax < pw 1024.
Proof.
  rewrite max_R. replace (pw 1024) with (IZR (2 ^ 53) * pw 971). apply Rmult_lt_compat_r. apply bpow_gt_0. apply IZR_lt. reflexivity.
  change (IZR (2 ^ 53)) with (pw 53). rewrite <- bpow_plus. reflexivity.
Qed.
Lemma below_max : forall x, finite x = true -> B2R x < pw 1023 -> flt x fmax.
Proof. intros x F H. apply flt_R; auto. pose proof max_big. lra. Qed.
Theorem ax_mag_high : st_ax_mag_high.
Proof.
  intros s k [[F H] L]. apply flt_R; auto. rewrite low_R. apply Rabs_in in H. pose proof max_big.
  assert (IZR (4000 * k) <= IZR (2 ^ 53)) by (apply IZR_le; lia). change (IZR (2 ^ 53)) with (pw 53) in *.
  assert (pw 53 < pw 1023) by (apply bpow_lt; lia). lra.
Qed.
Lemma absorb : forall t, Rabs t < pw 970 -> rnd (B2R fmax + t) = B2R fmax.
Proof.
  intros t Ht. assert (P : 0 < pw 971) by apply bpow_gt_0.
  assert (E970 : pw 971 = 2 * pw 970) by (replace 971%Z with (1 + 970)%Z by reflexivity; rewrite bpow_plus; reflexivity).
  apply Rabs_lt_inv in Ht. rewrite max_R in *. unfold round, scaled_mantissa.
  assert (M : Raux.mag radix2 (IZR (2 ^ 53 - 1) * pw 971 + t) = 1024%Z :> Z).
  { apply mag_unique. replace (1024 - 1)%Z with (52 + 971)%Z by reflexivity. replace 1024%Z with (53 + 971)%Z by reflexivity. rewrite !bpow_plus.
    change (pw 53) with (IZR (2 ^ 53)). change (pw 52) with (IZR (2 ^ 52)).
    assert (IZR (2 ^ 52) <= IZR (2 ^ 53 - 2)) by (apply IZR_le; discriminate).
    rewrite Rabs_pos_eq; rewrite minus_IZR in *; simpl (IZR 1) in *; simpl (IZR 2) in *; nra. }
  assert (C : cexp radix2 fexp64 (IZR (2 ^ 53 - 1) * pw 971 + t) = 971%Z) by (unfold cexp; rewrite M; reflexivity).
  rewrite C. unfold F2R, Fnum, Fexp. apply f_equal with (f := fun u => u * pw 971). apply f_equal with (f := IZR).
  assert (I : (IZR (2 ^ 53 - 1) * pw 971 + t) * pw (-971) = IZR (2 ^ 53 - 1) + t * pw (-971)).
  { rewrite Rmult_plus_distr_r, Rmult_assoc, <- bpow_plus. replace (971 + -971)%Z with 0%Z by reflexivity. simpl (pw 0). ring. }
  change (- (971))%Z with (-971)%Z. rewrite I. apply Znearest_imp.
  replace (IZR (2 ^ 53 - 1) + t * pw (-971) - IZR (2 ^ 53 - 1)) with (t * pw (-971)) by ring.
  assert (J : pw 970 * pw (-971) = / 2) by (rewrite <- bpow_plus; reflexivity).
  assert (0 < pw (-971)) by apply bpow_gt_0.
  apply Rabs_lt. split; nra.
Qed.
Theorem ax_absorb : st_ax_absorb.
Proof.
  intros t [Ft Ht]. assert (Q : Rabs (- B2R t) < pw 970). { rewrite Rabs_Ropp. apply Rlt_trans with (1 := Ht). apply Rlt_trans with (pw 11). change (pw 11) with (IZR 2048). apply IZR_lt. reflexivity. apply bpow_lt. lia. }
  pose proof (absorb _ Q) as A.
  assert (E : rnd (B2R flowest + B2R t) = B2R flowest).
  { rewrite low_R. replace (- B2R fmax + B2R t) with (- (B2R fmax + - B2R t)) by ring. rewrite round_NE_opp. rewrite A. reflexivity. }
  generalize (Bplus_correct 53 1024 _ _ mode_NE flowest t eq_refl Ft). simpl round_mode. rewrite E.
  assert (S : B2R flowest < 0) by (rewrite low_R; pose proof max_big; pose proof (bpow_gt_0 radix2 1023); lra).
  rewrite Rlt_bool_true by (rewrite low_R, Rabs_Ropp, Rabs_pos_eq; pose proof max_below; pose proof max_big; pose proof (bpow_gt_0 radix2 1023); lra).
  intros [X [Y Z]]. apply B2R_Bsign_inj; auto. fold (fadd flowest t) in *. rewrite Z.
  rewrite Rcompare_Lt. reflexivity. rewrite low_R in *. apply Rabs_lt_inv in Q. pose proof max_big. assert (pw 970 < pw 1023) by (apply bpow_lt; lia). lra.
Qed.
(* ---- whole numbers *)
Lemma int_num : forall z b, fmt b -> b < pw 1024 -> Rabs (IZR z) <= b -> finite (fofint z) = true /\ Rabs (B2R (fofint z)) <= b.
Proof. intros z b F H K. destruct (int_ok z b F H K) as [A [_ [B _]]]. auto. Qed.
Lemma eq_of : forall x y : F64, finite x = true -> finite y = true -> B2R x = B2R y -> BinarySingleNaN.Bsign x = BinarySingleNaN.Bsign y -> x = y.
Proof. exact (B2R_Bsign_inj 53 1024). Qed.
Lemma small_abs : forall a, small a -> (Z.abs a <= 2 ^ 52)%Z.
Proof. unfold small. intros. lia. Qed.
Theorem ax_int_sum : st_ax_int_sum.
Proof.
  intros a b [Ha Hb]. apply small_abs in Ha. apply small_abs in Hb.
  destruct (int_exact a) as [Fa [Ra Sa]]. lia. destruct (int_exact b) as [Fb [Rb Sb]]. lia. destruct (int_exact (a + b)) as [Fc [Rc Sc]]. lia.
  assert (X : rnd (B2R (fofint a) + B2R (fofint b)) = IZR (a + b)).
  { rewrite Ra, Rb, <- plus_IZR. apply round_generic; auto with typeclass_instances. apply fmt_int. lia. }
  generalize (Bplus_correct 53 1024 _ _ mode_NE (fofint a) (fofint b) Fa Fb). simpl round_mode. rewrite X.
  rewrite Rlt_bool_true. 2: { rewrite <- abs_IZR. apply int_top. lia. }
  intros [P [Q R]]. fold (fadd (fofint a) (fofint b)) in *. apply eq_of; auto. congruence.
  rewrite R, Sc, Ra, Rb, <- plus_IZR, Sa, Sb. rewrite !Rcompare_IZR.
  destruct (Z.compare_spec (a + b) 0); auto. destruct (Z.compare_spec a 0); destruct (Z.compare_spec b 0); auto; try lia; try (simpl; auto; fail).
Qed.
Theorem ax_int_less : st_ax_int_less.
Proof.
  intros a b [Ha Hb]. apply small_abs in Ha. apply small_abs in Hb.
  destruct (int_exact a) as [Fa [Ra Sa]]. lia. destruct (int_exact b) as [Fb [Rb Sb]]. lia. destruct (int_exact (a - b)) as [Fc [Rc Sc]]. lia.
  split.
  - assert (X : rnd (B2R (fofint a) - B2R (fofint b)) = IZR (a - b)).
    { rewrite Ra, Rb, <- minus_IZR. apply round_generic; auto with typeclass_instances. apply fmt_int. lia. }
    generalize (Bminus_correct 53 1024 _ _ mode_NE (fofint a) (fofint b) Fa Fb). simpl round_mode. rewrite X.
    rewrite Rlt_bool_true. 2: { rewrite <- abs_IZR. apply int_top. lia. }
    intros [P [Q R]]. fold (fsub (fofint a) (fofint b)) in *. apply eq_of; auto. congruence.
    rewrite R, Sc, Ra, Rb, <- minus_IZR, Sa, Sb. rewrite !Rcompare_IZR.
    destruct (Z.compare_spec (a - b) 0); auto. destruct (Z.compare_spec a 0); destruct (Z.compare_spec b 0); auto; try lia; try (simpl; auto; fail).
  - rewrite flt_R by auto. rewrite Ra, Rb. split. apply lt_IZR. apply IZR_lt.
Qed.
Theorem ax_top_positive : st_ax_top_positive.
Proof. reflexivity. Qed.
Theorem ax_word_int : st_ax_word_int.
Proof.
  intros n H. destruct (int_num n (pw 64)) as [F R].
  - apply fmt_pw. lia.
  - apply small_top. lia.
  - rewrite <- abs_IZR. change (pw 64) with (IZR (2 ^ 64)). apply IZR_le. lia.
  - assert (pw 64 <= pw 65) by (apply bpow_le; lia). assert (pw 64 <= pw 72) by (apply bpow_le; lia). split; right; split; auto; lra.
Qed.
Theorem ax_word_add : st_ax_word_add.
Proof.
  intros a b [Ha Hb]. apply small_abs in Ha. destruct (int_exact a) as [Fa [Ra _]]. lia.
  destruct (int_num b (pw 64)) as [Fb Rb].
  - apply fmt_pw. lia.
  - apply small_top. lia.
  - rewrite <- abs_IZR. change (pw 64) with (IZR (2 ^ 64)). apply IZR_le. lia.
  - destruct (add_ok (fofint a) (fofint b) (pw 65)) as [F [_ R]]; auto.
    + apply fmt_pw. lia.
    + apply small_top. lia.
    + apply Rle_trans with (1 := Rabs_triang _ _). rewrite Ra, <- abs_IZR. apply Rle_trans with (IZR (2 ^ 64) + pw 64). apply Rplus_le_compat; auto. apply IZR_le. lia.
      change (pw 64) with (IZR (2 ^ 64)). change (pw 65) with (IZR (2 ^ 65)). rewrite <- plus_IZR. apply IZR_le. lia.
    + right. auto.
Qed.
Theorem ax_lim_max : st_ax_lim_max.
Proof.
  intros x m [[[N | [F H]] Hm] L].
  - destruct (flt_num _ _ L) as [_ K]. unfold fnum in K. congruence.
  - apply below_max; auto. apply Rabs_in in H. destruct H as [_ H]. apply Rle_lt_trans with (1 := H).
    apply Rle_lt_trans with (pw 53 * pw 72). apply Rmult_le_compat_r. apply bpow_ge_0. change (pw 53) with (IZR (2 ^ 53)). apply IZR_le. lia.
    rewrite <- bpow_plus. apply bpow_lt. lia.
Qed.
Theorem ax_lim_mono : st_ax_lim_mono.
Proof. intros x m k [[N | [F H]] L]. left; auto. right; split; auto. apply Rle_trans with (1 := H). apply Rmult_le_compat_r. apply bpow_ge_0. apply IZR_le. auto. Qed.
Lemma lim_fmt : forall m, (0 <= m <= 2 ^ 53)%Z -> fmt (IZR m * pw 72) /\ IZR m * pw 72 < pw 1024.
Proof.
  intros m H. split. apply fmt_int_pw'; lia.
  apply Rle_lt_trans with (pw 53 * pw 72). apply Rmult_le_compat_r. apply bpow_ge_0. change (pw 53) with (IZR (2 ^ 53)). apply IZR_le. lia.
  rewrite <- bpow_plus. apply bpow_lt. lia.
Qed.
Lemma nan_is : forall x : F64, nan x = true -> x = B754_nan.
Proof. intros [s | s | | s m e H]; simpl; congruence. Qed.
Theorem ax_lim_add : st_ax_lim_add.
Proof.
  intros x m y k [[N | [F H]] [[N' | [F' H']] [Hm [Hk L]]]]; try (left; apply nan_is in N; subst; reflexivity); try (left; apply nan_is in N'; subst; destruct x; reflexivity).
  destruct (lim_fmt (m + k)) as [P Q]. lia.
  destruct (add_ok x y (IZR (m + k) * pw 72)) as [A [_ B]]; auto.
  - apply Rle_trans with (1 := Rabs_triang _ _). rewrite plus_IZR. lra.
  - right. auto.
Qed.
Theorem ax_lim_sub : st_ax_lim_sub.
Proof.
  intros x m y k [[N | [F H]] [[N' | [F' H']] [Hm [Hk L]]]]; try (left; apply nan_is in N; subst; reflexivity); try (left; apply nan_is in N'; subst; destruct x; reflexivity).
  destruct (lim_fmt (m + k)) as [P Q]. lia.
  destruct (sub_ok x y (IZR (m + k) * pw 72)) as [A [_ B]]; auto.
  - unfold Rminus. apply Rle_trans with (1 := Rabs_triang _ _). rewrite Rabs_Ropp, plus_IZR. lra.
  - right. auto.
Qed.
