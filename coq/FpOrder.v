(* Operations that do not overflow, and the order. *)
From Coq Require Import ZArith Reals Lia Lra Bool.
From Flocq Require Import Core.Core Relative IEEE754.BinarySingleNaN IEEE754.Bits.
From Flocq Require IEEE754.Binary.
Require Import FpModel Statements.
Local Open Scope R_scope.
Notation fexp64 := (SpecFloat.fexp 53 1024).
Notation fmt := (generic_format radix2 fexp64).
Notation rnd := (round radix2 fexp64 ZnearestE).
Notation pw := (bpow radix2).
Notation zero := (B754_zero false : F64).

(* ---- representable numbers *)
Lemma fmt_int_pw : forall m e, (Z.abs m < 2 ^ 53)%Z -> (-1074 <= e)%Z -> fmt (IZR m * pw e).
Proof.
  intros m e Hm He. apply (generic_format_FLT radix2 (-1074) 53).
  exists (Float radix2 m e); simpl; auto.
Qed.
Lemma fmt_pw : forall e, (-1074 <= e)%Z -> fmt (pw e).
Proof. intros e He. replace (pw e) with (IZR 1 * pw e) by ring. apply fmt_int_pw; auto. simpl. lia. Qed.
Lemma fmt_int_pw' : forall m e, (Z.abs m <= 2 ^ 53)%Z -> (-1074 <= e)%Z -> fmt (IZR m * pw e).
Proof.
  intros m e Hm He. destruct (Z.eq_dec (Z.abs m) (2 ^ 53)) as [E | N].
  - destruct (Z.abs_eq_or_opp m) as [A | A]; rewrite A in E.
    + rewrite E. replace (IZR (2 ^ 53) * pw e) with (pw (53 + e)). apply fmt_pw; lia. rewrite bpow_plus. reflexivity.
    + replace m with (- (2 ^ 53))%Z by lia. rewrite opp_IZR. replace (- IZR (2 ^ 53) * pw e) with (- pw (53 + e)).
      apply generic_format_opp, fmt_pw; lia. rewrite bpow_plus. change (IZR (2 ^ 53)) with (pw 53). ring.
  - apply fmt_int_pw; auto. lia.
Qed.
Lemma fmt_int : forall m, (Z.abs m <= 2 ^ 53)%Z -> fmt (IZR m).
Proof. intros m Hm. replace (IZR m) with (IZR m * pw 0) by (simpl; ring). apply fmt_int_pw'; auto. lia. Qed.
Lemma fmt_B2R : forall x : F64, fmt (B2R x).
Proof. intro x. apply generic_format_B2R. Qed.
#[global] Instance vexp : Valid_exp fexp64 := BinarySingleNaN.fexp_correct 53 1024 _.
Lemma pw_top : forall b, b < pw 1024 -> forall x, Rabs x <= b -> Rlt_bool (Rabs x) (pw 1024) = true.
Proof. intros b Hb x Hx. apply Rlt_bool_true. lra. Qed.
Lemma rnd_bound : forall x b, fmt b -> Rabs x <= b -> Rabs (rnd x) <= b.
Proof. intros. apply abs_round_le_generic; auto with typeclass_instances. Qed.

(* ---- operations that do not overflow *)
Section ops.
Variables (x y : F64) (b : R).
Hypothesis (Fb : fmt b) (Hb : b < pw 1024).
Lemma add_ok : finite x = true -> finite y = true -> Rabs (B2R x + B2R y) <= b ->
  finite (fadd x y) = true /\ B2R (fadd x y) = rnd (B2R x + B2R y) /\ Rabs (B2R (fadd x y)) <= b.
Proof.
  intros Fx Fy H. pose proof (rnd_bound _ _ Fb H) as K.
  generalize (Bplus_correct 53 1024 _ _ mode_NE x y Fx Fy). simpl round_mode. rewrite (pw_top b Hb _ K).
  intros [A [B _]]. unfold fadd. rewrite A. auto.
Qed.
Lemma sub_ok : finite x = true -> finite y = true -> Rabs (B2R x - B2R y) <= b ->
  finite (fsub x y) = true /\ B2R (fsub x y) = rnd (B2R x - B2R y) /\ Rabs (B2R (fsub x y)) <= b.
Proof.
  intros Fx Fy H. pose proof (rnd_bound _ _ Fb H) as K.
  generalize (Bminus_correct 53 1024 _ _ mode_NE x y Fx Fy). simpl round_mode. rewrite (pw_top b Hb _ K).
  intros [A [B _]]. unfold fsub. rewrite A. auto.
Qed.
Lemma mul_ok : finite x = true -> finite y = true -> Rabs (B2R x * B2R y) <= b ->
  finite (fmul x y) = true /\ B2R (fmul x y) = rnd (B2R x * B2R y) /\ Rabs (B2R (fmul x y)) <= b.
Proof.
  intros Fx Fy H. pose proof (rnd_bound _ _ Fb H) as K.
  generalize (Bmult_correct 53 1024 _ _ mode_NE x y). simpl round_mode. rewrite (pw_top b Hb _ K).
  intros [A [B _]]. unfold fmul. rewrite A, B, Fx, Fy. auto.
Qed.
Lemma div_ok : finite x = true -> B2R y <> 0 -> Rabs (B2R x / B2R y) <= b ->
  finite (fdiv x y) = true /\ B2R (fdiv x y) = rnd (B2R x / B2R y) /\ Rabs (B2R (fdiv x y)) <= b.
Proof.
  intros Fx Fy H. pose proof (rnd_bound _ _ Fb H) as K.
  generalize (Bdiv_correct 53 1024 _ _ mode_NE x y Fy). simpl round_mode. rewrite (pw_top b Hb _ K).
  intros [A [B _]]. unfold fdiv. rewrite A, B, Fx. auto.
Qed.
End ops.
Lemma int_ok : forall z b, fmt b -> b < pw 1024 -> Rabs (IZR z) <= b ->
  finite (fofint z) = true /\ B2R (fofint z) = rnd (IZR z) /\ Rabs (B2R (fofint z)) <= b /\
  BinarySingleNaN.Bsign (fofint z) = match Rcompare (IZR z) 0 with Eq => false | Lt => true | Gt => false end.
Proof.
  intros z b Fb Hb H. pose proof (rnd_bound _ _ Fb H) as K.
  pose proof (binary_normalize_correct 53 1024 _ _ mode_NE z 0 false) as P. cbv zeta in P. simpl round_mode in P.
  assert (E : F2R (Float radix2 z 0) = IZR z) by (unfold F2R; simpl; ring). rewrite E in P.
  rewrite (pw_top b Hb _ K) in P. destruct P as [A [B C]]. unfold fofint. rewrite A. auto.
Qed.
Lemma small_top : forall n, (n < 1024)%Z -> pw n < pw 1024.
Proof. intros. apply bpow_lt. auto. Qed.
Lemma int_exact : forall z, (Z.abs z <= 2 ^ 53)%Z -> finite (fofint z) = true /\ B2R (fofint z) = IZR z /\
  BinarySingleNaN.Bsign (fofint z) = match Rcompare (IZR z) 0 with Eq => false | Lt => true | Gt => false end.
Proof.
  intros z Hz. destruct (int_ok z (pw 53)) as [A [B [_ D]]].
  - apply fmt_pw. lia.
  - apply small_top. lia.
  - rewrite <- abs_IZR. change (pw 53) with (IZR (2 ^ 53)). apply IZR_le. auto.
  - repeat split; auto. rewrite B. apply round_generic; auto with typeclass_instances. apply fmt_int. auto.
Qed.
Lemma int_zero : fofint 0 = zero.
Proof. reflexivity. Qed.

(* ---- the order *)
Lemma flt_R : forall a b : F64, finite a = true -> finite b = true -> (flt a b <-> B2R a < B2R b).
Proof.
  intros a b Fa Fb. unfold flt. rewrite (Bltb_correct 53 1024 a b Fa Fb).
  case Rlt_bool_spec; intuition; try discriminate; lra.
Qed.
Lemma finite_num : forall a : F64, finite a = true -> fnum a.
Proof. intros [s | s | | s m e H]; unfold fnum; simpl; congruence. Qed.
Ltac fcases := repeat match goal with
  | [ x : F64 |- _ ] => match goal with [ H : context [finite x] |- _ ] => fail 1 | _ => idtac end;
      case_eq (finite x); intro
  end.
Lemma flt_num : forall a b, flt a b -> fnum a /\ fnum b.
Proof. intros [s | s | | s m e H] [t | t | | t n f K]; unfold flt, fnum; simpl; intuition; try discriminate; destruct s; discriminate. Qed.
Theorem ax_nn_lt : st_ax_nn_lt.
Proof. intros a b H. exact (flt_num a b H). Qed.
Theorem ax_nn_ends : st_ax_nn_ends.
Proof. split; reflexivity. Qed.
Theorem ax_nn_mag : st_ax_nn_mag.
Proof. intros s k [H _]. apply finite_num; auto. Qed.
(* extended order: value of an infinity beyond every finite number *)
Definition val (a : F64) : R := match a with B754_infinity true => - pw 1025 | B754_infinity false => pw 1025 | _ => B2R a end.
Lemma val_fin : forall a, finite a = true -> val a = B2R a.
Proof. intros [s | s | | s m e H]; simpl; congruence. Qed.
Lemma fin_below : forall a : F64, - pw 1025 < B2R a < pw 1025.
Proof.
  intro a. pose proof (abs_B2R_lt_emax 53 1024 a) as H. assert (pw 1024 < pw 1025) by (apply bpow_lt; lia).
  unfold Rabs in H. destruct (Rcase_abs (B2R a)); lra.
Qed.
Lemma flt_val : forall a b, fnum a -> fnum b -> (flt a b <-> val a < val b).
Proof.
  intros a b Na Nb. case_eq (finite a); case_eq (finite b); intros Fb Fa.
  - rewrite (val_fin a Fa), (val_fin b Fb). apply flt_R; auto.
  - pose proof (fin_below a). rewrite (val_fin a Fa). destruct b as [s | s | | s m e H']; try discriminate.
    destruct a as [s' | s' | | s' m e H']; try discriminate; destruct s; simpl in *; unfold flt; simpl; intuition; try discriminate; try lra; destruct s'; intuition; try discriminate; lra.
  - pose proof (fin_below b). rewrite (val_fin b Fb). destruct a as [s | s | | s m e H']; try discriminate.
    destruct b as [s' | s' | | s' m e H']; try discriminate; destruct s; simpl in *; unfold flt; simpl; intuition; try discriminate; try lra; destruct s'; intuition; try discriminate; lra.
  - assert (0 < pw 1025) by apply bpow_gt_0.
    destruct a as [s | s | | s m e H']; destruct b as [s' | s' | | s' m' e' H'']; try discriminate; destruct s, s'; unfold flt; simpl; intuition; try discriminate; lra.
Qed.
Theorem ax_lt_asym : st_ax_lt_asym.
Proof. intros a b H K. destruct (flt_num a b H) as [Na Nb]. apply flt_val in H; auto. apply flt_val in K; auto. lra. Qed.
Theorem ax_le_trans : st_ax_le_trans.
Proof.
  intros a b c [[Nb H] K] L. destruct (flt_num c a L) as [Nc Na]. apply flt_val in L; auto.
  assert (~ val b < val a) by (intro; apply H, flt_val; auto). assert (~ val c < val b) by (intro; apply K, flt_val; auto). lra.
Qed.
Lemma val_neg : forall a, val (fneg a) = - val a.
Proof. intros [s | s | | s m e H]; try (destruct s; simpl; lra); try (simpl; lra). exact (B2R_Bopp 53 1024 (B754_finite s m e H)). Qed.
Theorem ax_neg : st_ax_neg.
Proof.
  intros a b. assert (N : forall x, fnum (fneg x) <-> fnum x). { intros [s | s | | s m e H]; unfold fnum; simpl; intuition. }
  split; intro H; destruct (flt_num _ _ H) as [P Q].
  - apply flt_val in H; auto. rewrite !val_neg in H. apply flt_val; try (apply N; auto). lra.
  - apply flt_val in H; auto. apply flt_val; try (apply N; auto). rewrite !val_neg. lra.
Qed.

(* ---- addition with one addend in common keeps the order *)
Lemma rnd_le : forall x y, x <= y -> rnd x <= rnd y.
Proof. intros. apply round_le; auto with typeclass_instances. Qed.
Lemma rnd_zero : rnd 0 = 0.
Proof. apply round_0; auto with typeclass_instances. Qed.
Lemma sf_inf : forall (x : F64) s, BinarySingleNaN.B2SF x = SpecFloat.S754_infinity s -> x = B754_infinity s.
Proof. intros x s H. apply B2SF_inj. rewrite H. reflexivity. Qed.
Lemma neg_sign : forall x : F64, finite x = true -> BinarySingleNaN.Bsign x = true -> B2R x <= 0.
Proof.
  intros [s | s | | s m e H] Fx Sx; simpl in *; try discriminate; try lra. subst s.
  apply Rlt_le. apply F2R_lt_0. simpl. lia.
Qed.
Lemma pos_sign : forall x : F64, finite x = true -> BinarySingleNaN.Bsign x = false -> 0 <= B2R x.
Proof.
  intros [s | s | | s m e H] Fx Sx; simpl in *; try discriminate; try lra. subst s.
  apply Rlt_le. apply F2R_gt_0. simpl. lia.
Qed.
Lemma pw_1024 : 0 < pw 1024 /\ pw 1024 < pw 1025.
Proof. split. apply bpow_gt_0. apply bpow_lt. lia. Qed.
Lemma add_val : forall x y : F64, finite x = true -> finite y = true -> let r := rnd (B2R x + B2R y) in
  fnum (fadd x y) /\ val (fadd x y) = (if Rle_bool (pw 1024) r then pw 1025 else if Rle_bool r (- pw 1024) then - pw 1025 else r).
Proof.
  intros x y Fx Fy r. destruct pw_1024 as [P0 P1].
  generalize (Bplus_correct 53 1024 _ _ mode_NE x y Fx Fy). simpl round_mode. fold r. fold (fadd x y).
  case Rlt_bool_spec; intros H K.
  - destruct K as [A [B _]]. split. apply finite_num; auto. rewrite val_fin, A by auto.
    apply Rabs_lt_inv in H. rewrite Rle_bool_false by lra. rewrite Rle_bool_false by lra. reflexivity.
  - destruct K as [A B]. apply sf_inf in A. rewrite A. split. reflexivity.
    case_eq (BinarySingleNaN.Bsign x); intro S; rewrite S in B; symmetry in B.
    + assert (r <= 0). { unfold r. rewrite <- rnd_zero. apply rnd_le. pose proof (neg_sign x Fx S). pose proof (neg_sign y Fy B). lra. }
      rewrite Rabs_left1 in H by auto. rewrite Rle_bool_false by lra. rewrite Rle_bool_true by lra. reflexivity.
    + assert (0 <= r). { unfold r. rewrite <- rnd_zero. apply rnd_le. pose proof (pos_sign x Fx S). pose proof (pos_sign y Fy B). lra. }
      rewrite Rabs_pos_eq in H by auto. rewrite Rle_bool_true by lra. reflexivity.
Qed.
Lemma clamp_mono : forall a b, a <= b ->
  (if Rle_bool (pw 1024) a then pw 1025 else if Rle_bool a (- pw 1024) then - pw 1025 else a) <=
  (if Rle_bool (pw 1024) b then pw 1025 else if Rle_bool b (- pw 1024) then - pw 1025 else b).
Proof. intros a b H. destruct pw_1024. repeat case Rle_bool_spec; intros; lra. Qed.
Theorem ax_add_mono : st_ax_add_mono.
Proof.
  intros a b t H L.
  case_eq (finite t); intro Ft.
  - case_eq (finite a); case_eq (finite b); intros Fb Fa.
    + destruct (add_val a t Fa Ft) as [_ Va]. destruct (add_val b t Fb Ft) as [_ Vb]. apply flt_val in L; [ | apply add_val; auto | apply add_val; auto ]. rewrite Va, Vb in L.
      assert (B2R a <= B2R b). { destruct (Rle_or_lt (B2R a) (B2R b)); auto. elim H. apply flt_R; auto. }
      assert (K : rnd (B2R a + B2R t) <= rnd (B2R b + B2R t)) by (apply rnd_le; lra). apply clamp_mono in K. lra.
    + assert (E : fadd b t = b) by (destruct b, t; try discriminate; reflexivity).
      rewrite E in L. destruct b as [u1 | [|] | | u3 u4 u5 u6]; try discriminate Fb; try (apply H; destruct a; try discriminate Fa; reflexivity);
        unfold flt in L; destruct (fadd a t) as [[|] | [|] | | [|] w1 w2 w3]; discriminate L.
    + assert (E : fadd a t = a) by (destruct a, t; try discriminate; reflexivity).
      rewrite E in L. destruct a as [u1 | [|] | | u3 u4 u5 u6]; try discriminate Fa; try (apply H; destruct b; try discriminate Fb; reflexivity);
        unfold flt in L; destruct (fadd b t) as [[|] | [|] | | [|] w1 w2 w3]; discriminate L.
    + assert (E : fadd a t = a) by (destruct a, t; try discriminate; reflexivity).
      assert (G : fadd b t = b) by (destruct b, t; try discriminate; reflexivity). rewrite E, G in L. auto.
  - destruct t as [u1 | s | | u3 u4 u5 u6]; try discriminate.
    + destruct a as [v1 | sa | | v3 v4 v5 v6]; destruct b as [w1 | sb | | w3 w4 w5 w6]; destruct s; try destruct sa; try destruct sb; unfold flt, fadd in L, H; simpl in L, H; try discriminate.
    + assert (E : fadd a B754_nan = B754_nan) by (destruct a; reflexivity). rewrite E in L. destruct (flt_num _ _ L) as [_ N]. discriminate N.
Qed.

(* <= and == as the prelude defines them are IEEE's *)
Lemma order_known : forall a b : F64, fnum a /\ fnum b <-> Bcompare a b <> None.
Proof.
  intros a b. unfold fnum. destruct a as [sa | sa | | sa ma ea Ha], b as [sb | sb | | sb mb eb Hb]; simpl; unfold Bcompare; simpl;
  try (split; [ intros [? ?]; discriminate | intro H; now elim H ]);
  (split; [ intros _ | intros _; split; reflexivity ]); repeat match goal with |- context [if ?c then _ else _] => destruct c end; try discriminate;
  destruct (ea ?= eb)%Z; try discriminate; destruct (Pcompare _ _ _); discriminate.
Qed.
Lemma fle_def : forall a b : F64, BinarySingleNaN.Bleb a b = true <-> (flt a b \/ (fnum a /\ fnum b /\ ~ flt b a)).
Proof.
  intros a b. pose proof (order_known a b) as K. unfold flt, Bleb, Bltb, SpecFloat.SFleb, SpecFloat.SFltb.
  change (SpecFloat.SFcompare (B2SF a) (B2SF b)) with (Bcompare a b). change (SpecFloat.SFcompare (B2SF b) (B2SF a)) with (Bcompare b a).
  rewrite (Bcompare_swap _ _ a b). destruct (Bcompare a b) as [[] |]; simpl; intuition (try discriminate; try congruence).
Qed.
Lemma feq_def : forall a b : F64, BinarySingleNaN.Beqb a b = true <-> (fnum a /\ fnum b /\ ~ flt a b /\ ~ flt b a).
Proof.
  intros a b. pose proof (order_known a b) as K. unfold flt, Beqb, Bltb, SpecFloat.SFeqb, SpecFloat.SFltb.
  change (SpecFloat.SFcompare (B2SF a) (B2SF b)) with (Bcompare a b). change (SpecFloat.SFcompare (B2SF b) (B2SF a)) with (Bcompare b a).
  rewrite (Bcompare_swap _ _ a b). destruct (Bcompare a b) as [[] |]; simpl; intuition (try discriminate; try congruence).
Qed.

(* + and * commute *)
Theorem ax_add_comm : forall a b : F64, fadd a b = fadd b a.
Proof.
  intros a b. destruct (finite a) eqn:Fa, (finite b) eqn:Fb; cycle 1.
  1,2,3: unfold fadd; destruct a as [[] | [] | | [] ma ea Ha], b as [[] | [] | | [] mb eb Hb]; simpl in Fa, Fb; try discriminate; reflexivity.
  pose proof (Bplus_correct 53 1024 _ _ mode_NE a b Fa Fb) as K. pose proof (Bplus_correct 53 1024 _ _ mode_NE b a Fb Fa) as L.
  rewrite (Rplus_comm (B2R b)) in L. unfold fadd. destruct (Rlt_bool _ _).
  - destruct K as (K1 & K2 & K3), L as (L1 & L2 & L3). apply B2R_Bsign_inj; auto. congruence.
    rewrite K3, L3. destruct (Rcompare _ _); auto. apply andb_comm.
  - destruct K as (K1 & K2), L as (L1 & L2). apply B2SF_inj. congruence.
Qed.
Theorem ax_mul_comm : forall a b : F64, fmul a b = fmul b a.
Proof.
  intros a b. destruct (finite a) eqn:Fa, (finite b) eqn:Fb; cycle 1.
  1,2,3: unfold fmul; destruct a as [[] | [] | | [] ma ea Ha], b as [[] | [] | | [] mb eb Hb]; simpl in Fa, Fb; try discriminate; reflexivity.
  pose proof (Bmult_correct 53 1024 _ _ mode_NE a b) as K. pose proof (Bmult_correct 53 1024 _ _ mode_NE b a) as L.
  rewrite (Rmult_comm (B2R b)) in L. unfold fmul. rewrite Fa, Fb in K, L. destruct (Rlt_bool _ _).
  - destruct K as (K1 & K2 & K3), L as (L1 & L2 & L3). simpl in K2, L2.
    assert (Na : forall x : F64, finite x = true -> nan x = false) by (intros []; simpl; congruence).
    apply B2R_Bsign_inj; auto. congruence. rewrite K3, L3 by auto. apply xorb_comm.
  - apply B2SF_inj. rewrite K, L, xorb_comm. reflexivity.
Qed.
Theorem ax_sub_neg : forall a b : F64, fadd a (fneg b) = fsub a b.
Proof.
  intros a b. destruct (finite a) eqn:Fa, (finite b) eqn:Fb; cycle 1.
  1,2,3: unfold fadd, fsub, fneg; destruct a as [[] | [] | | [] ma ea Ha], b as [[] | [] | | [] mb eb Hb]; simpl in Fa, Fb; try discriminate; reflexivity.
  assert (Fo : finite (fneg b) = true) by (unfold fneg; rewrite is_finite_Bopp; auto).
  assert (So : Bsign (fneg b) = negb (Bsign b)) by (unfold fneg; rewrite Bsign_Bopp; auto; destruct b; simpl in *; congruence).
  pose proof (Bplus_correct 53 1024 _ _ mode_NE a (fneg b) Fa Fo) as K. pose proof (Bminus_correct 53 1024 _ _ mode_NE a b Fa Fb) as L.
  assert (Ro : B2R (fneg b) = - B2R b) by (unfold fneg; apply B2R_Bopp).
  rewrite Ro in K. unfold Rminus in L. unfold fadd, fsub. rewrite So in K. destruct (Rlt_bool _ _).
  - destruct K as (K1 & K2 & K3), L as (L1 & L2 & L3). apply B2R_Bsign_inj; auto. congruence. rewrite K3, L3. reflexivity.
  - destruct K as (K1 & K2), L as (L1 & L2). apply B2SF_inj. congruence.
Qed.
