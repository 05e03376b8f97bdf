import Mathlib.Analysis.Calculus.Deriv.Polynomial
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Chebyshev.ChebyshevGauss
import Mathlib.Analysis.SpecialFunctions.Integrals.Basic
import Mathlib.Algebra.Polynomial.Sequence
open Polynomial Polynomial.Chebyshev Real Finset

namespace EA

/-- the j-th of M zenith angles -/
noncomputable def th (M j : ℕ) : ℝ := π * (j + 1 / 2) / M

lemma sum_cos (M : ℕ) (hM : M ≠ 0) (a : ℤ) (ha : a < 2 * M) (hb : -(2 * M) < a) :
    ∑ j ∈ range M, cos (a * th M j) = if a = 0 then (M : ℝ) else 0 := by
  have hc : sumZeroes M (T ℝ a) = (π / M) * ∑ j ∈ range M, cos (a * th M j) := by
    simp only [sumZeroes, T_real_cos, th]
    congr 1
    refine sum_congr rfl fun j _ => ?_
    congr 2
    have : (M : ℝ) ≠ 0 := by exact_mod_cast hM
    field_simp
  have hM' : (M : ℝ) ≠ 0 := by exact_mod_cast hM
  have hp : π / M ≠ 0 := div_ne_zero pi_ne_zero hM'
  split_ifs with h
  · subst h
    simp
  · have hd : ¬ (2 * M : ℤ) ∣ a := by
      intro hdv
      obtain ⟨c, hc⟩ := hdv
      have hMp : (0 : ℤ) < 2 * M := by positivity
      have h1 : c < 1 := by nlinarith
      have h2 : -1 < c := by nlinarith
      have : c = 0 := by omega
      subst this
      simp at hc
      exact h hc
    rw [sumZeroes_T_of_not_dvd hd] at hc
    rcases mul_eq_zero.1 hc.symm with h | h
    · exact absurd h hp
    · exact h

lemma trig (x : ℝ) (p k : ℝ) : sin x * sin (p * x) * cos (k * x) =
    1 / 4 * (cos ((p - 1 - k) * x) + cos ((p - 1 + k) * x) - cos ((p + 1 - k) * x) - cos ((p + 1 + k) * x)) := by
  have e1 : (p - 1 - k) * x = (p * x - x) - k * x := by ring
  have e2 : (p - 1 + k) * x = (p * x - x) + k * x := by ring
  have e3 : (p + 1 - k) * x = (p * x + x) - k * x := by ring
  have e4 : (p + 1 + k) * x = (p * x + x) + k * x := by ring
  rw [e1, e2, e3, e4]
  simp only [cos_add, cos_sub, sin_add, sin_sub]
  ring

/-- the moments of the weights -/
lemma inner (N : ℕ) (_hN : N ≠ 0) (k t : ℕ) (hk : k < 2 * N) (ht : t < N) :
    ∑ j ∈ range (2 * N), sin (th (2 * N) j) * sin ((2 * t + 1) * th (2 * N) j) * cos (k * th (2 * N) j) =
      (N : ℝ) / 2 * ((if 2 * t = k then 1 else 0) + (if k = 0 ∧ t = 0 then 1 else 0) - (if 2 * t + 2 = k then 1 else 0)) := by
  have hM : 2 * N ≠ 0 := by omega
  have s := fun a ha hb => sum_cos (2 * N) hM a ha hb
  have e : ∀ j, sin (th (2 * N) j) * sin ((2 * t + 1) * th (2 * N) j) * cos (k * th (2 * N) j) =
      1 / 4 * (cos (((2 * t - k : ℤ) : ℝ) * th (2 * N) j) + cos (((2 * t + k : ℤ) : ℝ) * th (2 * N) j)
        - cos (((2 * t + 2 - k : ℤ) : ℝ) * th (2 * N) j) - cos (((2 * t + 2 + k : ℤ) : ℝ) * th (2 * N) j)) := by
    intro j
    rw [trig]
    push_cast
    ring_nf
  simp_rw [e]
  rw [← mul_sum]
  simp only [sum_add_distrib, sum_sub_distrib]
  rw [s _ (by push_cast; omega) (by push_cast; omega), s _ (by push_cast; omega) (by push_cast; omega),
    s _ (by push_cast; omega) (by push_cast; omega), s _ (by push_cast; omega) (by push_cast; omega)]
  have h1 : ((2 * t - k : ℤ) = 0) ↔ 2 * t = k := by omega
  have h2 : ((2 * t + k : ℤ) = 0) ↔ (k = 0 ∧ t = 0) := by omega
  have h3 : ((2 * t + 2 - k : ℤ) = 0) ↔ 2 * t + 2 = k := by omega
  have h4 : ¬ ((2 * t + 2 + k : ℤ) = 0) := by omega
  simp only [h1, h2, h3, h4, if_false]
  push_cast
  split_ifs <;> ring

noncomputable def w (N j : ℕ) : ℝ :=
  2 * π / N ^ 2 * sin (th (2 * N) j) * ∑ t ∈ range N, sin ((2 * t + 1) * th (2 * N) j) / (2 * t + 1)

lemma moment (N : ℕ) (hN : N ≠ 0) (k : ℕ) (hk : k < 2 * N) :
    (2 * N) * ∑ j ∈ range (2 * N), w N j * cos (k * th (2 * N) j) =
      2 * π * ∑ t ∈ range N, ((if 2 * t = k then (1 : ℝ) else 0) + (if k = 0 ∧ t = 0 then 1 else 0)
        - (if 2 * t + 2 = k then 1 else 0)) / (2 * (t : ℝ) + 1) := by
  have hN' : (N : ℝ) ≠ 0 := by exact_mod_cast hN
  have e : ∀ j, w N j * cos (k * th (2 * N) j) = 2 * π / N ^ 2 * ∑ t ∈ range N,
      1 / (2 * t + 1) * (sin (th (2 * N) j) * sin ((2 * t + 1) * th (2 * N) j) * cos (k * th (2 * N) j)) := by
    intro j
    unfold w
    rw [mul_assoc, mul_assoc]
    congr 1
    rw [sum_mul, mul_sum]
    refine sum_congr rfl fun t _ => ?_
    ring
  simp_rw [e]
  rw [← mul_sum, sum_comm, ← mul_assoc]
  have : ∀ t ∈ range N, ∑ j ∈ range (2 * N), 1 / (2 * (t : ℝ) + 1) *
      (sin (th (2 * N) j) * sin ((2 * t + 1) * th (2 * N) j) * cos (k * th (2 * N) j)) =
      (N : ℝ) / 2 * (((if 2 * t = k then (1 : ℝ) else 0) + (if k = 0 ∧ t = 0 then 1 else 0)
        - (if 2 * t + 2 = k then 1 else 0)) / (2 * t + 1)) := by
    intro t ht
    rw [← mul_sum, inner N hN k t hk (mem_range.1 ht)]
    ring
  rw [sum_congr rfl this, ← mul_sum, ← mul_assoc]
  congr 1
  field_simp

lemma integral_T (m : ℕ) : ∫ x in (-1 : ℝ)..1, (T ℝ ((m + 2 : ℕ) : ℤ)).eval x =
    (1 + (-1) ^ m) / 2 * (1 / ((m : ℝ) + 3) - 1 / ((m : ℝ) + 1)) := by
  have h3 : ((m : ℝ) + 3) ≠ 0 := by positivity
  have h1 : ((m : ℝ) + 1) ≠ 0 := by positivity
  set F : ℝ[X] := C (1 / (2 * ((m : ℝ) + 3))) * T ℝ ((m : ℤ) + 3) - C (1 / (2 * ((m : ℝ) + 1))) * T ℝ ((m : ℤ) + 1) with hF
  have hd : ∀ x, (derivative F).eval x = (T ℝ ((m + 2 : ℕ) : ℤ)).eval x := by
    intro x
    have e := congrArg (fun p => Polynomial.eval x p) (two_mul_T_eq_U_sub_U ℝ (m : ℤ))
    simp only [eval_mul, eval_sub, eval_ofNat] at e
    rw [hF]
    simp only [derivative_sub, derivative_C_mul, T_derivative_eq_U, eval_sub, eval_mul, eval_C]
    have a1 : ((m : ℤ) + 3 - 1) = m + 2 := by ring
    have a2 : ((m : ℤ) + 1 - 1) = m := by ring
    rw [a1, a2]
    push_cast
    simp only [eval_add, eval_natCast, eval_ofNat, eval_one]
    field_simp
    linarith
  have hderiv : ∀ x ∈ Set.uIcc (-1 : ℝ) 1, HasDerivAt (fun x => F.eval x) ((T ℝ ((m + 2 : ℕ) : ℤ)).eval x) x := by
    intro x _
    rw [← hd]
    exact Polynomial.hasDerivAt F x
  rw [intervalIntegral.integral_eq_sub_of_hasDerivAt hderiv ((Polynomial.continuous _).intervalIntegrable _ _)]
  rw [hF]
  simp only [eval_sub, eval_mul, eval_C, T_eval_one, T_eval_neg_one]
  have n1 : (((m : ℤ) + 3).negOnePow : ℝ) = -(-1) ^ m := by
    rw [Int.negOnePow_add, show (3 : ℤ) = ((3 : ℕ) : ℤ) by rfl, Int.negOnePow_def, Int.negOnePow_def]
    push_cast
    simp [zpow_natCast]
    try ring
  have n2 : (((m : ℤ) + 1).negOnePow : ℝ) = -(-1) ^ m := by
    rw [Int.negOnePow_add, Int.negOnePow_def]
    simp
  rw [n1, n2]
  field_simp
  ring

lemma rhs_moment (N : ℕ) (k : ℕ) (hk : k < 2 * N) :
    ∑ t ∈ range N, ((if 2 * t = k then (1 : ℝ) else 0) + (if k = 0 ∧ t = 0 then 1 else 0)
        - (if 2 * t + 2 = k then 1 else 0)) / (2 * (t : ℝ) + 1) = ∫ x in (-1 : ℝ)..1, (T ℝ (k : ℤ)).eval x := by
  have split : ∀ t : ℕ, ((if 2 * t = k then (1 : ℝ) else 0) + (if k = 0 ∧ t = 0 then 1 else 0)
        - (if 2 * t + 2 = k then 1 else 0)) / (2 * (t : ℝ) + 1) =
      (if 2 * t = k then 1 / (2 * (t : ℝ) + 1) else 0) + (if k = 0 ∧ t = 0 then 1 / (2 * (t : ℝ) + 1) else 0)
        - (if 2 * t + 2 = k then 1 / (2 * (t : ℝ) + 1) else 0) := by
    intro t
    split_ifs <;> ring
  simp_rw [split, sum_sub_distrib, sum_add_distrib]
  rcases k.even_or_odd' with ⟨s, rfl | rfl⟩
  · have hs : s < N := by omega
    have e1 : ∀ t, (2 * t = 2 * s) ↔ t = s := by intro t; omega
    simp only [e1]
    rw [sum_ite_eq' (range N) s, if_pos (mem_range.2 hs)]
    rcases s with _ | m
    · have hN : 0 < N := hs
      have e2 : ∀ t, ¬ (2 * t + 2 = 2 * 0) := by intro t; omega
      simp only [e2, if_false, sum_const_zero]
      have e3 : ∀ t, (2 * 0 = 0 ∧ t = 0) ↔ t = 0 := by intro t; simp
      have e4 : ∀ f : ℕ → ℝ, ∑ t ∈ range N, (if True ∧ t = 0 then f t else 0) = f 0 := by
        intro f
        simp [hN]
      rw [e4]
      norm_num
    · have e2 : ∀ t, (2 * t + 2 = 2 * (m + 1)) ↔ t = m := by intro t; omega
      have e3 : ∀ t : ℕ, ¬ (2 * (m + 1) = 0 ∧ t = 0) := by intro t; omega
      simp only [e2, e3, if_false, sum_const_zero]
      rw [sum_ite_eq' (range N) m, if_pos (mem_range.2 (by omega))]
      rw [show 2 * (m + 1) = 2 * m + 2 by ring, integral_T (2 * m)]
      push_cast
      rw [pow_mul]
      norm_num
      ring
  · have e1 : ∀ t, ¬ (2 * t = 2 * s + 1) := by intro t; omega
    have e2 : ∀ t, ¬ (2 * t + 2 = 2 * s + 1) := by intro t; omega
    have e3 : ∀ t : ℕ, ¬ (2 * s + 1 = 0 ∧ t = 0) := by intro t; omega
    simp only [e1, e2, e3, if_false, sum_const_zero]
    rcases s with _ | m
    · norm_num
    · rw [show 2 * (m + 1) + 1 = (2 * m + 1) + 2 by ring, integral_T (2 * m + 1)]
      rw [pow_succ, pow_mul]
      norm_num

lemma on_T (N : ℕ) (hN : N ≠ 0) (k : ℕ) (hk : k < 2 * N) :
    (2 * N) * ∑ j ∈ range (2 * N), w N j * (T ℝ (k : ℤ)).eval (cos (th (2 * N) j)) =
      2 * π * ∫ x in (-1 : ℝ)..1, (T ℝ (k : ℤ)).eval x := by
  rw [← rhs_moment N k hk, ← moment N hN k hk]
  simp only [T_real_cos, Int.cast_natCast]

theorem exact (N : ℕ) (hN : N ≠ 0) (P : ℝ[X]) (hP : P.degree < 2 * N) :
    (2 * N) * ∑ j ∈ range (2 * N), w N j * P.eval (cos (th (2 * N) j)) = 2 * π * ∫ x in (-1 : ℝ)..1, P.eval x := by
  have hmem : P ∈ degreeLT ℝ (2 * N) := by rw [mem_degreeLT]; exact_mod_cast hP
  rw [← Sequence.span_degreeLT (chebyshevTsequence ℝ) (by simp),
    show Set.Iio (2 * N) = Finset.range (2 * N) by simp,
    Submodule.mem_span_image_finset_iff_exists_fun'] at hmem
  obtain ⟨c, rfl⟩ := hmem
  simp_rw [eval_finsetSum, eval_smul]
  rw [intervalIntegral.integral_finsetSum]
  · simp_rw [smul_eq_mul, intervalIntegral.integral_const_mul, mul_sum]
    rw [sum_comm]
    refine sum_congr rfl fun k hk => ?_
    have := on_T N hN k (mem_range.1 hk)
    simp only [chebyshevTsequence]
    rw [mul_sum] at this
    calc _ = c k * ∑ j ∈ range (2 * N), 2 * N * (w N j * (T ℝ (k : ℤ)).eval (cos (th (2 * N) j))) := by
          rw [mul_sum]
          exact sum_congr rfl fun j _ => by ring
      _ = _ := by rw [this]; ring
  · intro i _
    simp_rw [← eval_smul]
    exact (Polynomial.continuous _).intervalIntegrable _ _

end EA

/-- the product grid equal_angle(n) with the weights established by the obligation integrates every polynomial in the cosine of the
zenith angle of degree up to 2n + 1 over the sphere -/
theorem equal_angle_exact (n : ℕ) (P : ℝ[X]) (hP : P.natDegree ≤ 2 * n + 1) :
    ∑ j ∈ range (2 * n + 2), ∑ _i ∈ range (2 * n + 2),
      2 * π / (n + 1) ^ 2 * sin (π * (j + 1 / 2) / (2 * n + 2)) *
        (∑ t ∈ range (n + 1), sin ((2 * t + 1) * (π * (j + 1 / 2) / (2 * n + 2))) / (2 * t + 1)) *
        P.eval (cos (π * (j + 1 / 2) / (2 * n + 2))) =
      2 * π * ∫ x in (-1 : ℝ)..1, P.eval x := by
  have hd : P.degree < 2 * (n + 1 : ℕ) := by
    refine lt_of_le_of_lt degree_le_natDegree ?_
    exact_mod_cast (by omega : P.natDegree < 2 * (n + 1))
  rw [← EA.exact (n + 1) (by omega) P hd, mul_sum]
  rw [show 2 * (n + 1) = 2 * n + 2 by ring]
  refine sum_congr rfl fun j _ => ?_
  rw [sum_const, card_range, nsmul_eq_mul]
  simp only [EA.w, EA.th, show 2 * (n + 1) = 2 * n + 2 by ring]
  push_cast
  ring

#print axioms equal_angle_exact
