import Mathlib.Analysis.SpecialFunctions.Trigonometric.DerivHyp
import Mathlib.Analysis.SpecialFunctions.Arsinh
/-- the facts about tanh used as axioms: bounded by one, sign, monotone -/
theorem tanh_facts (x y : ℝ) :
    Real.tanh x < 1 ∧ -1 < Real.tanh x ∧ (0 ≤ x → 0 ≤ Real.tanh x) ∧ (x ≤ y → Real.tanh x ≤ Real.tanh y) ∧ Real.tanh 0 = 0 := by
  have mono : ∀ x y : ℝ, x ≤ y → Real.tanh x ≤ Real.tanh y := by
    intro x y h
    rw [Real.tanh_eq_sinh_div_cosh, Real.tanh_eq_sinh_div_cosh, div_le_div_iff₀ (Real.cosh_pos x) (Real.cosh_pos y)]
    have := Real.sinh_nonneg_iff.2 (sub_nonneg.2 h)
    rw [Real.sinh_sub] at this
    linarith
  refine ⟨?_, ?_, ?_, mono x y, Real.tanh_zero⟩
  · rw [Real.tanh_eq_sinh_div_cosh, div_lt_one (Real.cosh_pos x)]
    exact Real.sinh_lt_cosh x
  · rw [Real.tanh_eq_sinh_div_cosh, lt_div_iff₀ (Real.cosh_pos x)]
    have := Real.sinh_lt_cosh (-x)
    rw [Real.sinh_neg, Real.cosh_neg] at this
    linarith
  · intro h
    have := mono 0 x h
    rwa [Real.tanh_zero] at this
#print axioms tanh_facts
