import Mathlib.Analysis.SpecialFunctions.Complex.Circle
import Mathlib.Algebra.Field.GeomSum
open Finset Complex

/-- the M-th roots of unity: harmonics of degree 0 < |k| < M sum to zero over M equally spaced angles -/
theorem unit_roots (M : ℕ) (k : ℤ) (h0 : k ≠ 0) (h1 : |k| < M) :
    ∑ q ∈ range M, exp (I * k * (2 * Real.pi * q / M)) = 0 := by
  have hM : M ≠ 0 := by
    rintro rfl
    exact absurd h1 (by simp)
  have hM' : (M : ℂ) ≠ 0 := by exact_mod_cast hM
  have hpi : (2 * Real.pi * I : ℂ) ≠ 0 := by simp [Real.pi_ne_zero]
  set z := exp (I * k * (2 * Real.pi / M)) with hz
  have e : ∀ q : ℕ, exp (I * k * (2 * Real.pi * q / M)) = z ^ q := by
    intro q
    rw [hz, ← exp_nat_mul]
    congr 1
    ring
  simp_rw [e]
  have z1 : z ≠ 1 := by
    intro h
    rw [hz, exp_eq_one_iff] at h
    obtain ⟨c, hc⟩ := h
    have : (k : ℂ) = c * M := by
      field_simp at hc
      have h2 : (k : ℂ) * (2 * Real.pi * I) = c * M * (2 * Real.pi * I) := by linear_combination (norm := ring_nf) (2 * Real.pi * I) * hc
      exact mul_right_cancel₀ hpi h2
    have hk : k = c * M := by exact_mod_cast this
    rcases eq_or_ne c 0 with h | h
    · exact h0 (by rw [hk, h, zero_mul])
    · have : (M : ℤ) ≤ |k| := by
        rw [hk, abs_mul, Nat.abs_cast]
        have := Int.one_le_abs h
        nlinarith [Int.natCast_nonneg M]
      omega
  have zM : z ^ M = 1 := by
    rw [hz, ← exp_nat_mul, exp_eq_one_iff]
    exact ⟨k, by field_simp⟩
  rw [geom_sum_eq z1, zM, sub_self, zero_div]

#print axioms unit_roots
