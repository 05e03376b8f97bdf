import Mathlib.LinearAlgebra.Lagrange
import Mathlib.Data.Real.Basic
open Finset
theorem lagrange_sum (N : ℕ) (d : ℝ) :
    ∑ n ∈ range (N+1), ∏ k ∈ range (N+1), (if n = k then 1 else (d - k) / ((n:ℝ) - k)) = 1 := by
  have hi : Set.InjOn (fun n : ℕ => (n:ℝ)) (range (N+1)) := fun a _ b _ h => Nat.cast_injective h
  have h := Lagrange.sum_basis (s := range (N+1)) (v := fun n : ℕ => (n:ℝ)) hi (by simp)
  have h2 := congrArg (Polynomial.eval d) h
  simp only [Polynomial.eval_finsetSum, Lagrange.basis, Polynomial.eval_prod, Polynomial.eval_one, Lagrange.basisDivisor] at h2
  refine Eq.trans (sum_congr rfl fun n hn => ?_) h2
  rw [← Finset.mul_prod_erase (range (N+1)) _ hn]
  simp only [if_true, one_mul]
  refine prod_congr rfl fun k hk => ?_
  rw [if_neg (Finset.ne_of_mem_erase hk).symm]
  simp [div_eq_inv_mul]
#print axioms lagrange_sum
