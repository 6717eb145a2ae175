import Mathlib.Data.Real.Basic
import Mathlib.LinearAlgebra.Matrix.Charpoly.Coeff
import Mathlib.LinearAlgebra.Matrix.Charpoly.Basic

/-! A linear system with d state variables, started at rest: if its response to a unit sample vanishes for d + 1 samples (the first
one is the direct term), it vanishes for all samples. -/
namespace Iir
open Matrix Polynomial

theorem response_zero {d : ℕ} (A : Matrix (Fin d) (Fin d) ℝ) (b c : Fin d → ℝ)
    (h : ∀ k < d, c ⬝ᵥ ((A ^ k) *ᵥ b) = 0) (k : ℕ) : c ⬝ᵥ ((A ^ k) *ᵥ b) = 0 := by
  induction k using Nat.strong_induction_on with
  | _ k ih =>
    by_cases hk : k < d
    · exact h k hk
    · obtain ⟨m, rfl⟩ := Nat.exists_eq_add_of_le (not_lt.mp hk)
      have hc := Matrix.aeval_self_charpoly A
      have hd : A.charpoly.natDegree = d := by simp [Matrix.charpoly_natDegree_eq_dim]
      have hm : A.charpoly.coeff d = 1 := by
        have := Matrix.charpoly_monic A
        rw [Polynomial.Monic, Polynomial.leadingCoeff, hd] at this
        exact this
      rw [Polynomial.aeval_eq_sum_range, hd, Finset.sum_range_succ, hm, one_smul] at hc
      have hA : A ^ (d + m) = -∑ i ∈ Finset.range d, A.charpoly.coeff i • A ^ (i + m) := by
        have := congrArg (fun X => X * A ^ m) hc
        simp only [add_mul, zero_mul, Finset.sum_mul, smul_mul_assoc, ← pow_add] at this
        exact eq_neg_of_add_eq_zero_right this
      rw [hA, neg_mulVec, dotProduct_neg, Matrix.sum_mulVec, dotProduct_sum, neg_eq_zero]
      refine Finset.sum_eq_zero fun i hi => ?_
      rw [smul_mulVec, dotProduct_smul, ih (i + m) (by have := Finset.mem_range.mp hi; omega), smul_zero]

end Iir
