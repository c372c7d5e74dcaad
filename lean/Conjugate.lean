/- The two error parametrisations: if the covariances are related by T0 before a
step, transitions by Φ' = T1 Φ T0⁻¹ and noises by T1, they are related by T1 after. -/
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.Data.Real.Basic

open Matrix
set_option linter.unusedSectionVars false

namespace Drift
variable {n m : Type*} [Fintype n] [Fintype m] [DecidableEq n] [DecidableEq m]

theorem propagation_conjugate (T0 T1 T0' F P Q : Matrix n n ℝ) (h : T0' * T0 = 1) :
    (T1 * F * T0') * (T0 * P * T0ᵀ) * (T1 * F * T0')ᵀ + T1 * Q * T1ᵀ
      = T1 * (F * P * Fᵀ + Q) * T1ᵀ := by
  have h' : T0ᵀ * T0'ᵀ = 1 := by rw [← transpose_mul, h, transpose_one]
  have : (T1 * F * T0') * (T0 * P * T0ᵀ) * (T1 * F * T0')ᵀ
      = T1 * F * (T0' * T0) * P * (T0ᵀ * T0'ᵀ) * Fᵀ * T1ᵀ := by
    simp only [transpose_mul, Matrix.mul_assoc]
  rw [this, h, h']
  simp only [Matrix.mul_one, Matrix.mul_add, Matrix.add_mul, Matrix.mul_assoc]

/-- a correction whose measurement matrix is mapped along has the mapped gain -/
theorem gain_conjugate (T T' P : Matrix n n ℝ) (H : Matrix m n ℝ) (S : Matrix m m ℝ) (h : T' * T = 1) :
    (T * P * Tᵀ) * (H * T')ᵀ * S = T * (P * Hᵀ * S) := by
  have h' : Tᵀ * T'ᵀ = 1 := by rw [← transpose_mul, h, transpose_one]
  have : (T * P * Tᵀ) * (H * T')ᵀ * S = T * P * (Tᵀ * T'ᵀ) * Hᵀ * S := by
    simp only [transpose_mul, Matrix.mul_assoc]
  rw [this, h']
  simp only [Matrix.mul_one, Matrix.mul_assoc]

end Drift
