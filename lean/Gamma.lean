/- The closed form the contracts use for the integrals of the exponential:
  Γ_m(A) = Σ_n A^n/(n+m)! = 1/m! + a_m A + b_m A²  whenever A³ = -t² A,
with a_0 = sin t/t, b_0 = (1-cos t)/t², a_{m+1} = b_m, b_{m+1} = (1/(m+1)! - a_m)/t². -/
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Series
import Mathlib.Analysis.Normed.Algebra.Exponential
import Mathlib.Analysis.Normed.Algebra.MatrixExponential

open Nat

namespace Drift

/-- coefficients of odd and even powers -/
noncomputable def coef (j : ℕ) (t : ℝ) (m k : ℕ) : ℝ := (-1) ^ k * t ^ (2 * k) / ((2 * k + j + m)! : ℝ)

theorem summable_coef (j : ℕ) (t : ℝ) (m : ℕ) : Summable (coef j t m) := by
  have h : Summable (fun n : ℕ => |t| ^ n / (n ! : ℝ)) := Real.summable_pow_div_factorial |t|
  have h2 : Summable (fun k : ℕ => |t| ^ (2 * k) / ((2 * k)! : ℝ)) :=
    h.comp_injective (fun a b hab => by simpa using hab)
  refine Summable.of_norm_bounded h2 (fun k => ?_)
  unfold coef
  rw [norm_div, norm_mul, norm_pow, norm_pow]
  simp only [norm_neg, norm_one, one_pow, one_mul, Real.norm_eq_abs, Nat.abs_cast]
  apply div_le_div_of_nonneg_left (by positivity) (by positivity)
  exact_mod_cast Nat.factorial_le (by omega)

noncomputable def a (t : ℝ) (m : ℕ) : ℝ := ∑' k, coef 1 t m k
noncomputable def b (t : ℝ) (m : ℕ) : ℝ := ∑' k, coef 2 t m k

theorem a_zero {t : ℝ} (ht : t ≠ 0) : a t 0 = Real.sin t / t := by
  have h := (Real.hasSum_sin t).mul_right t⁻¹
  rw [a, div_eq_mul_inv, ← h.tsum_eq]
  congr 1; ext k
  unfold coef
  rw [pow_succ]
  field_simp
  try ring_nf

theorem a_succ (t : ℝ) (m : ℕ) : a t (m + 1) = b t m := by
  unfold a b
  congr 1; ext k
  unfold coef
  rw [show 2 * k + 1 + (m + 1) = 2 * k + 2 + m by ring]

theorem b_step {t : ℝ} (ht : t ≠ 0) (m : ℕ) : (1 / ((m + 1)! : ℝ) - a t m) / t ^ 2 = ∑' k, coef 3 t m k := by
  have h := (summable_coef 1 t m).tsum_eq_zero_add
  have h2 : (fun k => coef 1 t m (k + 1)) = fun k => -(t ^ 2) * coef 3 t m k := by
    ext k
    unfold coef
    rw [show 2 * (k + 1) + 1 + m = 2 * k + 3 + m by ring, show 2 * (k + 1) = 2 * k + 2 by ring, pow_add, pow_succ]
    ring
  rw [h2, tsum_mul_left] at h
  have h0 : coef 1 t m 0 = 1 / ((m + 1)! : ℝ) := by
    unfold coef; simp [Nat.add_comm]
  rw [a, h, h0]
  field_simp
  ring

theorem b_succ {t : ℝ} (ht : t ≠ 0) (m : ℕ) : b t (m + 1) = (1 / ((m + 1)! : ℝ) - a t m) / t ^ 2 := by
  rw [b_step ht]
  unfold b
  congr 1; ext k
  unfold coef
  rw [show 2 * k + 2 + (m + 1) = 2 * k + 3 + m by ring]

theorem b_zero {t : ℝ} (ht : t ≠ 0) : b t 0 = (1 - Real.cos t) / t ^ 2 := by
  have hs : Summable (coef 0 t 0) := summable_coef 0 t 0
  have hc : Real.cos t = ∑' k, coef 0 t 0 k := by
    rw [← (Real.hasSum_cos t).tsum_eq]
    congr 1
  have h := hs.tsum_eq_zero_add
  have h2 : (fun k => coef 0 t 0 (k + 1)) = fun k => -(t ^ 2) * coef 2 t 0 k := by
    ext k
    unfold coef
    rw [show 2 * (k + 1) + 0 + 0 = 2 * k + 2 + 0 by ring, show 2 * (k + 1) = 2 * k + 2 by ring, pow_add, pow_succ]
    ring
  rw [h2, tsum_mul_left] at h
  have h0 : coef 0 t 0 0 = 1 := by unfold coef; simp
  rw [hc, h, h0, b]
  field_simp
  ring

variable {R : Type*} [Ring R] [Algebra ℝ R] [TopologicalSpace R] [IsTopologicalRing R] [ContinuousSMul ℝ R]

/-- the series of any order sums to the closed form -/
theorem gamma {A : R} {t : ℝ} (hA : A ^ 3 = (-t ^ 2) • A) (m : ℕ) :
    HasSum (fun n : ℕ => (1 / ((n + m)! : ℝ)) • A ^ n)
      ((1 / (m ! : ℝ)) • (1 : R) + a t m • A + b t m • A ^ 2) := by
  have odd : ∀ k, A ^ (2 * k + 1) = ((-1) ^ k * t ^ (2 * k)) • A := by
    intro k
    induction k with
    | zero => simp
    | succ k ih =>
      have h3 : A * A ^ 2 = (-t ^ 2) • A := (pow_succ' A 2).symm.trans hA
      rw [show 2 * (k + 1) + 1 = (2 * k + 1) + 2 by ring, pow_add, ih, smul_mul_assoc, h3, smul_smul]
      congr 1
      rw [show 2 * (k + 1) = 2 * k + 2 by ring, pow_add, pow_succ]
      ring
  have even : ∀ k, A ^ (2 * k + 2) = ((-1) ^ k * t ^ (2 * k)) • A ^ 2 := by
    intro k
    rw [show 2 * k + 2 = (2 * k + 1) + 1 by ring, pow_succ, odd, smul_mul_assoc, ← pow_two]
  have ho : HasSum (fun k : ℕ => (1 / ((2 * k + 1 + m)! : ℝ)) • A ^ (2 * k + 1)) (a t m • A) := by
    have h := ((summable_coef 1 t m).hasSum).smul_const A
    have e : (fun k : ℕ => (1 / ((2 * k + 1 + m)! : ℝ)) • A ^ (2 * k + 1)) = fun k => coef 1 t m k • A := by
      funext k
      rw [odd, smul_smul]
      congr 1
      unfold coef
      ring
    rw [e]; exact h
  have he : HasSum (fun k : ℕ => (1 / ((2 * k + m)! : ℝ)) • A ^ (2 * k))
      ((1 / (m ! : ℝ)) • (1 : R) + b t m • A ^ 2) := by
    have h := ((summable_coef 2 t m).hasSum).smul_const (A ^ 2)
    have e : (fun k : ℕ => (1 / ((2 * (k + 1) + m)! : ℝ)) • A ^ (2 * (k + 1))) = fun k => coef 2 t m k • A ^ 2 := by
      funext k
      rw [show 2 * (k + 1) = 2 * k + 2 by ring, even, smul_smul]
      congr 1
      unfold coef
      ring
    have h1 := h
    rw [← e] at h1
    have h2 := h1.zero_add (f := fun k : ℕ => (1 / ((2 * k + m)! : ℝ)) • A ^ (2 * k))
    simpa [b] using h2
  have := HasSum.even_add_odd (f := fun n : ℕ => (1 / ((n + m)! : ℝ)) • A ^ n) he ho
  have e : (1 / (m ! : ℝ)) • (1 : R) + a t m • A + b t m • A ^ 2
      = (1 / (m ! : ℝ)) • (1 : R) + b t m • A ^ 2 + a t m • A := by abel
  rw [e]; exact this

/-- a skew matrix satisfies the hypothesis with t its rotation angle -/
theorem skew_cubed (x y z t : ℝ) (ht : t ^ 2 = x ^ 2 + y ^ 2 + z ^ 2) :
    (!![0, -z, y; z, 0, -x; -y, x, 0] : Matrix (Fin 3) (Fin 3) ℝ) ^ 3
      = (-t ^ 2) • !![0, -z, y; z, 0, -x; -y, x, 0] := by
  rw [ht, pow_succ, pow_two]
  ext i j
  fin_cases i <;> fin_cases j <;> simp [Matrix.mul_apply, Fin.sum_univ_three] <;> ring

end Drift
