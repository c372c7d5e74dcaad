/- Sums of congruences of positive semidefinite matrices are positive
semidefinite: the witness form the C22 obligations are discharged against. -/
import Mathlib.LinearAlgebra.Matrix.PosDef
import Mathlib.Algebra.Order.Star.Real

open Matrix
set_option linter.unusedSectionVars false

namespace Drift
variable {n m : Type*} [Fintype n] [Fintype m] [DecidableEq n] [DecidableEq m]

theorem congr {P : Matrix n n ℝ} (h : P.PosSemidef) (A : Matrix m n ℝ) :
    (A * P * Aᵀ).PosSemidef := by
  simpa using h.mul_mul_conjTranspose_same A

/-- propagation: P ↦ Φ P Φᵀ + (Φ G) Q (Φ G)ᵀ · dt -/
theorem propagation {P Q : Matrix n n ℝ} (hP : P.PosSemidef) (hQ : Q.PosSemidef)
    (F G : Matrix n n ℝ) {dt : ℝ} (hdt : 0 ≤ dt) :
    (F * P * Fᵀ + dt • (F * G * Q * (F * G)ᵀ)).PosSemidef :=
  (congr hP F).add ((congr hQ (F * G)).smul hdt)

/-- Joseph form: P ↦ (I - K H) P (I - K H)ᵀ + K N Kᵀ -/
theorem joseph {P : Matrix n n ℝ} {N : Matrix m m ℝ} (hP : P.PosSemidef) (hN : N.PosSemidef)
    (K : Matrix n m ℝ) (H : Matrix m n ℝ) :
    ((1 - K * H) * P * (1 - K * H)ᵀ + K * N * Kᵀ).PosSemidef :=
  (congr hP _).add (congr hN K)

/-- removing a contact point keeps a principal submatrix -/
theorem remove {P : Matrix n n ℝ} (h : P.PosSemidef) (e : m → n) :
    (P.submatrix e e).PosSemidef := h.submatrix e

/-- decoupling one index set and giving it its own variance -/
theorem decouple {P : Matrix n n ℝ} (h : P.PosSemidef) (d : n → ℝ) (e : n → ℝ) (he : ∀ i, 0 ≤ e i) :
    (diagonal d * P * (diagonal d)ᵀ + diagonal e).PosSemidef :=
  (congr h _).add (PosSemidef.diagonal he)

end Drift
