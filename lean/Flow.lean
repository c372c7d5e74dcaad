/- A linear differential equation with a given initial value has one solution:
the contracts that differentiate a closed form by the elapsed time and evaluate
it at zero (C03_ode, C04 transition) therefore pin it down. -/
import Mathlib.Analysis.ODE.ExistUnique
import Mathlib.Analysis.Calculus.Deriv.Basic

namespace Drift
variable {E : Type*} [NormedAddCommGroup E] [NormedSpace ℝ E]

theorem linear_flow_unique (L : E →L[ℝ] E) (c : ℝ → E) {f g : ℝ → E} (T : ℝ)
    (hf : ∀ t, HasDerivAt f (L (f t) + c t) t) (hg : ∀ t, HasDerivAt g (L (g t) + c t) t)
    (h0 : f 0 = g 0) : Set.EqOn f g (Set.Icc 0 T) := by
  have hv : ∀ t ∈ Set.Ico (0 : ℝ) T, LipschitzWith ‖L‖₊ (fun x => L x + c t) := by
    intro t _
    refine LipschitzWith.of_dist_le_mul (fun x y => ?_)
    rw [dist_eq_norm, dist_eq_norm, add_sub_add_right_eq_sub, ← map_sub]
    exact L.le_opNorm _
  exact ODE_solution_unique_of_mem_Icc_right (v := fun t x => L x + c t) (s := fun _ => Set.univ) (K := ‖L‖₊)
    (fun t ht => (hv t ht).lipschitzOnWith)
    (fun t _ => (hf t).continuousAt.continuousWithinAt)
    (fun t _ => (hf t).hasDerivWithinAt) (fun _ _ => trivial)
    (fun t _ => (hg t).continuousAt.continuousWithinAt)
    (fun t _ => (hg t).hasDerivWithinAt) (fun _ _ => trivial) h0
end Drift
