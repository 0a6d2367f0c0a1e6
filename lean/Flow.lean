/- Lemma schemas behind C16 (change of variables of the flows). -/
import Mathlib.LinearAlgebra.Matrix.SchurComplement
import Mathlib.LinearAlgebra.Matrix.Block
import Mathlib.Analysis.SpecialFunctions.Log.Basic
import Mathlib.Analysis.SpecialFunctions.Exp
import Mathlib.Analysis.Calculus.FDeriv.Comp
import Mathlib.Topology.Algebra.Module.Determinant

open Matrix

/-- Jacobian of z + h(w.z+b) u, where p = h'(w.z+b): matrix determinant lemma. -/
theorem planar_det {d : ℕ} (w u : Fin d → ℝ) (p : ℝ) :
    (1 + vecMulVec (p • u) w).det = 1 + p * (w ⬝ᵥ u) := by
  rw [vecMulVec_eq Unit, det_one_add_replicateCol_mul_replicateRow, dotProduct_smul, smul_eq_mul]

/-- the planar determinant with w.u = sp - 1, sp > 0 and p = 1 - t^2, |t| < 1, is positive -/
theorem planar_pos (sp t : ℝ) (hs : 0 < sp) (ht : t ^ 2 < 1) : 0 < 1 + (1 - t ^ 2) * (sp - 1) := by
  nlinarith [mul_pos (sub_pos.mpr ht) hs, sq_nonneg t]

/-- an autoregressive affine step: lower triangular Jacobian with positive diagonal,
    rows then reversed (or permuted in any way) -/
theorem ar_det {d : ℕ} (J : Matrix (Fin d) (Fin d) ℝ) (s : Fin d → ℝ) (σ : Equiv.Perm (Fin d))
    (hl : J.IsLowerTriangular) (hd : ∀ i, J i i = s i) (hs : ∀ i, 0 < s i) :
    Real.log |(J.submatrix σ id).det| = ∑ i, Real.log (s i) := by
  rw [det_permute, det_of_isLowerTriangular J hl]
  have h1 : |(((Equiv.Perm.sign σ : ℤˣ) : ℤ) : ℝ)| = 1 := by
    rcases Int.units_eq_one_or (Equiv.Perm.sign σ) with h | h <;> simp [h]
  rw [abs_mul, h1, one_mul, Real.log_abs]
  simp_rw [hd]
  exact Real.log_prod (fun i _ => (hs i).ne')

/-- the map computed by the first n steps -/
def steps {E : Type*} (f : ℕ → E → E) : ℕ → E → E
  | 0 => id
  | n + 1 => f n ∘ steps f n

/-- chain rule: the log determinants of the steps add up to that of the whole map -/
theorem chain_log_det {E : Type*} [NormedAddCommGroup E] [NormedSpace ℝ E] [FiniteDimensional ℝ E]
    (f : ℕ → E → E) (f' : ℕ → E → E →L[ℝ] E) (hf : ∀ n z, HasFDerivAt (f n) (f' n z) z)
    (h0 : ∀ n z, (f' n z).det ≠ 0) (z : E) (n : ℕ) :
    ∃ F' : E →L[ℝ] E, HasFDerivAt (steps f n) F' z ∧ F'.det ≠ 0 ∧
      Real.log |F'.det| = ∑ k ∈ Finset.range n, Real.log |(f' k (steps f k z)).det| := by
  induction n with
  | zero =>
    have hi : (ContinuousLinearMap.id ℝ E).det = 1 := by simp [ContinuousLinearMap.det]
    exact ⟨ContinuousLinearMap.id ℝ E, hasFDerivAt_id z, by simp [hi], by simp [hi]⟩
  | succ n ih =>
    obtain ⟨F', h2, h3, h4⟩ := ih
    have hd : ((f' n (steps f n z)).comp F').det = (f' n (steps f n z)).det * F'.det := by
      simp [ContinuousLinearMap.det]
    refine ⟨(f' n (steps f n z)).comp F', ?_, ?_, ?_⟩
    · exact HasFDerivAt.comp z (hf n _) h2
    · rw [hd]; exact mul_ne_zero (h0 n _) h3
    · rw [hd, abs_mul, Real.log_mul (abs_ne_zero.mpr (h0 n _)) (abs_ne_zero.mpr h3), h4,
        Finset.sum_range_succ, add_comm]

/-- softplus is positive, the logistic function lies in (0,1) -/
theorem softplus_pos (x : ℝ) : 0 < Real.log (Real.exp x + 1) :=
  Real.log_pos (by linarith [Real.exp_pos x])
