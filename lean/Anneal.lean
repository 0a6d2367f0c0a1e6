/- Lemma schemas behind C18. -/
import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Analysis.Calculus.Deriv.MeanValue

open Finset

/-- solution of an accumulator recurrence -/
theorem prefix_sum (v d : ℕ → ℝ) (h : ∀ k, v (k + 1) = v k + d k) (n : ℕ) :
    v n = v 0 + ∑ k ∈ range n, d k := by
  induction n with
  | zero => simp
  | succ n ih => rw [h, ih, sum_range_succ, add_assoc]

/-- the invariant W_j = sum_{i<j} inc_i - G_j (j < n) with its last step closes to the sum -/
theorem weight_telescope (n : ℕ) (hn : 1 ≤ n) (W inc G : ℕ → ℝ) (h0 : W 0 = -G 0)
    (hs : ∀ j, j + 1 < n → W (j + 1) = W j + (inc j + G j - G (j + 1)))
    (hl : W n = W (n - 1) + (inc (n - 1) + G (n - 1))) :
    W n = ∑ k ∈ range n, inc k := by
  have hi : ∀ j, j < n → W j = ∑ k ∈ range j, inc k - G j := by
    intro j
    induction j with
    | zero => intro _; simp [h0]
    | succ j ih =>
      intro hj
      rw [hs j hj, ih (by omega), sum_range_succ]; ring
  obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
  simp only [Nat.add_sub_cancel] at hl
  rw [hl, hi m (by omega), sum_range_succ]; ring

/-- a positive derivative gives a strictly increasing schedule -/
theorem strict_mono_of_deriv_pos (f : ℝ → ℝ) (h : ∀ x, 0 < deriv f x) : StrictMono f :=
  strictMono_of_deriv_pos h
