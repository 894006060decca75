import Mathlib
/- Counting arguments the contracts rest on. -/
/-- ranked indices: a strictly increasing map of n positions into 0..n-1 is the identity, so the
    position computed from subtree sizes is the position in the sequence -/
theorem position (n : ℕ) (f : ℕ → ℕ) (h : ∀ i, i + 1 < n → f i < f (i + 1)) (hb : ∀ i, i < n → f i < n) :
    ∀ i, i < n → f i = i := by
  have low : ∀ i, i < n → i ≤ f i := by
    intro i
    induction i with
    | zero => intro _; exact Nat.zero_le _
    | succ k ih => intro hk; have a := ih (by omega); have b := h k hk; omega
  have high : ∀ d i, i + d + 1 = n → f i ≤ i := by
    intro d
    induction d with
    | zero => intro i hi; have := hb i (by omega); omega
    | succ k ih => intro i hi; have a := ih (i + 1) (by omega); have b := h i (by omega); omega
  intro i hi
  have a := low i hi
  have b := high (n - 1 - i) i (by omega)
  omega
/-- random-access indices: n cells that hold elements of an n-element set without holding one twice
    hold every element (nothing is lost); sorting and merging permute -/
theorem no_loss (n : ℕ) (f : Fin n → Fin n) (h : ∀ i j, f i = f j → i = j) : ∀ k, ∃ i, f i = k :=
  (Finite.injective_iff_surjective.mp (fun i j => h i j))
/-- the invariant of a chain of layers: if every layer keeps its part in step whenever the layers below
    keep theirs, the whole chain is in step, whatever its length -/
theorem chain (P : ℕ → Prop) (h0 : P 0) (hs : ∀ k, P k → P (k + 1)) : ∀ k, P k := by
  intro k; induction k with
  | zero => exact h0
  | succ k ih => exact hs k ih
