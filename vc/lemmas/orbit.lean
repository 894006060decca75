import Mathlib
/- The orbits of  v ↦ (v+m) mod n  on 0..n-1, as used by the loop contracts of
   random_access_index_node_impl::relocate (range form): p = gcd n m orbits with
   representatives 0..p-1, each of length L = n/p. -/
theorem orbit (n m p : ℤ) (hn : 0 < n) (hm : 0 ≤ m) (hmn : m ≤ n) (hp : p = Int.gcd n m) :
    ∃ (L : ℤ) (REP TT : ℤ → ℤ), 0 < p ∧ p ≤ n ∧ 0 < L ∧
    (∀ v, 0 ≤ v → v < n → ∀ nx, nx = (if v < n - m then v + m else v - (n - m)) →
      0 ≤ REP v ∧ REP v < p ∧ 0 ≤ TT v ∧ TT v < L ∧ (v < p → REP v = v ∧ TT v = 0) ∧
      (TT v = 0 ↔ v = REP v) ∧ REP nx = REP v ∧ (nx ≠ REP v → TT nx = TT v + 1) ∧
      (nx = REP v ↔ TT v = L - 1)) ∧
    (∀ v w, 0 ≤ v → v < n → 0 ≤ w → w < n → REP v = REP w → TT v = TT w → v = w) := by
  have hp0 : 0 < p := by
    rw [hp]; exact_mod_cast Int.gcd_pos_of_ne_zero_left m (ne_of_gt hn)
  have hpn : p ∣ n := by rw [hp]; exact Int.gcd_dvd_left ..
  have hpm : p ∣ m := by rw [hp]; exact Int.gcd_dvd_right ..
  obtain ⟨L, hL⟩ := hpn
  obtain ⟨m', hm'⟩ := hpm
  have hL0 : 0 < L := by nlinarith
  have bez : ∃ A B : ℤ, L * A + m' * B = 1 := by
    refine ⟨Int.gcdA n m, Int.gcdB n m, ?_⟩
    have h := Int.gcd_eq_gcd_ab n m
    rw [← hp] at h
    have h2 : p * (L * Int.gcdA n m + m' * Int.gcdB n m) = p * 1 := by
      rw [mul_one]
      calc p * (L * Int.gcdA n m + m' * Int.gcdB n m) = (p * L) * Int.gcdA n m + (p * m') * Int.gcdB n m := by ring
        _ = n * Int.gcdA n m + m * Int.gcdB n m := by rw [← hL, ← hm']
        _ = p := h.symm
    exact mul_left_cancel₀ (ne_of_gt hp0) h2
  obtain ⟨A, u, hu⟩ := bez
  have canc : ∀ x, L ∣ x * u → L ∣ x := by
    intro x hx
    have : x = (x * u) * m' + L * (A * x) := by
      calc x = x * (L * A + m' * u) := by rw [hu, mul_one]
        _ = (x * u) * m' + L * (A * x) := by ring
    rw [this]
    exact dvd_add (Dvd.dvd.mul_right hx _) (dvd_mul_right _ _)
  have hq : ∀ v, 0 ≤ v → v < n → 0 ≤ v / p ∧ v / p < L := by
    intro v h0 h1
    refine ⟨Int.ediv_nonneg h0 hp0.le, ?_⟩
    apply Int.ediv_lt_of_lt_mul hp0
    rw [mul_comm]; rw [← hL]; exact h1
  have vdec : ∀ v, v = p * (v / p) + v % p := fun v => (Int.mul_ediv_add_emod v p).symm
  have tt0 : ∀ v, 0 ≤ v → v < n → ((v / p * u) % L = 0 ↔ v = v % p) := by
    intro v h0 h1
    have ⟨q0, q1⟩ := hq v h0 h1
    constructor
    · intro h
      have hd := canc _ (Int.dvd_of_emod_eq_zero h)
      have hz : v / p = 0 := Int.eq_zero_of_dvd_of_nonneg_of_lt q0 q1 hd
      have := vdec v
      rw [hz] at this; simpa using this
    · intro h
      have hz : v / p = 0 := by
        have h2 := vdec v
        have : p * (v / p) = 0 := by linarith
        rcases mul_eq_zero.mp this with h3 | h3
        · exact absurd h3 (ne_of_gt hp0)
        · exact h3
      rw [hz]; simp
  refine ⟨L, fun v => v % p, fun v => (v / p * u) % L, hp0, ?_, hL0, ?_, ?_⟩
  · nlinarith
  · intro v h0 h1 nx hnx
    have key : nx % p = v % p ∧ ((nx / p * u) % L = ((v / p * u) % L + 1) % L) := by
      have hmu : m' * u = 1 + L * (-A) := by linarith
      have add1 : ∀ q : ℤ, (q = v / p + m' ∨ q = v / p + m' - L) → (q * u) % L = ((v / p * u) % L + 1) % L := by
        intro q hq'
        have e : ∃ c : ℤ, q * u = v / p * u + 1 + L * c := by
          rcases hq' with h | h
          · exact ⟨-A, by rw [h]; linear_combination hmu⟩
          · exact ⟨-A - u, by rw [h]; linear_combination hmu⟩
        obtain ⟨c, hc⟩ := e
        rw [hc, Int.add_mul_emod_self_left, Int.emod_add_emod]
      by_cases hc : v < n - m
      · have e : nx = v + p * m' := by rw [hnx, if_pos hc, hm']
        refine ⟨by rw [e, Int.add_mul_emod_self_left], ?_⟩
        apply add1; left
        rw [e, Int.add_mul_ediv_left _ _ (ne_of_gt hp0)]
      · have e : nx = v + p * (m' - L) := by
          rw [hnx, if_neg hc]; rw [mul_sub, ← hm', ← hL]; ring
        refine ⟨by rw [e, Int.add_mul_emod_self_left], ?_⟩
        apply add1; right
        rw [e, Int.add_mul_ediv_left _ _ (ne_of_gt hp0)]; ring
    obtain ⟨k1, k2⟩ := key
    have nx0 : 0 ≤ nx ∧ nx < n := by
      rw [hnx]; split_ifs <;> constructor <;> linarith
    have t0 : 0 ≤ (v / p * u) % L := Int.emod_nonneg _ (ne_of_gt hL0)
    have t1 : (v / p * u) % L < L := Int.emod_lt_of_pos _ hL0
    have r0 : 0 ≤ v % p := Int.emod_nonneg _ (ne_of_gt hp0)
    have r1 : v % p < p := Int.emod_lt_of_pos _ hp0
    have last : nx = v % p ↔ (v / p * u) % L = L - 1 := by
      have h := tt0 nx nx0.1 nx0.2
      rw [k1, k2] at h
      rw [← h]
      constructor
      · intro hz
        by_contra hne
        have hlt : (v / p * u) % L + 1 < L := by omega
        rw [Int.emod_eq_of_lt (by omega) hlt] at hz
        omega
      · intro hz
        rw [hz]; simp
    refine ⟨r0, r1, t0, t1, ?_, tt0 v h0 h1, k1, ?_, last⟩
    · intro hv
      have : v % p = v := Int.emod_eq_of_lt h0 hv
      exact ⟨this, (tt0 v h0 h1).mpr this.symm⟩
    · intro hne
      have hnl : (v / p * u) % L ≠ L - 1 := fun h => hne (last.mpr h)
      show (nx / p * u) % L = (v / p * u) % L + 1
      rw [k2]
      exact Int.emod_eq_of_lt (by omega) (by omega)
  · intro v w v0 v1 w0 w1 hr ht
    have hr' : v % p = w % p := hr
    have ht' : (v / p * u) % L = (w / p * u) % L := ht
    have hd : L ∣ (v / p - w / p) * u := by
      have := Int.emod_emod_of_dvd
      have h := Int.dvd_of_emod_eq_zero (Int.emod_eq_emod_iff_emod_sub_eq_zero.mp ht')
      have e : (v / p - w / p) * u = v / p * u - w / p * u := by ring
      rw [e]; exact h
    have hd2 := canc _ hd
    have ⟨a0, a1⟩ := hq v v0 v1
    have ⟨b0, b1⟩ := hq w w0 w1
    have e : v / p = w / p := by
      obtain ⟨c, hc⟩ := hd2
      have hc0 : c = 0 := by
        by_contra hne
        rcases lt_or_gt_of_ne hne with h | h
        · have : L * c ≤ L * (-1) := by apply mul_le_mul_of_nonneg_left (by omega) hL0.le
          linarith
        · have : L * 1 ≤ L * c := by apply mul_le_mul_of_nonneg_left (by omega) hL0.le
          linarith
      rw [hc0] at hc; linarith
    have h1 := vdec v
    have h2 := vdec w
    rw [h1, h2, e, hr']
