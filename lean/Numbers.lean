import Mathlib

/-! roots modulo a prime -/

/-- two square roots of one number modulo a prime are equal or opposite -/
theorem roots (p : ℕ) (hp : p.Prime) (y z : ℤ) (hy : 0 ≤ y) (hy' : y < p) (hz : 0 ≤ z) (hz' : z < p)
    (h : z * z % p = y * y % p) : z = y ∨ z = p - y ∨ (z = 0 ∧ y = 0) := by
  have hpi : Prime (p : ℤ) := Nat.prime_iff_prime_int.mp hp
  have h1 : (p : ℤ) ∣ (z - y) * (z + y) := by
    have := Int.emod_emod_of_dvd
    have h2 : (p : ℤ) ∣ z * z - y * y := Int.ModEq.dvd (Int.ModEq.symm h)
    have : (z - y) * (z + y) = z * z - y * y := by ring
    rw [this]; exact h2
  rcases hpi.dvd_or_dvd h1 with h2 | h2
  · left
    obtain ⟨k, hk⟩ := h2
    have : k = 0 := by
      by_contra hne
      rcases lt_or_gt_of_ne hne with h | h
      · nlinarith
      · nlinarith
    subst this; linarith
  · right
    obtain ⟨k, hk⟩ := h2
    have hp0 : (0 : ℤ) < p := by exact_mod_cast hp.pos
    have k0 : 0 ≤ k := by
      by_contra hne; rw [not_le] at hne; nlinarith
    have k2 : k < 2 := by
      by_contra hne; rw [not_lt] at hne; nlinarith
    have : k = 0 ∨ k = 1 := by omega
    rcases this with rfl | rfl
    · right; constructor <;> linarith
    · left; linarith

/-- for a prime p = 3 mod 4, v^((p+1)/4) squares to v when v is a square -/
theorem root_3_mod_4 (p : ℕ) [hp : Fact p.Prime] (h4 : p % 4 = 3) (r : ZMod p) :
    ((r * r) ^ ((p + 1) / 4)) * ((r * r) ^ ((p + 1) / 4)) = r * r := by
  have e : (p + 1) / 4 + (p + 1) / 4 = p / 2 + 1 := by omega
  rw [← pow_add, e]
  by_cases h0 : r = 0
  · subst h0; simp
  have hne : r * r ≠ 0 := mul_ne_zero h0 h0
  have : (r * r) ^ (p / 2) = 1 := (ZMod.euler_criterion p hne).mp ⟨r, rfl⟩
  rw [pow_succ, this, one_mul]

/-- the same for integers -/
theorem root_3_mod_4_int (p : ℕ) (hp : p.Prime) (h4 : p % 4 = 3) (r v e : ℤ) (hv : v = r * r % p)
    (he : e = v ^ ((p + 1) / 4) % p) : e * e % p = v := by
  have : Fact p.Prime := ⟨hp⟩
  have key := root_3_mod_4 p h4 (r : ZMod p)
  have hvz : (v : ZMod p) = (r : ZMod p) * r := by
    rw [hv]; simp
  have hez : (e : ZMod p) = (v : ZMod p) ^ ((p + 1) / 4) := by
    rw [he]; simp
  have : ((e * e : ℤ) : ZMod p) = ((r * r : ℤ) : ZMod p) := by
    push_cast; rw [hez, hvz, key]
  rw [hv]
  exact (ZMod.intCast_eq_intCast_iff' _ _ _).mp this

/-- for a prime p = 5 mod 8 and a square v other than 0: v^((p-1)/4) is 1 and v^((p+3)/8) squares to v, or it is not and (4v)^((p-5)/8) 2v does -/
theorem root_5_mod_8 (p : ℕ) [hp : Fact p.Prime] (h8 : p % 8 = 5) (r : ZMod p) (h0 : r ≠ 0) :
    ((r * r) ^ ((p - 1) / 4) = 1 → (r * r) ^ ((p + 3) / 8) * (r * r) ^ ((p + 3) / 8) = r * r) ∧
    ((r * r) ^ ((p - 1) / 4) ≠ 1 →
      ((4 * (r * r)) ^ ((p - 5) / 8) * 2 * (r * r)) * ((4 * (r * r)) ^ ((p - 5) / 8) * 2 * (r * r)) = r * r) := by
  have hne : r * r ≠ 0 := mul_ne_zero h0 h0
  have h1 : (r * r) ^ (p / 2) = 1 := (ZMod.euler_criterion p hne).mp ⟨r, rfl⟩
  constructor
  · intro h
    have e : (p + 3) / 8 + (p + 3) / 8 = (p - 1) / 4 + 1 := by omega
    rw [← pow_add, e, pow_succ, h, one_mul]
  · intro h
    have h2 : (r * r) ^ ((p - 1) / 4) = -1 := by
      have h5 : (r * r) ^ ((p - 1) / 4) * (r * r) ^ ((p - 1) / 4) = 1 := by
        rw [← pow_add]
        have : (p - 1) / 4 + (p - 1) / 4 = p / 2 := by omega
        rw [this, h1]
      rcases mul_self_eq_one_iff.mp h5 with h6 | h6
      · exact absurd h6 h
      · exact h6
    have h3 : (2 : ZMod p) ^ (p / 2) = -1 := by
      have two : (2 : ZMod p) ≠ 0 := by
        intro h
        have : (p : ℕ) ∣ 2 := by
          have := (ZMod.natCast_eq_zero_iff 2 p).mp (by exact_mod_cast h)
          exact this
        have := Nat.le_of_dvd (by norm_num) this
        have := hp.out.two_le
        have : p = 2 := by omega
        omega
      have ns : ¬ IsSquare (2 : ZMod p) := by
        rw [ZMod.exists_sq_eq_two_iff (by omega)]
        omega
      rcases ZMod.pow_div_two_eq_neg_one_or_one p two with h | h
      · exact absurd ((ZMod.euler_criterion p two).mpr h) ns
      · exact h
    have e : (p - 5) / 8 + (p - 5) / 8 + 1 = (p - 1) / 4 := by omega
    have f : (4 : ZMod p) ^ ((p - 1) / 4) = -1 := by
      have : (4 : ZMod p) = 2 ^ 2 := by norm_num
      rw [this, ← pow_mul]
      have : 2 * ((p - 1) / 4) = p / 2 := by omega
      rw [this, h3]
    have g : (4 * (r * r)) ^ ((p - 5) / 8 + (p - 5) / 8 + 1) = 1 := by
      rw [e, mul_pow, f, h2]; norm_num
    calc ((4 * (r * r)) ^ ((p - 5) / 8) * 2 * (r * r)) * ((4 * (r * r)) ^ ((p - 5) / 8) * 2 * (r * r))
        = (4 * (r * r)) ^ ((p - 5) / 8 + (p - 5) / 8 + 1) * (r * r) := by
          rw [pow_succ, pow_add]; ring
      _ = r * r := by rw [g, one_mul]

/-- the same for integers -/
theorem root_5_mod_8_int (p : ℕ) (hp : p.Prime) (h8 : p % 8 = 5) (r v e : ℤ) (hv : v = r * r % p) (h0 : v ≠ 0)
    (he : e = if v ^ ((p - 1) / 4) % p = 1 then v ^ ((p + 3) / 8) % p else (4 * v % p) ^ ((p - 5) / 8) % p * 2 * v) :
    e * e % p = v := by
  have : Fact p.Prime := ⟨hp⟩
  have hvz : (v : ZMod p) = (r : ZMod p) * r := by
    rw [hv]; simp
  have hr : (r : ZMod p) ≠ 0 := by
    intro h
    apply h0
    rw [hv]
    have : (p : ℤ) ∣ r := (ZMod.intCast_zmod_eq_zero_iff_dvd r p).mp h
    exact Int.emod_eq_zero_of_dvd (Dvd.dvd.mul_right this r)
  obtain ⟨k1, k2⟩ := root_5_mod_8 p h8 (r : ZMod p) hr
  have c : v ^ ((p - 1) / 4) % p = 1 ↔ ((r : ZMod p) * r) ^ ((p - 1) / 4) = 1 := by
    have one : (1 : ℤ) % p = 1 := Int.emod_eq_of_lt (by norm_num) (by exact_mod_cast hp.one_lt)
    rw [← hvz]
    have := (ZMod.intCast_eq_intCast_iff' (v ^ ((p - 1) / 4)) 1 p)
    rw [one] at this
    rw [← this]; push_cast; rfl
  have key : ((e * e : ℤ) : ZMod p) = ((r * r : ℤ) : ZMod p) := by
    push_cast
    by_cases h : v ^ ((p - 1) / 4) % p = 1
    · rw [if_pos h] at he
      have hez : (e : ZMod p) = (v : ZMod p) ^ ((p + 3) / 8) := by rw [he]; simp
      rw [hez, hvz, k1 (c.mp h)]
    · rw [if_neg h] at he
      have hez : (e : ZMod p) = (4 * (v : ZMod p)) ^ ((p - 5) / 8) * 2 * v := by rw [he]; simp
      rw [hez, hvz, k2 (fun h' => h (c.mpr h'))]
  rw [hv]
  exact (ZMod.intCast_eq_intCast_iff' _ _ _).mp key

/-- the prime law of gcd -/
theorem gcd_prime (p : ℕ) (hp : p.Prime) (a : ℤ) (h : ¬ (p : ℤ) ∣ a) : Int.gcd a p = 1 := by
  have := (Nat.Prime.coprime_iff_not_dvd hp).mpr (by
    intro h'; exact h (Int.natCast_dvd.mpr h'))
  rw [Int.gcd_comm]; simpa [Int.gcd] using this

#print axioms roots
#print axioms root_3_mod_4_int
#print axioms root_5_mod_8_int
#print axioms gcd_prime
