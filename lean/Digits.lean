import Mathlib

/-! the arithmetic of base 256 which the verifier uses, and of gcd -/

/-- the number which bytes denote, least significant first -/
def val : List ℕ → ℕ := Nat.ofDigits 256

theorem val_nil : val [] = 0 := rfl

theorem val_cons (b : ℕ) (l : List ℕ) : val (b :: l) = b + 256 * val l := by
  simp [val, Nat.ofDigits_cons]

theorem val_append (a b : List ℕ) : val (a ++ b) = val a + 256 ^ a.length * val b := by
  simp [val, Nat.ofDigits_append]

theorem val_lt (l : List ℕ) (h : ∀ b ∈ l, b < 256) : val l < 256 ^ l.length :=
  Nat.ofDigits_lt_base_pow_length (by norm_num) h

/-- the digits of a number determine it, and it determines them -/
theorem digit (l : List ℕ) (h : ∀ b ∈ l, b < 256) (j : ℕ) (hj : j < l.length) : val l / 256 ^ j % 256 = l[j] := by
  induction l generalizing j with
  | nil => simp at hj
  | cons b l ih =>
    have hb := h b (by simp)
    have hl : ∀ b ∈ l, b < 256 := fun x hx => h x (by simp [hx])
    rw [val_cons]
    cases j with
    | zero => simp; omega
    | succ j =>
      rw [pow_succ', ← Nat.div_div_eq_div_mul]
      have : (b + 256 * val l) / 256 = val l := by omega
      rw [this]
      simpa using ih hl j (by simpa using hj)

theorem injective (a b : List ℕ) (ha : ∀ x ∈ a, x < 256) (hb : ∀ x ∈ b, x < 256) (n : a.length = b.length) (h : val a = val b) :
    a = b := by
  apply List.ext_getElem n
  intro j h1 h2
  rw [← digit a ha j h1, ← digit b hb j h2, h]

/-- leading zero bytes: a number below 256^m has none but zero bytes from byte m on -/
theorem high_zero (v m j : ℕ) (h : v < 256 ^ m) (hj : m ≤ j) : v / 256 ^ j % 256 = 0 := by
  rw [Nat.div_eq_of_lt (lt_of_lt_of_le h (Nat.pow_le_pow_right (by norm_num) hj))]

/-- the sign bit of a number of n + 1 bytes -/
theorem sign (v n : ℕ) (h : v < 256 ^ (n + 1)) : 128 ≤ v / 256 ^ n % 256 ↔ 256 ^ (n + 1) ≤ 2 * v := by
  have hp : 0 < 256 ^ n := by positivity
  have h1 : v / 256 ^ n < 256 := by
    rw [Nat.div_lt_iff_lt_mul hp]; rw [pow_succ] at h; linarith
  rw [Nat.mod_eq_of_lt h1, Nat.le_div_iff_mul_le hp, pow_succ]
  constructor <;> intro h <;> linarith

/-- a loop u(k+1) = u(k) // 256 from v -/
theorem division_loop (u : ℕ → ℕ) (v n : ℕ) (h0 : u 0 = v) (h : ∀ k, k < n → u (k + 1) = u k / 256) :
    ∀ k, k ≤ n → u k = v / 256 ^ k := by
  intro k
  induction k with
  | zero => intro _; simp [h0]
  | succ k ih =>
    intro hk
    rw [h k (by omega), ih (by omega), Nat.div_div_eq_div_mul, pow_succ]

theorem division_loop_end (v n : ℕ) (h : v / 256 ^ n = 0) : v < 256 ^ n := by
  rcases Nat.div_eq_zero_iff.mp h with h | h
  · simp at h
  · exact h

theorem division_loop_before (v n : ℕ) : 0 < v / 256 ^ n ↔ 256 ^ n ≤ v := by
  rw [Nat.div_pos_iff]; simp

/-- a loop u(k+1) = 256 u(k) + b(k) from 0: the number of the bytes, most significant first -/
theorem horner (u b : ℕ → ℕ) (n : ℕ) (h0 : u 0 = 0) (h : ∀ k, k < n → u (k + 1) = 256 * u k + b k) :
    u n = val ((List.range n).map b).reverse := by
  induction n with
  | zero => simp [h0, val]
  | succ n ih =>
    rw [h n (by omega), ih (fun k hk => h k (by omega)), List.range_succ, List.map_append, List.reverse_append]
    simp [val_cons]; ring

/-- Euclid -/
theorem gcd_zero (b : ℕ) : Nat.gcd 0 b = b := by simp

theorem gcd_step (a b : ℕ) : Nat.gcd a b = Nat.gcd (b % a) a := Nat.gcd_rec a b

theorem gcd_law_of_primes (p : ℕ) (hp : p.Prime) (a : ℕ) (h : 0 < a) (h' : a < p) : Nat.gcd a p = 1 := by
  rw [Nat.gcd_comm]
  exact (Nat.Prime.coprime_iff_not_dvd hp).mpr (Nat.not_dvd_of_pos_of_lt h h')

/-- an inverse modulo m exists when the gcd is 1 -/
theorem inverse (x m : ℕ) (hm : 0 < m) (h : Nat.gcd x m = 1) : ∃ t < m, (x * t) % m = 1 % m := by
  rcases Nat.lt_or_ge 1 m with h1 | h1
  · obtain ⟨t, ht, e⟩ := Nat.exists_mul_mod_eq_one_of_coprime h h1
    exact ⟨t, ht, by rw [e, Nat.mod_eq_of_lt h1]⟩
  · have : m = 1 := by omega
    subst this; exact ⟨0, by norm_num, by simp⟩

#print axioms val_append
#print axioms val_lt
#print axioms digit
#print axioms injective
#print axioms high_zero
#print axioms sign
#print axioms division_loop
#print axioms division_loop_end
#print axioms division_loop_before
#print axioms horner
#print axioms gcd_zero
#print axioms gcd_step
#print axioms gcd_law_of_primes
#print axioms inverse
