import Mathlib

/-! the primality of the prime of secp256r1, by Pratt certificates -/

/-- a ^ n % p by squaring; k bounds the number of bits of n -/
def power (p : ℕ) : ℕ → ℕ → ℕ → ℕ
  | 0, _, _ => 1 % p
  | k + 1, a, n => bif n == 0 then 1 % p else
      bif n % 2 == 0 then power p k (a * a % p) (n / 2) else a * power p k (a * a % p) (n / 2) % p

theorem power_eq (p k : ℕ) : ∀ a n, n < 2 ^ k → power p k a n = a ^ n % p := by
  induction k with
  | zero => intro a n h; have : n = 0 := by simpa using h
            subst this; simp [power]
  | succ k ih =>
    intro a n h
    have h2 : n / 2 < 2 ^ k := by rw [pow_succ] at h; omega
    have e : (a * a % p) ^ (n / 2) % p = a ^ (2 * (n / 2)) % p := by
      rw [← Nat.pow_mod, pow_mul, sq]
    unfold power
    by_cases h0 : n = 0
    · subst h0; simp
    by_cases h1 : n % 2 = 0
    · have : 2 * (n / 2) = n := by omega
      simp only [beq_eq_false_iff_ne.mpr h0, cond_false, h1, beq_self_eq_true, cond_true]
      rw [ih _ _ h2, e, this]
    · have : 2 * (n / 2) + 1 = n := by omega
      simp only [beq_eq_false_iff_ne.mpr h0, cond_false, beq_eq_false_iff_ne.mpr h1]
      rw [ih _ _ h2, e, Nat.mul_mod, Nat.mod_mod, ← Nat.mul_mod, ← pow_succ', this]

theorem pratt (p a : ℕ) (hp : 1 < p) (fs : List ℕ) (hf : fs.prod = p - 1) (hq : ∀ q ∈ fs, Nat.Prime q)
    (hk : p < 2 ^ 256) (h1 : power p 256 a (p - 1) = 1) (h2 : ∀ q ∈ fs, power p 256 a ((p - 1) / q) ≠ 1) : Nat.Prime p := by
  rw [power_eq _ _ _ _ (by omega)] at h1
  have h2 : ∀ q ∈ fs, a ^ ((p - 1) / q) % p ≠ 1 := by
    intro q hq'
    have := h2 q hq'
    rwa [power_eq _ _ _ _ (lt_of_le_of_lt (Nat.div_le_self _ _) (by omega))] at this
  have cast : ∀ n : ℕ, ((a : ZMod p) ^ n = 1) ↔ a ^ n % p = 1 := by
    intro n
    have h := ZMod.natCast_eq_natCast_iff' (a ^ n) 1 p
    rw [Nat.mod_eq_of_lt hp] at h
    rw [← h]; push_cast; rfl
  apply lucas_primality p (a : ZMod p) ((cast _).mpr h1)
  intro q hqp hd
  rw [← hf] at hd
  obtain ⟨f, hm, hdf⟩ := (Nat.Prime.prime hqp).dvd_prod_iff.mp hd
  have : q = f := (Nat.prime_dvd_prime_iff_eq hqp (hq f hm)).mp hdf
  subst this
  exact fun h => h2 q hm ((cast _).mp h)

theorem p2 : Nat.Prime 2 := by norm_num

theorem p3 : Nat.Prime 3 := by norm_num

theorem p5 : Nat.Prime 5 := by norm_num

theorem p17 : Nat.Prime 17 := by norm_num

theorem p257 : Nat.Prime 257 := by norm_num

theorem p641 : Nat.Prime 641 := by norm_num

theorem p1531 : Nat.Prime 1531 := by norm_num

theorem p65537 : Nat.Prime 65537 := by
  apply pratt 65537 3 (by norm_num) [2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2] (by norm_num)
  · simp only [List.mem_cons, List.not_mem_nil, or_false]
    rintro q (rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl)
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p2
  · norm_num
  · decide +kernel
  · decide +kernel

theorem p7 : Nat.Prime 7 := by norm_num

theorem p53 : Nat.Prime 53 := by norm_num

theorem p661 : Nat.Prime 661 := by norm_num

theorem p490463 : Nat.Prime 490463 := by
  apply pratt 490463 14 (by norm_num) [2, 7, 53, 661] (by norm_num)
  · simp only [List.mem_cons, List.not_mem_nil, or_false]
    rintro q (rfl | rfl | rfl | rfl)
    · exact p2
    · exact p7
    · exact p53
    · exact p661
  · norm_num
  · decide +kernel
  · decide +kernel

theorem p17449 : Nat.Prime 17449 := by norm_num

theorem p6700417 : Nat.Prime 6700417 := by
  apply pratt 6700417 5 (by norm_num) [2, 2, 2, 2, 2, 2, 2, 3, 17449] (by norm_num)
  · simp only [List.mem_cons, List.not_mem_nil, or_false]
    rintro q (rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl)
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p2
    · exact p3
    · exact p17449
  · norm_num
  · decide +kernel
  · decide +kernel

theorem p2411 : Nat.Prime 2411 := by norm_num

theorem p11 : Nat.Prime 11 := by norm_num

theorem p23 : Nat.Prime 23 := by norm_num

theorem p107 : Nat.Prime 107 := by norm_num

theorem p3769 : Nat.Prime 3769 := by norm_num

theorem p204061199 : Nat.Prime 204061199 := by
  apply pratt 204061199 11 (by norm_num) [2, 11, 23, 107, 3769] (by norm_num)
  · simp only [List.mem_cons, List.not_mem_nil, or_false]
    rintro q (rfl | rfl | rfl | rfl | rfl)
    · exact p2
    · exact p11
    · exact p23
    · exact p107
    · exact p3769
  · norm_num
  · decide +kernel
  · decide +kernel

theorem p34282281433 : Nat.Prime 34282281433 := by
  apply pratt 34282281433 17 (by norm_num) [2, 2, 2, 3, 7, 204061199] (by norm_num)
  · simp only [List.mem_cons, List.not_mem_nil, or_false]
    rintro q (rfl | rfl | rfl | rfl | rfl | rfl)
    · exact p2
    · exact p2
    · exact p2
    · exact p3
    · exact p7
    · exact p204061199
  · norm_num
  · decide +kernel
  · decide +kernel

theorem p173 : Nat.Prime 173 := by norm_num

theorem p197 : Nat.Prime 197 := by norm_num

theorem p3677 : Nat.Prime 3677 := by norm_num

theorem p66417393611 : Nat.Prime 66417393611 := by
  apply pratt 66417393611 6 (by norm_num) [2, 5, 53, 173, 197, 3677] (by norm_num)
  · simp only [List.mem_cons, List.not_mem_nil, or_false]
    rintro q (rfl | rfl | rfl | rfl | rfl | rfl)
    · exact p2
    · exact p5
    · exact p53
    · exact p173
    · exact p197
    · exact p3677
  · norm_num
  · decide +kernel
  · decide +kernel

theorem p11290956913871 : Nat.Prime 11290956913871 := by
  apply pratt 11290956913871 13 (by norm_num) [2, 5, 17, 66417393611] (by norm_num)
  · simp only [List.mem_cons, List.not_mem_nil, or_false]
    rintro q (rfl | rfl | rfl | rfl)
    · exact p2
    · exact p5
    · exact p17
    · exact p66417393611
  · norm_num
  · decide +kernel
  · decide +kernel

theorem p18169 : Nat.Prime 18169 := by norm_num

theorem p4349 : Nat.Prime 4349 := by norm_num

theorem p78283 : Nat.Prime 78283 := by
  apply pratt 78283 3 (by norm_num) [2, 3, 3, 4349] (by norm_num)
  · simp only [List.mem_cons, List.not_mem_nil, or_false]
    rintro q (rfl | rfl | rfl | rfl)
    · exact p2
    · exact p3
    · exact p3
    · exact p4349
  · norm_num
  · decide +kernel
  · decide +kernel

theorem p313 : Nat.Prime 313 := by norm_num

theorem p704251 : Nat.Prime 704251 := by
  apply pratt 704251 2 (by norm_num) [2, 3, 3, 5, 5, 5, 313] (by norm_num)
  · simp only [List.mem_cons, List.not_mem_nil, or_false]
    rintro q (rfl | rfl | rfl | rfl | rfl | rfl | rfl)
    · exact p2
    · exact p3
    · exact p3
    · exact p5
    · exact p5
    · exact p5
    · exact p313
  · norm_num
  · decide +kernel
  · decide +kernel

theorem p46076956964474543 : Nat.Prime 46076956964474543 := by
  apply pratt 46076956964474543 5 (by norm_num) [2, 23, 18169, 704251, 78283] (by norm_num)
  · simp only [List.mem_cons, List.not_mem_nil, or_false]
    rintro q (rfl | rfl | rfl | rfl | rfl)
    · exact p2
    · exact p23
    · exact p18169
    · exact p704251
    · exact p78283
  · norm_num
  · decide +kernel
  · decide +kernel

theorem p774023187263532362759620327192479577272145303 : Nat.Prime 774023187263532362759620327192479577272145303 := by
  apply pratt 774023187263532362759620327192479577272145303 3 (by norm_num) [2, 3, 3, 2411, 11290956913871, 34282281433, 46076956964474543] (by norm_num)
  · simp only [List.mem_cons, List.not_mem_nil, or_false]
    rintro q (rfl | rfl | rfl | rfl | rfl | rfl | rfl)
    · exact p2
    · exact p3
    · exact p3
    · exact p2411
    · exact p11290956913871
    · exact p34282281433
    · exact p46076956964474543
  · norm_num
  · decide +kernel
  · decide +kernel

theorem p835945042244614951780389953367877943453916927241 : Nat.Prime 835945042244614951780389953367877943453916927241 := by
  apply pratt 835945042244614951780389953367877943453916927241 11 (by norm_num) [2, 2, 2, 3, 3, 3, 5, 774023187263532362759620327192479577272145303] (by norm_num)
  · simp only [List.mem_cons, List.not_mem_nil, or_false]
    rintro q (rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl)
    · exact p2
    · exact p2
    · exact p2
    · exact p3
    · exact p3
    · exact p3
    · exact p5
    · exact p774023187263532362759620327192479577272145303
  · norm_num
  · decide +kernel
  · decide +kernel

theorem p115792089210356248762697446949407573530086143415290314195533631308867097853951 : Nat.Prime 115792089210356248762697446949407573530086143415290314195533631308867097853951 := by
  apply pratt 115792089210356248762697446949407573530086143415290314195533631308867097853951 6 (by norm_num) [2, 3, 5, 5, 17, 257, 641, 1531, 65537, 490463, 6700417, 835945042244614951780389953367877943453916927241] (by norm_num)
  · simp only [List.mem_cons, List.not_mem_nil, or_false]
    rintro q (rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl | rfl)
    · exact p2
    · exact p3
    · exact p5
    · exact p5
    · exact p17
    · exact p257
    · exact p641
    · exact p1531
    · exact p65537
    · exact p490463
    · exact p6700417
    · exact p835945042244614951780389953367877943453916927241
  · norm_num
  · decide +kernel
  · decide +kernel

theorem prime_secp256r1 : Nat.Prime (2 ^ 256 - 2 ^ 224 + 2 ^ 192 + 2 ^ 96 - 1) := by
  have h : (2 ^ 256 - 2 ^ 224 + 2 ^ 192 + 2 ^ 96 - 1 : ℕ) = 115792089210356248762697446949407573530086143415290314195533631308867097853951 := by norm_num
  rw [h]; exact p115792089210356248762697446949407573530086143415290314195533631308867097853951

#print axioms prime_secp256r1
