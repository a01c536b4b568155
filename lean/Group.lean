import Mathlib

/-! the group law of a curve, on Mathlib's proof that the points of a Weierstrass curve form a group -/
open WeierstrassCurve

variable {p : ℕ} [hp : Fact p.Prime]

/-- y^2 = x^3 + a x + b over the integers modulo p -/
def curve (a b : ZMod p) : WeierstrassCurve.Affine (ZMod p) := { a₁ := 0, a₂ := 0, a₃ := 0, a₄ := a, a₆ := b }

/-- the coordinates the code gives a point: (0, 0) for infinity -/
def X {a b : ZMod p} : (curve a b).Point → ZMod p
  | .zero => 0
  | .some x _ _ => x

def Y {a b : ZMod p} : (curve a b).Point → ZMod p
  | .zero => 0
  | .some _ y _ => y

theorem on {a b x y : ZMod p} (h : (curve a b).Nonsingular x y) : y * y = x * x * x + a * x + b := by
  have := (WeierstrassCurve.Affine.equation_iff _ _).mp h.1
  simp [curve] at this
  linear_combination this

/-- (0, 0) is not on the curve, so only infinity has these coordinates -/
theorem infinite {a b : ZMod p} (hb : b ≠ 0) (P : (curve a b).Point) : P = 0 ↔ X P = 0 ∧ Y P = 0 := by
  constructor
  · rintro rfl; exact ⟨rfl, rfl⟩
  · rintro ⟨hx, hy⟩
    cases P with
    | zero => rfl
    | some x y h =>
      simp only [X, Y] at hx hy
      subst hx; subst hy
      have := on h
      simp at this
      exact absurd this.symm hb

theorem neg_coords {a b : ZMod p} (P : (curve a b).Point) : X (-P) = X P ∧ Y (-P) = -Y P := by
  cases P with
  | zero => exact ⟨rfl, by change (0 : ZMod p) = -0; simp⟩
  | some x y h =>
    rw [WeierstrassCurve.Affine.Point.neg_some]
    exact ⟨rfl, by simp [Y, WeierstrassCurve.Affine.negY, curve]⟩

/-- two points with the same x are equal or opposite -/
theorem same_x {a b : ZMod p} (P Q : (curve a b).Point) (hP : P ≠ 0) (hQ : Q ≠ 0) (h : X P = X Q) :
    Y P = Y Q ∨ Y P + Y Q = 0 := by
  cases P with
  | zero => exact absurd rfl hP
  | some x y hp' =>
    cases Q with
    | zero => exact absurd rfl hQ
    | some u v hq =>
      simp only [X, Y] at h ⊢
      subst h
      have e1 := on hp'
      have e2 := on hq
      have : (y - v) * (y + v) = 0 := by linear_combination e1 - e2
      rcases mul_eq_zero.mp this with h | h
      · left; exact sub_eq_zero.mp h
      · right; exact h

theorem opposite {a b : ZMod p} (P Q : (curve a b).Point) (hP : P ≠ 0) (hQ : Q ≠ 0) (h : X P = X Q)
    (h' : Y P + Y Q = 0) : P + Q = 0 := by
  cases P with
  | zero => exact absurd rfl hP
  | some x y hp' =>
    cases Q with
    | zero => exact absurd rfl hQ
    | some u v hq =>
      simp only [X, Y] at h h'
      exact WeierstrassCurve.Affine.Point.add_of_Y_eq h (by
        simp [WeierstrassCurve.Affine.negY, curve]; linear_combination h')

/-- the slope of the line through two points, or of the tangent -/
theorem sum {a b : ZMod p} (P Q : (curve a b).Point) (hP : P ≠ 0) (hQ : Q ≠ 0)
    (h : ¬ (X P = X Q ∧ Y P + Y Q = 0)) :
    ∃ l : ZMod p, (X P = X Q → l * (2 * Y P) = 3 * X P * X P + a) ∧
      (X P ≠ X Q → l * (X P - X Q) = Y P - Y Q) ∧
      X (P + Q) = l * l - X P - X Q ∧ Y (P + Q) = l * (X P - X (P + Q)) - Y P := by
  cases P with
  | zero => exact absurd rfl hP
  | some x y hp' =>
    cases Q with
    | zero => exact absurd rfl hQ
    | some u v hq =>
      simp only [X, Y] at h
      have hxy : ¬ (x = u ∧ y = (curve a b).negY u v) := by
        rintro ⟨h1, h2⟩
        apply h
        refine ⟨h1, ?_⟩
        simp [WeierstrassCurve.Affine.negY, curve] at h2
        rw [h2]; ring
      refine ⟨(curve a b).slope x u y v, ?_, ?_, ?_, ?_⟩
      · intro he
        simp only [X, Y] at he ⊢
        have hy : y ≠ (curve a b).negY u v := fun hh => hxy ⟨he, hh⟩
        rw [WeierstrassCurve.Affine.slope_of_Y_ne he hy]
        have d : y - (curve a b).negY x y ≠ 0 := by
          have e1 := on hp'
          have e2 := on hq
          subst he
          have : (y - v) * (y + v) = 0 := by linear_combination e1 - e2
          rcases mul_eq_zero.mp this with h3 | h3
          · have : y = v := sub_eq_zero.mp h3
            subst this
            exact sub_ne_zero.mpr hy
          · exact absurd ⟨rfl, h3⟩ h
        rw [div_mul_eq_mul_div, div_eq_iff d]
        simp [WeierstrassCurve.Affine.negY, curve]
        ring
      · intro he
        simp only [X, Y] at he ⊢
        rw [WeierstrassCurve.Affine.slope_of_X_ne he]
        rw [div_mul_cancel₀ _ (sub_ne_zero.mpr he)]
      · rw [WeierstrassCurve.Affine.Point.add_some hxy]
        simp [X, WeierstrassCurve.Affine.addX, curve]
        ring
      · rw [WeierstrassCurve.Affine.Point.add_some hxy]
        simp [X, Y, WeierstrassCurve.Affine.addX, WeierstrassCurve.Affine.addY, WeierstrassCurve.Affine.negAddY, WeierstrassCurve.Affine.negY, curve]
        ring

/-! ### the same for integers, as the specification says it -/

section
variable {a b : ZMod p} (G : (curve a b).Point)

/-- the coordinates of i G -/
def TX (i : ℤ) : ℤ := ((X (i • G)).val : ℤ)
def TY (i : ℤ) : ℤ := ((Y (i • G)).val : ℤ)

omit hp in
theorem val_inj [NeZero p] (x y : ZMod p) : ((x.val : ℤ) = (y.val : ℤ)) ↔ x = y := by
  constructor
  · intro h; exact ZMod.val_injective p (by exact_mod_cast h)
  · rintro rfl; rfl

theorem back (x : ZMod p) : (((x.val : ℤ)) : ZMod p) = x := by simp

theorem zero_mod (z : ℤ) : z % p = 0 ↔ (z : ZMod p) = 0 := by
  rw [ZMod.intCast_zmod_eq_zero_iff_dvd]
  exact ⟨Int.dvd_of_emod_eq_zero, Int.emod_eq_zero_of_dvd⟩

theorem range (i : ℤ) : 0 ≤ TX G i ∧ TX G i < p ∧ 0 ≤ TY G i ∧ TY G i < p := by
  refine ⟨by unfold TX; positivity, ?_, by unfold TY; positivity, ?_⟩
  · unfold TX; exact_mod_cast ZMod.val_lt _
  · unfold TY; exact_mod_cast ZMod.val_lt _

theorem at_zero : TX G 0 = 0 ∧ TY G 0 = 0 := by
  constructor
  · unfold TX; rw [zero_zsmul]; simp [X]
  · unfold TY; rw [zero_zsmul]; simp [Y]

theorem inf_int (hb : b ≠ 0) (i : ℤ) : (TX G i = 0 ∧ TY G i = 0) ↔ i • G = 0 := by
  rw [infinite hb]
  unfold TX TY
  constructor
  · rintro ⟨h1, h2⟩
    exact ⟨(ZMod.val_eq_zero _).mp (by exact_mod_cast h1), (ZMod.val_eq_zero _).mp (by exact_mod_cast h2)⟩
  · rintro ⟨h1, h2⟩
    rw [h1, h2]; simp

/-- 0 + Q = Q, P + 0 = P -/
theorem zero_add_int (hb : b ≠ 0) (i j : ℤ) (h : TX G i = 0 ∧ TY G i = 0) : TX G (i + j) = TX G j ∧ TY G (i + j) = TY G j := by
  have h0 := (inf_int G hb i).mp h
  have : (i + j) • G = j • G := by rw [add_zsmul, h0, zero_add]
  unfold TX TY; rw [this]; exact ⟨rfl, rfl⟩

theorem add_zero_int (hb : b ≠ 0) (i j : ℤ) (h : TX G j = 0 ∧ TY G j = 0) : TX G (i + j) = TX G i ∧ TY G (i + j) = TY G i := by
  rw [add_comm]; exact zero_add_int G hb j i h

/-- two points of a curve with the same x are equal or opposite -/
theorem same_x_int (hb : b ≠ 0) (i j : ℤ) (hi : ¬ (TX G i = 0 ∧ TY G i = 0)) (hj : ¬ (TX G j = 0 ∧ TY G j = 0))
    (h : TX G i = TX G j) : TY G i = TY G j ∨ (TY G i + TY G j) % p = 0 := by
  rw [inf_int G hb] at hi hj
  have hx : X (i • G) = X (j • G) := (val_inj _ _).mp h
  rcases same_x (i • G) (j • G) hi hj hx with h | h
  · left; exact (val_inj _ _).mpr h
  · right; rw [zero_mod]; unfold TY; push_cast; rw [← h]; simp

/-- P + -P = 0 -/
theorem opposite_int (hb : b ≠ 0) (i j : ℤ) (hi : ¬ (TX G i = 0 ∧ TY G i = 0)) (hj : ¬ (TX G j = 0 ∧ TY G j = 0))
    (h : TX G i = TX G j) (h' : (TY G i + TY G j) % p = 0) : TX G (i + j) = 0 ∧ TY G (i + j) = 0 := by
  rw [inf_int G hb] at hi hj ⊢
  rw [add_zsmul]
  apply opposite _ _ hi hj ((val_inj _ _).mp h)
  rw [zero_mod] at h'; unfold TY at h'; push_cast at h'
  simpa using h'

/-- chord and tangent: iG + jG = (i+j)G -/
theorem chord_and_tangent (hb : b ≠ 0) : ∃ slope : ℤ → ℤ → ℤ, ∀ i j : ℤ,
    ¬ (TX G i = 0 ∧ TY G i = 0) → ¬ (TX G j = 0 ∧ TY G j = 0) → ¬ (TX G i = TX G j ∧ (TY G i + TY G j) % p = 0) →
    ∀ t n A : ℤ, (A : ZMod p) = a →
    (t = if TX G i = TX G j then 2 * TY G i else TX G i - TX G j) →
    (n = if TX G i = TX G j then 3 * TX G i * TX G i + A else TY G i - TY G j) →
    (slope i j * t - n) % p = 0 ∧
    (TX G (i + j) - (slope i j * slope i j - TX G i - TX G j)) % p = 0 ∧
    (TY G (i + j) - (slope i j * (TX G i - TX G (i + j)) - TY G i)) % p = 0 := by
  have each : ∀ i j : ℤ, ∃ l : ℤ, ¬ (TX G i = 0 ∧ TY G i = 0) → ¬ (TX G j = 0 ∧ TY G j = 0) →
      ¬ (TX G i = TX G j ∧ (TY G i + TY G j) % p = 0) →
      ∀ t n A : ℤ, (A : ZMod p) = a →
      (t = if TX G i = TX G j then 2 * TY G i else TX G i - TX G j) →
      (n = if TX G i = TX G j then 3 * TX G i * TX G i + A else TY G i - TY G j) →
      (l * t - n) % p = 0 ∧ (TX G (i + j) - (l * l - TX G i - TX G j)) % p = 0 ∧
      (TY G (i + j) - (l * (TX G i - TX G (i + j)) - TY G i)) % p = 0 := by
    intro i j
    by_cases hi : TX G i = 0 ∧ TY G i = 0
    · exact ⟨0, fun h => absurd hi h⟩
    by_cases hj : TX G j = 0 ∧ TY G j = 0
    · exact ⟨0, fun _ h => absurd hj h⟩
    by_cases ho : TX G i = TX G j ∧ (TY G i + TY G j) % p = 0
    · exact ⟨0, fun _ _ h => absurd ho h⟩
    have hi' := hi; have hj' := hj
    rw [inf_int G hb] at hi' hj'
    have ho' : ¬ (X (i • G) = X (j • G) ∧ Y (i • G) + Y (j • G) = 0) := by
      rintro ⟨h1, h2⟩
      apply ho
      refine ⟨(val_inj _ _).mpr h1, ?_⟩
      rw [zero_mod]; unfold TY; push_cast; simpa using h2
    obtain ⟨l, h1, h2, h3, h4⟩ := sum (i • G) (j • G) hi' hj' ho'
    refine ⟨(l.val : ℤ), fun _ _ _ t n A hA ht hn => ?_⟩
    rw [zero_mod, zero_mod, zero_mod]
    have ex : X ((i + j) • G) = l * l - X (i • G) - X (j • G) := by rw [add_zsmul]; exact h3
    have ey : Y ((i + j) • G) = l * (X (i • G) - X ((i + j) • G)) - Y (i • G) := by rw [add_zsmul]; exact h4
    refine ⟨?_, ?_, ?_⟩
    · by_cases hx : TX G i = TX G j
      · have hx' : X (i • G) = X (j • G) := (val_inj _ _).mp hx
        have e := h1 hx'
        rw [if_pos hx] at ht hn
        subst ht; subst hn
        unfold TX TY; push_cast; rw [hA]; simp only [ZMod.natCast_val, ZMod.cast_id', id_eq]
        linear_combination e
      · have hx' : X (i • G) ≠ X (j • G) := fun h => hx ((val_inj _ _).mpr h)
        have e := h2 hx'
        rw [if_neg hx] at ht hn
        subst ht; subst hn
        unfold TX TY; push_cast; simp only [ZMod.natCast_val, ZMod.cast_id', id_eq]
        linear_combination e
    · unfold TX; push_cast; simp only [ZMod.natCast_val, ZMod.cast_id', id_eq]
      linear_combination ex
    · unfold TX TY; push_cast; simp only [ZMod.natCast_val, ZMod.cast_id', id_eq]
      linear_combination ey
  choose slope h using each
  exact ⟨slope, h⟩

/-- -(iG) = (-i)G -/
theorem neg_int (i : ℤ) : TX G (-i) = TX G i ∧ TY G (-i) = (-TY G i) % p := by
  have e : (-i) • G = -(i • G) := neg_zsmul G i
  obtain ⟨h1, h2⟩ := neg_coords (i • G)
  constructor
  · unfold TX; rw [e, h1]
  · have r := range G (-i)
    have : ((TY G (-i) : ℤ) : ZMod p) = ((-TY G i : ℤ) : ZMod p) := by
      unfold TY; push_cast; rw [e, h2]; simp
    have := (ZMod.intCast_eq_intCast_iff' _ _ _).mp this
    rwa [Int.emod_eq_of_lt r.2.2.1 r.2.2.2] at this

/-- i = j modulo the order of G, so iG = jG -/
theorem repeats (n i j : ℤ) (hn : n • G = 0) (h : (i - j) % n = 0) : TX G i = TX G j ∧ TY G i = TY G j := by
  obtain ⟨k, hk⟩ := Int.dvd_of_emod_eq_zero h
  have : i • G = j • G := by
    have e : i = j + k * n := by linarith
    rw [e, add_zsmul, mul_zsmul, hn, zsmul_zero, add_zero]
  unfold TX TY; rw [this]; exact ⟨rfl, rfl⟩

end

#print axioms range
#print axioms at_zero
#print axioms zero_add_int
#print axioms add_zero_int
#print axioms same_x_int
#print axioms opposite_int
#print axioms chord_and_tangent
#print axioms neg_int
#print axioms repeats
