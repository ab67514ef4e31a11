import Mathlib
/-! Lemmas on Q(√5) and Q(√3) behind the exact normal form (C01–C06): equality of triples is decided componentwise. -/

theorem irr5 : Irrational (Real.sqrt 5) := by
  have h : Nat.Prime 5 := by norm_num
  simpa using h.irrational_sqrt

theorem irr3 : Irrational (Real.sqrt 3) := by
  have h : Nat.Prime 3 := by norm_num
  simpa using h.irrational_sqrt

theorem indep {x : ℝ} (hx : Irrational x) (a b : ℚ) (h : (a : ℝ) + b * x = 0) : a = 0 ∧ b = 0 := by
  by_cases hb : b = 0
  · subst hb
    simp at h
    exact ⟨h, rfl⟩
  · exfalso
    apply hx
    refine ⟨-a / b, ?_⟩
    have hb' : (b : ℝ) ≠ 0 := by exact_mod_cast hb
    push_cast
    field_simp
    linarith

/-- τ of the icosahedral package, (1+√5)/2: a + bτ = c + dτ only if a = c and b = d -/
theorem tau_unique (a b c d : ℚ) (h : (a : ℝ) + b * ((1 + Real.sqrt 5) / 2) = c + d * ((1 + Real.sqrt 5) / 2)) : a = c ∧ b = d := by
  have h2 : (((a - c) + (b - d) / 2 : ℚ) : ℝ) + ((b - d) / 2 : ℚ) * Real.sqrt 5 = 0 := by
    push_cast
    linarith
  obtain ⟨h3, h4⟩ := indep irr5 _ _ h2
  constructor <;> linarith

/-- τ of the dodecagonal package, √3/2 -/
theorem tau3_unique (a b c d : ℚ) (h : (a : ℝ) + b * (Real.sqrt 3 / 2) = c + d * (Real.sqrt 3 / 2)) : a = c ∧ b = d := by
  have h2 : ((a - c : ℚ) : ℝ) + ((b - d) / 2 : ℚ) * Real.sqrt 3 = 0 := by
    push_cast
    linarith
  obtain ⟨h3, h4⟩ := indep irr3 _ _ h2
  constructor <;> linarith

theorem tau_sq : ((1 + Real.sqrt 5) / 2) ^ 2 = (1 + Real.sqrt 5) / 2 + 1 := by
  have := Real.sq_sqrt (show (0:ℝ) ≤ 5 by norm_num)
  nlinarith

theorem tau3_sq : (Real.sqrt 3 / 2) ^ 2 = 3 / 4 := by
  have := Real.sq_sqrt (show (0:ℝ) ≤ 3 by norm_num)
  nlinarith

/-- the norm used as denominator by `div` vanishes only for 0 (icosahedral) -/
theorem norm5_ne (a b : ℚ) (h : a * a + a * b - b * b = 0) : a = 0 ∧ b = 0 := by
  have h2 : ((a : ℝ) + b * ((1 + Real.sqrt 5) / 2)) * ((a : ℝ) + b * ((1 - Real.sqrt 5) / 2)) = 0 := by
    have := Real.sq_sqrt (show (0:ℝ) ≤ 5 by norm_num)
    have h3 : (a : ℝ) * a + a * b - b * b = 0 := by exact_mod_cast h
    nlinarith
  rcases mul_eq_zero.mp h2 with h3 | h3
  · exact tau_unique a b 0 0 (by simpa using h3)
  · have h4 : ((a + b / 2 : ℚ) : ℝ) + ((-b / 2 : ℚ) : ℝ) * Real.sqrt 5 = 0 := by
      push_cast
      linarith
    obtain ⟨h5, h6⟩ := indep irr5 _ _ h4
    constructor <;> linarith

/-- a triple in lowest terms with positive denominator is determined by its value -/
theorem canonical (a b c a' b' c' : ℤ) (hc : 0 < c) (hc' : 0 < c') (g : Int.gcd (Int.gcd a b) c = 1) (g' : Int.gcd (Int.gcd a' b') c' = 1)
    (h1 : a * c' = a' * c) (h2 : b * c' = b' * c) : a = a' ∧ b = b' ∧ c = c' := by
  have key : ∀ (a b c a' b' c' : ℤ), Int.gcd (Int.gcd a b) c = 1 → a * c' = a' * c → b * c' = b' * c → c ∣ c' := by
    intro a b c a' b' c' g h1 h2
    have d1 : c ∣ a * c' := ⟨a', by linarith⟩
    have d2 : c ∣ b * c' := ⟨b', by linarith⟩
    have hg : (Int.gcd a b : ℤ) = a * Int.gcdA a b + b * Int.gcdB a b := Int.gcd_eq_gcd_ab a b
    have d3 : c ∣ (Int.gcd a b : ℤ) * c' := by
      rw [hg, add_mul]
      apply dvd_add
      · have := Dvd.dvd.mul_right d1 (Int.gcdA a b)
        rw [show a * a.gcdA b * c' = a * c' * a.gcdA b by ring]; exact this
      · have := Dvd.dvd.mul_right d2 (Int.gcdB a b)
        rw [show b * a.gcdB b * c' = b * c' * a.gcdB b by ring]; exact this
    have cop : IsCoprime c (Int.gcd a b : ℤ) := by
      rw [Int.isCoprime_iff_gcd_eq_one, Int.gcd_comm]; exact g
    exact cop.dvd_of_dvd_mul_left d3
  have e : c = c' := Int.dvd_antisymm hc.le hc'.le (key a b c a' b' c' g h1 h2) (key a' b' c' a b c g' h1.symm h2.symm)
  subst e
  have hne : c ≠ 0 := hc.ne'
  exact ⟨mul_right_cancel₀ hne h1, mul_right_cancel₀ hne h2, rfl⟩
