import Mathlib
/-! Geometric facts that connect the contracts with the statements of the properties. -/

/-- C17: two simplices lying in balls (c1,r1), (c2,r2) that share a point have dist c1 c2 ≤ r1 + r2;
    so a prefilter that discards only when dist > r1 + r2 never discards an intersecting pair -/
theorem ball_prefilter {E : Type*} [NormedAddCommGroup E] [NormedSpace ℝ E] (A B : Set E) (c1 c2 p : E) (r1 r2 : ℝ)
    (hA : ∀ v ∈ A, dist v c1 ≤ r1) (hB : ∀ v ∈ B, dist v c2 ≤ r2)
    (pA : p ∈ convexHull ℝ A) (pB : p ∈ convexHull ℝ B) : dist c1 c2 ≤ r1 + r2 := by
  have h1 : p ∈ Metric.closedBall c1 r1 :=
    convexHull_min (fun v hv => Metric.mem_closedBall.mpr (hA v hv)) (convex_closedBall c1 r1) pA
  have h2 : p ∈ Metric.closedBall c2 r2 :=
    convexHull_min (fun v hv => Metric.mem_closedBall.mpr (hB v hv)) (convex_closedBall c2 r2) pB
  calc dist c1 c2 ≤ dist c1 p + dist p c2 := dist_triangle _ _ _
    _ ≤ r1 + r2 := by
      rw [dist_comm c1 p]
      exact add_le_add (Metric.mem_closedBall.mp h1) (Metric.mem_closedBall.mp h2)

/-- C17: the ball about c whose radius bounds the distances of all vertices contains every simplex spanned by them -/
theorem ball_contains {E : Type*} [NormedAddCommGroup E] [NormedSpace ℝ E] (A : Set E) (c p : E) (r : ℝ)
    (hA : ∀ v ∈ A, dist v c ≤ r) (pA : p ∈ convexHull ℝ A) : dist p c ≤ r :=
  Metric.mem_closedBall.mp (convexHull_min (fun v hv => Metric.mem_closedBall.mpr (hA v hv)) (convex_closedBall c r) pA)

/-- C14: the absolute barycentric coordinates sum to 1 exactly when none is negative (the volume comparison decides membership) -/
theorem bary4 (a b c d : ℝ) (h : a + b + c + d = 1) : |a| + |b| + |c| + |d| = 1 ↔ 0 ≤ a ∧ 0 ≤ b ∧ 0 ≤ c ∧ 0 ≤ d := by
  constructor
  · intro h2
    have ha := le_abs_self a; have hb := le_abs_self b; have hc := le_abs_self c; have hd := le_abs_self d
    have ea : |a| = a := by linarith
    have eb : |b| = b := by linarith
    have ec : |c| = c := by linarith
    have ed : |d| = d := by linarith
    exact ⟨abs_eq_self.mp ea, abs_eq_self.mp eb, abs_eq_self.mp ec, abs_eq_self.mp ed⟩
  · rintro ⟨ha, hb, hc, hd⟩
    rw [abs_of_nonneg ha, abs_of_nonneg hb, abs_of_nonneg hc, abs_of_nonneg hd, h]

theorem bary3 (a b c : ℝ) (h : a + b + c = 1) : |a| + |b| + |c| = 1 ↔ 0 ≤ a ∧ 0 ≤ b ∧ 0 ≤ c := by
  have := bary4 a b c 0 (by linarith)
  simpa using this

/-- C09/C10: a linear map applied to the edge vectors scales every 3x3 determinant by its own determinant; an operation of the
    point group (det ±1) and a translation therefore keep the volume -/
theorem det_scale (M A : Matrix (Fin 3) (Fin 3) ℝ) : (M * A).det = M.det * A.det := Matrix.det_mul M A

/-- C07: a finite set of invertible matrices closed under multiplication contains the inverses -/
theorem finite_closed_inv {G : Type*} [Group G] (S : Finset G) (hne : S.Nonempty) (hmul : ∀ a ∈ S, ∀ b ∈ S, a * b ∈ S) :
    1 ∈ S ∧ ∀ a ∈ S, a⁻¹ ∈ S := by
  have pow_mem : ∀ a ∈ S, ∀ n : ℕ, a ^ (n + 1) ∈ S := by
    intro a ha n
    induction n with
    | zero => simpa using ha
    | succ k ih => rw [pow_succ]; exact hmul _ ih _ ha
  have key : ∀ a ∈ S, ∃ k : ℕ, 0 < k ∧ a ^ k = 1 := by
    intro a ha
    have hni : ¬ Function.Injective (fun n : ℕ => (⟨a ^ (n + 1), pow_mem a ha n⟩ : S)) := by
      intro hi
      exact (not_injective_infinite_finite _) hi
    simp only [Function.Injective, not_forall] at hni
    obtain ⟨m, n, e, hne'⟩ := hni
    have e2 : a ^ (m + 1) = a ^ (n + 1) := by simpa using congrArg Subtype.val e
    rcases lt_or_gt_of_ne hne' with hl | hl
    · refine ⟨n - m, by omega, ?_⟩
      have : a ^ (m + 1) * a ^ (n - m) = a ^ (m + 1) * 1 := by
        rw [← pow_add, mul_one, e2]; congr 1; omega
      exact mul_left_cancel this
    · refine ⟨m - n, by omega, ?_⟩
      have : a ^ (n + 1) * a ^ (m - n) = a ^ (n + 1) * 1 := by
        rw [← pow_add, mul_one, ← e2]; congr 1; omega
      exact mul_left_cancel this
  constructor
  · obtain ⟨a, ha⟩ := hne
    obtain ⟨k, hk, e⟩ := key a ha
    obtain ⟨j, rfl⟩ : ∃ j, k = j + 1 := ⟨k - 1, by omega⟩
    rw [← e]; exact pow_mem a ha j
  · intro a ha
    obtain ⟨k, hk, e⟩ := key a ha
    have : a⁻¹ = a ^ (2 * k - 1) := by
      have e2 : a ^ (2 * k - 1) * a = 1 := by
        rw [← pow_succ, show 2 * k - 1 + 1 = k + k by omega, pow_add, e, one_mul]
      exact (eq_inv_of_mul_eq_one_left e2).symm
    rw [this]
    obtain ⟨j, hj⟩ : ∃ j, 2 * k - 1 = j + 1 := ⟨2 * k - 2, by omega⟩
    rw [hj]; exact pow_mem a ha j

/-- C21: what holds of one similarity step carries over to every power: if P M = C P (the step acts as C on the plane) then P M^k = C^k P -/
theorem power_intertwines {n m : Type*} [Fintype n] [DecidableEq n] [Fintype m] [DecidableEq m] (P : Matrix m n ℝ) (M : Matrix n n ℝ) (C : Matrix m m ℝ)
    (h : P * M = C * P) (k : ℕ) : P * M ^ k = C ^ k * P := by
  induction k with
  | zero => simp
  | succ k ih => rw [pow_succ, ← Matrix.mul_assoc, ih, Matrix.mul_assoc, h, ← Matrix.mul_assoc, ← pow_succ]

/-- C21: a similarity with squared ratio r (Cᵀ C = r 1) has powers with squared ratio r^k -/
theorem power_ratio {m : Type*} [Fintype m] [DecidableEq m] (C : Matrix m m ℝ) (r : ℝ) (h : C.transpose * C = r • (1 : Matrix m m ℝ)) (k : ℕ) :
    (C ^ k).transpose * C ^ k = r ^ k • (1 : Matrix m m ℝ) := by
  induction k with
  | zero => simp
  | succ k ih =>
    have e : (C ^ (k + 1)).transpose * C ^ (k + 1) = C.transpose * ((C ^ k).transpose * C ^ k) * C := by
      rw [pow_succ, Matrix.transpose_mul]; simp only [Matrix.mul_assoc]
    rw [e, ih]
    simp [h, pow_succ, smul_smul]

/-- C21: k steps followed by k reverse steps restore every vector -/
theorem power_inverse {n : Type*} [Fintype n] [DecidableEq n] (M N : Matrix n n ℝ) (h : M * N = 1) (h2 : N * M = 1) (k : ℕ) : M ^ k * N ^ k = 1 := by
  have hc : Commute M N := by rw [Commute, SemiconjBy, h, h2]
  rw [← hc.mul_pow, h, one_pow]
