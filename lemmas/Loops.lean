import Mathlib
/-! The rules by which the verifier replaces a loop over a sequence of unknown length (pyded/loops.py, seq.py). -/

/-- accumulation: s starts at s0 and s ← s + f x for every element -/
theorem fold_sum {α M : Type*} [AddCommMonoid M] (f : α → M) (l : List α) (s0 : M) :
    l.foldl (fun s x => s + f x) s0 = s0 + (l.map f).sum := by
  induction l generalizing s0 with
  | nil => simp
  | cons a t ih => simp [ih, add_assoc]

/-- element by element: appending g x for every element gives the sequence of the g x, so a property of one arbitrary element
    decides the whole result -/
theorem fold_append {α β : Type*} (g : α → β) (l : List α) (acc : List β) :
    l.foldl (fun s x => s ++ [g x]) acc = acc ++ l.map g := by
  induction l generalizing acc with
  | nil => simp
  | cons a t ih => simp [ih]

/-- selection -/
theorem fold_filter {α β : Type*} (p : α → Bool) (g : α → β) (l : List α) (acc : List β) :
    l.foldl (fun s x => if p x then s ++ [g x] else s) acc = acc ++ (l.filter p).map g := by
  induction l generalizing acc with
  | nil => simp
  | cons a t ih =>
    by_cases h : p a <;> simp [ih, h]

/-- concatenation of one piece per element -/
theorem fold_pieces {α β : Type*} (g : α → List β) (l : List α) (acc : List β) :
    l.foldl (fun s x => s ++ g x) acc = acc ++ l.flatMap g := by
  induction l generalizing acc with
  | nil => simp
  | cons a t ih => simp [ih]

/-- a flag set when some element satisfies p -/
theorem fold_flag {α : Type*} (p : α → Bool) (l : List α) (b : Bool) :
    l.foldl (fun s x => bif p x then true else s) b = (b || l.any p) := by
  induction l generalizing b with
  | nil => simp
  | cons a t ih =>
    rw [List.foldl_cons, ih, List.any_cons]
    cases p a <;> cases b <;> simp

/-- counting -/
theorem fold_count {α : Type*} (p : α → Bool) (l : List α) (k : ℕ) :
    l.foldl (fun s x => if p x then s + 1 else s) k = k + l.countP p := by
  induction l generalizing k with
  | nil => simp
  | cons a t ih =>
    by_cases h : p a
    · simp [ih, h]; omega
    · simp [ih, h]

/-- running maximum: an upper bound that is attained (or the start value) -/
theorem fold_max {α : Type*} (f : α → ℝ) (l : List α) (m : ℝ) :
    (∀ x ∈ l, f x ≤ l.foldl (fun s x => if s < f x then f x else s) m) ∧ m ≤ l.foldl (fun s x => if s < f x then f x else s) m ∧
    (l.foldl (fun s x => if s < f x then f x else s) m = m ∨ ∃ x ∈ l, l.foldl (fun s x => if s < f x then f x else s) m = f x) := by
  induction l generalizing m with
  | nil => simp
  | cons a t ih =>
    obtain ⟨h1, h2, h3⟩ := ih (if m < f a then f a else m)
    simp only [List.foldl_cons]
    have hm : m ≤ (if m < f a then f a else m) := by split_ifs with h <;> linarith
    have ha : f a ≤ (if m < f a then f a else m) := by split_ifs with h <;> linarith
    refine ⟨?_, le_trans hm h2, ?_⟩
    · intro x hx
      rcases List.mem_cons.mp hx with rfl | hx
      · exact le_trans ha h2
      · exact h1 x hx
    · rcases h3 with h3 | ⟨x, hx, h3⟩
      · by_cases h : m < f a
        · right; exact ⟨a, by simp, by rw [h3]; simp [h]⟩
        · left; rw [h3]; simp [h]
      · right; exact ⟨x, by simp [hx], h3⟩

/-- repeated multiplication by the same matrix -/
theorem fold_pow {n : Type*} [Fintype n] [DecidableEq n] {R : Type*} [CommRing R] (A X : Matrix n n R) (k : ℕ) :
    (List.range k).foldl (fun s _ => s * A) X = X * A ^ k := by
  induction k with
  | zero => simp
  | succ k ih => rw [List.range_succ, List.foldl_append]; simp [ih, pow_succ, Matrix.mul_assoc]
