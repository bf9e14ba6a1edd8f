/- Mixed-radix digits.  Registers o, …, n - 1 with dimensions d i ≥ 1, P d a b the product of the dimensions
   a, …, b - 1, the weight of register i is P d (i + 1) n, DIG d n i r = (r // weight i) mod d i. -/
import Mathlib.Data.Int.Basic
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.Order.BigOperators.Ring.Finset
import Mathlib.Tactic

open Finset

noncomputable def P (d : ℤ → ℤ) (a b : ℤ) : ℤ := ∏ i ∈ Ico a b, d i

noncomputable def DIG (d : ℤ → ℤ) (n i r : ℤ) : ℤ := r / P d (i + 1) n % d i

noncomputable def NUM (d : ℤ → ℤ) (o n : ℤ) (t : ℤ → ℤ) : ℤ := ∑ i ∈ Ico o n, t i * P d (i + 1) n

theorem P_pos (d : ℤ → ℤ) (hd : ∀ i, 1 ≤ d i) (a b : ℤ) : 0 < P d a b :=
  prod_pos fun i _ => lt_of_lt_of_le one_pos (hd i)

theorem Ico_peel (o n : ℤ) (h : o < n) : Ico o n = insert o (Ico (o + 1) n) := by
  ext x; simp only [mem_Ico, mem_insert]; omega

theorem P_peel (d : ℤ → ℤ) (o n : ℤ) (h : o < n) : P d o n = d o * P d (o + 1) n := by
  unfold P; rw [Ico_peel o n h, prod_insert (by simp)]

theorem P_split (d : ℤ → ℤ) (a b c : ℤ) (h1 : a ≤ b) (h2 : b ≤ c) : P d a c = P d a b * P d b c := by
  unfold P
  have hu : Ico a c = Ico a b ∪ Ico b c := (Ico_union_Ico_eq_Ico h1 h2).symm
  rw [hu, prod_union (Ico_disjoint_Ico_consecutive a b c)]

theorem mod_mul_floordiv (x b y : ℤ) (hb : 0 < b) (hy : 0 < y) : x % (b * y) / b = x / b % y := by
  have h : x = b * y * (x / (b * y)) + x % (b * y) := (Int.mul_ediv_add_emod x (b * y)).symm
  have hq : x / b = y * (x / (b * y)) + x % (b * y) / b := by
    conv_lhs => rw [h]
    rw [mul_assoc, Int.mul_add_ediv_left _ _ hb.ne']
  have h0 : 0 ≤ x % (b * y) / b := Int.ediv_nonneg (Int.emod_nonneg _ (mul_pos hb hy).ne') hb.le
  have h1 : x % (b * y) / b < y := by
    rw [Int.ediv_lt_iff_lt_mul hb]
    have := Int.emod_lt_of_pos x (mul_pos hb hy)
    linarith [mul_comm b y]
  rw [hq, Int.add_emod, Int.mul_emod_right, zero_add, Int.emod_emod_of_dvd _ (dvd_refl y), Int.emod_eq_of_lt h0 h1]

/-- the digits after the first are those of the remainder -/
theorem DIG_rest (d : ℤ → ℤ) (hd : ∀ i, 1 ≤ d i) (o n i r : ℤ) (h1 : o + 1 ≤ i) (h2 : i < n) :
    DIG d n i (r % P d (o + 1) n) = DIG d n i r := by
  have e : P d (o + 1) n = P d (i + 1) n * P d (o + 1) (i + 1) := by
    rw [P_split d (o + 1) (i + 1) n (by omega) (by omega)]; ring
  have e2 : P d (o + 1) (i + 1) = P d (o + 1) i * d i := by
    rw [P_split d (o + 1) i (i + 1) h1 (by omega), P_peel d i (i + 1) (by omega)]
    simp [P]
  unfold DIG
  rw [e, mod_mul_floordiv _ _ _ (P_pos d hd _ _) (P_pos d hd _ _), e2]
  exact Int.emod_emod_of_dvd _ (Dvd.intro_left _ rfl)

theorem digit_range (d : ℤ → ℤ) (hd : ∀ i, 1 ≤ d i) (n i r : ℤ) : 0 ≤ DIG d n i r ∧ DIG d n i r < d i :=
  ⟨Int.emod_nonneg _ (by have := hd i; omega), Int.emod_lt_of_pos _ (by have := hd i; omega)⟩

/-- the first digit needs no mod -/
theorem first_digit (d : ℤ → ℤ) (hd : ∀ i, 1 ≤ d i) (o n r : ℤ) (h : o < n) (h0 : 0 ≤ r) (h1 : r < P d o n) :
    DIG d n o r = r / P d (o + 1) n := by
  unfold DIG
  apply Int.emod_eq_of_lt (Int.ediv_nonneg h0 (P_pos d hd _ _).le)
  rw [Int.ediv_lt_iff_lt_mul (P_pos d hd _ _), ← P_peel d o n h]
  exact h1

/-- a number is the sum of its digits times their weights -/
theorem digits_number (d : ℤ → ℤ) (hd : ∀ i, 1 ≤ d i) (o n : ℤ) (h : o ≤ n) (r : ℤ) (h0 : 0 ≤ r) (h1 : r < P d o n) :
    NUM d o n (fun i => DIG d n i r) = r := by
  obtain ⟨m, rfl⟩ : ∃ m : ℕ, n = o + m := ⟨(n - o).toNat, by omega⟩
  induction m generalizing o r with
  | zero =>
    simp only [Nat.cast_zero, add_zero] at *
    simp only [P, Ico_self, prod_empty] at h1
    simp only [NUM, Ico_self, sum_empty]
    omega
  | succ m ih =>
    have hlt : o < o + ((m + 1 : ℕ) : ℤ) := by push_cast; omega
    have hn : o + ((m + 1 : ℕ) : ℤ) = o + 1 + (m : ℕ) := by push_cast; ring
    have f := first_digit d hd o _ r hlt h0 h1
    have p := P_pos d hd (o + 1) (o + ((m + 1 : ℕ) : ℤ))
    rw [NUM, Ico_peel _ _ hlt, sum_insert (by simp), f]
    have rest : ∑ i ∈ Ico (o + 1) (o + ((m + 1 : ℕ) : ℤ)), DIG d (o + ((m + 1 : ℕ) : ℤ)) i r * P d (i + 1) (o + ((m + 1 : ℕ) : ℤ))
        = r % P d (o + 1) (o + ((m + 1 : ℕ) : ℤ)) := by
      have := ih (o + 1) (r % P d (o + 1) (o + ((m + 1 : ℕ) : ℤ))) (Int.emod_nonneg _ p.ne') (by omega)
        (by rw [← hn]; exact Int.emod_lt_of_pos _ p)
      rw [← this, NUM, ← hn]
      refine sum_congr rfl fun i hi => ?_
      rw [mem_Ico] at hi
      rw [DIG_rest d hd o _ i r hi.1 hi.2]
    rw [rest, mul_comm]
    exact Int.mul_ediv_add_emod r _

/-- the digits of such a sum are the summed digits -/
theorem number_digits (d : ℤ → ℤ) (hd : ∀ i, 1 ≤ d i) (o n : ℤ) (h : o ≤ n) (t : ℤ → ℤ)
    (ht : ∀ i, o ≤ i → i < n → 0 ≤ t i ∧ t i < d i) :
    0 ≤ NUM d o n t ∧ NUM d o n t < P d o n ∧ ∀ i, o ≤ i → i < n → DIG d n i (NUM d o n t) = t i := by
  obtain ⟨m, rfl⟩ : ∃ m : ℕ, n = o + m := ⟨(n - o).toNat, by omega⟩
  induction m generalizing o with
  | zero =>
    simp only [Nat.cast_zero, add_zero, NUM, P, Ico_self, sum_empty, prod_empty]
    exact ⟨le_refl _, one_pos, fun i h1 h2 => by omega⟩
  | succ m ih =>
    have hlt : o < o + ((m + 1 : ℕ) : ℤ) := by push_cast; omega
    have hn : o + ((m + 1 : ℕ) : ℤ) = o + 1 + (m : ℕ) := by push_cast; ring
    have p := P_pos d hd (o + 1) (o + ((m + 1 : ℕ) : ℤ))
    obtain ⟨a0, a1, a2⟩ := ih (o + 1) (by omega) (fun i h1 h2 => ht i (by omega) (by rw [hn]; exact h2))
    rw [← hn] at a0 a1 a2
    have e : NUM d o (o + ((m + 1 : ℕ) : ℤ)) t
        = t o * P d (o + 1) (o + ((m + 1 : ℕ) : ℤ)) + NUM d (o + 1) (o + ((m + 1 : ℕ) : ℤ)) t := by
      rw [NUM, Ico_peel _ _ hlt, sum_insert (by simp), NUM]
    obtain ⟨t0, t1⟩ := ht o (le_refl _) hlt
    have eq : NUM d o (o + ((m + 1 : ℕ) : ℤ)) t / P d (o + 1) (o + ((m + 1 : ℕ) : ℤ)) = t o := by
      rw [e, add_comm, Int.add_mul_ediv_right _ _ p.ne', Int.ediv_eq_zero_of_lt a0 a1, zero_add]
    have em : NUM d o (o + ((m + 1 : ℕ) : ℤ)) t % P d (o + 1) (o + ((m + 1 : ℕ) : ℤ)) = NUM d (o + 1) (o + ((m + 1 : ℕ) : ℤ)) t := by
      rw [e, add_comm, Int.add_mul_emod_self_right, Int.emod_eq_of_lt a0 a1]
    refine ⟨by rw [e]; nlinarith, by rw [e, P_peel d _ _ hlt]; nlinarith, fun i h1 h2 => ?_⟩
    rcases eq_or_lt_of_le h1 with rfl | h1
    · rw [DIG, eq, Int.emod_eq_of_lt t0 t1]
    · rw [← DIG_rest d hd o _ i _ (by omega) h2, em]
      exact a2 i (by omega) h2

/-- different numbers differ in some digit -/
theorem digits_unique (d : ℤ → ℤ) (hd : ∀ i, 1 ≤ d i) (o n : ℤ) (h : o ≤ n) (x y : ℤ)
    (hx0 : 0 ≤ x) (hx1 : x < P d o n) (hy0 : 0 ≤ y) (hy1 : y < P d o n) (hne : x ≠ y) :
    ∃ k, o ≤ k ∧ k < n ∧ DIG d n k x ≠ DIG d n k y := by
  by_contra hc
  push Not at hc
  apply hne
  rw [← digits_number d hd o n h x hx0 hx1, ← digits_number d hd o n h y hy0 hy1]
  unfold NUM
  refine sum_congr rfl fun i hi => ?_
  rw [mem_Ico] at hi
  simp only [hc i hi.1 hi.2]

/-- replacing one digit of every number by a digit of the same register -/
theorem digit_update (d : ℤ → ℤ) (hd : ∀ i, 1 ≤ d i) (o n t : ℤ) (ht0 : o ≤ t) (ht1 : t < n) (new : ℤ → ℤ)
    (hnew : ∀ r, 0 ≤ new r ∧ new r < d t) :
    ∃ f : ℤ → ℤ, ∀ r, 0 ≤ r → r < P d o n →
      0 ≤ f r ∧ f r < P d o n ∧ ∀ c, o ≤ c → c < n → DIG d n c (f r) = if c = t then new r else DIG d n c r := by
  refine ⟨fun r => NUM d o n (fun c => if c = t then new r else DIG d n c r), fun r _ _ => ?_⟩
  have := number_digits d hd o n (by omega) (fun c => if c = t then new r else DIG d n c r) (fun i _ _ => by
    by_cases hi : i = t
    · subst hi; simp [hnew r]
    · simp only [hi, if_false]; exact digit_range d hd n i r)
  exact this
