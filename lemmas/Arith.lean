/- Arithmetic lemmas used by the verifier (pyvc).  floordiv/mod for a positive divisor are Int `/` and `%`. -/
import Mathlib.Data.Int.Basic
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.Order.BigOperators.Ring.Finset
import Mathlib.Tactic

open Finset

theorem floordiv_axioms (a b : ℤ) :
    (0 < b → a = b * (a / b) + a % b ∧ 0 ≤ a % b ∧ a % b < b) ∧
    (0 < b → 0 ≤ a → 0 ≤ a / b ∧ a / b ≤ a) ∧
    (0 < b → 0 ≤ a → a < b → a / b = 0 ∧ a % b = a) ∧
    (0 < b → a / b = 0 → 0 ≤ a ∧ a < b ∧ a % b = a) ∧
    (0 < b → b ≤ a → 1 ≤ a / b) ∧
    (b = 1 → a / b = a ∧ a % b = 0) := by
  refine ⟨fun h => ⟨(Int.mul_ediv_add_emod a b).symm, Int.emod_nonneg _ h.ne', Int.emod_lt_of_pos _ h⟩,
    fun h ha => ⟨Int.ediv_nonneg ha h.le, Int.ediv_le_self _ ha⟩,
    fun h ha hb => ⟨Int.ediv_eq_zero_of_lt ha hb, Int.emod_eq_of_lt ha hb⟩, fun h hq => ?_,
    fun h hb => by rw [Int.le_ediv_iff_mul_le h]; linarith, fun h => by subst h; simp⟩
  have h1 := Int.mul_ediv_add_emod a b
  have h2 := Int.emod_nonneg a h.ne'
  have h3 := Int.emod_lt_of_pos a h
  rw [hq] at h1
  simp only [mul_zero, zero_add] at h1
  omega

/-- products of the linear abstraction -/
theorem product_axioms (x y : ℤ) : x * y = y * x ∧ (1 ≤ x → 0 ≤ y → y ≤ x * y) ∧ (x = 1 → x * y = y) ∧ (x = 0 → x * y = 0) :=
  ⟨mul_comm _ _, fun h k => by nlinarith, fun h => by simp [h], fun h => by simp [h]⟩

theorem floordiv_floordiv (v a b : ℤ) (ha : 0 < a) : v / a / b = v / (a * b) := by
  rw [Int.ediv_ediv_of_nonneg ha.le]

theorem mod_mul_floordiv (x b y : ℤ) (hb : 0 < b) (hy : 0 < y) :
    x % (b * y) / b = x / b % y ∧ x % (b * y) % b = x % b := by
  refine ⟨?_, Int.emod_emod_of_dvd x (Dvd.intro y rfl)⟩
  have h : x = b * y * (x / (b * y)) + x % (b * y) := (Int.mul_ediv_add_emod x (b * y)).symm
  have hq : x / b = y * (x / (b * y)) + x % (b * y) / b := by
    conv_lhs => rw [h]
    rw [mul_assoc, Int.mul_add_ediv_left _ _ hb.ne']
  have h0 : 0 ≤ x % (b * y) / b := Int.ediv_nonneg (Int.emod_nonneg _ (mul_pos hb hy).ne') hb.le
  have h1 : x % (b * y) / b < y := by
    rw [Int.ediv_lt_iff_lt_mul hb]
    have := Int.emod_lt_of_pos x (mul_pos hb hy)
    linarith [mul_comm b y]
  rw [hq, Int.add_emod, Int.mul_emod_right, zero_add, Int.emod_emod_of_dvd _ (dvd_refl y), Int.emod_eq_of_lt h0 h1]

theorem mod_add_cancel (a b k d : ℤ) (ha : 0 ≤ a) (had : a < d) (hb : 0 ≤ b) (hbd : b < d)
    (h : (a + k) % d = (b + k) % d) : a = b := by
  have h1 : a % d = b % d := Int.ModEq.add_right_cancel' k h
  rwa [Int.emod_eq_of_lt ha had, Int.emod_eq_of_lt hb hbd] at h1

/-- a sum of zeros and ones is how many ones there are -/
theorem count (n : ℕ) (t : ℕ → ℤ) (ht : ∀ k < n, t k = 0 ∨ t k = 1) :
    0 ≤ ∑ k ∈ range n, t k ∧ ∑ k ∈ range n, t k ≤ n ∧ (∑ k ∈ range n, t k = 0 → ∀ j < n, t j ≠ 1)
      ∧ (1 ≤ ∑ k ∈ range n, t k → ∃ w < n, t w = 1)
      ∧ (∑ k ∈ range n, t k = 1 → ∃ w < n, t w = 1 ∧ ∀ j < n, t j = 1 → j = w) := by
  have hp : ∀ k ∈ range n, 0 ≤ t k := fun k hk => by
    rcases ht k (mem_range.1 hk) with h | h <;> omega
  have h1 : 1 ≤ ∑ k ∈ range n, t k → ∃ w < n, t w = 1 := by
    intro h
    by_contra hc
    push Not at hc
    have : ∑ k ∈ range n, t k = 0 := sum_eq_zero fun k hk => by
      rcases ht k (mem_range.1 hk) with h | h
      · exact h
      · exact absurd h (hc k (mem_range.1 hk))
    omega
  refine ⟨sum_nonneg hp, ?_, ?_, h1, ?_⟩
  · calc ∑ k ∈ range n, t k ≤ ∑ _k ∈ range n, (1 : ℤ) := sum_le_sum fun k hk => by
          rcases ht k (mem_range.1 hk) with h | h <;> omega
      _ = n := by simp
  · intro h j hj hc
    have := single_le_sum hp (mem_range.2 hj)
    omega
  · intro h
    obtain ⟨w, hw, hw1⟩ := h1 (by omega)
    refine ⟨w, hw, hw1, fun j hj hj1 => ?_⟩
    by_contra hne
    have h2 : ∑ k ∈ {j, w}, t k ≤ ∑ k ∈ range n, t k :=
      sum_le_sum_of_subset_of_nonneg (by intro x hx; simp at hx; rcases hx with rfl | rfl <;> simp [hj, hw])
        (fun k hk _ => hp k hk)
    rw [sum_pair hne] at h2
    omega

/-- v * m + x over and over -/
theorem horner (v m x : ℕ → ℤ) (h : ∀ k, v (k + 1) = v k * m k + x k) (n : ℕ) :
    v n = v 0 * ∏ i ∈ Ico 0 n, m i + ∑ k ∈ Ico 0 n, x k * ∏ i ∈ Ico (k + 1) n, m i := by
  induction n with
  | zero => simp
  | succ n ih =>
    rw [h n, ih, Finset.prod_Ico_succ_top (Nat.zero_le n), Finset.sum_Ico_succ_top (Nat.zero_le n)]
    have e : ∑ k ∈ Ico 0 n, x k * ∏ i ∈ Ico (k + 1) (n + 1), m i
        = (∑ k ∈ Ico 0 n, x k * ∏ i ∈ Ico (k + 1) n, m i) * m n := by
      rw [Finset.sum_mul]
      refine Finset.sum_congr rfl fun k hk => ?_
      rw [Finset.prod_Ico_succ_top (by simp only [mem_Ico] at hk; omega)]
      ring
    rw [e]
    simp
    ring

/-- P(a, b): the product of the positive sequence d over a, …, b - 1 -/
noncomputable def P (d : ℤ → ℤ) (a b : ℤ) : ℤ := ∏ i ∈ Ico a b, d i

theorem P_basic (d : ℤ → ℤ) (hd : ∀ i, 1 ≤ d i) (a b : ℤ) :
    1 ≤ P d a b ∧ (b ≤ a → P d a b = 1) ∧ (b = a + 1 → P d a b = d a) := by
  refine ⟨?_, fun h => by simp [P, h], fun h => ?_⟩
  · have : ∀ i ∈ Ico a b, (1 : ℤ) ≤ d i := fun i _ => hd i
    calc (1 : ℤ) = ∏ _i ∈ Ico a b, (1 : ℤ) := by simp
      _ ≤ P d a b := prod_le_prod (fun _ _ => by norm_num) this
  · subst h
    have : Ico a (a + 1) = {a} := by ext x; simp only [mem_Ico, mem_singleton]; omega
    simp [P, this]

theorem prod_split (d : ℤ → ℤ) (hd : ∀ i, 1 ≤ d i) (a b c : ℤ) (h1 : a ≤ b) (h2 : b ≤ c) :
    P d a c = P d a b * P d b c ∧ P d a b ≤ P d a c ∧ P d b c ≤ P d a c := by
  have e : P d a c = P d a b * P d b c := by
    unfold P
    have hu : Ico a c = Ico a b ∪ Ico b c := (Ico_union_Ico_eq_Ico h1 h2).symm
    rw [hu, prod_union (Ico_disjoint_Ico_consecutive a b c)]
  have p1 := (P_basic d hd a b).1
  have p2 := (P_basic d hd b c).1
  exact ⟨e, by nlinarith, by nlinarith⟩

theorem prod_split_around (d : ℤ → ℤ) (hd : ∀ i, 1 ≤ d i) (o n c : ℤ) (h1 : o ≤ c) (h2 : c < n) :
    P d o n = P d o c * d c * P d (c + 1) n := by
  rw [(prod_split d hd o c n h1 h2.le).1, (prod_split d hd c (c + 1) n (by omega) (by omega)).1,
    (P_basic d hd c (c + 1)).2.2 rfl, mul_assoc]
