/- How the contracts compose.  Matrices as numpy has them: a size and entries (row, column); kron, the product and the identity are
   the contracts of numpy/scipy used by the verifier, entry by entry. -/
import Mathlib.Data.Complex.Basic
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Tactic

open Finset

abbrev Mat := ℕ → ℕ → ℂ

def kron (m : ℕ) (A B : Mat) : Mat := fun i j => A (i / m) (j / m) * B (i % m) (j % m)
def mul (n : ℕ) (A B : Mat) : Mat := fun i j => ∑ k ∈ range n, A i k * B k j
def one : Mat := fun i j => if i = j then 1 else 0

/-- the same matrix of size n -/
def Same (n : ℕ) (A B : Mat) : Prop := ∀ i < n, ∀ j < n, A i j = B i j

theorem Same.refl (n : ℕ) (A : Mat) : Same n A A := fun _ _ _ _ => rfl
theorem Same.symm {n : ℕ} {A B : Mat} (h : Same n A B) : Same n B A := fun i hi j hj => (h i hi j hj).symm
theorem Same.trans {n : ℕ} {A B C : Mat} (h : Same n A B) (g : Same n B C) : Same n A C :=
  fun i hi j hj => (h i hi j hj).trans (g i hi j hj)

theorem Same.mul' {n : ℕ} {A A' B B' : Mat} (h : Same n A A') (g : Same n B B') : Same n (mul n A B) (mul n A' B') := by
  intro i hi j hj
  unfold mul
  refine sum_congr rfl fun k hk => ?_
  have hk := mem_range.1 hk
  rw [h i hi k hk, g k hk j hj]

theorem Same.kron' {n m : ℕ} {A A' B B' : Mat} (h : Same n A A') (g : Same m B B') :
    Same (n * m) (kron m A B) (kron m A' B') := by
  intro i hi j hj
  rcases Nat.eq_zero_or_pos m with hm | hm
  · subst hm; simp at hi
  have d : ∀ x, x < n * m → x / m < n := fun x hx => (Nat.div_lt_iff_lt_mul hm).2 hx
  show A _ _ * B _ _ = A' _ _ * B' _ _
  rw [h _ (d i hi) _ (d j hj), g _ (Nat.mod_lt _ hm) _ (Nat.mod_lt _ hm)]

theorem one_mul' (n : ℕ) (A : Mat) : Same n (mul n one A) A := by
  intro i hi j _
  unfold mul one
  rw [sum_eq_single i]
  · simp
  · intro b _ hb; simp [Ne.symm hb]
  · intro h; exact absurd (mem_range.2 hi) h

theorem mul_one' (n : ℕ) (A : Mat) : Same n (mul n A one) A := by
  intro i _ j hj
  unfold mul one
  rw [sum_eq_single j]
  · simp
  · intro b _ hb; simp [hb]
  · intro h; exact absurd (mem_range.2 hj) h

theorem mul_assoc' (n : ℕ) (A B C : Mat) : mul n (mul n A B) C = mul n A (mul n B C) := by
  funext i j
  unfold mul
  simp only [sum_mul, mul_sum]
  rw [sum_comm]
  refine sum_congr rfl fun k _ => sum_congr rfl fun l _ => by ring

theorem sum_pairs (n m : ℕ) (hm : 0 < m) (f : ℕ → ℕ → ℂ) :
    ∑ k ∈ range (n * m), f (k / m) (k % m) = ∑ a ∈ range n, ∑ b ∈ range m, f a b := by
  induction n with
  | zero => simp
  | succ n ih =>
    rw [Nat.succ_mul, sum_range_add, ih, sum_range_succ]
    congr 1
    refine sum_congr rfl fun b hb => ?_
    have hb := mem_range.1 hb
    rw [mul_comm n m, Nat.mul_add_div hm, Nat.div_eq_of_lt hb, Nat.mul_add_mod, Nat.mod_eq_of_lt hb, add_zero]

theorem kron_mul (n m : ℕ) (hm : 0 < m) (A B C D : Mat) :
    mul (n * m) (kron m A B) (kron m C D) = kron m (mul n A C) (mul m B D) := by
  funext i j
  unfold mul kron
  rw [sum_pairs n m hm (fun a b => A (i / m) a * B (i % m) b * (C a (j / m) * D b (j % m))), sum_mul_sum]
  refine sum_congr rfl fun a _ => sum_congr rfl fun b _ => by ring

theorem kron_one (m : ℕ) : kron m one one = one := by
  funext i j
  unfold kron one
  by_cases h : i = j
  · simp [h]
  · by_cases h1 : i / m = j / m
    · have : i % m ≠ j % m := fun h2 => h (by rw [← Nat.div_add_mod i m, ← Nat.div_add_mod j m, h1, h2])
      simp [h, this]
    · simp [h, h1]

theorem kron_assoc (m k : ℕ) (A B C : Mat) : kron k (kron m A B) C = kron (m * k) A (kron k B C) := by
  funext i j
  unfold kron
  have e1 : ∀ x : ℕ, x / k / m = x / (m * k) := fun x => by rw [Nat.div_div_eq_div_mul, mul_comm k m]
  have e2 : ∀ x : ℕ, x / k % m = x % (m * k) / k := fun x => by rw [mul_comm m k, Nat.mod_mul_right_div_self]
  have e3 : ∀ x : ℕ, x % (m * k) % k = x % k := fun x => Nat.mod_mod_of_dvd _ (Dvd.intro_left _ rfl)
  simp only [e1, e2, e3]
  ring

/-! Layers: gates in register order, each with the size (product of the dimensions) of its registers -/

abbrev Gate := ℕ × Mat

def size (l : List Gate) : ℕ := (l.map Prod.fst).prod

/-- the operator of a layer (contract of Moment.exec): the first gate, kron the second, and so on -/
def layer : List Gate → Mat
  | [] => one
  | (_, A) :: l => kron (size l) A (layer l)

def idle (l : List Gate) : List Gate := l.map fun g => (g.1, one)

theorem size_idle (l : List Gate) : size (idle l) = size l := by simp [size, idle, Function.comp_def]

theorem size_cons (g : Gate) (l : List Gate) : size (g :: l) = g.1 * size l := by simp [size]

theorem size_append (a b : List Gate) : size (a ++ b) = size a * size b := by simp [size]

theorem layer_idle (l : List Gate) : layer (idle l) = one := by
  induction l with
  | nil => rfl
  | cons g l ih =>
    show kron (size (idle l)) one (layer (idle l)) = one
    rw [ih, kron_one]

/-- Moment.exec folds from the left; kron is associative -/
def layerL (A : Mat) : List Gate → Mat
  | [] => A
  | (n, B) :: l => layerL (kron n A B) l

theorem layerL_eq (l : List Gate) : ∀ A : Mat, layerL A l = kron (size l) A (layer l) := by
  induction l with
  | nil => intro A; funext i j; simp [layerL, size, layer, kron, one, Nat.mod_one]
  | cons g l ih =>
    intro A
    show layerL (kron g.1 A g.2) l = _
    rw [ih, kron_assoc, size_cons]
    rfl

/-- the ideal gate on the whole register: the gate on its own registers, nothing on those before and behind -/
def onAll (g : Gate) (b : ℕ) : Mat := kron (g.1 * b) one (kron b g.2 one)

theorem only_gate (a : List Gate) (g : Gate) (b : List Gate) :
    Same (size a * (g.1 * size b)) (layer (idle a ++ g :: idle b)) (onAll g (size b)) := by
  induction a with
  | nil =>
    intro i hi j hj
    have hi : i < g.1 * size b := by simpa [size] using hi
    have hj : j < g.1 * size b := by simpa [size] using hj
    show kron (size (idle b)) g.2 (layer (idle b)) i j = _
    rw [layer_idle, size_idle]
    show _ = one (i / _) (j / _) * kron (size b) g.2 one (i % _) (j % _)
    rw [Nat.div_eq_of_lt hi, Nat.div_eq_of_lt hj, Nat.mod_eq_of_lt hi, Nat.mod_eq_of_lt hj]
    simp [one]
  | cons x a ih =>
    have e : size (idle a ++ g :: idle b) = size a * (g.1 * size b) := by
      rw [size_append, size_idle, size_cons, size_idle]
    show Same _ (kron (size (idle a ++ g :: idle b)) one (layer (idle a ++ g :: idle b))) _
    rw [e, size_cons, mul_assoc]
    refine (Same.kron' (Same.refl x.1 one) ih).trans ?_
    have : kron (size a * (g.1 * size b)) one (onAll g (size b)) = onAll g (size b) := by
      unfold onAll
      rw [← kron_assoc, kron_one]
    rw [this]
    exact Same.refl _ _

/-- a gate put in the place of an idle one acts after the layer -/
theorem merge (a : List Gate) (n : ℕ) (M : Mat) (b : List Gate) (hb : 0 < size b) :
    Same (size a * (n * size b)) (layer (a ++ (n, M) :: b))
      (mul (size a * (n * size b)) (onAll (n, M) (size b)) (layer (a ++ (n, one) :: b))) := by
  have key : Same (size a * (n * size b)) (layer (a ++ (n, M) :: b))
      (mul (size a * (n * size b)) (layer (idle a ++ (n, M) :: idle b)) (layer (a ++ (n, one) :: b))) := by
    induction a with
    | nil =>
      show Same _ (kron (size b) M (layer b)) (mul _ (kron (size (idle b)) M (layer (idle b))) (kron (size b) one (layer b)))
      have e : size ([] : List Gate) * (n * size b) = n * size b := by simp [size]
      rw [layer_idle, size_idle, e, kron_mul n (size b) hb]
      exact Same.kron' (mul_one' n M).symm (one_mul' (size b) _).symm
    | cons x a ih =>
      have e1 : size (idle a ++ (n, M) :: idle b) = size a * (n * size b) := by
        rw [size_append, size_idle, size_cons, size_idle]
      have e2 : size (a ++ (n, M) :: b) = size a * (n * size b) := by rw [size_append, size_cons]
      have e3 : size (a ++ (n, one) :: b) = size a * (n * size b) := by rw [size_append, size_cons]
      show Same _ (kron (size (a ++ (n, M) :: b)) x.2 (layer (a ++ (n, M) :: b)))
        (mul _ (kron (size (idle a ++ (n, M) :: idle b)) one (layer (idle a ++ (n, M) :: idle b)))
          (kron (size (a ++ (n, one) :: b)) x.2 (layer (a ++ (n, one) :: b))))
      rw [e1, e2, e3, size_cons, mul_assoc]
      rcases Nat.eq_zero_or_pos (size a * (n * size b)) with h | h
      · rw [h]; intro i hi; simp at hi
      · rw [kron_mul _ _ h]
        exact Same.kron' (one_mul' _ _).symm ih
  exact key.trans (Same.mul' (only_gate a (n, M) b) (Same.refl _ _))

/-! Circuits: the layers after the one of the initial states, the last first -/

abbrev Circ := List (List Gate)

/-- the operator of the layers (contract of OperatorFlow.exec) -/
def op (N : ℕ) : Circ → Mat
  | [] => one
  | l :: c => mul N (layer l) (op N c)

/-- what a gate call does to the layers (contracts of the gate calls and of populate_opflow): the gate g, of size n, with registers
    of size a before and b behind it, comes into a layer of its own or into the place of an idle gate of the last layer -/
inductive Call (N : ℕ) (g : Gate) (b : ℕ) : Circ → Circ → Prop
  | new (c : Circ) (p q : List Gate) : size p * (g.1 * size q) = N → size q = b →
      Call N g b c ((idle p ++ g :: idle q) :: c)
  | merge (c : Circ) (p q : List Gate) : size p * (g.1 * size q) = N → size q = b →
      Call N g b ((p ++ (g.1, one) :: q) :: c) ((p ++ g :: q) :: c)

theorem call_op (N : ℕ) (hN : 0 < N) (g : Gate) (b : ℕ) (c c' : Circ) (h : Call N g b c c') :
    Same N (op N c') (mul N (onAll g b) (op N c)) := by
  cases h with
  | new _ p q e hb =>
    subst hb
    show Same N (mul N (layer _) (op N c)) _
    have := only_gate p g q
    rw [e] at this
    exact Same.mul' this (Same.refl _ _)
  | merge c p q e hb =>
    subst hb
    have hq : 0 < size q := Nat.pos_of_ne_zero fun h => by rw [h] at e; simp at e; omega
    show Same N (mul N (layer _) (op N c)) (mul N _ (mul N (layer _) (op N c)))
    rw [← mul_assoc']
    have := merge p g.1 g.2 q hq
    rw [e] at this
    exact Same.mul' this (Same.refl _ _)

/-- the calls of a circuit, one after the other -/
inductive Calls (N : ℕ) : List (Gate × ℕ) → Circ → Prop
  | start : Calls N [] []
  | call (gs : List (Gate × ℕ)) (c c' : Circ) (g : Gate) (b : ℕ) : Calls N gs c → Call N g b c c' → Calls N ((g, b) :: gs) c'

/-- the ideal gates, the last call first -/
def ideal (N : ℕ) : List (Gate × ℕ) → Mat
  | [] => one
  | (g, b) :: gs => mul N (onAll g b) (ideal N gs)

/-- whatever layers the calls make, the circuit applies the ideal gates in the order of the calls -/
theorem composed (N : ℕ) (hN : 0 < N) (gs : List (Gate × ℕ)) (c : Circ) (h : Calls N gs c) : Same N (op N c) (ideal N gs) := by
  induction h with
  | start => exact Same.refl _ _
  | call gs c c' g b _ hc ih => exact (call_op N hN g b c c' hc).trans (Same.mul' (Same.refl _ _) ih)

/-! Probabilities -/

def adj (A : Mat) : Mat := fun i j => starRingEnd ℂ (A j i)

def Unitary (n : ℕ) (A : Mat) : Prop := Same n (mul n (adj A) A) one

theorem adj_kron (m : ℕ) (A B : Mat) : adj (kron m A B) = kron m (adj A) (adj B) := by
  funext i j; simp [adj, kron]

theorem adj_one : adj one = one := by
  funext i j
  unfold adj one
  by_cases h : i = j
  · simp [h]
  · simp [h, Ne.symm h]

theorem adj_mul (n : ℕ) (A B : Mat) : adj (mul n A B) = mul n (adj B) (adj A) := by
  funext i j
  simp [adj, mul, mul_comm]

theorem unitary_one (n : ℕ) : Unitary n one := by
  unfold Unitary; rw [adj_one]; exact one_mul' n one

theorem unitary_kron (n m : ℕ) (hm : 0 < m) (A B : Mat) (h : Unitary n A) (g : Unitary m B) : Unitary (n * m) (kron m A B) := by
  unfold Unitary
  rw [adj_kron, kron_mul n m hm]
  have := Same.kron' h g
  rwa [kron_one] at this

theorem unitary_mul (n : ℕ) (A B : Mat) (h : Unitary n A) (g : Unitary n B) : Unitary n (mul n A B) := by
  unfold Unitary
  rw [adj_mul, mul_assoc', ← mul_assoc' n (adj A)]
  exact (Same.mul' (Same.refl _ _) ((Same.mul' h (Same.refl _ _)).trans (one_mul' n B))).trans g

theorem unitary_onAll (a : ℕ) (g : Gate) (b : ℕ) (hb : 0 < b) (hg : 0 < g.1) (h : Unitary g.1 g.2) :
    Unitary (a * (g.1 * b)) (onAll g b) :=
  unitary_kron a (g.1 * b) (Nat.mul_pos hg hb) one _ (unitary_one a) (unitary_kron g.1 b hb g.2 one h (unitary_one b))

/-- every call's gate fits the register of size N and is unitary -/
def Fits (N : ℕ) (g : Gate × ℕ) : Prop := 0 < g.1.1 ∧ 0 < g.2 ∧ (∃ a, a * (g.1.1 * g.2) = N) ∧ Unitary g.1.1 g.1.2

theorem ideal_unitary (N : ℕ) (gs : List (Gate × ℕ)) (h : ∀ g ∈ gs, Fits N g) : Unitary N (ideal N gs) := by
  induction gs with
  | nil => exact unitary_one N
  | cons g gs ih =>
    obtain ⟨hg, hb, ⟨a, ha⟩, hu⟩ := h g (by simp)
    refine unitary_mul N _ _ ?_ (ih fun x hx => h x (by simp [hx]))
    have := unitary_onAll a g.1 g.2 hb hg hu
    rwa [ha] at this

/-- the squared moduli of the amplitudes made of the basis state r sum to 1 -/
theorem total (N : ℕ) (A : Mat) (h : Unitary N A) (r : ℕ) (hr : r < N) : ∑ i ∈ range N, Complex.normSq (A i r) = 1 := by
  have e := h r hr r hr
  unfold mul adj one at e
  have : ((∑ i ∈ range N, Complex.normSq (A i r) : ℝ) : ℂ) = 1 := by
    rw [Complex.ofReal_sum]
    simp only [if_true] at e
    rw [← e]
    refine sum_congr rfl fun k _ => ?_
    rw [mul_comm, Complex.mul_conj]
  exact_mod_cast this

/-! The initial layer: columns.  A column of a register: its dimension and its level -/

def basis (s : ℕ) : ℕ → ℂ := fun i => if i = s then 1 else 0

def dim (l : List (ℕ × ℕ)) : ℕ := (l.map Prod.fst).prod

def start : List (ℕ × ℕ) → ℕ → ℂ
  | [] => basis 0
  | (_, s) :: l => fun i => basis s (i / dim l) * start l (i % dim l)

def index : List (ℕ × ℕ) → ℕ
  | [] => 0
  | (_, s) :: l => s * dim l + index l

theorem index_lt (l : List (ℕ × ℕ)) (h : ∀ x ∈ l, x.2 < x.1) : index l < dim l := by
  induction l with
  | nil => simp [index, dim]
  | cons x l ih =>
    have i := ih fun y hy => h y (by simp [hy])
    have e : dim (x :: l) = x.1 * dim l := by simp [dim]
    have s : (x.2 + 1) * dim l ≤ x.1 * dim l := Nat.mul_le_mul_right _ (h x (by simp))
    rw [e]
    show x.2 * dim l + index l < _
    linarith [add_mul x.2 1 (dim l)]

/-- the kron of basis columns is the basis column of the number the levels write -/
theorem start_basis (l : List (ℕ × ℕ)) (h : ∀ x ∈ l, x.2 < x.1) : start l = basis (index l) := by
  induction l with
  | nil => rfl
  | cons x l ih =>
    have hl : ∀ y ∈ l, y.2 < y.1 := fun y hy => h y (by simp [hy])
    have k := index_lt l hl
    have p : 0 < dim l := lt_of_le_of_lt (Nat.zero_le _) k
    funext i
    show basis x.2 (i / dim l) * start l (i % dim l) = basis (x.2 * dim l + index l) i
    rw [ih hl]
    unfold basis
    by_cases e : i = x.2 * dim l + index l
    · subst e
      rw [mul_comm x.2, Nat.mul_add_div p, Nat.div_eq_of_lt k, Nat.mul_add_mod, Nat.mod_eq_of_lt k]
      simp
    · rw [if_neg e]
      by_cases a : i / dim l = x.2
      · have : i % dim l ≠ index l := fun b => e (by rw [← a, ← b, mul_comm, Nat.div_add_mod])
        simp [this]
      · simp [a]

/-- the amplitudes of a run: a column of the operator -/
theorem column (N r : ℕ) (hr : r < N) (A : Mat) (i : ℕ) : ∑ k ∈ range N, A i k * basis r k = A i r := by
  unfold basis
  rw [sum_eq_single r]
  · simp
  · intro b _ hb; simp [hb]
  · intro h; exact absurd (mem_range.2 hr) h

/-- what a run puts out, with the amplitudes of the ideal gates -/
theorem run_result (N : ℕ) (gs : List (Gate × ℕ)) (c : Circ) (h : Calls N gs c) (l : List (ℕ × ℕ)) (hl : ∀ x ∈ l, x.2 < x.1)
    (hN : dim l = N) (i : ℕ) (hi : i < N) : ∑ k ∈ range N, op N c i k * start l k = ideal N gs i (index l) := by
  have r : index l < N := hN ▸ index_lt l hl
  rw [start_basis l hl, column N _ r]
  exact composed N (by omega) gs c h i hi _ r
