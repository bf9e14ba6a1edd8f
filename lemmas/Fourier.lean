/- The angle lemma, unitarity of the Fourier matrix, unitarity of permutation matrices. -/
import Mathlib.Analysis.SpecialFunctions.Complex.Circle
import Mathlib.LinearAlgebra.UnitaryGroup
import Mathlib.RingTheory.RootsOfUnity.Complex
import Mathlib.Tactic

open Finset Matrix

/-- exp (i y) -/
noncomputable def cis (y : ℝ) : ℂ := Complex.exp (y * Complex.I)

/-- an angle 2 π K (a mod d) / d may be written with a in the place of a mod d, K a whole number -/
theorem cis_mod (a d K : ℤ) (hd : 0 < d) (y : ℝ) :
    cis (y + 2 * Real.pi * K * ((a % d : ℤ) : ℝ) * (d : ℝ)⁻¹) = cis (y + 2 * Real.pi * K * (a : ℝ) * (d : ℝ)⁻¹) := by
  have hd' : (d : ℝ) ≠ 0 := by exact_mod_cast hd.ne'
  have h : (a : ℝ) = d * ((a / d : ℤ) : ℝ) + ((a % d : ℤ) : ℝ) := by exact_mod_cast (Int.mul_ediv_add_emod a d).symm
  have e : y + 2 * Real.pi * K * (a : ℝ) * (d : ℝ)⁻¹ = y + 2 * Real.pi * K * ((a % d : ℤ) : ℝ) * (d : ℝ)⁻¹ + ((K * (a / d) : ℤ) : ℝ) * (2 * Real.pi) := by
    rw [h, Int.cast_mul]
    have : (d : ℝ) * (d : ℝ)⁻¹ = 1 := mul_inv_cancel₀ hd'
    linear_combination (2 * Real.pi * K * ((a / d : ℤ) : ℝ)) * this
  rw [e]
  unfold cis
  have := Complex.exp_int_mul_two_pi_mul_I (K * (a / d))
  rw [show (((y + 2 * Real.pi * K * ((a % d : ℤ) : ℝ) * (d : ℝ)⁻¹ + ((K * (a / d) : ℤ) : ℝ) * (2 * Real.pi) : ℝ) : ℂ) * Complex.I)
      = ((y + 2 * Real.pi * K * ((a % d : ℤ) : ℝ) * (d : ℝ)⁻¹ : ℝ) : ℂ) * Complex.I + ((K * (a / d) : ℤ) : ℂ) * (2 * Real.pi * Complex.I) by
    push_cast; ring, Complex.exp_add, this, mul_one]

/-- the matrix of the H gate -/
noncomputable def dft (d : ℕ) : Matrix (Fin d) (Fin d) ℂ :=
  fun j k => cis (2 * Real.pi * ((j : ℕ) * (k : ℕ) : ℕ) * (d : ℝ)⁻¹) / (Real.sqrt d : ℂ)

theorem dft_unitary (d : ℕ) (hd : 0 < d) : (dft d)ᴴ * dft d = 1 ∧ dft d * (dft d)ᴴ = 1 := by
  have key : (dft d)ᴴ * dft d = 1 := by
    have hd0 : d ≠ 0 := hd.ne'
    have hdc : (d : ℂ) ≠ 0 := by exact_mod_cast hd0
    set ζ : ℂ := Complex.exp (2 * Real.pi * Complex.I / d) with hζ
    have prim : IsPrimitiveRoot ζ d := Complex.isPrimitiveRoot_exp d hd0
    have ent : ∀ j k : Fin d, dft d j k = ζ ^ ((j : ℕ) * (k : ℕ)) / (Real.sqrt d : ℂ) := by
      intro j k
      unfold dft cis
      rw [hζ, ← Complex.exp_nat_mul]
      congr 2
      push_cast
      field_simp
    have hz : ζ ≠ 0 := Complex.exp_ne_zero _
    have hconj : (starRingEnd ℂ) ζ = ζ⁻¹ := by
      rw [hζ, ← Complex.exp_conj, ← Complex.exp_neg]
      congr 1
      simp only [map_div₀, map_mul, Complex.conj_I, Complex.conj_ofReal, map_ofNat, map_natCast]
      ring
    have hs : (Real.sqrt d : ℂ) * (Real.sqrt d : ℂ) = d := by
      rw [← Complex.ofReal_mul, Real.mul_self_sqrt (Nat.cast_nonneg d)]; simp
    have hs0 : (Real.sqrt d : ℂ) ≠ 0 := by
      intro h; rw [h, mul_zero] at hs; exact hdc hs.symm
    ext k l
    rw [Matrix.mul_apply]
    have term : ∀ j : Fin d, (dft d)ᴴ k j * dft d j l = (ζ ^ ((l : ℤ) - (k : ℤ))) ^ (j : ℕ) / d := by
      intro j
      rw [conjTranspose_apply, ent, ent, star_div₀, ← hs]
      simp only [RCLike.star_def, map_pow, hconj, Complex.conj_ofReal]
      rw [div_mul_div_comm]
      congr 1
      rw [← zpow_natCast (ζ ^ ((l : ℤ) - (k : ℤ))) (j : ℕ), ← _root_.zpow_mul, ← zpow_natCast ζ⁻¹, inv_zpow', ← zpow_natCast ζ, ← zpow_add₀ hz]
      congr 1
      push_cast
      ring
    rw [Finset.sum_congr rfl (fun j _ => term j), ← Finset.sum_div, Fin.sum_univ_eq_sum_range (fun j => (ζ ^ ((l : ℤ) - (k : ℤ))) ^ j) d]
    by_cases hkl : k = l
    · subst hkl
      simp [hdc]
    · rw [Matrix.one_apply_ne hkl]
      have hne : ζ ^ ((l : ℤ) - (k : ℤ)) ≠ 1 := by
        intro h
        rw [prim.zpow_eq_one_iff_dvd] at h
        apply hkl
        have h1 := l.isLt
        have h2 := k.isLt
        obtain ⟨c, hc⟩ := h
        have hlt : -(d : ℤ) < (l : ℤ) - (k : ℤ) := by omega
        have hgt : (l : ℤ) - (k : ℤ) < d := by omega
        have hd1 : (0 : ℤ) < d := by exact_mod_cast hd
        have hc0 : c = 0 := by
          have a1 : c < 1 := by by_contra hh; push Not at hh; nlinarith
          have a2 : -1 < c := by by_contra hh; push Not at hh; nlinarith
          omega
        rw [hc0] at hc
        ext
        omega
      have hpow : (ζ ^ ((l : ℤ) - (k : ℤ))) ^ d = 1 := by
        rw [← zpow_natCast (ζ ^ ((l : ℤ) - (k : ℤ))) d, ← _root_.zpow_mul, mul_comm, _root_.zpow_mul, zpow_natCast, prim.pow_eq_one, one_zpow]
      rw [geom_sum_eq hne, hpow]
      simp
  exact ⟨key, mul_eq_one_comm.mp key⟩

/-- a matrix whose column r has its only 1 in row f r, f injective, is unitary -/
theorem permutation_unitary (n : ℕ) (f : Fin n → Fin n) (hf : Function.Injective f) :
    let M : Matrix (Fin n) (Fin n) ℂ := fun a b => if a = f b then 1 else 0
    Mᴴ * M = 1 ∧ M * Mᴴ = 1 := by
  intro M
  have key : Mᴴ * M = 1 := by
    ext a b
    rw [Matrix.mul_apply]
    have hM : ∀ x y, M x y = if x = f y then 1 else 0 := fun _ _ => rfl
    have hH : ∀ x y, Mᴴ x y = if y = f x then 1 else 0 := fun x y => by
      rw [conjTranspose_apply, hM]; split_ifs <;> simp
    simp only [hM, hH]
    by_cases h : a = b
    · subst h; simp
    · rw [Matrix.one_apply_ne h]
      apply Finset.sum_eq_zero
      intro j _
      by_cases h1 : j = f a
      · have : j ≠ f b := fun h2 => h (hf (h1 ▸ h2))
        simp [this]
      · simp [h1]
  exact ⟨key, mul_eq_one_comm.mp key⟩
