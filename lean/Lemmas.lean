/-
The mathematical lemmas whose ground instances pyvc/theory.py (and the contracts) give to the solvers, under the same names.
Nothing here is about the code; the integers are those of Python (unbounded), `x / y` and `x % y` with a positive divisor
agree with Python's and with SMT-LIB's.
  lean lean/Lemmas.lean      (Lean 4.33, Mathlib; about a minute, no output when everything is proved)
-/
import Mathlib

namespace Melodia

/-! ### powers of two -/

def isp2 (x : ℤ) : Prop := ∃ k : ℕ, x = 2 ^ k

theorem isp2_pos {x : ℤ} (h : isp2 x) : 1 ≤ x := by
  obtain ⟨k, rfl⟩ := h
  exact one_le_pow₀ (by norm_num)

theorem isp2_one : isp2 1 := ⟨0, by norm_num⟩

theorem isp2_half {x : ℤ} (h1 : 1 < x) (h2 : x % 2 = 0) : isp2 x ↔ isp2 (x / 2) := by
  constructor
  · rintro ⟨k, rfl⟩
    cases k with
    | zero => norm_num at h1
    | succ k => exact ⟨k, by rw [pow_succ]; simp⟩
  · rintro ⟨k, hk⟩
    exact ⟨k + 1, by rw [pow_succ, ← hk]; omega⟩

theorem isp2_odd {x : ℤ} (h1 : x ≠ 1) (h2 : x % 2 = 1) : ¬ isp2 x := by
  rintro ⟨k, rfl⟩
  cases k with
  | zero => exact h1 (by norm_num)
  | succ k => rw [pow_succ] at h2; simp at h2

theorem isp2_mul {x y : ℤ} (h1 : isp2 x) (h2 : isp2 y) : isp2 (x * y) := by
  obtain ⟨a, rfl⟩ := h1
  obtain ⟨b, rfl⟩ := h2
  exact ⟨a + b, by rw [pow_add]⟩

theorem pow_le_pow {a b : ℕ} (h : (2 : ℤ) ^ b ≤ 2 ^ a) : b ≤ a := by
  by_contra hc
  have : (2 : ℤ) ^ a < 2 ^ b := pow_lt_pow_right₀ (by norm_num) (by omega)
  omega

theorem isp2_div {a b : ℤ} (h1 : isp2 a) (h2 : isp2 b) (h : b ≤ a) : a = b * (a / b) ∧ isp2 (a / b) ∧ 1 ≤ a / b := by
  obtain ⟨i, rfl⟩ := h1
  obtain ⟨j, rfl⟩ := h2
  have hij := pow_le_pow h
  have e : (2 : ℤ) ^ i = 2 ^ j * 2 ^ (i - j) := by rw [← pow_add]; congr 1; omega
  have q : (2 : ℤ) ^ i / 2 ^ j = 2 ^ (i - j) := by
    rw [e]; exact Int.mul_ediv_cancel_left _ (by positivity)
  rw [q]
  exact ⟨e, ⟨i - j, rfl⟩, one_le_pow₀ (by norm_num)⟩

theorem isp2_div_lt {a b : ℤ} (h1 : isp2 a) (h : a < b) : a / b = 0 :=
  Int.ediv_eq_zero_of_lt (by have := isp2_pos h1; omega) h

theorem isp2_mod {a b : ℤ} (h1 : isp2 a) (h2 : isp2 b) (h : b ≤ a) : a % b = 0 := by
  have := (isp2_div h1 h2 h).1
  exact Int.emod_eq_zero_of_dvd ⟨_, this⟩

theorem isp2_nat {n : ℕ} : isp2 (n : ℤ) ↔ n.isPowerOfTwo := by
  constructor
  · rintro ⟨k, hk⟩
    exact ⟨k, by exact_mod_cast hk⟩
  · rintro ⟨k, hk⟩
    exact ⟨k, by rw [hk]; push_cast; rfl⟩

/-- `a & (a - 1)` -/
theorem band_pred {a : ℤ} (h : 0 < a) : Int.land a (a - 1) = 0 ↔ isp2 a := by
  obtain ⟨n, rfl⟩ : ∃ n : ℕ, a = n := ⟨a.toNat, by omega⟩
  have hn : n ≠ 0 := by omega
  have e : ((n : ℤ) - 1) = ((n - 1 : ℕ) : ℤ) := by omega
  rw [e, isp2_nat, ← Nat.and_sub_one_eq_zero_iff_isPowerOfTwo hn]
  show ((n &&& (n - 1) : ℕ) : ℤ) = 0 ↔ _
  norm_cast

/-- `a & -a` -/
theorem band_neg {a : ℤ} (h : 0 < a) : Int.land a (-a) = a ↔ isp2 a := by
  obtain ⟨n, rfl⟩ : ∃ n : ℕ, a = n := ⟨a.toNat, by omega⟩
  obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
  have hn : m + 1 ≠ 0 := by omega
  rw [isp2_nat, ← Nat.and_sub_one_eq_zero_iff_isPowerOfTwo hn]
  have e : -((m + 1 : ℕ) : ℤ) = Int.negSucc m := rfl
  rw [e]
  show ((Nat.ldiff (m + 1) m : ℕ) : ℤ) = ((m + 1 : ℕ) : ℤ) ↔ _
  rw [Nat.cast_inj, Nat.add_sub_cancel]
  constructor
  · intro hh
    apply Nat.eq_of_testBit_eq
    intro i
    have := congrArg (fun x => x.testBit i) hh
    simp only [Nat.testBit_ldiff] at this
    simp only [Nat.testBit_and, Nat.zero_testBit]
    revert this
    cases (m + 1).testBit i <;> cases m.testBit i <;> simp
  · intro hh
    apply Nat.eq_of_testBit_eq
    intro i
    have := congrArg (fun x => x.testBit i) hh
    simp only [Nat.testBit_and, Nat.zero_testBit] at this
    simp only [Nat.testBit_ldiff]
    revert this
    cases (m + 1).testBit i <;> cases m.testBit i <;> simp

theorem ldiff_low : ∀ n : ℕ, 0 < n → ∃ k q : ℕ, n = 2 ^ k * (2 * q + 1) ∧ Nat.ldiff n (n - 1) = 2 ^ k := by
  intro n
  induction n using Nat.strong_induction_on with
  | _ n ih =>
    intro hn
    rcases Nat.even_or_odd' n with ⟨m, rfl | rfl⟩
    · obtain ⟨k, q, h1, h2⟩ := ih m (by omega) (by omega)
      refine ⟨k + 1, q, by rw [pow_succ, h1]; ring_nf, ?_⟩
      have e : Nat.ldiff (Nat.bit false m) (Nat.bit true (m - 1)) = Nat.bit false (Nat.ldiff m (m - 1)) := by
        rw [Nat.ldiff_bit]; rfl
      simp only [Nat.bit_val, Bool.toNat_false, Bool.toNat_true, add_zero] at e
      rw [show 2 * m - 1 = 2 * (m - 1) + 1 by omega, e, h2, pow_succ]; ring
    · refine ⟨0, m, by ring, ?_⟩
      have e : Nat.ldiff (Nat.bit true m) (Nat.bit false m) = Nat.bit true (Nat.ldiff m m) := by
        rw [Nat.ldiff_bit]; rfl
      have z : Nat.ldiff m m = 0 := by
        apply Nat.eq_of_testBit_eq; intro i; simp [Nat.testBit_ldiff]
      simp only [Nat.bit_val, Bool.toNat_false, Bool.toNat_true, add_zero, z] at e
      rw [show 2 * m + 1 - 1 = 2 * m by omega, e]; rfl

/-- the lowest set bit -/
theorem band_low {a : ℤ} (h : 0 < a) :
    isp2 (Int.land a (-a)) ∧ a = Int.land a (-a) * (a / Int.land a (-a)) ∧ a / Int.land a (-a) % 2 = 1 := by
  obtain ⟨n, rfl⟩ : ∃ n : ℕ, a = n := ⟨a.toNat, by omega⟩
  obtain ⟨k, q, h1, h2⟩ := ldiff_low n (by omega)
  have e : Int.land (n : ℤ) (-(n : ℤ)) = 2 ^ k := by
    obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
    have e : -((m + 1 : ℕ) : ℤ) = Int.negSucc m := rfl
    rw [e]
    show ((Nat.ldiff (m + 1) m : ℕ) : ℤ) = _
    rw [Nat.add_sub_cancel] at h2
    rw [h2]; push_cast; rfl
  have p : (2 : ℤ) ^ k ≠ 0 := by positivity
  have d : (n : ℤ) / 2 ^ k = 2 * q + 1 := by
    rw [h1]; push_cast; exact Int.mul_ediv_cancel_left _ p
  rw [e, d]
  refine ⟨⟨k, rfl⟩, ?_, by omega⟩
  rw [h1]; push_cast; rfl
/-- the quotient by a power of two not above the lowest set bit is exact -/
theorem band_low_div {x y : ℤ} (h : 0 < x) (h1 : isp2 y) (h2 : y ≤ Int.land x (-x)) : x = y * (x / y) := by
  obtain ⟨p, d, -⟩ := band_low h
  have hy : y ≠ 0 := by have := isp2_pos h1; omega
  obtain ⟨e, -, -⟩ := isp2_div p h1 h2
  have dv : y ∣ x := by
    rw [d, e, mul_assoc]; exact Dvd.intro _ rfl
  exact (Int.mul_ediv_cancel' dv).symm

theorem band_nonneg {a b : ℕ} : 0 ≤ a &&& b ∧ a &&& b ≤ a ∧ a &&& b ≤ b :=
  ⟨Nat.zero_le _, Nat.and_le_left, Nat.and_le_right⟩

theorem pow2_pos (k : ℕ) : isp2 (2 ^ k) ∧ (1 : ℤ) ≤ 2 ^ k ∧ (k : ℤ) < 2 ^ k :=
  ⟨⟨k, rfl⟩, one_le_pow₀ (by norm_num), by exact_mod_cast Nat.lt_two_pow_self⟩

theorem pow2_mono (i j : ℕ) : (i < j ↔ (2 : ℤ) ^ i < 2 ^ j) ∧ (i = j ↔ (2 : ℤ) ^ i = 2 ^ j) :=
  ⟨(pow_lt_pow_iff_right₀ (by norm_num)).symm, (pow_right_inj₀ (by norm_num) (by norm_num)).symm⟩

theorem pow2_step (i : ℕ) : (2 : ℤ) ^ (i + 1) = 2 * 2 ^ i := by rw [pow_succ]; ring

/-! ### bit length (`int.bit_length` of a number that is not negative) -/

theorem bitlen_zero : Nat.size 0 = 0 := Nat.size_zero
theorem bitlen_pos {x : ℕ} (h : 0 < x) : 1 ≤ x.size := Nat.size_pos.mpr h
theorem bitlen_small {x : ℕ} (h : x < 128) : x.size ≤ 7 := Nat.size_le.mpr (by omega)
theorem bitlen_pow2 (k : ℕ) : (2 ^ k).size = k + 1 := Nat.size_pow

theorem bitlen_isp2 {x : ℕ} (h : 0 < x) : 2 ^ (x.size - 1) = x ↔ x.isPowerOfTwo := by
  constructor
  · intro e; exact ⟨x.size - 1, e.symm⟩
  · rintro ⟨k, rfl⟩; rw [Nat.size_pow]; simp

theorem bitlen_diff {x y : ℕ} (hx : x.isPowerOfTwo) (hy : y.isPowerOfTwo) (h : y ≤ x) :
    2 ^ (x.size - y.size) * y = x ∧ 2 ^ (x.size - y.size) = x / y ∧ y.size ≤ x.size := by
  obtain ⟨i, rfl⟩ := hx
  obtain ⟨j, rfl⟩ := hy
  have hij : j ≤ i := (Nat.pow_le_pow_iff_right (by norm_num)).mp h
  simp only [Nat.size_pow, Nat.add_sub_add_right]
  refine ⟨?_, ?_, by omega⟩
  · rw [← pow_add]; congr 1; omega
  · rw [Nat.pow_div hij (by norm_num)]

theorem bitlen_diff_le {x y : ℕ} (hx : x.isPowerOfTwo) (hy : y.isPowerOfTwo) : y.size ≤ x.size ↔ y ≤ x := by
  obtain ⟨i, rfl⟩ := hx
  obtain ⟨j, rfl⟩ := hy
  simp only [Nat.size_pow]
  rw [Nat.pow_le_pow_iff_right (by norm_num)]
  omega

theorem bitlen_byte {x : ℕ} (h : 128 ≤ x % 256) : x.size / 8 = (x / 256).size / 8 + 1 := by
  rcases Nat.eq_zero_or_pos (x / 256) with h0 | h0
  · rw [h0]
    have h1 : x < 256 := by omega
    have h2 : x.size ≤ 8 := Nat.size_le.mpr (by omega)
    have h3 : 7 < x.size := Nat.lt_size.mpr (by omega)
    simp; omega
  · set y := x / 256 with hy
    have hs : x.size = y.size + 8 := by
      apply le_antisymm
      · apply Nat.size_le.mpr
        have := Nat.lt_size_self y
        rw [pow_add]; omega
      · have h4 : y.size - 1 < y.size := by have := Nat.size_pos.mpr h0; omega
        have := Nat.lt_size.mp h4
        have h5 : y.size - 1 + 8 < x.size := Nat.lt_size.mpr (by rw [pow_add]; omega)
        omega
    omega

/-! ### variable-length quantities and other recursive specification functions of the reader
`b` are the bytes, `n` their number; `vlok`, `vle`, `vlv` read from position `p`; fuel `n - p` makes them total. -/

section First
open Classical in
/-- one past the first index at or after `p` with property `Q` -/
noncomputable def first (Q : ℕ → Prop) (p : ℕ) : ℕ := if h : ∃ q, p ≤ q ∧ Q q then Nat.find h + 1 else 0

theorem first_def (Q : ℕ → Prop) (p : ℕ) (hQ : ∃ q, p ≤ q ∧ Q q) :
    (Q p → first Q p = p + 1) ∧ (¬ Q p → first Q p = first Q (p + 1)) := by
  classical
  constructor
  · intro h
    have h1 : ∃ q, p ≤ q ∧ Q q := hQ
    unfold first
    rw [dif_pos h1]
    have a := Nat.find_min' h1 ⟨le_refl _, h⟩
    have c := (Nat.find_spec h1).1
    omega
  · intro h
    obtain ⟨q, hq1, hq2⟩ := id hQ
    have hne : p ≠ q := fun e => h (e ▸ hq2)
    have h2 : ∃ q, p + 1 ≤ q ∧ Q q := ⟨q, by omega, hq2⟩
    unfold first
    rw [dif_pos hQ, dif_pos h2]
    have a := Nat.find_spec hQ
    have c := Nat.find_spec h2
    have hne2 : p ≠ Nat.find hQ := fun e => h (e ▸ a.2)
    have m1 := Nat.find_min' hQ ⟨by omega, c.2⟩
    have m2 := Nat.find_min' h2 ⟨by omega, a.2⟩
    omega

theorem first_none (Q : ℕ → Prop) (p : ℕ) (hQ : ¬ ∃ q, p ≤ q ∧ Q q) : first Q p = first Q (p + 1) := by
  have h2 : ¬ ∃ q, p + 1 ≤ q ∧ Q q := fun ⟨q, a, c⟩ => hQ ⟨q, by omega, c⟩
  unfold first
  rw [dif_neg hQ, dif_neg h2]

theorem first_eq (Q : ℕ → Prop) [DecidablePred Q] (p : ℕ) : first Q p = if Q p then p + 1 else first Q (p + 1) := by
  by_cases h : ∃ q, p ≤ q ∧ Q q
  · by_cases hp : Q p
    · rw [if_pos hp]; exact (first_def Q p h).1 hp
    · rw [if_neg hp]; exact (first_def Q p h).2 hp
  · have hp : ¬ Q p := fun e => h ⟨p, le_refl _, e⟩
    rw [if_neg hp]; exact first_none Q p h

theorem first_range (Q : ℕ → Prop) (n p q : ℕ) (h1 : p ≤ q) (h2 : q < n) (h3 : Q q) : p < first Q p ∧ first Q p ≤ n := by
  classical
  have ex : ∃ q, p ≤ q ∧ Q q := ⟨q, h1, h3⟩
  unfold first
  rw [dif_pos ex]
  have s := Nat.find_spec ex
  have m := Nat.find_min' ex ⟨h1, h3⟩
  omega
end First

section Reader
variable (b : ℕ → ℕ) (n : ℕ)

def vlok (p : ℕ) : Prop := ∃ q, p ≤ q ∧ q < n ∧ b q < 128 ∧ ∀ i, p ≤ i → i < q → ¬ b i < 128
noncomputable def vle (p : ℕ) : ℕ := first (fun q => b q < 128) p

theorem vlok_def (p : ℕ) : vlok b n p ↔ p < n ∧ (b p < 128 ∨ vlok b n (p + 1)) := by
  constructor
  · rintro ⟨q, h1, h2, h3, h4⟩
    refine ⟨by omega, ?_⟩
    rcases Nat.eq_or_lt_of_le h1 with rfl | h
    · exact Or.inl h3
    · exact Or.inr ⟨q, h, h2, h3, fun i hi hq => h4 i (by omega) hq⟩
  · rintro ⟨h1, h⟩
    by_cases hb : b p < 128
    · exact ⟨p, le_refl _, h1, hb, fun i hi hq => by omega⟩
    · rcases h with h | ⟨q, h2, h3, h4, h5⟩
      · exact absurd h hb
      · refine ⟨q, by omega, h3, h4, fun i hi hq => ?_⟩
        rcases Nat.eq_or_lt_of_le hi with rfl | hl
        · exact hb
        · exact h5 i hl hq

theorem vle_def (p : ℕ) : vle b p = if b p < 128 then p + 1 else vle b (p + 1) := first_eq _ p

theorem vl_range (p : ℕ) (h : vlok b n p) : p < vle b p ∧ vle b p ≤ n := by
  obtain ⟨q, h1, h2, h3, _⟩ := h
  exact first_range _ n p q h1 h2 h3

/-- the value of `k` continuation bytes read after `a` -/
def vlv (a : ℤ) (p : ℕ) : ℕ → ℤ
  | 0 => 128 * a + ((b p % 128 : ℕ) : ℤ)
  | k + 1 => vlv (128 * a + ((b p % 128 : ℕ) : ℤ)) (p + 1) k

theorem vl_nonneg (k : ℕ) : ∀ (a : ℤ) (p : ℕ), 0 ≤ a → 0 ≤ vlv b a p k := by
  induction k with
  | zero => intro a p h; unfold vlv; positivity
  | succ k ih => intro a p h; unfold vlv; exact ih _ _ (by positivity)

/-- `sxok`, `sxe`: the same with "the byte is F7" instead of "the byte is below 128" -/
def sxok (p : ℕ) : Prop := ∃ q, p ≤ q ∧ q < n ∧ b q = 0xF7
noncomputable def sxe (p : ℕ) : ℕ := first (fun q => b q = 0xF7) p

theorem sxok_def (p : ℕ) : sxok b n p ↔ p < n ∧ (b p = 0xF7 ∨ sxok b n (p + 1)) := by
  constructor
  · rintro ⟨q, h1, h2, h3⟩
    refine ⟨by omega, ?_⟩
    rcases Nat.eq_or_lt_of_le h1 with rfl | h
    · exact Or.inl h3
    · exact Or.inr ⟨q, h, h2, h3⟩
  · rintro ⟨h1, h | ⟨q, h2, h3, h4⟩⟩
    · exact ⟨p, le_refl _, h1, h⟩
    · exact ⟨q, by omega, h3, h4⟩

theorem sxe_def (p : ℕ) : sxe b p = if b p = 0xF7 then p + 1 else sxe b (p + 1) := first_eq _ p

theorem sx_range (p : ℕ) (h : sxok b n p) : p < sxe b p ∧ sxe b p ≤ n := by
  obtain ⟨q, h1, h2, h3⟩ := h
  exact first_range _ n p q h1 h2 h3

end Reader

/-! ### exact values -/

theorem V_order {a b c d : ℤ} (hb : 1 ≤ b) (hd : 1 ≤ d) : ((a : ℝ) / b ≤ c / d ↔ a * d ≤ c * b) := by
  have h1 : (0 : ℝ) < b := by exact_mod_cast hb
  have h2 : (0 : ℝ) < d := by exact_mod_cast hd
  rw [div_le_div_iff₀ h1 h2]
  exact_mod_cast Iff.rfl

theorem pls_def {w a b : ℤ} (hb : 1 ≤ b) : ⌊(w : ℝ) * ((a : ℝ) / b)⌋ = (w * a) / b := by
  have hb' : (0 : ℝ) < b := by exact_mod_cast hb
  rw [Int.floor_eq_iff]
  have e : (w : ℝ) * ((a : ℝ) / b) = ((w * a : ℤ) : ℝ) / (b : ℝ) := by push_cast; ring
  have h1 : (w * a) / b * b ≤ w * a := Int.ediv_mul_le _ (by omega)
  have h2 : w * a < ((w * a) / b + 1) * b := Int.lt_ediv_add_one_mul_self _ (by omega)
  rw [e, le_div_iff₀ hb', div_lt_iff₀ hb']
  constructor
  · exact_mod_cast h1
  · exact_mod_cast h2

theorem pls_nonneg {w : ℤ} {v : ℝ} (hw : 0 ≤ w) (hv : 0 ≤ v) : 0 ≤ ⌊(w : ℝ) * v⌋ := by
  apply Int.floor_nonneg.mpr
  have : (0 : ℝ) ≤ w := by exact_mod_cast hw
  positivity

noncomputable def powr (x : ℝ) : ℝ := (2 : ℝ) ^ x
theorem powr_pos (x : ℝ) : 0 < powr x := Real.rpow_pos_of_pos (by norm_num) x
theorem powr_zero : powr 0 = 1 := Real.rpow_zero 2
theorem powr_mono (i j : ℝ) : (i < j ↔ powr i < powr j) ∧ (i = j ↔ powr i = powr j) := by
  have h : ∀ a c : ℝ, a < c ↔ powr a < powr c := fun a c => (Real.rpow_lt_rpow_left_iff (by norm_num)).symm
  refine ⟨h i j, ⟨fun e => by rw [e], fun e => ?_⟩⟩
  rcases lt_trichotomy i j with hl | he | hl
  · exact absurd e (ne_of_lt ((h i j).mp hl))
  · exact he
  · exact absurd e.symm (ne_of_lt ((h j i).mp hl))
theorem powr_step (i : ℝ) : powr (i + 1) = 2 * powr i := by
  unfold powr; rw [Real.rpow_add (by norm_num), Real.rpow_one]; ring

/-! ### rounding: an IEEE product is `rnd` of the exact product, `rnd` monotone, exact on representable numbers -/

theorem fmul_unit (rnd : ℝ → ℝ) (mono : Monotone rnd) {a b : ℝ} (hb : rnd b = b) (h0 : rnd 0 = 0) (ha : 0 ≤ a) (ha1 : a ≤ 1) (hb0 : 0 ≤ b) :
    0 ≤ rnd (a * b) ∧ rnd (a * b) ≤ b := by
  constructor
  · rw [← h0]; exact mono (by positivity)
  · conv_rhs => rw [← hb]
    exact mono (by nlinarith)

theorem fmul_mono (rnd : ℝ → ℝ) (mono : Monotone rnd) {x y c : ℝ} (hc : 0 ≤ c) (h : x ≤ y) : rnd (x * c) ≤ rnd (y * c) :=
  mono (mul_le_mul_of_nonneg_right h hc)

/-- truncation of a number that is not negative is its floor -/
theorem f2i_nonneg {x : ℝ} (h : 0 ≤ x) : 0 ≤ ⌊x⌋ := Int.floor_nonneg.mpr h
theorem f2i_127 {x : ℝ} (h : x ≤ 127) : ⌊x⌋ ≤ 127 := by
  have : ⌊x⌋ ≤ ⌊(127 : ℝ)⌋ := Int.floor_le_floor h
  simpa using this
theorem f2i_mono {x y : ℝ} (h : x ≤ y) : ⌊x⌋ ≤ ⌊y⌋ := Int.floor_le_floor h

/-! ### multisets -/

theorem bag_size {α : Type*} (b : Multiset α) (k : α) : Multiset.card (k ::ₘ b) = Multiset.card b + 1 := Multiset.card_cons k b
theorem bag_empty {α : Type*} (b : Multiset α) : b = 0 ↔ Multiset.card b = 0 := Multiset.card_eq_zero.symm

/-- right-most end of any note, 0 without notes -/
noncomputable def bmax (b : Multiset ℝ) : ℝ := b.fold max 0
theorem bag_max (b : Multiset ℝ) (e : ℝ) : bmax (e ::ₘ b) = if bmax b < e then e else bmax b := by
  unfold bmax
  rw [Multiset.fold_cons_left]
  split_ifs with h
  · exact max_eq_left (le_of_lt h)
  · exact max_eq_right (not_lt.mp h)
theorem bmax_empty : bmax 0 = 0 := Multiset.fold_zero _ _

/-- adding the elements of an enumeration of a multiset one by one adds the multiset -/
theorem bag_enumeration {α : Type*} (l : List α) : ∀ b : Multiset α, l.foldl (fun c x => x ::ₘ c) b = b + (l : Multiset α) := by
  induction l with
  | nil => intro b; simp
  | cons x l ih =>
    intro b
    rw [List.foldl_cons, ih, ← Multiset.cons_coe, Multiset.cons_add, Multiset.add_cons]

/-- the running maximum started with `v` is the larger of `v` and the largest element -/
theorem running_max (l : List ℝ) (w : ℝ) (hw : w ∈ l) (hm : ∀ x ∈ l, x ≤ w) :
    ∀ v : ℝ, l.foldl (fun m x => if m < x then x else m) v = if w < v then v else w := by
  have key : ∀ (l : List ℝ) (v : ℝ), l.foldl (fun m x => if m < x then x else m) v = l.foldl max v := by
    intro l
    induction l with
    | nil => intro v; rfl
    | cons x l ih =>
      intro v
      rw [List.foldl_cons, List.foldl_cons, ih]
      congr 1
      split_ifs with h
      · exact (max_eq_right (le_of_lt h)).symm
      · exact (max_eq_left (not_lt.mp h)).symm
  have up : ∀ (l : List ℝ) (v c : ℝ), v ≤ c → (∀ x ∈ l, x ≤ c) → l.foldl max v ≤ c := by
    intro l
    induction l with
    | nil => intro v c h _; exact h
    | cons x l ih =>
      intro v c h hx
      rw [List.foldl_cons]
      exact ih _ _ (max_le h (hx x (by simp))) (fun y hy => hx y (by simp [hy]))
  have lo : ∀ (l : List ℝ) (v : ℝ), v ≤ l.foldl max v ∧ ∀ x ∈ l, x ≤ l.foldl max v := by
    intro l
    induction l with
    | nil => intro v; exact ⟨le_refl _, fun x hx => absurd hx (by simp)⟩
    | cons x l ih =>
      intro v
      rw [List.foldl_cons]
      refine ⟨le_trans (le_max_left v x) (ih _).1, fun y hy => ?_⟩
      rcases List.mem_cons.mp hy with rfl | hy
      · exact le_trans (le_max_right v y) (ih _).1
      · exact (ih _).2 y hy
  intro v
  rw [key]
  split_ifs with h
  · exact le_antisymm (up l v v (le_refl _) (fun x hx => le_trans (hm x hx) (le_of_lt h))) (lo l v).1
  · exact le_antisymm (up l v w (not_lt.mp h) hm) ((lo l v).2 w hw)

/-! ### sorted sequences and the round trip (C12, C14, C21) -/

/-- an ascending enumeration of a multiset is unique -/
theorem sorted_unique {α : Type*} [LinearOrder α] {l₁ l₂ : List α} (h : l₁.Perm l₂)
    (h₁ : l₁.Pairwise (· ≤ ·)) (h₂ : l₂.Pairwise (· ≤ ·)) : l₁ = l₂ :=
  List.Perm.eq_of_pairwise (fun _ _ _ _ => le_antisymm) h₁ h₂ h

/-- ascending neighbours are ascending throughout (times of the sorted events) -/
theorem ascending (f : ℕ → ℤ) (h : ∀ i, f i ≤ f (i + 1)) : Monotone f := monotone_nat_of_le_succ h

/-- stable sorting by time is sorting by (time, index): its result is determined by ranks -/
theorem ranks {n : ℕ} (key : Fin n → ℤ) :
    ∃ σ : Fin n ≃ Fin n, ∀ e f, σ e < σ f ↔ (key e < key f ∨ (key e = key f ∧ e < f)) := by
  let lt : Fin n → ℤ ×ₗ Fin n := fun e => toLex (key e, e)
  have inj : Function.Injective lt := fun a b h => by
    have := congrArg (fun x => (ofLex x).2) h
    exact this
  let s : Finset (ℤ ×ₗ Fin n) := Finset.univ.image lt
  have hs : s.card = n := by rw [Finset.card_image_of_injective _ inj]; simp
  let o := s.orderIsoOfFin hs
  let g : Fin n → Fin n := fun e => o.symm ⟨lt e, Finset.mem_image_of_mem _ (Finset.mem_univ e)⟩
  have ginj : Function.Injective g := fun a b h => by
    have := o.symm.injective h
    exact inj (congrArg Subtype.val this)
  refine ⟨Equiv.ofBijective g ⟨ginj, Finite.surjective_of_injective ginj⟩, fun e f => ?_⟩
  show g e < g f ↔ _
  rw [OrderIso.lt_iff_lt]
  show lt e < lt f ↔ _
  exact Prod.Lex.toLex_lt_toLex

/-- `DONE (2n)`: the notes added at their note-offs are all of them, each once -/
theorem done_all {α : Type*} {n : ℕ} (src : Fin (2 * n) ≃ Fin (2 * n)) (kk : ℕ → α) :
    ((Finset.univ.filter (fun j : Fin (2 * n) => (src j : ℕ) % 2 = 1)).val.map (fun j => kk ((src j : ℕ) / 2))) = (Multiset.range n).map kk := by
  have h1 : (Finset.univ.filter (fun j : Fin (2 * n) => (src j : ℕ) % 2 = 1)).val.map (fun j => (src j : ℕ) / 2) = Multiset.range n := by
    have inj : Set.InjOn (fun j : Fin (2 * n) => (src j : ℕ) / 2) (Finset.univ.filter (fun j : Fin (2 * n) => (src j : ℕ) % 2 = 1)) := by
      intro x hx y hy he
      simp at hx hy he
      apply src.injective
      apply Fin.ext
      omega
    have h2 : (Finset.univ.filter (fun j : Fin (2 * n) => (src j : ℕ) % 2 = 1)).image (fun j => (src j : ℕ) / 2) = Finset.range n := by
      ext i
      simp only [Finset.mem_image, Finset.mem_filter, Finset.mem_univ, true_and, Finset.mem_range]
      constructor
      · rintro ⟨j, hj, rfl⟩
        have := (src j).isLt
        omega
      · intro hi
        refine ⟨src.symm ⟨2 * i + 1, by omega⟩, ?_, ?_⟩ <;> (simp; try omega)
    have h3 := Finset.image_val_of_injOn inj
    rw [h2] at h3
    exact h3.symm
  rw [← h1, Multiset.map_map]; rfl

/-- the body of a track: BODY (k + 1) = BODY k ++ enc k read from the front is enc 0 ++ REST 1 -/
theorem body_rest {α : Type*} (enc : ℕ → List α) (tail : List α) (n : ℕ) :
    ∀ k ≤ n, ∃ rest : List α, (((List.range n).map enc).flatten ++ tail) = ((List.range k).map enc).flatten ++ rest
      ∧ (k < n → ∃ r, rest = enc k ++ r ∧ (((List.range n).map enc).flatten ++ tail) = ((List.range (k + 1)).map enc).flatten ++ r)
      ∧ (k = n → rest = tail) := by
  intro k hk
  obtain ⟨d, rfl⟩ : ∃ d, n = k + d := ⟨n - k, by omega⟩
  refine ⟨((List.range d).map (fun i => enc (k + i))).flatten ++ tail, ?_, ?_, ?_⟩
  · rw [List.range_add, List.map_append, List.flatten_append, List.map_map, List.append_assoc]; rfl
  · intro hd
    obtain ⟨m, rfl⟩ : ∃ m, d = m + 1 := ⟨d - 1, by omega⟩
    refine ⟨((List.range m).map (fun i => enc (k + 1 + i))).flatten ++ tail, ?_, ?_⟩
    · rw [List.range_succ_eq_map, List.map_cons, List.flatten_cons, List.map_map, List.append_assoc]
      simp only [Function.comp_def, Nat.add_zero, Nat.succ_eq_add_one]
      congr 4
      funext i
      congr 1
      omega
    · have e : k + (m + 1) = (k + 1) + m := by omega
      rw [e, List.range_add, List.map_append, List.flatten_append, List.map_map, List.append_assoc]; rfl
  · intro h
    have : d = 0 := by omega
    subst this
    simp

end Melodia
