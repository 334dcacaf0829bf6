/- What exact arithmetic makes of the contracts of the FFT functions (checked by `lean fft.lean`; no axioms besides Lean's own).

The contracts (dv/specs.py) say that `fft_complex` computes the function `dft` given by the recursion proved here
(`dft_one`, `dft_lo`, `dft_hi`), that `ifft_complex` computes `idft`, and that `convolute_fft` computes `cnv` of the transform. -/
import Mathlib.Analysis.SpecialFunctions.Complex.Log
import Mathlib.Algebra.Field.GeomSum

open Complex Finset
open scoped ComplexConjugate

namespace BN

/-- exp(2 pi i m / n) -/
noncomputable def e (n : ℕ) (m : ℤ) : ℂ := exp (2 * Real.pi * I * m / n)

/-- the discrete Fourier transform -/
noncomputable def dft (a : ℕ → ℂ) (n k : ℕ) : ℂ := ∑ j ∈ range n, a j * e n (-(j * k : ℤ))

/-- ifft_complex: conjugate, transform, conjugate, divide -/
noncomputable def idft (a : ℕ → ℂ) (n k : ℕ) : ℂ := conj (dft (fun j => conj (a j)) n k) / n

/-- convolute_fft: what it makes of the transform -/
noncomputable def cnv (z : ℕ → ℂ) (n i : ℕ) : ℂ :=
  let x1 := z i + conj (z ((n - i) % n))
  let x2 := z i - conj (z ((n - i) % n))
  let x3 := x1 * x2
  ⟨x3.im * (1/4), -x3.re * (1/4)⟩

theorem e_add (n : ℕ) (a b : ℤ) : e n (a + b) = e n a * e n b := by
  unfold e; rw [← exp_add]; congr 1; push_cast; ring

theorem e_zero (n : ℕ) : e n 0 = 1 := by simp [e]

theorem e_full (n : ℕ) (hn : 0 < n) (m : ℤ) : e n (n * m) = 1 := by
  unfold e
  have h : (2 * Real.pi * I * ((n * m : ℤ) : ℂ) / n : ℂ) = m * (2 * Real.pi * I) := by
    have : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
    push_cast; field_simp
  rw [h]; exact exp_int_mul_two_pi_mul_I m

theorem e_conj (n : ℕ) (m : ℤ) : conj (e n m) = e n (-m) := by
  unfold e; rw [← exp_conj]; congr 1
  simp only [map_div₀, map_mul, conj_I, conj_ofReal, Complex.conj_natCast, map_ofNat, map_intCast]
  push_cast; ring

theorem e_double (h : ℕ) (m : ℤ) : e (2 * h) (2 * m) = e h m := by
  unfold e; congr 1; push_cast
  rcases Nat.eq_zero_or_pos h with rfl | hp
  · simp
  · have : (h : ℂ) ≠ 0 := by exact_mod_cast hp.ne'
    field_simp

theorem e_half (h : ℕ) (hp : 0 < h) : e (2 * h) (-(h : ℤ)) = -1 := by
  unfold e
  have : (2 * Real.pi * I * ((-(h : ℤ) : ℤ) : ℂ) / ((2 * h : ℕ) : ℂ) : ℂ) = -(Real.pi * I) := by
    have : (h : ℂ) ≠ 0 := by exact_mod_cast hp.ne'
    push_cast; field_simp
  rw [this, exp_neg, exp_pi_mul_I]; norm_num

/-- the factor of the code: cos w + i sin w with w = -2 k pi / n -/
theorem twiddle (n k : ℕ) :
    e n (-(k : ℤ)) = ⟨Real.cos (-2 * k * Real.pi / n), Real.sin (-2 * k * Real.pi / n)⟩ := by
  have h : (2 * Real.pi * I * ((-(k : ℤ) : ℤ) : ℂ) / n : ℂ) = ((-2 * k * Real.pi / n : ℝ) : ℂ) * I := by
    push_cast; ring
  unfold e; rw [h, exp_mul_I, ← ofReal_cos, ← ofReal_sin]
  generalize Real.cos _ = c
  generalize Real.sin _ = d
  apply Complex.ext <;> simp

theorem dft_one (a : ℕ → ℂ) : dft a 1 0 = a 0 := by simp [dft, e_zero]

theorem sum_even_odd (f : ℕ → ℂ) (h : ℕ) :
    ∑ j ∈ range (2 * h), f j = ∑ j ∈ range h, f (2 * j) + ∑ j ∈ range h, f (2 * j + 1) := by
  induction h with
  | zero => simp
  | succ m ih =>
    rw [show 2 * (m + 1) = 2 * m + 1 + 1 by ring, sum_range_succ, sum_range_succ, ih, sum_range_succ, sum_range_succ]; ring

theorem dft_lo (a : ℕ → ℂ) (h k : ℕ) :
    dft a (2 * h) k = dft (fun j => a (2 * j)) h k + e (2 * h) (-(k : ℤ)) * dft (fun j => a (2 * j + 1)) h k := by
  unfold dft
  rw [sum_even_odd, mul_sum]
  congr 1
  · apply sum_congr rfl; intro j _
    rw [← e_double h]; congr 2; push_cast; ring
  · apply sum_congr rfl; intro j _
    rw [← e_double h (-(j * k : ℤ)), mul_left_comm, ← e_add]; congr 2; push_cast; ring

theorem dft_hi (a : ℕ → ℂ) (h k : ℕ) (hp : 0 < h) :
    dft a (2 * h) (k + h) = dft (fun j => a (2 * j)) h k - e (2 * h) (-(k : ℤ)) * dft (fun j => a (2 * j + 1)) h k := by
  have key : ∀ j : ℕ, e h (-((j * (k + h : ℕ) : ℤ))) = e h (-(j * k : ℤ)) := by
    intro j
    rw [show (-((j * (k + h : ℕ) : ℤ)) : ℤ) = -(j * k : ℤ) + h * (-(j : ℤ)) by push_cast; ring, e_add, e_full h hp, mul_one]
  rw [dft_lo]
  have h1 : ∀ b : ℕ → ℂ, dft b h (k + h) = dft b h k := by
    intro b; unfold dft; apply sum_congr rfl; intro j _; rw [key]
  have h2 : e (2 * h) (-((k + h : ℕ) : ℤ)) = -e (2 * h) (-(k : ℤ)) := by
    rw [show (-((k + h : ℕ) : ℤ)) = -(k : ℤ) + -(h : ℤ) by push_cast; ring, e_add, e_half h hp]; ring
  rw [h1, h1, h2]; ring

/-- orthogonality -/
theorem orth (n : ℕ) (hn : 0 < n) (m : ℤ) : ∑ j ∈ range n, e n (j * m) = if (n : ℤ) ∣ m then (n : ℂ) else 0 := by
  have pw : ∀ j : ℕ, e n (j * m) = e n m ^ j := by
    intro j
    induction j with
    | zero => simp [e_zero]
    | succ j ih => rw [pow_succ, ← ih, ← e_add]; congr 1; push_cast; ring
  split_ifs with hd
  · obtain ⟨q, rfl⟩ := hd
    rw [sum_congr rfl (fun j _ => by rw [pw, e_full n hn, one_pow])]; simp
  · have hne : e n m ≠ 1 := by
      intro h1
      unfold e at h1
      rw [exp_eq_one_iff] at h1
      obtain ⟨q, hq⟩ := h1
      apply hd; use q
      have hc : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
      have hp : (2 * Real.pi * I : ℂ) ≠ 0 := two_pi_I_ne_zero
      have : (m : ℂ) = n * q := by
        field_simp at hq
        apply mul_left_cancel₀ hp
        linear_combination (2 * (Real.pi : ℂ) * I) * hq
      exact_mod_cast this
    rw [sum_congr rfl (fun j _ => pw j), geom_sum_eq hne, ← pw, mul_comm, ]
    rw [show (m * (n : ℤ)) = n * m by ring, e_full n hn, sub_self, zero_div]

theorem idft_eq (a : ℕ → ℂ) (n k : ℕ) : idft a n k = (∑ j ∈ range n, a j * e n (j * k)) / n := by
  unfold idft dft
  rw [map_sum]; congr 1; apply sum_congr rfl; intro j _
  rw [map_mul, conj_conj, e_conj, neg_neg]

/-- the inverse transform undoes the transform -/
theorem idft_dft (a : ℕ → ℂ) (n k : ℕ) (hk : k < n) : idft (fun j => dft a n j) n k = a k := by
  have hn : 0 < n := by omega
  have hc : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
  rw [idft_eq]
  have : ∑ j ∈ range n, dft a n j * e n (j * k) = ∑ l ∈ range n, a l * ∑ j ∈ range n, e n (j * ((k : ℤ) - l)) := by
    unfold dft
    simp_rw [sum_mul, mul_sum]
    rw [sum_comm]
    apply sum_congr rfl; intro l _; apply sum_congr rfl; intro j _
    rw [mul_assoc, ← e_add]; congr 2; ring
  rw [this, sum_eq_single k]
  · rw [orth n hn]; simp [hc]
  · intro l hl hne
    rw [orth n hn, if_neg, mul_zero]
    rintro ⟨q, hq⟩
    have := mem_range.mp hl
    rcases lt_trichotomy q 0 with h | h | h
    · nlinarith
    · subst h; apply hne; omega
    · nlinarith
  · intro h; exact absurd (mem_range.mpr hk) h

/-- the transform undoes the inverse transform -/
theorem dft_idft (a : ℕ → ℂ) (n k : ℕ) (hk : k < n) : dft (fun j => idft a n j) n k = a k := by
  have hn : 0 < n := by omega
  have h := idft_dft (fun j => conj (a j)) n k hk
  have h2 : dft (fun j => idft a n j) n k = conj (idft (fun j => dft (fun i => conj (a i)) n j) n k) := by
    rw [idft_eq]
    unfold dft
    rw [map_div₀, map_sum, div_eq_mul_inv, sum_mul]
    simp only [map_natCast]
    apply sum_congr rfl; intro j _
    rw [map_mul, e_conj, idft]; unfold dft
    ring
  rw [h2, h, conj_conj]

/-- packing two real signals: convolute_fft gives the product of their transforms -/
theorem cnv_dft (a b : ℕ → ℝ) (n i : ℕ) (hi : i < n) :
    cnv (fun j => dft (fun l => ⟨a l, b l⟩) n j) n i = dft (fun l => (a l : ℂ)) n i * dft (fun l => (b l : ℂ)) n i := by
  have hn : 0 < n := by omega
  have hz : dft (fun l => (⟨a l, b l⟩ : ℂ)) n i = dft (fun l => (a l : ℂ)) n i + I * dft (fun l => (b l : ℂ)) n i := by
    unfold dft; rw [mul_sum, ← sum_add_distrib]; apply sum_congr rfl; intro l _
    simp only []
    rw [show (⟨a l, b l⟩ : ℂ) = a l + I * b l by apply Complex.ext <;> simp]; ring
  have hr : conj (dft (fun l => (⟨a l, b l⟩ : ℂ)) n ((n - i) % n)) = dft (fun l => (a l : ℂ)) n i - I * dft (fun l => (b l : ℂ)) n i := by
    unfold dft; rw [map_sum, mul_sum, ← sum_sub_distrib]; apply sum_congr rfl; intro l _
    rw [map_mul, e_conj, neg_neg]
    have : e n (l * ((n - i) % n : ℕ)) = e n (-(l * i : ℤ)) := by
      rcases Nat.eq_zero_or_pos i with rfl | hp
      · simp
      · rw [Nat.mod_eq_of_lt (by omega), show ((l : ℤ) * ((n - i : ℕ) : ℤ)) = -(l * i : ℤ) + n * l by rw [Nat.cast_sub hi.le]; ring, e_add, e_full n hn, mul_one]
    rw [this, show (conj (⟨a l, b l⟩ : ℂ)) = a l - I * b l by apply Complex.ext <;> simp]; ring
  unfold cnv
  simp only [hz, hr]
  generalize dft (fun l => (a l : ℂ)) n i = A
  generalize dft (fun l => (b l : ℂ)) n i = D
  apply Complex.ext <;> simp <;> ring

/-- ... and its inverse transform is the convolution of the digit strings, if the table is long enough -/
theorem convolution (a b : ℕ → ℝ) (la lb n k : ℕ) (ha : ∀ j, la ≤ j → a j = 0) (hb : ∀ j, lb ≤ j → b j = 0)
    (hl : la + lb ≤ n) (hk : k < n) :
    idft (fun i => cnv (fun j => dft (fun l => ⟨a l, b l⟩) n j) n i) n k = ((∑ p ∈ range (k + 1), a p * b (k - p) : ℝ) : ℂ) := by
  have hn : 0 < n := by omega
  have hc : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
  rw [idft_eq]
  have h1 : ∑ j ∈ range n, cnv (fun j => dft (fun l => ⟨a l, b l⟩) n j) n j * e n (j * k) =
      ∑ p ∈ range n, ∑ q ∈ range n, (a p : ℂ) * b q * ∑ j ∈ range n, e n (j * ((k : ℤ) - p - q)) := by
    rw [sum_congr rfl (fun j hj => by rw [cnv_dft a b n j (mem_range.mp hj)])]
    unfold dft
    simp_rw [sum_mul_sum, sum_mul, mul_sum]
    rw [sum_comm]; apply sum_congr rfl; intro p _
    rw [sum_comm]; apply sum_congr rfl; intro q _
    apply sum_congr rfl; intro j _
    rw [show (j : ℤ) * ((k : ℤ) - p - q) = -(p * j : ℤ) + -(q * j : ℤ) + j * k by ring, e_add, e_add]; ring
  have h2 : ∀ p ∈ range n, ∑ q ∈ range n, (a p : ℂ) * b q * ∑ j ∈ range n, e n (j * ((k : ℤ) - p - q)) =
      if p ≤ k then (a p : ℂ) * b (k - p) * n else 0 := by
    intro p hp
    have hp := mem_range.mp hp
    by_cases hpa : la ≤ p
    · rw [ha p hpa]; simp
    · split_ifs with hpk
      · rw [sum_eq_single (k - p)]
        · rw [orth n hn, if_pos]; rw [Nat.cast_sub hpk]; simp
        · intro q hq hne
          have hq := mem_range.mp hq
          by_cases hqb : lb ≤ q
          · rw [hb q hqb]; simp
          · rw [orth n hn, if_neg, mul_zero]
            rintro ⟨t, ht⟩
            rcases lt_trichotomy t 0 with h | h | h
            · have : (n : ℤ) * t ≤ -n := by nlinarith
              omega
            · subst h; apply hne; omega
            · have : (n : ℤ) * t ≥ n := by nlinarith
              omega
        · intro h; exfalso; apply h; apply mem_range.mpr; omega
      · apply sum_eq_zero; intro q hq
        have hq := mem_range.mp hq
        by_cases hqb : lb ≤ q
        · rw [hb q hqb]; simp
        · rw [orth n hn, if_neg, mul_zero]
          rintro ⟨t, ht⟩
          rcases lt_trichotomy t 0 with h | h | h
          · have : (n : ℤ) * t ≤ -n := by nlinarith
            omega
          · subst h; omega
          · have : (n : ℤ) * t ≥ n := by nlinarith
            omega
  rw [h1, sum_congr rfl h2, ← sum_filter]
  have h3 : (range n).filter (fun p => p ≤ k) = range (k + 1) := by
    ext p; simp; omega
  rw [h3, ← sum_mul, mul_div_assoc, div_self hc, mul_one]; push_cast; rfl

/-- the value of the convolution sums is the product of the values -/
theorem value (a b : ℕ → ℝ) (la lb n : ℕ) (B : ℝ) (ha : ∀ j, la ≤ j → a j = 0) (hb : ∀ j, lb ≤ j → b j = 0) (hl : la + lb ≤ n) :
    ∑ k ∈ range n, (∑ p ∈ range (k + 1), a p * b (k - p)) * B ^ k = (∑ p ∈ range la, a p * B ^ p) * (∑ q ∈ range lb, b q * B ^ q) := by
  have ext : ∀ (c : ℕ → ℝ) (l : ℕ), l ≤ n → (∀ j, l ≤ j → c j = 0) → ∑ p ∈ range l, c p * B ^ p = ∑ p ∈ range n, c p * B ^ p := by
    intro c l hln hz
    apply sum_subset
    · intro x hx; simp at *; omega
    · intro x _ hx; rw [hz x (by simpa using hx)]; ring
  rw [ext a la (by omega) ha, ext b lb (by omega) hb, sum_mul_sum]
  rw [← sum_product']
  have hL : ∑ k ∈ range n, (∑ p ∈ range (k + 1), a p * b (k - p)) * B ^ k =
      ∑ x ∈ (range n).sigma (fun k => range (k + 1)), a x.2 * b (x.1 - x.2) * B ^ x.1 := by
    rw [sum_sigma]; apply sum_congr rfl; intro k _; rw [sum_mul]
  rw [hL]
  have hR : ∑ x ∈ range n ×ˢ range n, a x.1 * B ^ x.1 * (b x.2 * B ^ x.2) =
      ∑ x ∈ (range n ×ˢ range n).filter (fun x => x.1 + x.2 < n), a x.1 * B ^ x.1 * (b x.2 * B ^ x.2) := by
    symm; apply sum_subset (filter_subset _ _)
    intro x hx hnx
    simp only [mem_filter, not_and, not_lt] at hnx
    have := hnx hx
    by_cases h : la ≤ x.1
    · rw [ha _ h]; ring
    · rw [hb x.2 (by omega)]; ring
  rw [hR]
  refine sum_bij' (fun x _ => (x.2, x.1 - x.2)) (fun x _ => ⟨x.1 + x.2, x.1⟩) ?_ ?_ ?_ ?_ ?_
  · rintro ⟨k, p⟩ h; simp only [mem_sigma, mem_range, mem_filter, mem_product] at *; omega
  · rintro ⟨p, q⟩ h; simp only [mem_sigma, mem_range, mem_filter, mem_product] at *; omega
  · rintro ⟨k, p⟩ h; simp only [mem_sigma, mem_range] at h; simp only [Sigma.mk.injEq, heq_eq_eq, and_true]; omega
  · rintro ⟨p, q⟩ h; simp
  · rintro ⟨k, p⟩ h
    simp only [mem_sigma, mem_range] at h
    simp only
    have hk : B ^ k = B ^ p * B ^ (k - p) := by rw [← pow_add]; congr 1; omega
    rw [hk]; ring

/-- the unsigned remainder the code forms: -i % n for a power of two n -/
theorem neg_mod (k a : ℕ) (hk : k ≤ 63) (h1 : 2 ^ 64 - 2 ^ k ≤ a) (h2 : a < 2 ^ 64) : a % 2 ^ k = a + 2 ^ k - 2 ^ 64 := by
  have hd : 2 ^ k ∣ 2 ^ 64 := pow_dvd_pow 2 (by omega)
  obtain ⟨c, hc⟩ := hd
  have hp : 0 < 2 ^ k := by positivity
  have hc0 : 0 < c := by
    rcases Nat.eq_zero_or_pos c with rfl | h
    · simp at hc
    · exact h
  obtain ⟨d, rfl⟩ : ∃ d, c = d + 1 := ⟨c - 1, by omega⟩
  have hs : 2 ^ 64 = 2 ^ k * d + 2 ^ k := by rw [hc]; ring
  obtain ⟨r, rfl⟩ : ∃ r, a = 2 ^ k * d + r := ⟨a - 2 ^ k * d, by omega⟩
  rw [Nat.mul_add_mod, Nat.mod_eq_of_lt (by omega)]; omega

end BN

#print axioms BN.idft_dft
#print axioms BN.dft_idft
#print axioms BN.convolution
#print axioms BN.value
#print axioms BN.dft_hi
#print axioms BN.twiddle
#print axioms BN.neg_mod
