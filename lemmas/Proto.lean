import Mathlib.Analysis.SpecialFunctions.Trigonometric.Chebyshev.Basic
import Mathlib.RingTheory.Polynomial.Cyclotomic.Basic
import Mathlib.RingTheory.RootsOfUnity.Complex
import Mathlib.Analysis.SpecialFunctions.Complex.Arg
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Complex
import Mathlib.Analysis.SpecialFunctions.Trigonometric.DerivHyp
import Mathlib.Analysis.SpecialFunctions.Arsinh
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Arctan
import Mathlib.Tactic

open Finset Complex
open scoped Real
set_option autoImplicit false

namespace Iir

/-- x^m - y^m as a product over the m-th roots of unity, in exponential form -/
lemma prod_sub_exp (m : ℕ) (hm : 0 < m) (x y : ℂ) :
    ∏ k ∈ range m, (x - cexp (2 * π * I / m) ^ k * y) = x ^ m - y ^ m := by
  have h := Complex.isPrimitiveRoot_exp m hm.ne'
  rw [h.pow_sub_pow_eq_prod_sub_mul x y hm]
  refine prod_nbij (fun k => cexp (2 * π * I / m) ^ k) ?_ ?_ ?_ ?_
  · intro k hk
    rw [Polynomial.mem_nthRootsFinset hm]
    rw [← pow_mul, Nat.mul_comm, pow_mul, h.pow_eq_one, one_pow]
  · intro a ha b hb hab
    simp only [coe_range, Set.mem_Iio] at ha hb
    exact h.pow_inj ha hb hab
  · intro z hz
    have : NeZero m := ⟨hm.ne'⟩
    simp only [mem_coe] at hz
    rw [Polynomial.mem_nthRootsFinset hm] at hz
    obtain ⟨i, hi, rfl⟩ := (h.eq_pow_of_pow_eq_one hz)
    exact ⟨i, by simpa using hi, rfl⟩
  · intro k hk; rfl

/-- the angle of pole k of n -/
noncomputable def t (n k : ℕ) : ℝ := (2 * k + 1) * Real.pi / (2 * n)

/-- a product over 2n points spaced by pi/n, starting at t 0, taken in pairs (t k, -t k) -/
lemma prod_pairs (n : ℕ) (hn : 0 < n) (f : ℂ → ℂ) (y : ℂ) :
    ∏ k ∈ range (2 * n), f (cexp (2 * π * I / (2 * n : ℕ)) ^ k * (cexp (t n 0 * I) * y)) =
      ∏ k ∈ range n, (f (cexp (t n k * I) * y) * f (cexp (-(t n k * I)) * y)) := by
  have hn' : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
  rw [two_mul, prod_range_add, prod_mul_distrib]
  congr 1
  · refine prod_congr rfl fun k _ => ?_
    rw [← mul_assoc, ← Complex.exp_nat_mul, ← Complex.exp_add]
    congr 3
    simp only [t]; push_cast; field_simp; ring
  · rw [← prod_range_reflect]
    refine prod_congr rfl fun k hk => ?_
    have hk' : k < n := by simpa using hk
    rw [← mul_assoc, ← Complex.exp_nat_mul, ← Complex.exp_add]
    congr 2
    have : (((n + (n - 1 - k) : ℕ) : ℂ) * (2 * π * I / ((n + n : ℕ) : ℂ)) + t n 0 * I) = -(t n k * I) + 2 * π * I := by
      have e : n + (n - 1 - k) = 2 * n - 1 - k := by omega
      have e2 : ((n + (n - 1 - k) : ℕ) : ℂ) = 2 * n - 1 - k := by
        rw [e, Nat.cast_sub (by omega), Nat.cast_sub (by omega)]; push_cast; ring
      rw [e2]
      simp only [t]; push_cast; field_simp; ring
    rw [this, Complex.exp_add, Complex.exp_two_pi_mul_I, mul_one]

lemma exp_t0 (n : ℕ) (hn : 0 < n) : cexp (t n 0 * I) ^ (2 * n) = -1 := by
  have hn' : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
  rw [← Complex.exp_nat_mul, ← Complex.exp_pi_mul_I]
  congr 1
  simp only [t]; push_cast; field_simp; ring

/-- Butterworth: the product of |X - Z exp(i t)|^2 -/
lemma butter_c (n : ℕ) (hn : 0 < n) (X Z : ℂ) :
    ∏ k ∈ range n, (X ^ 2 - 2 * X * Z * Complex.cos (t n k) + Z ^ 2) = X ^ (2 * n) + Z ^ (2 * n) := by
  have h := prod_sub_exp (2 * n) (by omega) X (cexp (t n 0 * I) * Z)
  rw [prod_pairs n hn (fun w => X - w) Z, mul_pow, exp_t0 n hn] at h
  rw [show X ^ (2 * n) + Z ^ (2 * n) = X ^ (2 * n) - -1 * Z ^ (2 * n) by ring, ← h]
  refine prod_congr rfl fun k _ => ?_
  have e : cexp (t n k * I) * cexp (-(t n k * I)) = 1 := by rw [← Complex.exp_add]; simp
  have c : Complex.cos (t n k) = (cexp (t n k * I) + cexp (-(t n k * I))) / 2 := by
    rw [Complex.cos]; congr 3; ring
  rw [c]
  linear_combination -Z ^ 2 * e

lemma butter (n : ℕ) (hn : 0 < n) (X Z : ℝ) :
    ∏ k ∈ range n, (X ^ 2 - 2 * X * Z * Real.cos (t n k) + Z ^ 2) = X ^ (2 * n) + Z ^ (2 * n) := by
  have h := butter_c n hn X Z
  exact_mod_cast h

lemma cheb_c (n : ℕ) (hn : 0 < n) (θ u : ℂ) :
    ∏ k ∈ range n, (4 * ((Complex.cos θ - Complex.cosh u * Complex.cos (t n k)) ^ 2 + (Complex.sinh u * Complex.sin (t n k)) ^ 2)) =
      4 * (Complex.cos (n * θ) ^ 2 + Complex.sinh (n * u) ^ 2) := by
  set w := cexp (θ * I) with hw
  have hw0 : w ≠ 0 := Complex.exp_ne_zero _
  set y := cexp (-u) with hy
  have hy0 : y ≠ 0 := Complex.exp_ne_zero _
  have h1 := prod_sub_exp (2 * n) (by omega) w (cexp (t n 0 * I) * y)
  have h2 := prod_sub_exp (2 * n) (by omega) w⁻¹ (cexp (t n 0 * I) * y)
  have h3 := prod_sub_exp (2 * n) (by omega) 0 (cexp (t n 0 * I) * y)
  rw [mul_pow, exp_t0 n hn] at h1 h2 h3
  rw [zero_pow (by omega)] at h3
  have hp := prod_pairs n hn (fun v => w + w⁻¹ - v - v⁻¹) y
  have e1 : ∏ k ∈ range (2 * n), (fun v => w + w⁻¹ - v - v⁻¹) (cexp (2 * π * I / (2 * n : ℕ)) ^ k * (cexp (t n 0 * I) * y)) =
      (w ^ (2 * n) + y ^ (2 * n)) * (w⁻¹ ^ (2 * n) + y ^ (2 * n)) / y ^ (2 * n) := by
    have : (w ^ (2 * n) + y ^ (2 * n)) * (w⁻¹ ^ (2 * n) + y ^ (2 * n)) / y ^ (2 * n) =
      (w ^ (2 * n) - -1 * y ^ (2 * n)) * (w⁻¹ ^ (2 * n) - -1 * y ^ (2 * n)) / (0 - -1 * y ^ (2 * n)) := by ring
    rw [this, ← h1, ← h2, ← h3, ← prod_mul_distrib, ← prod_div_distrib]
    refine prod_congr rfl fun k _ => ?_
    have hv : cexp (2 * π * I / (2 * n : ℕ)) ^ k * (cexp (t n 0 * I) * y) ≠ 0 :=
      mul_ne_zero (pow_ne_zero _ (Complex.exp_ne_zero _)) (mul_ne_zero (Complex.exp_ne_zero _) hy0)
    set v := cexp (2 * π * I / (2 * n : ℕ)) ^ k * (cexp (t n 0 * I) * y)
    have hv' : 0 - v ≠ 0 := by simpa using hv
    show w + w⁻¹ - v - v⁻¹ = _
    rw [eq_div_iff hv']
    field_simp
    ring
  rw [e1] at hp
  have hL : ∏ k ∈ range n, (4 * ((Complex.cos θ - Complex.cosh u * Complex.cos (t n k)) ^ 2 + (Complex.sinh u * Complex.sin (t n k)) ^ 2)) =
      ∏ k ∈ range n, ((fun v => w + w⁻¹ - v - v⁻¹) (cexp (t n k * I) * y) * (fun v => w + w⁻¹ - v - v⁻¹) (cexp (-(t n k * I)) * y)) := by
    refine prod_congr rfl fun k _ => ?_
    have cw : w + w⁻¹ = 2 * Complex.cos θ := by
      rw [Complex.cos, hw, ← Complex.exp_neg]; ring_nf
    have ca : cexp (t n k * I) = Complex.cos (t n k) + Complex.sin (t n k) * I := Complex.exp_mul_I _
    have cb : cexp (-(t n k * I)) = Complex.cos (t n k) - Complex.sin (t n k) * I := by
      rw [← neg_mul, Complex.exp_mul_I, Complex.cos_neg, Complex.sin_neg]; ring
    have ya : y = Complex.cosh u - Complex.sinh u := by rw [hy, Complex.cosh_sub_sinh]
    have yb : y⁻¹ = Complex.cosh u + Complex.sinh u := by rw [hy, ← Complex.exp_neg, neg_neg, Complex.cosh_add_sinh]
    have ia : (cexp (t n k * I))⁻¹ = cexp (-(t n k * I)) := by rw [← Complex.exp_neg]
    have ib : (cexp (-(t n k * I)))⁻¹ = cexp (t n k * I) := by rw [← Complex.exp_neg, neg_neg]
    show _ = (w + w⁻¹ - cexp (t n k * I) * y - (cexp (t n k * I) * y)⁻¹) * (w + w⁻¹ - cexp (-(t n k * I)) * y - (cexp (-(t n k * I)) * y)⁻¹)
    rw [mul_inv, mul_inv, ia, ib, yb, cw, ca, cb, ya]
    have s := Complex.sin_sq_add_cos_sq (t n k : ℂ)
    have h := Complex.cosh_sq u
    have i2 : I ^ 2 = -1 := Complex.I_sq
    linear_combination (4 * Complex.sinh u ^ 2 * Complex.sin (t n k) ^ 2) * i2
  rw [hL, ← hp]
  have a1 : w ^ (2 * n) = cexp (n * θ * I) ^ 2 := by rw [hw, ← Complex.exp_nat_mul, ← Complex.exp_nat_mul]; congr 1; push_cast; ring
  have a2 : y ^ (2 * n) = cexp (-(n * u)) ^ 2 := by rw [hy, ← Complex.exp_nat_mul, ← Complex.exp_nat_mul]; congr 1; push_cast; ring
  have b1 : Complex.cos (n * θ) = (cexp (n * θ * I) + (cexp (n * θ * I))⁻¹) / 2 := by
    rw [Complex.cos, ← Complex.exp_neg]; ring_nf
  have b2 : Complex.sinh (n * u) = ((cexp (-(n * u)))⁻¹ - cexp (-(n * u))) / 2 := by
    rw [Complex.sinh, ← Complex.exp_neg, neg_neg]
  rw [inv_pow, a1, a2, b1, b2]
  have c1 := Complex.exp_ne_zero (n * θ * I)
  have c2 := Complex.exp_ne_zero (-(n * u))
  field_simp
  ring

/-- Chebyshev: the product of |j X - Y p|^2 over poles on an ellipse -/
lemma cheb (n : ℕ) (hn : 0 < n) (x u : ℝ) :
    ∏ k ∈ range n, (4 * ((x - Real.cosh u * Real.cos (t n k)) ^ 2 + (Real.sinh u * Real.sin (t n k)) ^ 2)) =
      4 * ((Polynomial.Chebyshev.T ℝ n).eval x ^ 2 + Real.sinh (n * u) ^ 2) := by
  obtain ⟨θ, hθ⟩ := Complex.cos_surjective x
  have h := cheb_c n hn θ u
  have hT : (((Polynomial.Chebyshev.T ℝ n).eval x : ℝ) : ℂ) = Complex.cos (n * θ) := by
    have := Polynomial.Chebyshev.T_complex_cos θ n
    rw [hθ] at this
    rw [← Polynomial.Chebyshev.complex_ofReal_eval_T] at this
    exact_mod_cast this
  rw [hθ, ← hT] at h
  exact_mod_cast h

/-! ### angles -/

lemma t_reflect (n i : ℕ) (hi : i < n) : t n (n - 1 - i) = π - t n i := by
  have hn : (n : ℝ) ≠ 0 := by exact_mod_cast (by omega : n ≠ 0)
  have e : ((n - 1 - i : ℕ) : ℝ) = n - 1 - i := by
    rw [Nat.cast_sub (by omega), Nat.cast_sub (by omega)]; push_cast; ring
  simp only [t]; rw [e]; field_simp; ring

lemma t_mid (n : ℕ) (hn : n % 2 = 1) : t n (n / 2) = π / 2 := by
  have h : (n : ℝ) = 2 * ((n / 2 : ℕ) : ℝ) + 1 := by exact_mod_cast (by omega : n = 2 * (n / 2) + 1)
  have hn : (n : ℝ) ≠ 0 := by exact_mod_cast (by omega : n ≠ 0)
  simp only [t]; rw [← h]; field_simp

lemma sin_t_pos (n k : ℕ) (hk : k < n) : 0 < Real.sin (t n k) := by
  have hn : (0 : ℝ) < n := by exact_mod_cast (by omega : 0 < n)
  apply Real.sin_pos_of_pos_of_lt_pi
  · simp only [t]; positivity
  · simp only [t]
    rw [div_lt_iff₀ (by positivity)]
    have : (k : ℝ) + 1 ≤ n := by exact_mod_cast hk
    nlinarith [Real.pi_pos]

lemma cos_t_ne (n k : ℕ) (hk : k < n / 2) : Real.cos (t n k) ≠ 0 := by
  have hn : (0 : ℝ) < n := by exact_mod_cast (by omega : 0 < n)
  apply ne_of_gt
  apply Real.cos_pos_of_mem_Ioo
  constructor
  · have : 0 < t n k := by simp only [t]; positivity
    linarith [Real.pi_pos]
  · simp only [t]
    rw [div_lt_div_iff₀ (by positivity) (by norm_num)]
    have : 2 * (k : ℝ) + 2 ≤ n := by exact_mod_cast (by omega : 2 * k + 2 ≤ n)
    nlinarith [Real.pi_pos]

/-- a product over n in pairs i, n - 1 - i and the middle -/
lemma pair_prod (n : ℕ) (g : ℕ → ℝ) :
    (∏ i ∈ range (n / 2), g i * g (n - 1 - i)) * (if n % 2 = 1 then g (n / 2) else 1) = ∏ k ∈ range n, g k := by
  rcases Nat.even_or_odd' n with ⟨m, rfl | rfl⟩
  · have h1 : 2 * m / 2 = m := by omega
    have h2 : ¬ (2 * m % 2 = 1) := by omega
    rw [h1, if_neg h2, mul_one, prod_mul_distrib]
    conv_rhs => rw [two_mul, prod_range_add]
    congr 1
    rw [← prod_range_reflect]
    refine prod_congr rfl fun k hk => ?_
    have : k < m := by simpa using hk
    congr 1; omega
  · have h1 : (2 * m + 1) / 2 = m := by omega
    have h2 : (2 * m + 1) % 2 = 1 := by omega
    rw [h1, if_pos h2, prod_mul_distrib]
    conv_rhs => rw [show 2 * m + 1 = m + (m + 1) by ring, prod_range_add, prod_range_succ']
    rw [mul_assoc]
    congr 1
    rw [← prod_range_reflect (fun k => g (m + (k + 1)))]
    congr 1
    refine prod_congr rfl fun k hk => ?_
    have : k < m := by simpa using hk
    congr 1; omega

/-! ### analogue points and filters -/

/-- a point of the extended complex plane, none is infinity -/
abbrev Pt := Option (ℝ × ℝ)

/-- |j X - Y p|^2 -/
def A : Pt → ℝ → ℝ → ℝ
  | none, _, Y => Y ^ 2
  | some p, X, Y => (Y * p.1) ^ 2 + (X - Y * p.2) ^ 2

def cj (p : Pt) : Pt := p.map fun q => (q.1, -q.2)

/-- closed left half plane with infinity -/
def lhp : Pt → Prop
  | none => True
  | some p => p.1 ≤ 0

/-- open left half plane -/
def slhp : Pt → Prop
  | none => False
  | some p => p.1 < 0

/-- product of |j X - Y p|^2 over the pairs p i, conj (p i), i < n / 2, and the real point r if n is odd -/
def El (n : ℕ) (p : ℕ → Pt) (r : Pt) (X Y : ℝ) : ℝ :=
  (∏ i ∈ range (n / 2), A (p i) X Y * A (cj (p i)) X Y) * (if n % 2 = 1 then A r X Y else 1)

/-- what the contracts of design, the transform and setLayout say about the digital filter before scaling: element i (the
sections made from pair i, or from the real point) has the squared magnitude E i. Poles p i, r and zeros z i, y. -/
structure Elements {α : Type*} (n : ℕ) (p z : ℕ → Pt) (r y : Pt) (X Y : α → ℝ) (E : ℕ → α → ℝ) : Prop where
  pair : ∀ i < n / 2, slhp (p i) → lhp (z i) → ∃ a b : ℝ, a ≠ 0 ∧ b ≠ 0 ∧
    ∀ θ, E i θ * (a * (A (p i) (X θ) (Y θ) * A (cj (p i)) (X θ) (Y θ))) = b * (A (z i) (X θ) (Y θ) * A (cj (z i)) (X θ) (Y θ))
  real : n % 2 = 1 → slhp r → lhp y → ∃ a b : ℝ, a ≠ 0 ∧ b ≠ 0 ∧
    ∀ θ, E (n / 2) θ * (a * A r (X θ) (Y θ)) = b * A y (X θ) (Y θ)

lemma quot {α : Type*} {n : ℕ} {p z : ℕ → Pt} {r y : Pt} {X Y : α → ℝ} {E : ℕ → α → ℝ}
    (h : Elements n p z r y X Y E) (hp : ∀ i < n / 2, slhp (p i)) (hz : ∀ i < n / 2, lhp (z i)) (hr : slhp r) (hy : lhp y) :
    ∃ a b : ℝ, a ≠ 0 ∧ b ≠ 0 ∧
      ∀ θ, (∏ i ∈ range ((n + 1) / 2), E i θ) * (a * El n p r (X θ) (Y θ)) = b * El n z y (X θ) (Y θ) := by
  have key : ∀ m ≤ n / 2, ∃ a b : ℝ, a ≠ 0 ∧ b ≠ 0 ∧ ∀ θ, (∏ i ∈ range m, E i θ) *
      (a * ∏ i ∈ range m, A (p i) (X θ) (Y θ) * A (cj (p i)) (X θ) (Y θ)) =
      b * ∏ i ∈ range m, A (z i) (X θ) (Y θ) * A (cj (z i)) (X θ) (Y θ) := by
    intro m
    induction m with
    | zero => intro _; exact ⟨1, 1, one_ne_zero, one_ne_zero, fun θ => by simp⟩
    | succ m ih =>
      intro hm
      obtain ⟨a, b, ha, hb, h1⟩ := ih (by omega)
      obtain ⟨c, d, hc, hd, h2⟩ := h.pair m (by omega) (hp m (by omega)) (hz m (by omega))
      refine ⟨a * c, b * d, mul_ne_zero ha hc, mul_ne_zero hb hd, fun θ => ?_⟩
      rw [prod_range_succ, prod_range_succ, prod_range_succ]
      calc _ = ((∏ i ∈ range m, E i θ) * (a * ∏ i ∈ range m, A (p i) (X θ) (Y θ) * A (cj (p i)) (X θ) (Y θ))) *
            (E m θ * (c * (A (p m) (X θ) (Y θ) * A (cj (p m)) (X θ) (Y θ)))) := by ring
        _ = _ := by rw [h1, h2]; ring
  obtain ⟨a, b, ha, hb, h1⟩ := key (n / 2) le_rfl
  rcases Nat.mod_two_eq_zero_or_one n with h0 | h0
  · refine ⟨a, b, ha, hb, fun θ => ?_⟩
    have : (n + 1) / 2 = n / 2 := by omega
    have e : ¬ (n % 2 = 1) := by omega
    simp only [El, if_neg e, mul_one, this]
    exact h1 θ
  · obtain ⟨c, d, hc, hd, h2⟩ := h.real h0 hr hy
    refine ⟨a * c, b * d, mul_ne_zero ha hc, mul_ne_zero hb hd, fun θ => ?_⟩
    have : (n + 1) / 2 = n / 2 + 1 := by omega
    simp only [El, if_pos h0, this]
    rw [prod_range_succ]
    calc _ = ((∏ i ∈ range (n / 2), E i θ) * (a * ∏ i ∈ range (n / 2), A (p i) (X θ) (Y θ) * A (cj (p i)) (X θ) (Y θ))) *
            (E (n / 2) θ * (c * A r (X θ) (Y θ))) := by ring
      _ = _ := by rw [h1, h2]; ring

/-- the contract of setLayout: the filter is normalised to the squared gain g at the reference θ₀ -/
def Scaled {α : Type*} (n : ℕ) (E : ℕ → α → ℝ) (H2 : α → ℝ) (θ₀ : α) (g : ℝ) : Prop :=
  (∏ i ∈ range ((n + 1) / 2), E i θ₀) ≠ 0 →
    ∀ θ, H2 θ * (∏ i ∈ range ((n + 1) / 2), E i θ₀) = g * ∏ i ∈ range ((n + 1) / 2), E i θ

lemma law {α : Type*} {n : ℕ} {p z : ℕ → Pt} {r y : Pt} {X Y : α → ℝ} {E : ℕ → α → ℝ} {H2 : α → ℝ} {θ₀ : α} {g : ℝ}
    (h : Elements n p z r y X Y E) (hs : Scaled n E H2 θ₀ g)
    (hp : ∀ i < n / 2, slhp (p i)) (hz : ∀ i < n / 2, lhp (z i)) (hr : slhp r) (hy : lhp y)
    (hZ : El n z y (X θ₀) (Y θ₀) ≠ 0) (θ : α) :
    H2 θ * El n p r (X θ) (Y θ) * El n z y (X θ₀) (Y θ₀) = g * El n z y (X θ) (Y θ) * El n p r (X θ₀) (Y θ₀) := by
  obtain ⟨a, b, ha, hb, hq⟩ := quot h hp hz hr hy
  have h0 := hq θ₀
  have h1 := hq θ
  set e0 := ∏ i ∈ range ((n + 1) / 2), E i θ₀
  set e1 := ∏ i ∈ range ((n + 1) / 2), E i θ
  have hne : e0 ≠ 0 := by
    intro hh
    rw [hh, zero_mul] at h0
    exact (mul_ne_zero hb hZ) h0.symm
  have hs' : H2 θ * e0 = g * e1 := hs hne θ
  have hbn : b ≠ 0 := hb
  have : b * e0 * (H2 θ * El n p r (X θ) (Y θ) * El n z y (X θ₀) (Y θ₀) - g * El n z y (X θ) (Y θ) * El n p r (X θ₀) (Y θ₀)) = 0 := by
    have f1 : b * e0 * (H2 θ * El n p r (X θ) (Y θ) * El n z y (X θ₀) (Y θ₀)) =
        (H2 θ * e0) * El n p r (X θ) (Y θ) * (b * El n z y (X θ₀) (Y θ₀)) := by ring
    have f2 : b * e0 * (g * El n z y (X θ) (Y θ) * El n p r (X θ₀) (Y θ₀)) =
        g * e0 * (b * El n z y (X θ) (Y θ)) * El n p r (X θ₀) (Y θ₀) := by ring
    rw [mul_sub, f1, f2, hs', ← h0, ← h1]
    ring
  rcases mul_eq_zero.mp this with h' | h'
  · exact absurd h' (mul_ne_zero hbn hne)
  · linarith

/-! ### points on circles and ellipses -/

lemma El_full (n : ℕ) (a b σ : ℝ) (hσ : σ = 1 ∨ σ = -1) (X Y : ℝ) :
    El n (fun i => some (-(a * Real.sin (t n i)), σ * b * Real.cos (t n i))) (some (-a, 0)) X Y =
      ∏ k ∈ range n, ((Y * a * Real.sin (t n k)) ^ 2 + (X - Y * b * Real.cos (t n k)) ^ 2) := by
  rw [← pair_prod]
  unfold El
  congr 1
  · refine prod_congr rfl fun i hi => ?_
    have hi' : i < n / 2 := by simpa using hi
    rw [t_reflect n i (by omega), Real.cos_pi_sub, Real.sin_pi_sub]
    simp only [A, cj, Option.map_some]
    rcases hσ with rfl | rfl <;> ring
  · split_ifs with h
    · rw [t_mid n h, Real.cos_pi_div_two, Real.sin_pi_div_two]
      simp only [A]; ring
    · rfl

lemma El_circle (n : ℕ) (hn : 0 < n) (ρ σ : ℝ) (hσ : σ = 1 ∨ σ = -1) (X Y : ℝ) :
    El n (fun i => some (-(ρ * Real.sin (t n i)), σ * ρ * Real.cos (t n i))) (some (-ρ, 0)) X Y = X ^ (2 * n) + (ρ * Y) ^ (2 * n) := by
  rw [El_full n ρ ρ σ hσ, ← butter n hn X (ρ * Y)]
  refine prod_congr rfl fun k _ => ?_
  have s := Real.sin_sq_add_cos_sq (t n k)
  linear_combination (Y * ρ) ^ 2 * s

lemma El_ellipse (n : ℕ) (hn : 0 < n) (u σ : ℝ) (hσ : σ = 1 ∨ σ = -1) (X Y : ℝ) (hY : Y ≠ 0) :
    4 ^ n * El n (fun i => some (-(Real.sinh u * Real.sin (t n i)), σ * Real.cosh u * Real.cos (t n i))) (some (-Real.sinh u, 0)) X Y =
      4 * Y ^ (2 * n) * ((Polynomial.Chebyshev.T ℝ n).eval (X / Y) ^ 2 + Real.sinh (n * u) ^ 2) := by
  rw [El_full n _ _ σ hσ]
  have h := cheb n hn (X / Y) u
  have e : (4 : ℝ) ^ n * ∏ k ∈ range n, ((Y * Real.sinh u * Real.sin (t n k)) ^ 2 + (X - Y * Real.cosh u * Real.cos (t n k)) ^ 2) =
      Y ^ (2 * n) * ∏ k ∈ range n, (4 * ((X / Y - Real.cosh u * Real.cos (t n k)) ^ 2 + (Real.sinh u * Real.sin (t n k)) ^ 2)) := by
    have c : ∀ q : ℝ, q ^ n = ∏ k ∈ range n, q := by intro q; simp
    rw [pow_mul, c 4, c (Y ^ 2), ← prod_mul_distrib, ← prod_mul_distrib]
    refine prod_congr rfl fun k _ => ?_
    field_simp
    ring
  rw [e, h]; ring

lemma El_ellipse_zero (n : ℕ) (u σ : ℝ) (hσ : σ = 1 ∨ σ = -1) (X : ℝ) :
    El n (fun i => some (-(Real.sinh u * Real.sin (t n i)), σ * Real.cosh u * Real.cos (t n i))) (some (-Real.sinh u, 0)) X 0 = X ^ (2 * n) := by
  rw [El_full n _ _ σ hσ]
  simp [pow_mul]

/-- all zeros at infinity -/
lemma El_inf (n : ℕ) (X Y : ℝ) : El n (fun _ => none) none X Y = Y ^ (2 * n) := by
  have h := pair_prod n (fun _ => Y ^ 2)
  simp only [prod_const, card_range] at h
  rw [pow_mul, ← h]
  simp [El, A, cj]

/-- scaling of all points of a product -/
lemma El_slhp_pair (n i : ℕ) (hi : i < n / 2) (a σ b : ℝ) (ha : 0 < a) :
    slhp (some (-(a * Real.sin (t n i)), σ * b * Real.cos (t n i))) := by
  simp only [slhp]
  have := sin_t_pos n i (by omega)
  have := mul_pos ha this
  linarith

lemma El_lhp_pair (n i : ℕ) (hi : i < n / 2) (a σ b : ℝ) (ha : 0 ≤ a) :
    lhp (some (-(a * Real.sin (t n i)), σ * b * Real.cos (t n i))) := by
  simp only [lhp]
  have := sin_t_pos n i (by omega)
  nlinarith

/-! ### the laws -/

/-- frequencies: the mapped frequency X / Y is defined, possibly infinite, everywhere -/
def Defined {α : Type*} (X Y : α → ℝ) : Prop := ∀ θ, X θ ≠ 0 ∨ Y θ ≠ 0

section
variable {α : Type*} {n : ℕ} {X Y : α → ℝ} {E : ℕ → α → ℝ} {H2 : α → ℝ} {θ₀ : α} {g : ℝ}

theorem butterworth (hn : 0 < n)
    (h : Elements n (fun i => some (-(1 * Real.sin (t n i)), 1 * 1 * Real.cos (t n i))) (fun _ => none) (some (-1, 0)) none X Y E)
    (hs : Scaled n E H2 θ₀ 1) (hD : Defined X Y) (h0 : X θ₀ = 0) (θ : α) (hY : Y θ ≠ 0) :
    H2 θ = 1 / (1 + (X θ / Y θ) ^ (2 * n)) := by
  have h1 : Y θ₀ ≠ 0 := (hD θ₀).resolve_left (by simp [h0])
  have hl := law h hs (fun i hi => El_slhp_pair n i hi 1 1 1 zero_lt_one) (fun _ _ => trivial) (by simp [slhp]) trivial
    (by rw [El_inf]; exact pow_ne_zero _ h1) θ
  rw [El_inf, El_inf, El_circle n hn 1 1 (Or.inl rfl), El_circle n hn 1 1 (Or.inl rfl), h0, zero_pow (by omega), one_mul, zero_add, one_mul, one_mul] at hl
  have hp : 0 < 1 + (X θ / Y θ) ^ (2 * n) := by
    have := (even_two_mul n).pow_nonneg (X θ / Y θ); linarith
  rw [eq_div_iff hp.ne', div_pow]
  have hy := pow_ne_zero (2 * n) hY
  have h1' := pow_ne_zero (2 * n) h1
  field_simp
  have := mul_right_cancel₀ h1' hl
  linarith

theorem butterworth_stop (hn : 0 < n)
    (h : Elements n (fun i => some (-(1 * Real.sin (t n i)), 1 * 1 * Real.cos (t n i))) (fun _ => none) (some (-1, 0)) none X Y E)
    (hs : Scaled n E H2 θ₀ 1) (hD : Defined X Y) (h0 : X θ₀ = 0) (θ : α) (hY : Y θ = 0) : H2 θ = 0 := by
  have h1 : Y θ₀ ≠ 0 := (hD θ₀).resolve_left (by simp [h0])
  have h2 : X θ ≠ 0 := (hD θ).resolve_right (by simp [hY])
  have hl := law h hs (fun i hi => El_slhp_pair n i hi 1 1 1 zero_lt_one) (fun _ _ => trivial) (by simp [slhp]) trivial
    (by rw [El_inf]; exact pow_ne_zero _ h1) θ
  rw [El_inf, El_inf, El_circle n hn 1 1 (Or.inl rfl), hY, zero_pow (by omega), mul_zero, zero_pow (by omega), add_zero, zero_mul] at hl
  have h1' := pow_ne_zero (2 * n) h1
  have h2' := pow_ne_zero (2 * n) h2
  rcases mul_eq_zero.mp hl with q | q
  · exact (mul_eq_zero.mp q).resolve_right h2'
  · exact absurd q h1'

theorem butterworth_shelf (hn : 0 < n) (c : ℝ) (hc : 0 < c)
    (h : Elements n (fun i => some (-(1 / c * Real.sin (t n i)), -1 * (1 / c) * Real.cos (t n i)))
      (fun i => some (-(c * Real.sin (t n i)), -1 * c * Real.cos (t n i))) (some (-(1 / c), 0)) (some (-c, 0)) X Y E)
    (hs : Scaled n E H2 θ₀ 1) (hD : Defined X Y) (h0 : Y θ₀ = 0) (θ : α) :
    H2 θ * (X θ ^ (2 * n) + Y θ ^ (2 * n) / c ^ (2 * n)) = X θ ^ (2 * n) + c ^ (2 * n) * Y θ ^ (2 * n) := by
  have h1 : X θ₀ ≠ 0 := (hD θ₀).resolve_right (by simp [h0])
  have hc' : 0 < 1 / c := by positivity
  have e0 : El n (fun i => some (-(c * Real.sin (t n i)), -1 * c * Real.cos (t n i))) (some (-c, 0)) (X θ₀) (Y θ₀) = X θ₀ ^ (2 * n) := by
    rw [El_circle n hn c (-1) (Or.inr rfl), h0, mul_zero, zero_pow (by omega), add_zero]
  have hl := law h hs (fun i hi => El_slhp_pair n i hi (1 / c) (-1) (1 / c) hc') (fun i hi => El_lhp_pair n i hi c (-1) c hc.le)
    (by simp only [slhp]; linarith) (by simp only [lhp]; linarith) (by rw [e0]; exact pow_ne_zero _ h1) θ
  rw [e0, El_circle n hn _ (-1) (Or.inr rfl), El_circle n hn _ (-1) (Or.inr rfl), El_circle n hn _ (-1) (Or.inr rfl), h0, mul_zero, zero_pow (by omega), add_zero, one_mul] at hl
  have := mul_right_cancel₀ (pow_ne_zero (2 * n) h1) hl
  rw [mul_pow, mul_pow] at this
  rw [← this]
  rw [div_pow, one_pow]; ring

/-- the factors of a squared Chebyshev law are positive -/
lemma cheb_pos (x s : ℝ) (hs : s ≠ 0) : 0 < (Polynomial.Chebyshev.T ℝ n).eval x ^ 2 + s ^ 2 := by positivity

theorem chebyshev1 (hn : 0 < n) (u : ℝ) (hu : 0 < u)
    (h : Elements n (fun i => some (-(Real.sinh u * Real.sin (t n i)), -1 * Real.cosh u * Real.cos (t n i))) (fun _ => none)
      (some (-Real.sinh u, 0)) none X Y E)
    (hs : Scaled n E H2 θ₀ g) (hD : Defined X Y) (h0 : X θ₀ = 0) (θ : α) (hY : Y θ ≠ 0) :
    H2 θ * ((Polynomial.Chebyshev.T ℝ n).eval (X θ / Y θ) ^ 2 + Real.sinh (n * u) ^ 2) =
      g * ((Polynomial.Chebyshev.T ℝ n).eval 0 ^ 2 + Real.sinh (n * u) ^ 2) := by
  have h1 : Y θ₀ ≠ 0 := (hD θ₀).resolve_left (by simp [h0])
  have hsu : 0 < Real.sinh u := Real.sinh_pos_iff.mpr hu
  have hl := law h hs (fun i hi => El_slhp_pair n i hi (Real.sinh u) (-1) (Real.cosh u) hsu) (fun _ _ => trivial)
    (by simp only [slhp]; linarith) trivial (by rw [El_inf]; exact pow_ne_zero _ h1) θ
  rw [El_inf, El_inf, h0] at hl
  have f := El_ellipse n hn u (-1) (Or.inr rfl) (X θ) (Y θ) hY
  have f0 := El_ellipse n hn u (-1) (Or.inr rfl) 0 (Y θ₀) h1
  rw [zero_div] at f0
  set P := El n (fun i => some (-(Real.sinh u * Real.sin (t n i)), -1 * Real.cosh u * Real.cos (t n i))) (some (-Real.sinh u, 0)) (X θ) (Y θ)
  set P0 := El n (fun i => some (-(Real.sinh u * Real.sin (t n i)), -1 * Real.cosh u * Real.cos (t n i))) (some (-Real.sinh u, 0)) 0 (Y θ₀)
  have hy := pow_ne_zero (2 * n) hY
  have hy0 := pow_ne_zero (2 * n) h1
  have k : Y θ ^ (2 * n) * Y θ₀ ^ (2 * n) * 4 ≠ 0 := by positivity
  apply mul_left_cancel₀ k
  calc _ = H2 θ * (4 * Y θ ^ (2 * n) * ((Polynomial.Chebyshev.T ℝ n).eval (X θ / Y θ) ^ 2 + Real.sinh (n * u) ^ 2)) * Y θ₀ ^ (2 * n) := by ring
    _ = 4 ^ n * (H2 θ * P * Y θ₀ ^ (2 * n)) := by rw [← f]; ring
    _ = g * Y θ ^ (2 * n) * (4 ^ n * P0) := by rw [hl]; ring
    _ = _ := by rw [f0]; ring

/-- zeros at infinity: the response vanishes there -/
theorem allpole_stop {p : ℕ → Pt} {r : Pt} (hn : 0 < n) (h : Elements n p (fun _ => none) r none X Y E) (hs : Scaled n E H2 θ₀ g)
    (hp : ∀ i < n / 2, slhp (p i)) (hr : slhp r) (hP : ∀ x, x ≠ 0 → El n p r x 0 ≠ 0) (hD : Defined X Y) (h0 : X θ₀ = 0) (θ : α) (hY : Y θ = 0) :
    H2 θ = 0 := by
  have h1 : Y θ₀ ≠ 0 := (hD θ₀).resolve_left (by simp [h0])
  have h2 : X θ ≠ 0 := (hD θ).resolve_right (by simp [hY])
  have hl := law h hs hp (fun _ _ => trivial) hr trivial (by rw [El_inf]; exact pow_ne_zero _ h1) θ
  rw [El_inf, El_inf, hY, zero_pow (by omega), mul_zero, zero_mul] at hl
  rcases mul_eq_zero.mp hl with q | q
  · exact (mul_eq_zero.mp q).resolve_right (hP _ h2)
  · exact absurd q (pow_ne_zero _ h1)

theorem chebyshev_shelf (hn : 0 < n) (u v : ℝ) (hu : 0 < u) (hv : 0 < v)
    (h : Elements n (fun i => some (-(Real.sinh u * Real.sin (t n i)), 1 * Real.cosh u * Real.cos (t n i)))
      (fun i => some (-(Real.sinh v * Real.sin (t n i)), 1 * Real.cosh v * Real.cos (t n i)))
      (some (-Real.sinh u, 0)) (some (-Real.sinh v, 0)) X Y E)
    (hs : Scaled n E H2 θ₀ 1) (hD : Defined X Y) (h0 : Y θ₀ = 0) (θ : α) :
    (Y θ = 0 → H2 θ = 1) ∧ (Y θ ≠ 0 → H2 θ * ((Polynomial.Chebyshev.T ℝ n).eval (X θ / Y θ) ^ 2 + Real.sinh (n * u) ^ 2) =
      (Polynomial.Chebyshev.T ℝ n).eval (X θ / Y θ) ^ 2 + Real.sinh (n * v) ^ 2) := by
  have h1 : X θ₀ ≠ 0 := (hD θ₀).resolve_right (by simp [h0])
  have hsu : 0 < Real.sinh u := Real.sinh_pos_iff.mpr hu
  have hsv : 0 < Real.sinh v := Real.sinh_pos_iff.mpr hv
  have hl := law h hs (fun i hi => El_slhp_pair n i hi (Real.sinh u) 1 (Real.cosh u) hsu)
    (fun i hi => El_lhp_pair n i hi (Real.sinh v) 1 (Real.cosh v) hsv.le)
    (by simp only [slhp]; linarith) (by simp only [lhp]; linarith)
    (by rw [h0, El_ellipse_zero n v 1 (Or.inl rfl)]; exact pow_ne_zero _ h1) θ
  rw [h0, El_ellipse_zero n v 1 (Or.inl rfl), El_ellipse_zero n u 1 (Or.inl rfl)] at hl
  have hl' := mul_right_cancel₀ (pow_ne_zero (2 * n) h1) hl
  constructor
  · intro hY
    have hx : X θ ≠ 0 := (hD θ).resolve_right (by simp [hY])
    rw [hY, El_ellipse_zero n v 1 (Or.inl rfl), El_ellipse_zero n u 1 (Or.inl rfl)] at hl'
    exact mul_right_cancel₀ (pow_ne_zero (2 * n) hx) hl'
  · intro hY
    have f := El_ellipse n hn u 1 (Or.inl rfl) (X θ) (Y θ) hY
    have f0 := El_ellipse n hn v 1 (Or.inl rfl) (X θ) (Y θ) hY
    have hy := pow_ne_zero (2 * n) hY
    have k : Y θ ^ (2 * n) * 4 ≠ 0 := by positivity
    apply mul_left_cancel₀ k
    calc _ = H2 θ * (4 * Y θ ^ (2 * n) * ((Polynomial.Chebyshev.T ℝ n).eval (X θ / Y θ) ^ 2 + Real.sinh (n * u) ^ 2)) := by ring
      _ = _ := by rw [← f]
      _ = 4 ^ n * (H2 θ * El n (fun i => some (-(Real.sinh u * Real.sin (t n i)), 1 * Real.cosh u * Real.cos (t n i))) (some (-Real.sinh u, 0)) (X θ) (Y θ)) := by ring
      _ = _ := by rw [hl', one_mul, f0]; ring

/-! ### Chebyshev II: reciprocal poles, zeros on the imaginary axis -/

/-- the reciprocal of the conjugate -/
noncomputable def inv (q : ℝ × ℝ) : ℝ × ℝ := (q.1 / (q.1 * q.1 + q.2 * q.2), q.2 / (q.1 * q.1 + q.2 * q.2))

lemma A_inv (q : ℝ × ℝ) (hq : q.1 * q.1 + q.2 * q.2 ≠ 0) (X Y : ℝ) :
    (q.1 * q.1 + q.2 * q.2) * A (some (inv q)) X Y = A (some q) Y X := by
  obtain ⟨a, b⟩ := q
  simp only [A, inv] at *
  set m := a * a + b * b with hm
  have e : m * ((Y * (a / m)) ^ 2 + (X - Y * (b / m)) ^ 2) = Y ^ 2 * ((a * a + b * b) / m) + m * X ^ 2 - 2 * X * Y * b := by
    field_simp; ring
  rw [e, ← hm, div_self hq, hm]; ring

lemma A_inv_cj (q : ℝ × ℝ) (hq : q.1 * q.1 + q.2 * q.2 ≠ 0) (X Y : ℝ) :
    (q.1 * q.1 + q.2 * q.2) * A (cj (some (inv q))) X Y = A (cj (some q)) Y X := by
  obtain ⟨a, b⟩ := q
  simp only [A, inv, cj, Option.map_some] at *
  set m := a * a + b * b with hm
  have e : m * ((Y * (a / m)) ^ 2 + (X - Y * -(b / m)) ^ 2) = Y ^ 2 * ((a * a + b * b) / m) + m * X ^ 2 + 2 * X * Y * b := by
    field_simp; ring
  rw [e, ← hm, div_self hq, hm]; ring

lemma El_inv (n : ℕ) (q : ℕ → ℝ × ℝ) (r : ℝ) (hq : ∀ i < n / 2, (q i).1 * (q i).1 + (q i).2 * (q i).2 ≠ 0) (hr : r ≠ 0) :
    ∃ K : ℝ, K ≠ 0 ∧ ∀ X Y, K * El n (fun i => some (inv (q i))) (some (1 / r, 0)) X Y = El n (fun i => some (q i)) (some (r, 0)) Y X := by
  refine ⟨(∏ i ∈ range (n / 2), ((q i).1 * (q i).1 + (q i).2 * (q i).2) ^ 2) * (if n % 2 = 1 then r ^ 2 else 1), ?_, ?_⟩
  · apply mul_ne_zero
    · rw [prod_ne_zero_iff]
      intro i hi
      exact pow_ne_zero _ (hq i (by simpa using hi))
    · split_ifs
      · exact pow_ne_zero _ hr
      · exact one_ne_zero
  · intro X Y
    unfold El
    rw [mul_mul_mul_comm, ← prod_mul_distrib]
    congr 1
    · refine prod_congr rfl fun i hi => ?_
      have := hq i (by simpa using hi)
      rw [← A_inv _ this, ← A_inv_cj _ this]; ring
    · split_ifs
      · simp only [A]; field_simp; ring
      · ring

lemma El_axis (n : ℕ) :
    ∃ K : ℝ, K ≠ 0 ∧ ∀ X Y, K * El n (fun i => some (0, 1 / Real.cos (t n i))) none X Y =
      El n (fun i => some (-(Real.sinh 0 * Real.sin (t n i)), 1 * Real.cosh 0 * Real.cos (t n i))) (some (-Real.sinh 0, 0)) Y X := by
  refine ⟨∏ i ∈ range (n / 2), (Real.cos (t n i)) ^ 4, ?_, ?_⟩
  · rw [prod_ne_zero_iff]
    intro i hi
    exact pow_ne_zero _ (cos_t_ne n i (by simpa using hi))
  · intro X Y
    unfold El
    rw [← mul_assoc, ← prod_mul_distrib]
    congr 1
    · refine prod_congr rfl fun i hi => ?_
      have := cos_t_ne n i (by simpa using hi)
      simp only [A, cj, Option.map_some, Real.sinh_zero, Real.cosh_zero]
      field_simp
      ring
    · split_ifs
      · simp [A]
      · rfl

theorem chebyshev2 (hn : 0 < n) (u : ℝ) (hu : 0 < u)
    (h : Elements n (fun i => some (inv (-(Real.sinh u * Real.sin (t n i)), -1 * Real.cosh u * Real.cos (t n i))))
      (fun i => some (0, 1 / Real.cos (t n i))) (some (1 / -Real.sinh u, 0)) none X Y E)
    (hs : Scaled n E H2 θ₀ 1) (hD : Defined X Y) (h0 : X θ₀ = 0) (θ : α) :
    (X θ = 0 → H2 θ = 1) ∧ (X θ ≠ 0 → H2 θ * ((Polynomial.Chebyshev.T ℝ n).eval (Y θ / X θ) ^ 2 + Real.sinh (n * u) ^ 2) =
      (Polynomial.Chebyshev.T ℝ n).eval (Y θ / X θ) ^ 2) := by
  have h1 : Y θ₀ ≠ 0 := (hD θ₀).resolve_left (by simp [h0])
  have hsu : 0 < Real.sinh u := Real.sinh_pos_iff.mpr hu
  have hq : ∀ i < n / 2, (-(Real.sinh u * Real.sin (t n i))) * (-(Real.sinh u * Real.sin (t n i))) +
      (-1 * Real.cosh u * Real.cos (t n i)) * (-1 * Real.cosh u * Real.cos (t n i)) ≠ 0 := by
    intro i hi
    have := mul_pos hsu (sin_t_pos n i (by omega))
    have : 0 < (Real.sinh u * Real.sin (t n i)) ^ 2 := by positivity
    nlinarith [sq_nonneg (Real.cosh u * Real.cos (t n i))]
  obtain ⟨K, hK, e⟩ := El_inv n (fun i => (-(Real.sinh u * Real.sin (t n i)), -1 * Real.cosh u * Real.cos (t n i))) (-Real.sinh u) hq (neg_ne_zero.mpr hsu.ne')
  obtain ⟨L, hL, f⟩ := El_axis n
  have z0 : L * El n (fun i => some (0, 1 / Real.cos (t n i))) none (X θ₀) (Y θ₀) = Y θ₀ ^ (2 * n) := by
    rw [f, h0, El_ellipse_zero n 0 1 (Or.inl rfl)]
  have p0 : K * El n (fun i => some (inv (-(Real.sinh u * Real.sin (t n i)), -1 * Real.cosh u * Real.cos (t n i)))) (some (1 / -Real.sinh u, 0)) (X θ₀) (Y θ₀) = Y θ₀ ^ (2 * n) := by
    rw [e, h0, El_ellipse_zero n u (-1) (Or.inr rfl)]
  have hl := law h hs (fun i hi => by
      simp only [slhp, inv]
      have := mul_pos hsu (sin_t_pos n i (by omega))
      apply div_neg_of_neg_of_pos (by linarith)
      have : 0 < (Real.sinh u * Real.sin (t n i)) ^ 2 := by positivity
      nlinarith [sq_nonneg (Real.cosh u * Real.cos (t n i))])
    (fun i hi => by simp [lhp]) (by
      simp only [slhp]
      apply div_neg_of_pos_of_neg zero_lt_one; linarith) trivial
    (by intro hh; rw [hh, mul_zero] at z0; exact pow_ne_zero _ h1 z0.symm) θ
  have hl2 : H2 θ * (K * El n (fun i => some (inv (-(Real.sinh u * Real.sin (t n i)), -1 * Real.cosh u * Real.cos (t n i)))) (some (1 / -Real.sinh u, 0)) (X θ) (Y θ)) =
      L * El n (fun i => some (0, 1 / Real.cos (t n i))) none (X θ) (Y θ) := by
    apply mul_right_cancel₀ (pow_ne_zero (2 * n) h1)
    generalize El n (fun i => some (inv (-(Real.sinh u * Real.sin (t n i)), -1 * Real.cosh u * Real.cos (t n i)))) (some (1 / -Real.sinh u, 0)) (X θ) (Y θ) = PX at *
    generalize El n (fun i => some (0, 1 / Real.cos (t n i))) none (X θ) (Y θ) = ZX at *
    linear_combination K * L * hl - H2 θ * K * PX * z0 + L * ZX * p0
  rw [e, f] at hl2
  constructor
  · intro hX
    have hy : Y θ ≠ 0 := (hD θ).resolve_left (by simp [hX])
    rw [hX, El_ellipse_zero n 0 1 (Or.inl rfl), El_ellipse_zero n u (-1) (Or.inr rfl)] at hl2
    have := pow_ne_zero (2 * n) hy
    field_simp at hl2
    linarith
  · intro hX
    have a1 := El_ellipse n hn u (-1) (Or.inr rfl) (Y θ) (X θ) hX
    have a2 := El_ellipse n hn 0 1 (Or.inl rfl) (Y θ) (X θ) hX
    rw [mul_zero, Real.sinh_zero] at a2
    have k : X θ ^ (2 * n) * 4 ≠ 0 := by have := pow_ne_zero (2 * n) hX; positivity
    apply mul_left_cancel₀ k
    calc _ = H2 θ * (4 * X θ ^ (2 * n) * ((Polynomial.Chebyshev.T ℝ n).eval (Y θ / X θ) ^ 2 + Real.sinh (n * u) ^ 2)) := by ring
      _ = _ := by rw [← a1]
      _ = 4 ^ n * (H2 θ * El n (fun i => some (-(Real.sinh u * Real.sin (t n i)), -1 * Real.cosh u * Real.cos (t n i))) (some (-Real.sinh u, 0)) (Y θ) (X θ)) := by ring
      _ = _ := by
        rw [hl2]
        have : (Real.sinh 0) = 0 := Real.sinh_zero
        rw [this, a2]; ring

end
end Iir
