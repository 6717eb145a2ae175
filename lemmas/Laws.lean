/-! The magnitude laws, stated over the definitions rendered from the verified contracts. -/
namespace Iir

/-- the squared reference gain announced by the prototype -/
noncomputable def ref2 (n : ℕ) (odd even : ℝ) : ℝ := if n % 2 = 1 then odd ^ 2 else even ^ 2

lemma gen_t (n i : ℕ) : ((1 : ℝ) + (2 : ℝ) * (i : ℝ)) * Real.pi / ((2 : ℝ) * (n : ℝ)) = t n i := by
  simp only [t]; ring

lemma T_zero (n : ℕ) : (Polynomial.Chebyshev.T ℝ n).eval 0 ^ 2 = if n % 2 = 1 then 0 else 1 := by
  have h := Polynomial.Chebyshev.T_real_cos (π / 2) n
  rw [Real.cos_pi_div_two] at h
  rw [h]
  rcases Nat.even_or_odd' n with ⟨m, rfl | rfl⟩
  · rw [if_neg (by omega), show (((2 * m : ℕ) : ℤ) : ℝ) * (π / 2) = m * π by push_cast; ring, Real.cos_nat_mul_pi, ← pow_mul, mul_comm, pow_mul]
    norm_num
  · rw [if_pos (by omega), show (((2 * m + 1 : ℕ) : ℤ) : ℝ) * (π / 2) = π / 2 + m * π by push_cast; ring, Real.cos_add_nat_mul_pi, Real.cos_pi_div_two]
    simp

lemma T_le_one (n : ℕ) (x : ℝ) (hx : |x| ≤ 1) : (Polynomial.Chebyshev.T ℝ n).eval x ^ 2 ≤ 1 := by
  have := abs_le.mp hx
  have h := Polynomial.Chebyshev.T_real_cos (Real.arccos x) n
  rw [Real.cos_arccos this.1 this.2] at h
  rw [h]; exact Real.cos_sq_le_one _

lemma T_one (n : ℕ) (x : ℝ) (hx : |x| = 1) : (Polynomial.Chebyshev.T ℝ n).eval x ^ 2 = 1 := by
  rcases eq_or_eq_neg_of_abs_eq hx with rfl | rfl
  · have h := Polynomial.Chebyshev.T_real_cos 0 n
    rw [Real.cos_zero, mul_zero, Real.cos_zero] at h
    rw [h]; norm_num
  · have h := Polynomial.Chebyshev.T_real_cos π n
    rw [Real.cos_pi] at h
    rw [h]
    have := Real.cos_nat_mul_pi n
    push_cast; rw [this, ← pow_mul, mul_comm, pow_mul]; norm_num

lemma sinh_log (y : ℝ) : Real.sinh (Real.log (y + Real.sqrt (y * y + 1))) = y := by
  have := Real.sinh_arsinh y
  rw [Real.arsinh] at this
  rwa [show y * y + 1 = 1 + y ^ 2 by ring]

section
variable {α : Type*} {n : ℕ} {X Y : α → ℝ} {E : ℕ → α → ℝ} {H2 : α → ℝ} {θ₀ : α}

/-! ### C20 -/

theorem C20 (hn : 0 < n)
    (h : Elements n (Butterworth_AnalogLowPass_pole n) (Butterworth_AnalogLowPass_zero n) (Butterworth_AnalogLowPass_realpole n)
      (Butterworth_AnalogLowPass_realzero n) X Y E)
    (hs : Scaled n E H2 θ₀ (ref2 n (Butterworth_AnalogLowPass_gain_odd n) (Butterworth_AnalogLowPass_gain_even n)))
    (hD : Defined X Y) (h0 : X θ₀ = 0) (θ : α) :
    (Y θ ≠ 0 → H2 θ = 1 / (1 + (X θ / Y θ) ^ (2 * n))) ∧ (Y θ = 0 → H2 θ = 0) := by
  have e1 : Butterworth_AnalogLowPass_pole n = fun i => some (-(1 * Real.sin (t n i)), 1 * 1 * Real.cos (t n i)) := by
    funext i; simp only [Butterworth_AnalogLowPass_pole, gen_t]; norm_num
  have e2 : Butterworth_AnalogLowPass_zero n = fun _ => none := rfl
  have e3 : Butterworth_AnalogLowPass_realpole n = some (-1, 0) := rfl
  have e4 : Butterworth_AnalogLowPass_realzero n = none := rfl
  have e5 : ref2 n (Butterworth_AnalogLowPass_gain_odd n) (Butterworth_AnalogLowPass_gain_even n) = 1 := by
    simp [ref2, Butterworth_AnalogLowPass_gain_odd, Butterworth_AnalogLowPass_gain_even]
  rw [e1, e2, e3, e4] at h
  rw [e5] at hs
  exact ⟨butterworth hn h hs hD h0 θ, butterworth_stop hn h hs hD h0 θ⟩

/-- -3.01 dB where the mapped frequency is 1 or -1, monotonic in its magnitude -/
theorem C20_edge (hn : 0 < n) (x : ℝ) (hx : |x| = 1) : 1 / (1 + x ^ (2 * n)) = 1 / 2 := by
  rw [pow_mul, ← sq_abs, hx]; norm_num

theorem C20_mono (x y : ℝ) (hxy : |x| ≤ |y|) : 1 / (1 + y ^ (2 * n)) ≤ 1 / (1 + x ^ (2 * n)) := by
  have h : x ^ (2 * n) ≤ y ^ (2 * n) := by
    rw [pow_mul, pow_mul]
    exact pow_le_pow_left₀ (sq_nonneg x) (sq_le_sq.mpr hxy) n
  have : 0 ≤ x ^ (2 * n) := (even_two_mul n).pow_nonneg x
  exact one_div_le_one_div_of_le (by linarith) (by linarith)

/-! ### C21 -/

lemma exp_ten (x : ℝ) : Real.exp (x * (1 / 10) * Real.log 10) = (10 : ℝ) ^ (x / 10) := by
  rw [Real.rpow_def_of_pos (by norm_num)]; congr 1; ring

lemma ten_gt {x : ℝ} (hx : 0 < x) : 1 < (10 : ℝ) ^ (x / 10) := Real.one_lt_rpow (by norm_num) (by positivity)

theorem C21 (hn : 0 < n) (p0 : ℝ) (hp : ChebyshevI_AnalogLowPass_ok p0)
    (h : Elements n (ChebyshevI_AnalogLowPass_pole n p0) (ChebyshevI_AnalogLowPass_zero n p0) (ChebyshevI_AnalogLowPass_realpole n p0)
      (ChebyshevI_AnalogLowPass_realzero n p0) X Y E)
    (hs : Scaled n E H2 θ₀ (ref2 n (ChebyshevI_AnalogLowPass_gain_odd n p0) (ChebyshevI_AnalogLowPass_gain_even n p0)))
    (hD : Defined X Y) (h0 : X θ₀ = 0) (θ : α) :
    (Y θ ≠ 0 → H2 θ = 1 / (1 + ((10 : ℝ) ^ (p0 / 10) - 1) * (Polynomial.Chebyshev.T ℝ n).eval (X θ / Y θ) ^ 2)) ∧ (Y θ = 0 → H2 θ = 0) := by
  set ε := ChebyshevI_AnalogLowPass_eps n p0 with hε
  have g1 := ten_gt hp
  have he : ε ^ 2 = (10 : ℝ) ^ (p0 / 10) - 1 := by
    rw [hε, ChebyshevI_AnalogLowPass_eps, exp_ten, Real.sq_sqrt (by linarith)]
  have hpos : 0 < ε := by
    rw [hε, ChebyshevI_AnalogLowPass_eps, exp_ten]; exact Real.sqrt_pos.mpr (by linarith)
  set u := Real.log (1 / ε + Real.sqrt (1 / ε * (1 / ε) + 1)) / n with hu
  have hn' : (n : ℝ) ≠ 0 := by exact_mod_cast hn.ne'
  have hsh : Real.sinh (n * u) = 1 / ε := by
    rw [hu, mul_div_cancel₀ _ hn', sinh_log]
  have hu0 : 0 < u := by
    have : 0 < Real.sinh (n * u) := by rw [hsh]; positivity
    have := Real.sinh_pos_iff.mp this
    exact (pos_iff_pos_of_mul_pos this).mp (by exact_mod_cast hn)
  have e1 : ChebyshevI_AnalogLowPass_pole n p0 = fun i => some (-(Real.sinh u * Real.sin (t n i)), -1 * Real.cosh u * Real.cos (t n i)) := by
    funext i; simp only [ChebyshevI_AnalogLowPass_pole, ChebyshevI_AnalogLowPass_sh, ChebyshevI_AnalogLowPass_ch, gen_t, ← hε, ← hu]; ring_nf
  have e2 : ChebyshevI_AnalogLowPass_zero n p0 = fun _ => none := rfl
  have e3 : ChebyshevI_AnalogLowPass_realpole n p0 = some (-Real.sinh u, 0) := rfl
  have e4 : ChebyshevI_AnalogLowPass_realzero n p0 = none := rfl
  have e5 : ref2 n (ChebyshevI_AnalogLowPass_gain_odd n p0) (ChebyshevI_AnalogLowPass_gain_even n p0) *
      ((Polynomial.Chebyshev.T ℝ n).eval 0 ^ 2 + Real.sinh (n * u) ^ 2) = Real.sinh (n * u) ^ 2 := by
    rw [T_zero, hsh, div_pow, he]
    simp only [ref2, ChebyshevI_AnalogLowPass_gain_odd, ChebyshevI_AnalogLowPass_gain_even]
    split_ifs
    · ring
    · have : ((10 : ℝ) ^ (-(p0 / 20))) ^ 2 = ((10 : ℝ) ^ (p0 / 10))⁻¹ := by
        rw [← Real.rpow_natCast, ← Real.rpow_mul (by norm_num), ← Real.rpow_neg (by norm_num)]; congr 1; push_cast; ring
      rw [this]
      set q := (10 : ℝ) ^ (p0 / 10)
      have : q - 1 ≠ 0 := by linarith
      have : q ≠ 0 := by linarith
      field_simp; ring
  rw [e1, e2, e3, e4] at h
  constructor
  · intro hY
    have k := chebyshev1 hn u hu0 h hs hD h0 θ hY
    rw [e5, hsh, div_pow, he] at k
    set q := (10 : ℝ) ^ (p0 / 10)
    set T := (Polynomial.Chebyshev.T ℝ n).eval (X θ / Y θ)
    have hq : 0 < q - 1 := by linarith
    have : 0 < 1 + (q - 1) * T ^ 2 := by positivity
    rw [eq_div_iff this.ne']
    field_simp at k
    linarith
  · intro hY
    have hsu : 0 < Real.sinh u := Real.sinh_pos_iff.mpr hu0
    exact allpole_stop hn h hs (fun i hi => El_slhp_pair n i hi (Real.sinh u) (-1) (Real.cosh u) hsu) (by simp only [slhp]; linarith)
      (fun x hx => by rw [El_ellipse_zero n u (-1) (Or.inr rfl)]; exact pow_ne_zero _ hx) hD h0 θ hY

/-- the pass band: between -R and 0 dB, -R dB at its edge -/
theorem C21_band (p0 : ℝ) (hp : 0 < p0) (x : ℝ) (hx : |x| ≤ 1) :
    (10 : ℝ) ^ (-p0 / 10) ≤ 1 / (1 + ((10 : ℝ) ^ (p0 / 10) - 1) * (Polynomial.Chebyshev.T ℝ n).eval x ^ 2) ∧
    1 / (1 + ((10 : ℝ) ^ (p0 / 10) - 1) * (Polynomial.Chebyshev.T ℝ n).eval x ^ 2) ≤ 1 := by
  have g1 := ten_gt hp
  have t1 := T_le_one n x hx
  have e : (10 : ℝ) ^ (-p0 / 10) = 1 / (10 : ℝ) ^ (p0 / 10) := by rw [neg_div, Real.rpow_neg (by norm_num), one_div]
  rw [e]
  set q := (10 : ℝ) ^ (p0 / 10)
  set T := (Polynomial.Chebyshev.T ℝ n).eval x ^ 2 with hT
  have t0 : 0 ≤ T := sq_nonneg _
  have f0 : 0 ≤ (q - 1) * T := mul_nonneg (by linarith) t0
  have f1 : (q - 1) * T ≤ q - 1 := by nlinarith
  constructor
  · exact one_div_le_one_div_of_le (by linarith) (by linarith)
  · rw [div_le_one (by linarith)]; linarith

theorem C21_edge (p0 x : ℝ) (hx : |x| = 1) :
    1 / (1 + ((10 : ℝ) ^ (p0 / 10) - 1) * (Polynomial.Chebyshev.T ℝ n).eval x ^ 2) = (10 : ℝ) ^ (-p0 / 10) := by
  rw [T_one n x hx, neg_div, Real.rpow_neg (by norm_num)]; ring_nf

/-! ### C22 -/

theorem C22 (hn : 0 < n) (p0 : ℝ) (hp : ChebyshevII_AnalogLowPass_ok p0)
    (h : Elements n (ChebyshevII_AnalogLowPass_pole n p0) (ChebyshevII_AnalogLowPass_zero n p0) (ChebyshevII_AnalogLowPass_realpole n p0)
      (ChebyshevII_AnalogLowPass_realzero n p0) X Y E)
    (hs : Scaled n E H2 θ₀ (ref2 n (ChebyshevII_AnalogLowPass_gain_odd n p0) (ChebyshevII_AnalogLowPass_gain_even n p0)))
    (hD : Defined X Y) (h0 : X θ₀ = 0) (θ : α) :
    (X θ ≠ 0 → H2 θ * ((Polynomial.Chebyshev.T ℝ n).eval (Y θ / X θ) ^ 2 + ((10 : ℝ) ^ (p0 / 10) - 1)) =
      (Polynomial.Chebyshev.T ℝ n).eval (Y θ / X θ) ^ 2) ∧ (X θ = 0 → H2 θ = 1) := by
  set ε := ChebyshevII_AnalogLowPass_eps n p0 with hε
  have g1 := ten_gt hp
  have he : (1 / ε) ^ 2 = (10 : ℝ) ^ (p0 / 10) - 1 := by
    rw [hε, ChebyshevII_AnalogLowPass_eps, exp_ten, div_pow, Real.sq_sqrt (by apply div_nonneg zero_le_one; linarith)]
    simp
  have hpos : 0 < ε := by
    rw [hε, ChebyshevII_AnalogLowPass_eps, exp_ten]; exact Real.sqrt_pos.mpr (by apply div_pos zero_lt_one; linarith)
  set u := Real.log (1 / ε + Real.sqrt (1 / ε * (1 / ε) + 1)) / n with hu
  have hn' : (n : ℝ) ≠ 0 := by exact_mod_cast hn.ne'
  have hsh : Real.sinh (n * u) = 1 / ε := by
    rw [hu, mul_div_cancel₀ _ hn', sinh_log]
  have hu0 : 0 < u := by
    have : 0 < Real.sinh (n * u) := by rw [hsh]; positivity
    have := Real.sinh_pos_iff.mp this
    exact (pos_iff_pos_of_mul_pos this).mp (by exact_mod_cast hn)
  have e1 : ChebyshevII_AnalogLowPass_pole n p0 = fun i => some (inv (-(Real.sinh u * Real.sin (t n i)), -1 * Real.cosh u * Real.cos (t n i))) := by
    funext i; simp only [ChebyshevII_AnalogLowPass_pole, ChebyshevII_AnalogLowPass_sh, ChebyshevII_AnalogLowPass_ch, gen_t, ← hε, ← hu, inv]; ring_nf
  have e2 : ChebyshevII_AnalogLowPass_zero n p0 = fun i => some (0, 1 / Real.cos (t n i)) := by
    funext i; simp only [ChebyshevII_AnalogLowPass_zero, gen_t]
  have e3 : ChebyshevII_AnalogLowPass_realpole n p0 = some (1 / -Real.sinh u, 0) := by
    simp only [ChebyshevII_AnalogLowPass_realpole, ChebyshevII_AnalogLowPass_sh, ← hε, ← hu]; congr 2; ring
  have e4 : ChebyshevII_AnalogLowPass_realzero n p0 = none := rfl
  have e5 : ref2 n (ChebyshevII_AnalogLowPass_gain_odd n p0) (ChebyshevII_AnalogLowPass_gain_even n p0) = 1 := by
    simp [ref2, ChebyshevII_AnalogLowPass_gain_odd, ChebyshevII_AnalogLowPass_gain_even]
  rw [e1, e2, e3, e4] at h
  rw [e5] at hs
  obtain ⟨k1, k2⟩ := chebyshev2 hn u hu0 h hs hD h0 θ
  rw [hsh, he] at k2
  exact ⟨k2, k1⟩

/-- the form of the property -/
theorem C22_form (T q h : ℝ) (hq : 1 < q) (hT : T ≠ 0) (e : h * (T ^ 2 + (q - 1)) = T ^ 2) : h = 1 / (1 + 1 / (1 / (q - 1) * T ^ 2)) := by
  have h1 : q - 1 ≠ 0 := by linarith
  have h2 : 0 < T ^ 2 := by positivity
  have h3 : T ^ 2 + (q - 1) ≠ 0 := by nlinarith
  have : h = T ^ 2 / (T ^ 2 + (q - 1)) := by rw [eq_div_iff h3]; exact e
  rw [this]; field_simp

/-- the stop band: at or below -A dB, -A dB at its edge -/
theorem C22_band (p0 : ℝ) (hp : 0 < p0) (x h : ℝ) (hx : |x| ≤ 1)
    (e : h * ((Polynomial.Chebyshev.T ℝ n).eval x ^ 2 + ((10 : ℝ) ^ (p0 / 10) - 1)) = (Polynomial.Chebyshev.T ℝ n).eval x ^ 2) :
    h ≤ (10 : ℝ) ^ (-p0 / 10) := by
  have g1 := ten_gt hp
  have t1 := T_le_one n x hx
  have e' : (10 : ℝ) ^ (-p0 / 10) = 1 / (10 : ℝ) ^ (p0 / 10) := by rw [neg_div, Real.rpow_neg (by norm_num), one_div]
  rw [e']
  set q := (10 : ℝ) ^ (p0 / 10)
  set T := (Polynomial.Chebyshev.T ℝ n).eval x ^ 2
  have t0 : 0 ≤ T := sq_nonneg _
  have h3 : 0 < T + (q - 1) := by linarith
  have : h = T / (T + (q - 1)) := by rw [eq_div_iff h3.ne']; exact e
  rw [this, div_le_div_iff₀ h3 (by linarith)]
  nlinarith

theorem C22_edge (p0 : ℝ) (hp : 0 < p0) (x h : ℝ) (hx : |x| = 1)
    (e : h * ((Polynomial.Chebyshev.T ℝ n).eval x ^ 2 + ((10 : ℝ) ^ (p0 / 10) - 1)) = (Polynomial.Chebyshev.T ℝ n).eval x ^ 2) :
    h = (10 : ℝ) ^ (-p0 / 10) := by
  have g1 := ten_gt hp
  rw [T_one n x hx] at e
  rw [neg_div, Real.rpow_neg (by norm_num)]
  exact eq_inv_of_mul_eq_one_left (by linarith)

/-! ### C23 -/

theorem C23_Butterworth (hn : 0 < n) (p0 : ℝ)
    (h : Elements n (Butterworth_AnalogLowShelf_pole n p0) (Butterworth_AnalogLowShelf_zero n p0) (Butterworth_AnalogLowShelf_realpole n p0)
      (Butterworth_AnalogLowShelf_realzero n p0) X Y E)
    (hs : Scaled n E H2 θ₀ (ref2 n (Butterworth_AnalogLowShelf_gain_odd n p0) (Butterworth_AnalogLowShelf_gain_even n p0)))
    (hD : Defined X Y) (h0 : Y θ₀ = 0) (θ : α) :
    (X θ = 0 → H2 θ = (10 : ℝ) ^ (p0 / 10)) ∧ (Y θ = 0 → H2 θ = 1) ∧ (|X θ| = |Y θ| → H2 θ = (10 : ℝ) ^ (p0 / 2 / 10)) := by
  set c := Butterworth_AnalogLowShelf_g n p0 with hc
  have ten : (0 : ℝ) < 10 := by norm_num
  have c0 : 0 < c := by rw [hc, Butterworth_AnalogLowShelf_g]; positivity
  have hn' : (n : ℝ) ≠ 0 := by exact_mod_cast hn.ne'
  have cn : c ^ (2 * n) = (10 : ℝ) ^ (p0 / 20) := by
    rw [hc, Butterworth_AnalogLowShelf_g, ← Real.rpow_natCast, ← Real.rpow_mul (by positivity)]
    have : 1 / (2 * (n : ℝ)) * ((2 * n : ℕ) : ℝ) = 1 := by push_cast; field_simp
    rw [this, Real.rpow_one]
  have e1 : Butterworth_AnalogLowShelf_pole n p0 = fun i => some (-(1 / c * Real.sin (t n i)), -1 * (1 / c) * Real.cos (t n i)) := by
    funext i; simp only [Butterworth_AnalogLowShelf_pole, gen_t, ← hc]; congr 2 <;> ring
  have e2 : Butterworth_AnalogLowShelf_zero n p0 = fun i => some (-(c * Real.sin (t n i)), -1 * c * Real.cos (t n i)) := by
    funext i; simp only [Butterworth_AnalogLowShelf_zero, gen_t, ← hc]; congr 2 <;> ring
  have e3 : Butterworth_AnalogLowShelf_realpole n p0 = some (-(1 / c), 0) := by
    simp only [Butterworth_AnalogLowShelf_realpole, ← hc]; congr 2; ring
  have e4 : Butterworth_AnalogLowShelf_realzero n p0 = some (-c, 0) := rfl
  have e5 : ref2 n (Butterworth_AnalogLowShelf_gain_odd n p0) (Butterworth_AnalogLowShelf_gain_even n p0) = 1 := by
    simp [ref2, Butterworth_AnalogLowShelf_gain_odd, Butterworth_AnalogLowShelf_gain_even]
  rw [e1, e2, e3, e4] at h
  rw [e5] at hs
  have k := butterworth_shelf hn c c0 h hs hD h0 θ
  rw [cn] at k
  have a0 : 0 < (10 : ℝ) ^ (p0 / 20) := by positivity
  have a2 : ((10 : ℝ) ^ (p0 / 20)) * ((10 : ℝ) ^ (p0 / 20)) = (10 : ℝ) ^ (p0 / 10) := by rw [← Real.rpow_add ten]; congr 1; ring
  have a1 : (10 : ℝ) ^ (p0 / 20) = (10 : ℝ) ^ (p0 / 2 / 10) := by congr 1; ring
  rw [← a1, ← a2]
  set a := (10 : ℝ) ^ (p0 / 20)
  refine ⟨fun hX => ?_, fun hY => ?_, fun hXY => ?_⟩
  · have hY : Y θ ≠ 0 := (hD θ).resolve_left (by simp [hX])
    have hy := pow_ne_zero (2 * n) hY
    rw [hX, zero_pow (by omega)] at k
    field_simp at k
    have : Y θ ^ (2 * n) * (H2 θ - a * a) = 0 := by linear_combination k
    have := (mul_eq_zero.mp this).resolve_left hy
    linarith
  · have hX : X θ ≠ 0 := (hD θ).resolve_right (by simp [hY])
    have hx := pow_ne_zero (2 * n) hX
    rw [hY, zero_pow (by omega)] at k
    have : X θ ^ (2 * n) * (H2 θ - 1) = 0 := by linear_combination k
    have := (mul_eq_zero.mp this).resolve_left hx
    linarith
  · have e : X θ ^ (2 * n) = Y θ ^ (2 * n) := by rw [pow_mul, pow_mul, ← sq_abs, hXY, sq_abs]
    have hY : Y θ ≠ 0 := by
      intro q
      rcases hD θ with r | r
      · exact r (by rw [q, abs_zero] at hXY; exact abs_eq_zero.mp hXY)
      · exact r q
    have hy := pow_ne_zero (2 * n) hY
    rw [e] at k
    field_simp at k
    have : (a + 1) * (H2 θ - a) = 0 := by linear_combination k
    have := (mul_eq_zero.mp this).resolve_left (by linarith)
    linarith

/-- gains of the Chebyshev shelves: both are positive and the band gain is between 1 and the gain -/
lemma shelf_consts {G B : ℝ} (p0 p1 : ℝ) (hp1 : 0 < p1) (hp2 : p1 < if p0 < 0 then -p0 else p0) (hG : G = (10 : ℝ) ^ (-(p0 / 20)))
    (hB : B = if p0 < 0 then (10 : ℝ) ^ (-((p0 + p1) / 20)) else (10 : ℝ) ^ (-((p0 - p1) / 20))) :
    0 < G ∧ 0 < B ∧ B ≠ 1 ∧ 0 < (G * G - B * B) / (B * B - 1) := by
  have one : (1 : ℝ) < 10 := by norm_num
  have G0 : 0 < G := by rw [hG]; positivity
  have B0 : 0 < B := by rw [hB]; split_ifs <;> positivity
  by_cases c : p0 < 0
  · rw [if_pos c] at hp2 hB
    have b1 : 1 < B := by rw [hB]; exact Real.one_lt_rpow one (by linarith)
    have b2 : B < G := by rw [hB, hG]; exact Real.rpow_lt_rpow_of_exponent_lt one (by linarith)
    refine ⟨G0, B0, b1.ne', div_pos ?_ ?_⟩ <;> nlinarith
  · rw [if_neg c] at hp2 hB
    have b1 : B < 1 := by rw [hB]; exact Real.rpow_lt_one_of_one_lt_of_neg one (by linarith)
    have b2 : G < B := by rw [hB, hG]; exact Real.rpow_lt_rpow_of_exponent_lt one (by linarith)
    refine ⟨G0, B0, b1.ne, div_pos_of_neg_of_neg ?_ ?_⟩ <;> nlinarith

lemma shelf_eps {G B ε : ℝ} (G0 : 0 < G) (B0 : 0 < B) (c1 : B ≠ 1) (c2 : 0 < (G * G - B * B) / (B * B - 1))
    (hε : ε = if 1 = B then G - 1 else Real.sqrt ((G * G - B * B) / (B * B - 1))) :
    0 < ε ∧ ε * ε + G * G = B * B * (ε * ε + 1) := by
  rw [if_neg (Ne.symm c1)] at hε
  have h : ε * ε = (G * G - B * B) / (B * B - 1) := by rw [hε, Real.mul_self_sqrt c2.le]
  have hb : B * B - 1 ≠ 0 := by
    intro hh; apply c1; nlinarith
  rw [eq_div_iff hb] at h
  refine ⟨by rw [hε]; exact Real.sqrt_pos.mpr c2, ?_⟩
  linear_combination -h

lemma shelf_value {G B ε h : ℝ} (p0 p1 : ℝ) (he : 0 < ε) (G0 : 0 < G) (B0 : 0 < B) (hG : G = (10 : ℝ) ^ (-(p0 / 20)))
    (hB : B = if p0 < 0 then (10 : ℝ) ^ (-((p0 + p1) / 20)) else (10 : ℝ) ^ (-((p0 - p1) / 20)))
    (hid : ε * ε + G * G = B * B * (ε * ε + 1))
    (k : h * ((if n % 2 = 1 then 0 else 1) + (G / ε) ^ 2) = (if n % 2 = 1 then 0 else 1) + (1 / ε) ^ 2) :
    h = if n % 2 = 1 then (10 : ℝ) ^ (p0 / 10) else if p0 < 0 then (10 : ℝ) ^ ((p0 + p1) / 10) else (10 : ℝ) ^ ((p0 - p1) / 10) := by
  have inv2 : ∀ x : ℝ, (10 : ℝ) ^ (x / 10) * ((10 : ℝ) ^ (-(x / 20)) * (10 : ℝ) ^ (-(x / 20))) = 1 := by
    intro x
    rw [← Real.rpow_add (by norm_num), ← Real.rpow_add (by norm_num), show x / 10 + (-(x / 20) + -(x / 20)) = 0 by ring, Real.rpow_zero]
  have e0 : ε ≠ 0 := he.ne'
  by_cases o : n % 2 = 1
  · rw [if_pos o] at k ⊢
    have i := inv2 p0
    rw [← hG] at i
    field_simp at k
    have : (G * G) * (h - (10 : ℝ) ^ (p0 / 10)) = 0 := by linear_combination k - i
    have := (mul_eq_zero.mp this).resolve_left (by positivity)
    linarith
  · rw [if_neg o] at k ⊢
    field_simp at k
    have k' : h * (B * B) * (ε * ε + 1) = 1 * (ε * ε + 1) := by
      rw [mul_assoc, ← hid]; linear_combination k
    have k2 := mul_right_cancel₀ (by positivity) k'
    have : (B * B) ≠ 0 := by positivity
    by_cases c : p0 < 0
    · rw [if_pos c] at hB ⊢
      have i := inv2 (p0 + p1)
      rw [← hB] at i
      exact mul_right_cancel₀ this (k2.trans i.symm)
    · rw [if_neg c] at hB ⊢
      have i := inv2 (p0 - p1)
      rw [← hB] at i
      exact mul_right_cancel₀ this (k2.trans i.symm)

theorem C23_ChebyshevI (hn : 0 < n) (p0 p1 : ℝ) (hp : ChebyshevI_AnalogLowShelf_ok p0 p1)
    (h : Elements n (ChebyshevI_AnalogLowShelf_pole n p0 p1) (ChebyshevI_AnalogLowShelf_zero n p0 p1) (ChebyshevI_AnalogLowShelf_realpole n p0 p1)
      (ChebyshevI_AnalogLowShelf_realzero n p0 p1) X Y E)
    (hs : Scaled n E H2 θ₀ (ref2 n (ChebyshevI_AnalogLowShelf_gain_odd n p0 p1) (ChebyshevI_AnalogLowShelf_gain_even n p0 p1)))
    (hD : Defined X Y) (h0 : Y θ₀ = 0) (θ : α) :
    (Y θ = 0 → H2 θ = 1) ∧
    (X θ = 0 → H2 θ = if n % 2 = 1 then (10 : ℝ) ^ (p0 / 10) else if p0 < 0 then (10 : ℝ) ^ ((p0 + p1) / 10) else (10 : ℝ) ^ ((p0 - p1) / 10)) := by
  have ten : (0 : ℝ) < 10 := by norm_num
  obtain ⟨hp1, hp2⟩ := hp
  have hG : ChebyshevI_AnalogLowShelf_G n p0 p1 = (10 : ℝ) ^ (-(p0 / 20)) := rfl
  have hB : ChebyshevI_AnalogLowShelf_Gb n p0 p1 = if p0 < 0 then (10 : ℝ) ^ (-((p0 + p1) / 20)) else (10 : ℝ) ^ (-((p0 - p1) / 20)) := by
    rw [ChebyshevI_AnalogLowShelf_Gb]
    split_ifs at hp2 with c
    all_goals (split_ifs; all_goals first | (exfalso; linarith) | (congr 1; ring))
  obtain ⟨G0, B0, c1, c2⟩ := shelf_consts p0 p1 hp1 hp2 hG hB
  have e2 := shelf_eps G0 B0 c1 c2 (show ChebyshevI_AnalogLowShelf_eps n p0 p1 = _ from rfl)
  set G := ChebyshevI_AnalogLowShelf_G n p0 p1
  set B := ChebyshevI_AnalogLowShelf_Gb n p0 p1
  set ε := ChebyshevI_AnalogLowShelf_eps n p0 p1 with hε
  obtain ⟨he, hid⟩ := e2
  set u := Real.log ((G / ε + B * Real.sqrt (1 + 1 / (ε * ε))) ^ (1 / (n : ℝ))) with hu
  set v := Real.log ((1 / ε + Real.sqrt (1 + 1 / (ε * ε))) ^ (1 / (n : ℝ))) with hv
  have hn' : (n : ℝ) ≠ 0 := by exact_mod_cast hn.ne'
  have hnp : (0 : ℝ) < n := by exact_mod_cast hn
  have hsq : Real.sqrt (1 / ε * (1 / ε) + 1) = Real.sqrt (1 + 1 / (ε * ε)) := by congr 1; field_simp; ring
  have hsv : Real.sinh (n * v) = 1 / ε := by
    rw [hv, Real.log_rpow (by positivity), ← mul_assoc, mul_one_div_cancel hn', one_mul, ← hsq, sinh_log]
  have hsq2 : Real.sqrt (G / ε * (G / ε) + 1) = B * Real.sqrt (1 + 1 / (ε * ε)) := by
    have q : B * Real.sqrt (1 + 1 / (ε * ε)) = Real.sqrt (B * B) * Real.sqrt (1 + 1 / (ε * ε)) := by rw [Real.sqrt_mul_self B0.le]
    rw [q, ← Real.sqrt_mul (mul_self_nonneg B)]
    congr 1
    have : ε ≠ 0 := he.ne'
    field_simp
    linarith
  have hsu : Real.sinh (n * u) = G / ε := by
    rw [hu, Real.log_rpow (by positivity), ← mul_assoc, mul_one_div_cancel hn', one_mul, ← hsq2, sinh_log]
  have hu0 : 0 < u := by
    have : 0 < Real.sinh (n * u) := by rw [hsu]; positivity
    exact (pos_iff_pos_of_mul_pos (Real.sinh_pos_iff.mp this)).mp hnp
  have hv0 : 0 < v := by
    have : 0 < Real.sinh (n * v) := by rw [hsv]; positivity
    exact (pos_iff_pos_of_mul_pos (Real.sinh_pos_iff.mp this)).mp hnp
  have f1 : ChebyshevI_AnalogLowShelf_pole n p0 p1 = fun i => some (-(Real.sinh u * Real.sin (t n i)), 1 * Real.cosh u * Real.cos (t n i)) := by
    funext i; simp only [ChebyshevI_AnalogLowShelf_pole, ChebyshevI_AnalogLowShelf_shu, ChebyshevI_AnalogLowShelf_chu, gen_t]
    change some (-(Real.sin (t n i) * Real.sinh u), Real.cos (t n i) * Real.cosh u) = _
    congr 2 <;> ring
  have f2 : ChebyshevI_AnalogLowShelf_zero n p0 p1 = fun i => some (-(Real.sinh v * Real.sin (t n i)), 1 * Real.cosh v * Real.cos (t n i)) := by
    funext i; simp only [ChebyshevI_AnalogLowShelf_zero, ChebyshevI_AnalogLowShelf_shv, ChebyshevI_AnalogLowShelf_chv, gen_t]
    change some (-(Real.sin (t n i) * Real.sinh v), Real.cos (t n i) * Real.cosh v) = _
    congr 2 <;> ring
  have f3 : ChebyshevI_AnalogLowShelf_realpole n p0 p1 = some (-Real.sinh u, 0) := rfl
  have f4 : ChebyshevI_AnalogLowShelf_realzero n p0 p1 = some (-Real.sinh v, 0) := rfl
  have f5 : ref2 n (ChebyshevI_AnalogLowShelf_gain_odd n p0 p1) (ChebyshevI_AnalogLowShelf_gain_even n p0 p1) = 1 := by
    simp [ref2, ChebyshevI_AnalogLowShelf_gain_odd, ChebyshevI_AnalogLowShelf_gain_even]
  rw [f1, f2, f3, f4] at h
  rw [f5] at hs
  obtain ⟨k1, k2⟩ := chebyshev_shelf hn u v hu0 hv0 h hs hD h0 θ
  refine ⟨k1, fun hX => ?_⟩
  have hY : Y θ ≠ 0 := (hD θ).resolve_left (by simp [hX])
  have k := k2 hY
  rw [hX, zero_div, T_zero, hsu, hsv] at k
  exact shelf_value p0 p1 he G0 B0 hG hB hid k

theorem C23_ChebyshevII (hn : 0 < n) (p0 p1 : ℝ) (hp : ChebyshevII_AnalogLowShelf_ok p0 p1)
    (h : Elements n (ChebyshevII_AnalogLowShelf_pole n p0 p1) (ChebyshevII_AnalogLowShelf_zero n p0 p1) (ChebyshevII_AnalogLowShelf_realpole n p0 p1)
      (ChebyshevII_AnalogLowShelf_realzero n p0 p1) X Y E)
    (hs : Scaled n E H2 θ₀ (ref2 n (ChebyshevII_AnalogLowShelf_gain_odd n p0 p1) (ChebyshevII_AnalogLowShelf_gain_even n p0 p1)))
    (hD : Defined X Y) (h0 : Y θ₀ = 0) (θ : α) :
    (Y θ = 0 → H2 θ = 1) ∧
    (X θ = 0 → H2 θ = if n % 2 = 1 then (10 : ℝ) ^ (p0 / 10) else if p0 < 0 then (10 : ℝ) ^ ((p0 + p1) / 10) else (10 : ℝ) ^ ((p0 - p1) / 10)) := by
  have ten : (0 : ℝ) < 10 := by norm_num
  obtain ⟨hp1, hp2⟩ := hp
  have hG : ChebyshevII_AnalogLowShelf_G n p0 p1 = (10 : ℝ) ^ (-(p0 / 20)) := rfl
  have hB : ChebyshevII_AnalogLowShelf_Gb n p0 p1 = if p0 < 0 then (10 : ℝ) ^ (-((p0 + p1) / 20)) else (10 : ℝ) ^ (-((p0 - p1) / 20)) := by
    rw [ChebyshevII_AnalogLowShelf_Gb]
    split_ifs at hp2 with c
    all_goals (split_ifs; all_goals first | (exfalso; linarith) | (congr 1; ring))
  obtain ⟨G0, B0, c1, c2⟩ := shelf_consts p0 p1 hp1 hp2 hG hB
  have e2 := shelf_eps G0 B0 c1 c2 (show ChebyshevII_AnalogLowShelf_eps n p0 p1 = _ from rfl)
  set G := ChebyshevII_AnalogLowShelf_G n p0 p1
  set B := ChebyshevII_AnalogLowShelf_Gb n p0 p1
  set ε := ChebyshevII_AnalogLowShelf_eps n p0 p1 with hε
  obtain ⟨he, hid⟩ := e2
  set u := Real.log ((G / ε + B * Real.sqrt (1 + 1 / (ε * ε))) ^ (1 / (n : ℝ))) with hu
  set v := Real.log ((1 / ε + Real.sqrt (1 + 1 / (ε * ε))) ^ (1 / (n : ℝ))) with hv
  have hn' : (n : ℝ) ≠ 0 := by exact_mod_cast hn.ne'
  have hnp : (0 : ℝ) < n := by exact_mod_cast hn
  have hsq : Real.sqrt (1 / ε * (1 / ε) + 1) = Real.sqrt (1 + 1 / (ε * ε)) := by congr 1; field_simp; ring
  have hsv : Real.sinh (n * v) = 1 / ε := by
    rw [hv, Real.log_rpow (by positivity), ← mul_assoc, mul_one_div_cancel hn', one_mul, ← hsq, sinh_log]
  have hsq2 : Real.sqrt (G / ε * (G / ε) + 1) = B * Real.sqrt (1 + 1 / (ε * ε)) := by
    have q : B * Real.sqrt (1 + 1 / (ε * ε)) = Real.sqrt (B * B) * Real.sqrt (1 + 1 / (ε * ε)) := by rw [Real.sqrt_mul_self B0.le]
    rw [q, ← Real.sqrt_mul (mul_self_nonneg B)]
    congr 1
    have : ε ≠ 0 := he.ne'
    field_simp
    linarith
  have hsu : Real.sinh (n * u) = G / ε := by
    rw [hu, Real.log_rpow (by positivity), ← mul_assoc, mul_one_div_cancel hn', one_mul, ← hsq2, sinh_log]
  have hu0 : 0 < u := by
    have : 0 < Real.sinh (n * u) := by rw [hsu]; positivity
    exact (pos_iff_pos_of_mul_pos (Real.sinh_pos_iff.mp this)).mp hnp
  have hv0 : 0 < v := by
    have : 0 < Real.sinh (n * v) := by rw [hsv]; positivity
    exact (pos_iff_pos_of_mul_pos (Real.sinh_pos_iff.mp this)).mp hnp
  have f1 : ChebyshevII_AnalogLowShelf_pole n p0 p1 = fun i => some (-(Real.sinh u * Real.sin (t n i)), 1 * Real.cosh u * Real.cos (t n i)) := by
    funext i; simp only [ChebyshevII_AnalogLowShelf_pole, ChebyshevII_AnalogLowShelf_shu, ChebyshevII_AnalogLowShelf_chu, gen_t]
    change some (-(Real.sin (t n i) * Real.sinh u), Real.cos (t n i) * Real.cosh u) = _
    congr 2 <;> ring
  have f2 : ChebyshevII_AnalogLowShelf_zero n p0 p1 = fun i => some (-(Real.sinh v * Real.sin (t n i)), 1 * Real.cosh v * Real.cos (t n i)) := by
    funext i; simp only [ChebyshevII_AnalogLowShelf_zero, ChebyshevII_AnalogLowShelf_shv, ChebyshevII_AnalogLowShelf_chv, gen_t]
    change some (-(Real.sin (t n i) * Real.sinh v), Real.cos (t n i) * Real.cosh v) = _
    congr 2 <;> ring
  have f3 : ChebyshevII_AnalogLowShelf_realpole n p0 p1 = some (-Real.sinh u, 0) := rfl
  have f4 : ChebyshevII_AnalogLowShelf_realzero n p0 p1 = some (-Real.sinh v, 0) := rfl
  have f5 : ref2 n (ChebyshevII_AnalogLowShelf_gain_odd n p0 p1) (ChebyshevII_AnalogLowShelf_gain_even n p0 p1) = 1 := by
    simp [ref2, ChebyshevII_AnalogLowShelf_gain_odd, ChebyshevII_AnalogLowShelf_gain_even]
  rw [f1, f2, f3, f4] at h
  rw [f5] at hs
  obtain ⟨k1, k2⟩ := chebyshev_shelf hn u v hu0 hv0 h hs hD h0 θ
  refine ⟨k1, fun hX => ?_⟩
  have hY : Y θ ≠ 0 := (hD θ).resolve_left (by simp [hX])
  have k := k2 hY
  rw [hX, zero_div, T_zero, hsu, hsv] at k
  exact shelf_value p0 p1 he G0 B0 hG hB hid k

end
end Iir
