/-! From the contracts of the transforms, setLayout and response to the premises `Elements` and `Scaled` of the laws: the product over
the sections, the images of conjugate points, the factors on the unit circle, the mapped frequency. -/
namespace Iir
open ComplexConjugate

noncomputable section

def cx (p : ℝ × ℝ) : ℂ := ⟨p.1, p.2⟩

/-- the point exp(j w) -/
def ej (w : ℝ) : ℂ := ⟨Real.cos w, Real.sin w⟩

lemma normSq_ej (w : ℝ) : normSq (ej w) = 1 := by
  simp only [ej, normSq_mk]; have := Real.sin_sq_add_cos_sq w; nlinarith

lemma ej_ne (w : ℝ) : ej w ≠ 0 := by
  intro h; have := normSq_ej w; rw [h] at this; simp at this

/-! ### sections -/

/-- coefficients, divided by a0 -/
structure Sec where
  (a1 a2 b0 b1 b2 : ℝ)

/-- contract of Biquad::response at e = exp(2 pi j f) (checked where the denominator is not zero) -/
def Sec.resp (s : Sec) (e : ℂ) : ℂ :=
  (s.b0 + s.b1 * e⁻¹ + s.b2 * (e * e)⁻¹) / (1 + s.a1 * e⁻¹ + s.a2 * (e * e)⁻¹)

/-- contract of Cascade::response -/
def response (m : ℕ) (s : ℕ → Sec) (e : ℂ) : ℂ := ∏ i ∈ range m, (s i).resp e

/-- contract of a section made by setLayout from the pair (p1, z1), (p2, z2), before scaling -/
structure FromPair (s : Sec) (p1 p2 z1 z2 : ℂ) : Prop where
  a1 : (s.a1 : ℂ) = -(p1 + p2)
  a2 : (s.a2 : ℂ) = p1 * p2
  b0 : s.b0 = 1
  b1 : (s.b1 : ℂ) = -(z1 + z2)
  b2 : (s.b2 : ℂ) = z1 * z2

/-- contract of the scaling in setLayout: G is the reference gain, w0 the reference frequency -/
structure Scaling (m : ℕ) (s s' : ℕ → Sec) (G w0 : ℝ) : Prop where
  first : response m s (ej w0) ≠ 0 → (s' 0).a1 = (s 0).a1 ∧ (s' 0).a2 = (s 0).a2 ∧
    (s' 0).b0 = G / ‖response m s (ej w0)‖ * (s 0).b0 ∧ (s' 0).b1 = G / ‖response m s (ej w0)‖ * (s 0).b1 ∧
    (s' 0).b2 = G / ‖response m s (ej w0)‖ * (s 0).b2
  others : ∀ i, 0 < i → i < m → s' i = s i

lemma scaled_response {m : ℕ} {s s' : ℕ → Sec} {G w0 : ℝ} (h : Scaling m s s' G w0) (hm : 0 < m)
    (h0 : response m s (ej w0) ≠ 0) (e : ℂ) : response m s' e = (G / ‖response m s (ej w0)‖ : ℝ) * response m s e := by
  obtain ⟨k, rfl⟩ : ∃ k, m = k + 1 := ⟨m - 1, by omega⟩
  obtain ⟨c1, c2, c3, c4, c5⟩ := h.first h0
  have r : ∀ i ∈ range k, (s' (i + 1)).resp e = (s (i + 1)).resp e := fun i hi => by
    rw [h.others (i + 1) (by omega) (by have := mem_range.mp hi; omega)]
  have r0 : (s' 0).resp e = (G / ‖response (k + 1) s (ej w0)‖ : ℝ) * (s 0).resp e := by
    simp only [Sec.resp, c1, c2, c3, c4, c5, ofReal_mul]; ring
  simp only [response] at r0 ⊢
  rw [prod_range_succ', prod_congr rfl r, r0]
  rw [prod_range_succ' (fun i => (s i).resp e)]
  ring

lemma factor_resp {s : Sec} {p1 p2 z1 z2 : ℂ} (h : FromPair s p1 p2 z1 z2) (w : ℝ) :
    normSq (s.resp (ej w)) = (normSq (ej w - z1) * normSq (ej w - z2)) / (normSq (ej w - p1) * normSq (ej w - p2)) := by
  have he := ej_ne w
  have hn := normSq_ej w
  have e : s.resp (ej w) = ((ej w - z1) * (ej w - z2)) / ((ej w - p1) * (ej w - p2)) := by
    have k : ∀ b c : ℂ, 1 + -(b + c) * (ej w)⁻¹ + b * c * (ej w * ej w)⁻¹ = (ej w - b) * (ej w - c) * (ej w * ej w)⁻¹ := by
      intro b c; field_simp; ring
    simp only [Sec.resp, h.a1, h.a2, h.b0, h.b1, h.b2, ofReal_one]
    rw [k, k, mul_div_mul_right _ _ (inv_ne_zero (mul_ne_zero he he))]
  rw [e]; simp [normSq_div, normSq_mul]

/-! ### the images -/

/-- contract of the low and high pass transforms: d is the image of the point with numerator and denominator im -/
def Image1 (im : (ℝ × ℝ) × (ℝ × ℝ)) (d : ℂ) : Prop := cx im.2 ≠ 0 → d * cx im.2 = cx im.1

/-- contract of the band transforms: d1, d2 are the images -/
def Image2 (im : (ℝ × ℝ) × (ℝ × ℝ) × (ℝ × ℝ)) (d1 d2 : ℂ) : Prop :=
  cx im.2.2 ≠ 0 → (d1 + d2) * cx im.2.2 = cx im.1 ∧ d1 * d2 * cx im.2.2 = cx im.2.1

/-- the factors of the images of s are proportional to |jX - Ys|^2 -/
def Factor1 (im : Pt → (ℝ × ℝ) × (ℝ × ℝ)) (X Y : ℝ → ℝ) : Prop :=
  (∀ s, cx (im (cj s)).1 = conj (cx (im s).1) ∧ cx (im (cj s)).2 = conj (cx (im s).2)) ∧
  (∀ s, lhp s → cx (im s).2 ≠ 0) ∧
  ∀ s, ∃ k : ℝ, 0 < k ∧ ∀ w, normSq (ej w * cx (im s).2 - cx (im s).1) = k * A s (X w) (Y w)

def Factor2 (im : Pt → (ℝ × ℝ) × (ℝ × ℝ) × (ℝ × ℝ)) (X Y : ℝ → ℝ) : Prop :=
  (∀ s, cx (im (cj s)).1 = conj (cx (im s).1) ∧ cx (im (cj s)).2.1 = conj (cx (im s).2.1) ∧ cx (im (cj s)).2.2 = conj (cx (im s).2.2)) ∧
  (∀ s, lhp s → cx (im s).2.2 ≠ 0) ∧
  ∀ s, ∃ k : ℝ, 0 < k ∧ ∀ w, normSq (ej w * ej w * cx (im s).2.2 - ej w * cx (im s).1 + cx (im s).2.1) = k * A s (X w) (Y w)

lemma lhp_of_slhp {s : Pt} (h : slhp s) : lhp s := by
  cases s with
  | none => trivial
  | some q => exact le_of_lt h

lemma lhp_cj {s : Pt} (h : lhp s) : lhp (cj s) := by
  cases s with
  | none => trivial
  | some q => exact h

lemma slhp_cj {s : Pt} (h : slhp s) : slhp (cj s) := by
  cases s with
  | none => exact h
  | some q => exact h

lemma A_pos {s : Pt} (h : slhp s) {X Y : ℝ} (hD : X ≠ 0 ∨ Y ≠ 0) : 0 < A s X Y := by
  cases s with
  | none => exact absurd h (by simp [slhp])
  | some q =>
    simp only [slhp] at h
    simp only [A]
    by_cases hY : Y = 0
    · have hX := hD.resolve_right (by simp [hY])
      have : 0 < X ^ 2 := by positivity
      simp [hY]; positivity
    · have : 0 < (Y * q.1) ^ 2 := by have := mul_ne_zero hY h.ne; positivity
      nlinarith [sq_nonneg (X - Y * q.2)]

/-- |e - d|^2 is a positive multiple of A -/
lemma image1 {im : Pt → (ℝ × ℝ) × (ℝ × ℝ)} {X Y : ℝ → ℝ} (hF : Factor1 im X Y) {s : Pt} (hs : lhp s) {d : ℂ} (hd : Image1 (im s) d) :
    ∃ k : ℝ, 0 < k ∧ ∀ w, normSq (ej w - d) = k * A s (X w) (Y w) := by
  have h0 := hF.2.1 s hs
  obtain ⟨k, hk, e⟩ := hF.2.2 s
  have n0 := normSq_pos.mpr h0
  refine ⟨k / normSq (cx (im s).2), by positivity, fun w => ?_⟩
  have h := e w
  rw [← hd h0, ← sub_mul, normSq_mul] at h
  field_simp; linarith

lemma image1_conj {im : Pt → (ℝ × ℝ) × (ℝ × ℝ)} {X Y : ℝ → ℝ} (hF : Factor1 im X Y) {s : Pt} (hs : lhp s) {d : ℂ} (hd : Image1 (im s) d) :
    Image1 (im (cj s)) (conj d) := by
  intro _
  rw [(hF.1 s).1, (hF.1 s).2, ← map_mul, hd (hF.2.1 s hs)]

lemma image2 {im : Pt → (ℝ × ℝ) × (ℝ × ℝ) × (ℝ × ℝ)} {X Y : ℝ → ℝ} (hF : Factor2 im X Y) {s : Pt} (hs : lhp s) {d1 d2 : ℂ}
    (hd : Image2 (im s) d1 d2) : ∃ k : ℝ, 0 < k ∧ ∀ w, normSq (ej w - d1) * normSq (ej w - d2) = k * A s (X w) (Y w) := by
  have h0 := hF.2.1 s hs
  obtain ⟨k, hk, e⟩ := hF.2.2 s
  have n0 := normSq_pos.mpr h0
  refine ⟨k / normSq (cx (im s).2.2), by positivity, fun w => ?_⟩
  have h := e w
  obtain ⟨h1, h2⟩ := hd h0
  rw [← h1, ← h2, show ej w * ej w * cx (im s).2.2 - ej w * ((d1 + d2) * cx (im s).2.2) + d1 * d2 * cx (im s).2.2 =
    (ej w - d1) * (ej w - d2) * cx (im s).2.2 by ring, normSq_mul, normSq_mul] at h
  field_simp; linarith

lemma image2_conj {im : Pt → (ℝ × ℝ) × (ℝ × ℝ) × (ℝ × ℝ)} {X Y : ℝ → ℝ} (hF : Factor2 im X Y) {s : Pt} (hs : lhp s) {d1 d2 : ℂ}
    (hd : Image2 (im s) d1 d2) : Image2 (im (cj s)) (conj d1) (conj d2) := by
  intro _
  obtain ⟨h1, h2⟩ := hd (hF.2.1 s hs)
  rw [(hF.1 s).1, (hF.1 s).2.1, (hF.1 s).2.2, ← h1, ← h2]
  simp

/-! ### elements -/

/-- contract of a low or high pass transform followed by setLayout, for the sections before scaling -/
structure Realised1 (im : Pt → (ℝ × ℝ) × (ℝ × ℝ)) (n : ℕ) (p z : ℕ → Pt) (r y : Pt) (s : ℕ → Sec) : Prop where
  pair : ∀ i < n / 2, ∃ d v : ℂ, Image1 (im (p i)) d ∧ Image1 (im (z i)) v ∧ FromPair (s i) d (conj d) v (conj v)
  real : n % 2 = 1 → ∃ d v : ℂ, Image1 (im r) d ∧ Image1 (im y) v ∧ FromPair (s (n / 2)) d 0 v 0

/-- contract of a band transform followed by setLayout, for the sections before scaling -/
structure Realised2 (im : Pt → (ℝ × ℝ) × (ℝ × ℝ) × (ℝ × ℝ)) (n : ℕ) (p z : ℕ → Pt) (r y : Pt) (s : ℕ → Sec) : Prop where
  pair : ∀ i < n / 2, ∃ d1 d2 v1 v2 : ℂ, Image2 (im (p i)) d1 d2 ∧ Image2 (im (z i)) v1 v2 ∧
    FromPair (s (2 * i)) d1 (conj d1) v1 (conj v1) ∧ FromPair (s (2 * i + 1)) d2 (conj d2) v2 (conj v2)
  real : n % 2 = 1 → ∃ d1 d2 v1 v2 : ℂ, Image2 (im r) d1 d2 ∧ Image2 (im y) v1 v2 ∧ FromPair (s (n - 1)) d1 d2 v1 v2

theorem elements1 {im : Pt → (ℝ × ℝ) × (ℝ × ℝ)} {X Y : ℝ → ℝ} (hF : Factor1 im X Y) (hD : Defined X Y) {n : ℕ} {p z : ℕ → Pt} {r y : Pt}
    {s : ℕ → Sec} (h : Realised1 im n p z r y s) : Elements n p z r y X Y (fun i w => normSq ((s i).resp (ej w))) := by
  constructor
  · intro i hi hp hz
    obtain ⟨d, v, hd, hv, hs⟩ := h.pair i hi
    have lp := lhp_of_slhp hp
    obtain ⟨k1, q1, e1⟩ := image1 hF lp hd
    obtain ⟨k2, q2, e2⟩ := image1 hF (lhp_cj lp) (image1_conj hF lp hd)
    obtain ⟨k3, q3, e3⟩ := image1 hF hz hv
    obtain ⟨k4, q4, e4⟩ := image1 hF (lhp_cj hz) (image1_conj hF hz hv)
    refine ⟨k1 * k2, k3 * k4, (mul_pos q1 q2).ne', (mul_pos q3 q4).ne', fun w => ?_⟩
    have a1 := A_pos hp (hD w)
    have a2 := A_pos (slhp_cj hp) (hD w)
    simp only [factor_resp hs w, e1, e2, e3, e4]
    field_simp
  · intro ho hr hy
    obtain ⟨d, v, hd, hv, hs⟩ := h.real ho
    obtain ⟨k1, q1, e1⟩ := image1 hF (lhp_of_slhp hr) hd
    obtain ⟨k3, q3, e3⟩ := image1 hF hy hv
    refine ⟨k1, k3, q1.ne', q3.ne', fun w => ?_⟩
    have a1 := A_pos hr (hD w)
    simp only [factor_resp hs w, e1, e3, sub_zero, normSq_ej]
    field_simp

/-- squared magnitude of the sections made from element i -/
def band (n : ℕ) (s : ℕ → Sec) (i : ℕ) (w : ℝ) : ℝ :=
  if i < n / 2 then normSq ((s (2 * i)).resp (ej w)) * normSq ((s (2 * i + 1)).resp (ej w)) else normSq ((s (2 * i)).resp (ej w))

theorem elements2 {im : Pt → (ℝ × ℝ) × (ℝ × ℝ) × (ℝ × ℝ)} {X Y : ℝ → ℝ} (hF : Factor2 im X Y) (hD : Defined X Y) {n : ℕ} {p z : ℕ → Pt}
    {r y : Pt} {s : ℕ → Sec} (h : Realised2 im n p z r y s) : Elements n p z r y X Y (band n s) := by
  constructor
  · intro i hi hp hz
    obtain ⟨d1, d2, v1, v2, hd, hv, hs, ht⟩ := h.pair i hi
    have lp := lhp_of_slhp hp
    obtain ⟨k1, q1, e1⟩ := image2 hF lp hd
    obtain ⟨k2, q2, e2⟩ := image2 hF (lhp_cj lp) (image2_conj hF lp hd)
    obtain ⟨k3, q3, e3⟩ := image2 hF hz hv
    obtain ⟨k4, q4, e4⟩ := image2 hF (lhp_cj hz) (image2_conj hF hz hv)
    refine ⟨k1 * k2, k3 * k4, (mul_pos q1 q2).ne', (mul_pos q3 q4).ne', fun w => ?_⟩
    have a1 := A_pos hp (hD w)
    have a2 := A_pos (slhp_cj hp) (hD w)
    have f1 := e1 w
    have f2 := e2 w
    have f3 := e3 w
    have f4 := e4 w
    simp only [band, if_pos hi, factor_resp hs w, factor_resp ht w]
    have g1 : 0 < normSq (ej w - d1) * normSq (ej w - d2) := by rw [f1]; positivity
    have g2 : 0 < normSq (ej w - conj d1) * normSq (ej w - conj d2) := by rw [f2]; positivity
    rw [div_mul_div_comm, show k1 * k2 * (A (p i) (X w) (Y w) * A (cj (p i)) (X w) (Y w)) =
      (k1 * A (p i) (X w) (Y w)) * (k2 * A (cj (p i)) (X w) (Y w)) by ring, ← f1, ← f2,
      show k3 * k4 * (A (z i) (X w) (Y w) * A (cj (z i)) (X w) (Y w)) = (k3 * A (z i) (X w) (Y w)) * (k4 * A (cj (z i)) (X w) (Y w)) by ring,
      ← f3, ← f4]
    have n1 : normSq (ej w - d1) ≠ 0 := left_ne_zero_of_mul g1.ne'
    have n2 : normSq (ej w - d2) ≠ 0 := right_ne_zero_of_mul g1.ne'
    have n3 : normSq (ej w - conj d1) ≠ 0 := left_ne_zero_of_mul g2.ne'
    have n4 : normSq (ej w - conj d2) ≠ 0 := right_ne_zero_of_mul g2.ne'
    field_simp
  · intro ho hr hy
    obtain ⟨d1, d2, v1, v2, hd, hv, hs⟩ := h.real ho
    obtain ⟨k1, q1, e1⟩ := image2 hF (lhp_of_slhp hr) hd
    obtain ⟨k3, q3, e3⟩ := image2 hF hy hv
    refine ⟨k1, k3, q1.ne', q3.ne', fun w => ?_⟩
    have a1 := A_pos hr (hD w)
    have e : 2 * (n / 2) = n - 1 := by omega
    have f1 := e1 w
    have g1 : 0 < normSq (ej w - d1) * normSq (ej w - d2) := by rw [f1]; positivity
    have n1 : normSq (ej w - d1) ≠ 0 := left_ne_zero_of_mul g1.ne'
    have n2 : normSq (ej w - d2) ≠ 0 := right_ne_zero_of_mul g1.ne'
    simp only [band, lt_irrefl, if_false, e]
    rw [factor_resp hs w, ← f1, ← e3 w]
    field_simp

lemma normSq_response (m : ℕ) (s : ℕ → Sec) (e : ℂ) : normSq (response m s e) = ∏ i ∈ range m, normSq ((s i).resp e) := by
  simp only [response, map_prod]

lemma band_prod (n : ℕ) (s : ℕ → Sec) (w : ℝ) : ∏ i ∈ range ((n + 1) / 2), band n s i w = normSq (response n s (ej w)) := by
  rw [normSq_response]
  have key : ∀ m ≤ n / 2, ∏ i ∈ range m, band n s i w = ∏ i ∈ range (2 * m), normSq ((s i).resp (ej w)) := by
    intro m
    induction m with
    | zero => intro _; simp
    | succ m ih =>
      intro hm
      rw [prod_range_succ, ih (by omega), show 2 * (m + 1) = 2 * m + 1 + 1 by ring, prod_range_succ, prod_range_succ, band, if_pos (by omega)]
      ring
  rcases Nat.even_or_odd' n with ⟨m, rfl | rfl⟩
  · rw [show (2 * m + 1) / 2 = m by omega, key m (by omega)]
  · rw [show (2 * m + 1 + 1) / 2 = m + 1 by omega, prod_range_succ, prod_range_succ, key m (by omega), band, if_neg (by omega)]

/-- what setLayout's scaling does to the squared magnitude -/
lemma scaled_of {m : ℕ} {s s' : ℕ → Sec} {G w0 : ℝ} (h : Scaling m s s' G w0) (hm : 0 < m) (h0 : normSq (response m s (ej w0)) ≠ 0) (w : ℝ) :
    normSq (response m s' (ej w)) * normSq (response m s (ej w0)) = G ^ 2 * normSq (response m s (ej w)) := by
  have hne : response m s (ej w0) ≠ 0 := fun hh => h0 (by rw [hh]; simp)
  rw [scaled_response h hm hne, normSq_mul, normSq_ofReal, ← Complex.sq_norm (response m s (ej w0))]
  have : ‖response m s (ej w0)‖ ≠ 0 := norm_ne_zero_iff.mpr hne
  field_simp

/-! ### the transforms -/

lemma normSq_jXY (s : ℝ × ℝ) (X Y : ℝ) : normSq (I * X - Y * cx s) = A (some s) X Y := by
  simp only [cx, A, normSq_apply]; simp; ring

lemma ej_half (w : ℝ) : ej w = ej (w / 2) * ej (w / 2) := by
  have h1 := Real.cos_two_mul (w / 2)
  have h2 := Real.sin_two_mul (w / 2)
  have h3 := Real.sin_sq_add_cos_sq (w / 2)
  rw [show 2 * (w / 2) = w by ring] at h1 h2
  apply Complex.ext <;> simp [ej]
  · rw [h1]; nlinarith
  · rw [h2]; ring

lemma ej_sub_one (w : ℝ) : ej w - 1 = 2 * ej (w / 2) * (I * Real.sin (w / 2)) := by
  have h3 := Real.sin_sq_add_cos_sq (w / 2)
  rw [ej_half]
  apply Complex.ext <;> simp [ej, -ofReal_sin]
  · nlinarith
  · ring

lemma ej_add_one (w : ℝ) : ej w + 1 = 2 * ej (w / 2) * Real.cos (w / 2) := by
  have h3 := Real.sin_sq_add_cos_sq (w / 2)
  rw [ej_half]
  apply Complex.ext <;> simp [ej, -ofReal_cos]
  · nlinarith
  · ring

lemma ej_sq_sub_one (w : ℝ) : ej w * ej w - 1 = 2 * ej w * (I * Real.sin w) := by
  have h3 := Real.sin_sq_add_cos_sq w
  apply Complex.ext <;> simp [ej, -ofReal_sin]
  · nlinarith
  · ring

lemma ej_sq_add_one (w : ℝ) : ej w * ej w + 1 = 2 * ej w * Real.cos w := by
  have h3 := Real.sin_sq_add_cos_sq w
  apply Complex.ext <;> simp [ej, -ofReal_cos]
  · nlinarith
  · ring

lemma normSq_two : normSq 2 = 4 := by
  rw [show (2 : ℂ) = ((2 : ℝ) : ℂ) by norm_cast, normSq_ofReal]; norm_num

lemma tan_pos (fc : ℝ) (h0 : 0 < fc) (h1 : fc < 1 / 2) : 0 < Real.tan (Real.pi * fc) := by
  have := Real.pi_pos
  exact Real.tan_pos_of_pos_of_lt_pi_div_two (by positivity) (by nlinarith)

theorem lowPass_factor (fc : ℝ) (h0 : 0 < fc) (h1 : fc < 1 / 2) : Factor1 (LowPass_image fc) (LowPass_X fc) (LowPass_Y fc) := by
  have hf : 0 < LowPass_f fc := tan_pos fc h0 h1
  refine ⟨?_, ?_, ?_⟩
  · rintro (_ | s) <;> constructor <;> apply Complex.ext <;> simp [LowPass_image, cj, cx]
  · rintro (_ | s) hs hh
    · simp [LowPass_image, cx, Complex.ext_iff] at hh
    · have hre := congrArg Complex.re hh
      simp [LowPass_image, cx] at hre
      simp only [lhp] at hs
      nlinarith
  · rintro (_ | s)
    · refine ⟨4 / (LowPass_f fc) ^ 2, by positivity, fun w => ?_⟩
      have e : ej w * cx (LowPass_image fc none).2 - cx (LowPass_image fc none).1 = ej w + 1 := by
        apply Complex.ext <;> simp [LowPass_image, cx]
      rw [e, ej_add_one, normSq_mul, normSq_mul, normSq_two, normSq_ej, normSq_ofReal]
      simp only [A, LowPass_Y]; field_simp
    · refine ⟨4, by norm_num, fun w => ?_⟩
      have e : ej w * cx (LowPass_image fc (some s)).2 - cx (LowPass_image fc (some s)).1 =
          2 * ej (w / 2) * (I * (LowPass_X fc w : ℝ) - (LowPass_Y fc w : ℝ) * cx s) := by
        have a : cx (LowPass_image fc (some s)).2 = 1 - (LowPass_f fc : ℝ) * cx s := by
          apply Complex.ext <;> simp [LowPass_image, cx]; ring
        have b : cx (LowPass_image fc (some s)).1 = 1 + (LowPass_f fc : ℝ) * cx s := by
          apply Complex.ext <;> simp [LowPass_image, cx]
        rw [a, b]
        simp only [LowPass_X, LowPass_Y, ofReal_mul]
        linear_combination ej_sub_one w - (LowPass_f fc : ℝ) * cx s * ej_add_one w
      rw [e, normSq_mul, normSq_mul, normSq_two, normSq_ej, normSq_jXY]; ring

theorem highPass_factor (fc : ℝ) (h0 : 0 < fc) (h1 : fc < 1 / 2) : Factor1 (HighPass_image fc) (HighPass_X fc) (HighPass_Y fc) := by
  have hf : 0 < HighPass_f fc := tan_pos fc h0 h1
  refine ⟨?_, ?_, ?_⟩
  · rintro (_ | s) <;> constructor <;> apply Complex.ext <;> simp [HighPass_image, cj, cx]
  · rintro (_ | s) hs hh
    · simp [HighPass_image, cx, Complex.ext_iff] at hh
    · have hre := congrArg Complex.re hh
      simp [HighPass_image, cx] at hre
      simp only [lhp] at hs
      have : 0 < (HighPass_f fc)⁻¹ := by positivity
      nlinarith
  · rintro (_ | s)
    · refine ⟨4 * (HighPass_f fc) ^ 2, by positivity, fun w => ?_⟩
      have e : ej w * cx (HighPass_image fc none).2 - cx (HighPass_image fc none).1 = ej w - 1 := by
        apply Complex.ext <;> simp [HighPass_image, cx]
      rw [e, ej_sub_one, normSq_mul, normSq_mul, normSq_two, normSq_ej, normSq_mul, normSq_I, normSq_ofReal]
      simp only [A, HighPass_Y]; field_simp
    · refine ⟨4, by norm_num, fun w => ?_⟩
      have e : ej w * cx (HighPass_image fc (some s)).2 - cx (HighPass_image fc (some s)).1 =
          2 * ej (w / 2) * -I * (I * (HighPass_X fc w : ℝ) - (HighPass_Y fc w : ℝ) * cx s) := by
        have a : cx (HighPass_image fc (some s)).2 = 1 - (1 / HighPass_f fc : ℝ) * cx s := by
          apply Complex.ext <;> simp [HighPass_image, cx]; ring
        have b : cx (HighPass_image fc (some s)).1 = -(1 + (1 / HighPass_f fc : ℝ) * cx s) := by
          apply Complex.ext <;> simp [HighPass_image, cx]
        rw [a, b]
        have hI := I_sq
        have y : ((HighPass_Y fc w : ℝ) : ℂ) = -(Real.sin (w / 2) * ((1 / HighPass_f fc : ℝ) : ℂ)) := by
          simp only [HighPass_Y]; push_cast; ring
        rw [y]
        simp only [HighPass_X]
        linear_combination ej_add_one w - (1 / HighPass_f fc : ℝ) * cx s * ej_sub_one w + 2 * ej (w / 2) * Real.cos (w / 2) * hI
      rw [e, normSq_mul, normSq_mul, normSq_mul, normSq_two, normSq_ej, normSq_neg, normSq_I, normSq_jXY]; ring

/-- valid band edges -/
def InBand (fc fw : ℝ) : Prop := 0 < fw ∧ 0 < BandPass_lo fc fw ∧ BandPass_hi fc fw < Real.pi

lemma band_facts (fc fw : ℝ) (h : InBand fc fw) : 0 < BandPass_f fc fw ∧ (BandPass_a fc fw) ^ 2 < 1 := by
  obtain ⟨h0, h1, h2⟩ := h
  have hp := Real.pi_pos
  have p1 := mul_pos hp h0
  simp only [BandPass_lo, BandPass_hi] at h1 h2
  have hd : (2 * Real.pi * fc + Real.pi * fw - (2 * Real.pi * fc - Real.pi * fw)) * (1 / 2) = Real.pi * fw := by ring
  have hs : (2 * Real.pi * fc + Real.pi * fw + (2 * Real.pi * fc - Real.pi * fw)) * (1 / 2) = 2 * Real.pi * fc := by ring
  have lt : Real.pi * fw < Real.pi / 2 := by linarith
  have cpos : 0 < Real.cos (Real.pi * fw) := Real.cos_pos_of_mem_Ioo ⟨by linarith, lt⟩
  refine ⟨?_, ?_⟩
  · rw [BandPass_f, hd]; exact Real.tan_pos_of_pos_of_lt_pi_div_two p1 lt
  · rw [BandPass_a, hd, hs, div_pow, div_lt_one (by positivity)]
    have e : Real.cos (Real.pi * fw) ^ 2 - Real.cos (2 * Real.pi * fc) ^ 2 =
        Real.sin (2 * Real.pi * fc - Real.pi * fw) * Real.sin (2 * Real.pi * fc + Real.pi * fw) := by
      rw [Real.sin_sub, Real.sin_add]
      have a := Real.sin_sq_add_cos_sq (Real.pi * fw)
      have b := Real.sin_sq_add_cos_sq (2 * Real.pi * fc)
      linear_combination -Real.cos (Real.pi * fw) ^ 2 * b + Real.cos (2 * Real.pi * fc) ^ 2 * a
    have s1 : 0 < Real.sin (2 * Real.pi * fc - Real.pi * fw) := Real.sin_pos_of_pos_of_lt_pi h1 (by linarith)
    have s2 : 0 < Real.sin (2 * Real.pi * fc + Real.pi * fw) := Real.sin_pos_of_pos_of_lt_pi (by linarith) h2
    have := mul_pos s1 s2
    linarith

theorem bandPass_factor (fc fw : ℝ) (h : InBand fc fw) : Factor2 (BandPass_image fc fw) (BandPass_X fc fw) (BandPass_Y fc fw) := by
  obtain ⟨hf, -⟩ := band_facts fc fw h
  refine ⟨?_, ?_, ?_⟩
  · rintro (_ | s) <;> refine ⟨?_, ?_, ?_⟩ <;> apply Complex.ext <;> simp [BandPass_image, cj, cx]
  · rintro (_ | s) hs hh
    · simp [BandPass_image, cx, Complex.ext_iff] at hh
    · have hre := congrArg Complex.re hh
      simp [BandPass_image, cx] at hre
      simp only [lhp] at hs
      nlinarith
  · rintro (_ | s)
    · refine ⟨4 / (BandPass_f fc fw) ^ 2, by positivity, fun w => ?_⟩
      have e : ej w * ej w * cx (BandPass_image fc fw none).2.2 - ej w * cx (BandPass_image fc fw none).1 + cx (BandPass_image fc fw none).2.1 =
          ej w * ej w - 1 := by
        apply Complex.ext <;> simp [BandPass_image, cx]; ring
      rw [e, ej_sq_sub_one, normSq_mul, normSq_mul, normSq_two, normSq_ej, normSq_mul, normSq_I, normSq_ofReal]
      simp only [A, BandPass_Y]; field_simp
    · refine ⟨4, by norm_num, fun w => ?_⟩
      have e : ej w * ej w * cx (BandPass_image fc fw (some s)).2.2 - ej w * cx (BandPass_image fc fw (some s)).1 +
          cx (BandPass_image fc fw (some s)).2.1 =
          2 * ej w * -I * (I * (BandPass_X fc fw w : ℝ) - (BandPass_Y fc fw w : ℝ) * cx s) := by
        have a : cx (BandPass_image fc fw (some s)).2.2 = 1 - (BandPass_f fc fw : ℝ) * cx s := by
          apply Complex.ext <;> simp [BandPass_image, cx]; ring
        have b : cx (BandPass_image fc fw (some s)).2.1 = 1 + (BandPass_f fc fw : ℝ) * cx s := by
          apply Complex.ext <;> simp [BandPass_image, cx]
        have c : cx (BandPass_image fc fw (some s)).1 = 2 * (BandPass_a fc fw : ℝ) := by
          apply Complex.ext <;> simp [BandPass_image, cx]
        rw [a, b, c]
        simp only [BandPass_X, BandPass_Y, ofReal_sub, ofReal_neg, ofReal_mul]
        linear_combination ej_sq_add_one w - (BandPass_f fc fw : ℝ) * cx s * ej_sq_sub_one w +
          2 * ej w * ((Real.cos w : ℂ) - (BandPass_a fc fw : ℝ)) * I_sq
      rw [e, normSq_mul, normSq_mul, normSq_mul, normSq_two, normSq_ej, normSq_neg, normSq_I, normSq_jXY]; ring

theorem bandStop_factor (fc fw : ℝ) (h : InBand fc fw) : Factor2 (BandStop_image fc fw) (BandStop_X fc fw) (BandStop_Y fc fw) := by
  have hf : 0 < BandStop_f fc fw := (band_facts fc fw h).1
  refine ⟨?_, ?_, ?_⟩
  · rintro (_ | s) <;> refine ⟨?_, ?_, ?_⟩ <;> apply Complex.ext <;> simp [BandStop_image, cj, cx]
  · rintro (_ | s) hs hh
    · simp [BandStop_image, cx, Complex.ext_iff] at hh
    · have hre := congrArg Complex.re hh
      simp [BandStop_image, cx] at hre
      simp only [lhp] at hs
      nlinarith
  · rintro (_ | s)
    · refine ⟨4, by norm_num, fun w => ?_⟩
      have e : ej w * ej w * cx (BandStop_image fc fw none).2.2 - ej w * cx (BandStop_image fc fw none).1 + cx (BandStop_image fc fw none).2.1 =
          2 * ej w * ((BandStop_Y fc fw w : ℝ) : ℂ) := by
        have a : cx (BandStop_image fc fw none).2.2 = 1 := by apply Complex.ext <;> simp [BandStop_image, cx]
        have b : cx (BandStop_image fc fw none).2.1 = 1 := by apply Complex.ext <;> simp [BandStop_image, cx]
        have c : cx (BandStop_image fc fw none).1 = 2 * (BandStop_a fc fw : ℝ) := by apply Complex.ext <;> simp [BandStop_image, cx]
        rw [a, b, c]
        simp only [BandStop_Y, ofReal_sub]
        linear_combination ej_sq_add_one w
      rw [e, normSq_mul, normSq_mul, normSq_two, normSq_ej, normSq_ofReal]
      simp only [A]; ring
    · refine ⟨4, by norm_num, fun w => ?_⟩
      have e : ej w * ej w * cx (BandStop_image fc fw (some s)).2.2 - ej w * cx (BandStop_image fc fw (some s)).1 +
          cx (BandStop_image fc fw (some s)).2.1 =
          -(2 * ej w) * (I * (BandStop_X fc fw w : ℝ) - (BandStop_Y fc fw w : ℝ) * cx s) := by
        have a : cx (BandStop_image fc fw (some s)).2.2 = cx s - (BandStop_f fc fw : ℝ) := by
          apply Complex.ext <;> simp [BandStop_image, cx]
        have b : cx (BandStop_image fc fw (some s)).2.1 = cx s + (BandStop_f fc fw : ℝ) := by
          apply Complex.ext <;> simp [BandStop_image, cx]
        have c : cx (BandStop_image fc fw (some s)).1 = 2 * (BandStop_a fc fw : ℝ) * cx s := by
          apply Complex.ext <;> simp [BandStop_image, cx] <;> ring
        rw [a, b, c]
        simp only [BandStop_X, BandStop_Y, ofReal_sub, ofReal_mul]
        linear_combination cx s * ej_sq_add_one w - (BandStop_f fc fw : ℝ) * ej_sq_sub_one w
      rw [e, normSq_mul, normSq_neg, normSq_mul, normSq_two, normSq_ej, normSq_jXY]; ring

/-! ### filters -/

inductive Tr
  | lowPass (fc : ℝ) | highPass (fc : ℝ) | bandPass (fc fw : ℝ) | bandStop (fc fw : ℝ)

namespace Tr

def ok : Tr → Prop
  | lowPass fc => 0 < fc ∧ fc < 1 / 2
  | highPass fc => 0 < fc ∧ fc < 1 / 2
  | bandPass fc fw => InBand fc fw
  | bandStop fc fw => InBand fc fw

/-- the digital frequency w (in radians) is the image of the analogue frequency X w / Y w -/
def X : Tr → ℝ → ℝ
  | lowPass fc => LowPass_X fc
  | highPass fc => HighPass_X fc
  | bandPass fc fw => BandPass_X fc fw
  | bandStop fc fw => BandStop_X fc fw

def Y : Tr → ℝ → ℝ
  | lowPass fc => LowPass_Y fc
  | highPass fc => HighPass_Y fc
  | bandPass fc fw => BandPass_Y fc fw
  | bandStop fc fw => BandStop_Y fc fw

def sections (n : ℕ) : Tr → ℕ
  | lowPass _ => (n + 1) / 2
  | highPass _ => (n + 1) / 2
  | bandPass _ _ => n
  | bandStop _ _ => n

def Realised (n : ℕ) (p z : ℕ → Pt) (r y : Pt) (s : ℕ → Sec) : Tr → Prop
  | lowPass fc => Realised1 (LowPass_image fc) n p z r y s
  | highPass fc => Realised1 (HighPass_image fc) n p z r y s
  | bandPass fc fw => Realised2 (BandPass_image fc fw) n p z r y s
  | bandStop fc fw => Realised2 (BandStop_image fc fw) n p z r y s

/-- reference frequencies as the transforms pass them on: of a prototype with reference 0 -/
def ref0 : Tr → ℝ
  | lowPass _ => 0
  | highPass _ => Real.pi - 0
  | bandPass fc fw => 2 * Real.arctan (Real.sqrt (Real.tan (BandPass_hi fc fw * (1 / 2)) * Real.tan (BandPass_lo fc fw * (1 / 2))))
  | bandStop fc _ => if fc < 1 / 4 then Real.pi else 0

/-- of a prototype with reference infinity (band shelves: as their setup sets it) -/
def refInf : Tr → ℝ
  | lowPass _ => Real.pi
  | highPass _ => Real.pi - Real.pi
  | bandPass fc _ => if fc < 1 / 4 then Real.pi else 0
  | bandStop _ _ => 0

end Tr

/-- what the contracts of design, transform, setLayout and setup give for the sections s of the filter -/
def Filter (T : Tr) (n : ℕ) (p z : ℕ → Pt) (r y : Pt) (G w0 : ℝ) (s : ℕ → Sec) : Prop :=
  ∃ s0 : ℕ → Sec, T.Realised n p z r y s0 ∧ Scaling (T.sections n) s0 s G w0

/-- squared magnitude of the response at the digital frequency w (contracts of response) -/
def H2 (T : Tr) (n : ℕ) (s : ℕ → Sec) (w : ℝ) : ℝ := normSq (response (T.sections n) s (ej w))

lemma half_ne (w : ℝ) : Real.sin (w / 2) ≠ 0 ∨ Real.cos (w / 2) ≠ 0 := by
  by_contra h
  rw [not_or, not_not, not_not] at h
  have := Real.sin_sq_add_cos_sq (w / 2)
  rw [h.1, h.2] at this; norm_num at this

lemma full_ne (w a : ℝ) (ha : a ^ 2 < 1) : Real.sin w ≠ 0 ∨ Real.cos w - a ≠ 0 := by
  by_contra h
  rw [not_or, not_not, not_not] at h
  have := Real.sin_sq_add_cos_sq w
  rw [h.1, show Real.cos w = a by linarith [h.2]] at this; nlinarith

theorem defined (T : Tr) (h : T.ok) : Defined T.X T.Y := by
  intro w
  cases T with
  | lowPass fc =>
    have := tan_pos fc h.1 h.2
    exact (half_ne w).imp id (fun c => mul_ne_zero this.ne' c)
  | highPass fc =>
    have := tan_pos fc h.1 h.2
    exact (half_ne w).symm.imp id (fun c => neg_ne_zero.mpr (div_ne_zero c this.ne'))
  | bandPass fc fw =>
    obtain ⟨hf, ha⟩ := band_facts fc fw h
    exact (full_ne w _ ha).symm.imp id (fun c => neg_ne_zero.mpr (mul_ne_zero hf.ne' c))
  | bandStop fc fw =>
    obtain ⟨hf, ha⟩ := band_facts fc fw h
    exact (full_ne w _ ha).imp (fun c => mul_ne_zero hf.ne' c) id

/-- the premises of the laws hold for every filter which satisfies the contracts -/
theorem bridge (T : Tr) (hT : T.ok) {n : ℕ} (hn : 0 < n) {p z : ℕ → Pt} {r y : Pt} {G w0 : ℝ} {s : ℕ → Sec} (h : Filter T n p z r y G w0 s) :
    ∃ E : ℕ → ℝ → ℝ, Elements n p z r y T.X T.Y E ∧ Scaled n E (H2 T n s) w0 (G ^ 2) := by
  obtain ⟨s0, hr, hs⟩ := h
  have hD := defined T hT
  cases T with
  | lowPass fc =>
    refine ⟨_, elements1 (lowPass_factor fc hT.1 hT.2) hD hr, fun h0 w => ?_⟩
    rw [← normSq_response] at h0 ⊢
    rw [← normSq_response]
    exact scaled_of hs (show 0 < (n + 1) / 2 by omega) h0 w
  | highPass fc =>
    refine ⟨_, elements1 (highPass_factor fc hT.1 hT.2) hD hr, fun h0 w => ?_⟩
    rw [← normSq_response] at h0 ⊢
    rw [← normSq_response]
    exact scaled_of hs (show 0 < (n + 1) / 2 by omega) h0 w
  | bandPass fc fw =>
    refine ⟨_, elements2 (bandPass_factor fc fw hT) hD hr, fun h0 w => ?_⟩
    rw [band_prod] at h0 ⊢
    rw [band_prod]
    exact scaled_of hs (show 0 < n from hn) h0 w
  | bandStop fc fw =>
    refine ⟨_, elements2 (bandStop_factor fc fw hT) hD hr, fun h0 w => ?_⟩
    rw [band_prod] at h0 ⊢
    rw [band_prod]
    exact scaled_of hs (show 0 < n from hn) h0 w

/-- the reference of the pass filters is the image of the analogue frequency 0 -/
theorem ref0_X (T : Tr) (hT : T.ok) : T.X T.ref0 = 0 := by
  cases T with
  | lowPass fc => simp [Tr.X, Tr.ref0, LowPass_X]
  | highPass fc => simp [Tr.X, Tr.ref0, HighPass_X]
  | bandPass fc fw =>
    obtain ⟨h0, h1, h2⟩ := hT
    have hp := Real.pi_pos
    have p1 := mul_pos hp h0
    have lo2 : BandPass_lo fc fw * (1 / 2) < Real.pi / 2 := by simp only [BandPass_lo, BandPass_hi] at *; linarith
    have hi0 : 0 < BandPass_hi fc fw * (1 / 2) := by simp only [BandPass_lo, BandPass_hi] at *; linarith
    have t1 : 0 < Real.tan (BandPass_lo fc fw * (1 / 2)) := Real.tan_pos_of_pos_of_lt_pi_div_two (by linarith) lo2
    have t2 : 0 < Real.tan (BandPass_hi fc fw * (1 / 2)) := Real.tan_pos_of_pos_of_lt_pi_div_two hi0 (by linarith)
    have c1 : 0 < Real.cos (BandPass_lo fc fw * (1 / 2)) := Real.cos_pos_of_mem_Ioo ⟨by linarith, lo2⟩
    have c2 : 0 < Real.cos (BandPass_hi fc fw * (1 / 2)) := Real.cos_pos_of_mem_Ioo ⟨by linarith, by linarith⟩
    set u := BandPass_lo fc fw * (1 / 2) with hu
    set v := BandPass_hi fc fw * (1 / 2) with hv
    have ea : BandPass_a fc fw = Real.cos (v + u) / Real.cos (v - u) := by
      simp only [BandPass_a, hu, hv, BandPass_lo, BandPass_hi]; congr 2 <;> ring
    have cd : 0 < Real.cos (v - u) := by
      rw [Real.cos_sub]
      have s1 : 0 < Real.sin u := Real.sin_pos_of_pos_of_lt_pi (by linarith) (by linarith)
      have s2 : 0 < Real.sin v := Real.sin_pos_of_pos_of_lt_pi hi0 (by linarith)
      positivity
    simp only [Tr.X, Tr.ref0, BandPass_X]
    rw [← hu, ← hv, Real.cos_two_mul, Real.cos_sq_arctan, Real.sq_sqrt (by positivity), ea, Real.tan_eq_sin_div_cos, Real.tan_eq_sin_div_cos]
    have e1 := Real.cos_add v u
    have e2 := Real.cos_sub v u
    have s1 : 0 < Real.sin u := Real.sin_pos_of_pos_of_lt_pi (by linarith) (by linarith)
    have s2 : 0 < Real.sin v := Real.sin_pos_of_pos_of_lt_pi hi0 (by linarith)
    have dn : 0 < Real.cos v * Real.cos u + Real.sin v * Real.sin u := by positivity
    rw [e1, e2]
    have e3 : 1 + Real.sin v / Real.cos v * (Real.sin u / Real.cos u) = (Real.cos v * Real.cos u + Real.sin v * Real.sin u) / (Real.cos v * Real.cos u) := by
      field_simp
    rw [e3]
    field_simp
    ring
  | bandStop fc fw =>
    simp only [Tr.X, Tr.ref0, BandStop_X]
    split_ifs <;> simp

/-- the reference of the shelves is the image of the analogue infinity -/
theorem refInf_Y (T : Tr) (hT : ∀ fc fw, T ≠ .bandStop fc fw) : T.Y T.refInf = 0 := by
  cases T with
  | lowPass fc => simp [Tr.Y, Tr.refInf, LowPass_Y]
  | highPass fc => simp [Tr.Y, Tr.refInf, HighPass_Y]
  | bandPass fc fw =>
    simp only [Tr.Y, Tr.refInf, BandPass_Y]
    split_ifs <;> simp
  | bandStop fc fw => exact absurd rfl (hT fc fw)

/-- the mapped frequency of the low and high pass designs -/
theorem lowPass_mapped (fc w : ℝ) : (Tr.lowPass fc).X w / (Tr.lowPass fc).Y w = Real.tan (w / 2) / Real.tan (Real.pi * fc) := by
  simp only [Tr.X, Tr.Y, LowPass_X, LowPass_Y, LowPass_f]
  rw [Real.tan_eq_sin_div_cos (w / 2), mul_comm, div_mul_eq_div_div]

theorem highPass_mapped (fc w : ℝ) : (Tr.highPass fc).X w / (Tr.highPass fc).Y w = -(Real.tan (Real.pi * fc) / Real.tan (w / 2)) := by
  simp only [Tr.X, Tr.Y, HighPass_X, HighPass_Y, HighPass_f]
  rw [Real.tan_eq_sin_div_cos (w / 2), div_neg, div_div_eq_mul_div, div_div_eq_mul_div, mul_comm]

/-- cutoff frequency or band edges -/
def Tr.Edge : Tr → ℝ → Prop
  | .lowPass fc, w => w = 2 * Real.pi * fc
  | .highPass fc, w => w = 2 * Real.pi * fc
  | .bandPass fc fw, w => w = BandPass_lo fc fw ∨ w = BandPass_hi fc fw
  | .bandStop fc fw, w => w = BandStop_lo fc fw ∨ w = BandStop_hi fc fw

lemma band_edge (c d w : ℝ) (hd : 0 < Real.cos d) (hw : w = c - d ∨ w = c + d) :
    (Real.cos w - Real.cos c / Real.cos d) ^ 2 = (Real.tan d * Real.sin w) ^ 2 := by
  have h := Real.sin_sq_add_cos_sq d
  rw [Real.tan_eq_sin_div_cos, ← sub_eq_zero]
  rcases hw with rfl | rfl
  · have e : Real.cos (c - d) - Real.cos c / Real.cos d = Real.sin d / Real.cos d * Real.sin (c - d) := by
      rw [Real.cos_sub, Real.sin_sub]; field_simp; linear_combination Real.cos c * h
    rw [e]; ring
  · have e : Real.cos (c + d) - Real.cos c / Real.cos d = -(Real.sin d / Real.cos d * Real.sin (c + d)) := by
      rw [Real.cos_add, Real.sin_add]; field_simp; linear_combination Real.cos c * h
    rw [e]; ring

lemma band_cos (fc fw : ℝ) (h : InBand fc fw) : 0 < Real.cos (Real.pi * fw) := by
  obtain ⟨h0, h1, h2⟩ := h
  have := mul_pos Real.pi_pos h0
  simp only [BandPass_lo, BandPass_hi] at h1 h2
  exact Real.cos_pos_of_mem_Ioo ⟨by linarith, by linarith⟩

/-- the edges are the images of the analogue frequencies 1 and -1 -/
theorem edges (T : Tr) (hT : T.ok) (w : ℝ) (hw : T.Edge w) : |T.X w| = |T.Y w| := by
  rw [← sq_eq_sq_iff_abs_eq_abs]
  have hh : ∀ fc fw : ℝ, (2 * Real.pi * fc + Real.pi * fw - (2 * Real.pi * fc - Real.pi * fw)) * (1 / 2) = Real.pi * fw := fun _ _ => by ring
  have hs : ∀ fc fw : ℝ, (2 * Real.pi * fc + Real.pi * fw + (2 * Real.pi * fc - Real.pi * fw)) * (1 / 2) = 2 * Real.pi * fc := fun _ _ => by ring
  cases T with
  | lowPass fc =>
    have c : 0 < Real.cos (Real.pi * fc) := Real.cos_pos_of_mem_Ioo
      ⟨by nlinarith [Real.pi_pos, hT.1], by nlinarith [Real.pi_pos, hT.2]⟩
    simp only [Tr.Edge] at hw
    simp only [Tr.X, Tr.Y, LowPass_X, LowPass_Y, LowPass_f, hw, show 2 * Real.pi * fc / 2 = Real.pi * fc by ring, Real.tan_eq_sin_div_cos]
    field_simp
  | highPass fc =>
    have c : 0 < Real.cos (Real.pi * fc) := Real.cos_pos_of_mem_Ioo
      ⟨by nlinarith [Real.pi_pos, hT.1], by nlinarith [Real.pi_pos, hT.2]⟩
    have s : 0 < Real.sin (Real.pi * fc) := Real.sin_pos_of_pos_of_lt_pi (mul_pos Real.pi_pos hT.1) (by nlinarith [Real.pi_pos, hT.2])
    simp only [Tr.Edge] at hw
    simp only [Tr.X, Tr.Y, HighPass_X, HighPass_Y, HighPass_f, hw, show 2 * Real.pi * fc / 2 = Real.pi * fc by ring, Real.tan_eq_sin_div_cos]
    field_simp
  | bandPass fc fw =>
    simp only [Tr.Edge, BandPass_lo, BandPass_hi] at hw
    have := band_edge _ _ w (band_cos fc fw hT) hw
    simp only [Tr.X, Tr.Y, BandPass_X, BandPass_Y, BandPass_a, BandPass_f, hh, hs, neg_sq]
    exact this
  | bandStop fc fw =>
    simp only [Tr.Edge, BandStop_lo, BandStop_hi] at hw
    have := band_edge _ _ w (band_cos fc fw hT) hw
    simp only [Tr.X, Tr.Y, BandStop_X, BandStop_Y, BandStop_a, BandStop_f, hh, hs]
    exact this.symm

/-- the ends of the frequency axis -/
theorem ends (fc fw : ℝ) :
    (Tr.lowPass fc).X 0 = 0 ∧ (Tr.lowPass fc).Y Real.pi = 0 ∧ (Tr.highPass fc).Y 0 = 0 ∧ (Tr.highPass fc).X Real.pi = 0 ∧
      (Tr.bandPass fc fw).Y 0 = 0 ∧ (Tr.bandPass fc fw).Y Real.pi = 0 ∧ (Tr.bandStop fc fw).X 0 = 0 ∧ (Tr.bandStop fc fw).X Real.pi = 0 := by
  simp [Tr.X, Tr.Y, LowPass_X, LowPass_Y, HighPass_X, HighPass_Y, BandPass_Y, BandStop_X]

/-- the squared reference gain -/
lemma gain_sq (n : ℕ) (a b : ℝ) : (if n % 2 = 1 then a else b) ^ 2 = ref2 n a b := by
  simp only [ref2]; split_ifs <;> rfl

/-! ### the laws of the filters -/

variable {n : ℕ} {s : ℕ → Sec}

theorem C20_filter (T : Tr) (hT : T.ok) (hn : 0 < n)
    (h : Filter T n (Butterworth_AnalogLowPass_pole n) (Butterworth_AnalogLowPass_zero n) (Butterworth_AnalogLowPass_realpole n)
      (Butterworth_AnalogLowPass_realzero n) (if n % 2 = 1 then Butterworth_AnalogLowPass_gain_odd n else Butterworth_AnalogLowPass_gain_even n)
      T.ref0 s) (w : ℝ) :
    (T.Y w ≠ 0 → H2 T n s w = 1 / (1 + (T.X w / T.Y w) ^ (2 * n))) ∧ (T.Y w = 0 → H2 T n s w = 0) := by
  obtain ⟨E, h1, h2⟩ := bridge T hT hn h
  rw [gain_sq] at h2
  exact C20 hn h1 h2 (defined T hT) (ref0_X T hT) w

theorem C21_filter (T : Tr) (hT : T.ok) (hn : 0 < n) (p0 : ℝ) (hp : ChebyshevI_AnalogLowPass_ok p0)
    (h : Filter T n (ChebyshevI_AnalogLowPass_pole n p0) (ChebyshevI_AnalogLowPass_zero n p0) (ChebyshevI_AnalogLowPass_realpole n p0)
      (ChebyshevI_AnalogLowPass_realzero n p0) (if n % 2 = 1 then ChebyshevI_AnalogLowPass_gain_odd n p0 else ChebyshevI_AnalogLowPass_gain_even n p0)
      T.ref0 s) (w : ℝ) :
    (T.Y w ≠ 0 → H2 T n s w = 1 / (1 + ((10 : ℝ) ^ (p0 / 10) - 1) * (Polynomial.Chebyshev.T ℝ n).eval (T.X w / T.Y w) ^ 2)) ∧
      (T.Y w = 0 → H2 T n s w = 0) := by
  obtain ⟨E, h1, h2⟩ := bridge T hT hn h
  rw [gain_sq] at h2
  exact C21 hn p0 hp h1 h2 (defined T hT) (ref0_X T hT) w

theorem C22_filter (T : Tr) (hT : T.ok) (hn : 0 < n) (p0 : ℝ) (hp : ChebyshevII_AnalogLowPass_ok p0)
    (h : Filter T n (ChebyshevII_AnalogLowPass_pole n p0) (ChebyshevII_AnalogLowPass_zero n p0) (ChebyshevII_AnalogLowPass_realpole n p0)
      (ChebyshevII_AnalogLowPass_realzero n p0) (if n % 2 = 1 then ChebyshevII_AnalogLowPass_gain_odd n p0 else ChebyshevII_AnalogLowPass_gain_even n p0)
      T.ref0 s) (w : ℝ) :
    (T.X w ≠ 0 → H2 T n s w * ((Polynomial.Chebyshev.T ℝ n).eval (T.Y w / T.X w) ^ 2 + ((10 : ℝ) ^ (p0 / 10) - 1)) =
      (Polynomial.Chebyshev.T ℝ n).eval (T.Y w / T.X w) ^ 2) ∧ (T.X w = 0 → H2 T n s w = 1) := by
  obtain ⟨E, h1, h2⟩ := bridge T hT hn h
  rw [gain_sq] at h2
  exact C22 hn p0 hp h1 h2 (defined T hT) (ref0_X T hT) w

theorem C23_Butterworth_filter (T : Tr) (hT : T.ok) (hs : ∀ fc fw, T ≠ .bandStop fc fw) (hn : 0 < n) (p0 : ℝ)
    (h : Filter T n (Butterworth_AnalogLowShelf_pole n p0) (Butterworth_AnalogLowShelf_zero n p0) (Butterworth_AnalogLowShelf_realpole n p0)
      (Butterworth_AnalogLowShelf_realzero n p0) (if n % 2 = 1 then Butterworth_AnalogLowShelf_gain_odd n p0 else Butterworth_AnalogLowShelf_gain_even n p0)
      T.refInf s) (w : ℝ) :
    (T.X w = 0 → H2 T n s w = (10 : ℝ) ^ (p0 / 10)) ∧ (T.Y w = 0 → H2 T n s w = 1) ∧ (|T.X w| = |T.Y w| → H2 T n s w = (10 : ℝ) ^ (p0 / 2 / 10)) := by
  obtain ⟨E, h1, h2⟩ := bridge T hT hn h
  rw [gain_sq] at h2
  exact C23_Butterworth hn p0 h1 h2 (defined T hT) (refInf_Y T hs) w

theorem C23_ChebyshevI_filter (T : Tr) (hT : T.ok) (hs : ∀ fc fw, T ≠ .bandStop fc fw) (hn : 0 < n) (p0 p1 : ℝ) (hp : ChebyshevI_AnalogLowShelf_ok p0 p1)
    (h : Filter T n (ChebyshevI_AnalogLowShelf_pole n p0 p1) (ChebyshevI_AnalogLowShelf_zero n p0 p1) (ChebyshevI_AnalogLowShelf_realpole n p0 p1)
      (ChebyshevI_AnalogLowShelf_realzero n p0 p1)
      (if n % 2 = 1 then ChebyshevI_AnalogLowShelf_gain_odd n p0 p1 else ChebyshevI_AnalogLowShelf_gain_even n p0 p1) T.refInf s) (w : ℝ) :
    (T.Y w = 0 → H2 T n s w = 1) ∧
    (T.X w = 0 → H2 T n s w = if n % 2 = 1 then (10 : ℝ) ^ (p0 / 10) else if p0 < 0 then (10 : ℝ) ^ ((p0 + p1) / 10) else (10 : ℝ) ^ ((p0 - p1) / 10)) := by
  obtain ⟨E, h1, h2⟩ := bridge T hT hn h
  rw [gain_sq] at h2
  exact C23_ChebyshevI hn p0 p1 hp h1 h2 (defined T hT) (refInf_Y T hs) w

theorem C23_ChebyshevII_filter (T : Tr) (hT : T.ok) (hs : ∀ fc fw, T ≠ .bandStop fc fw) (hn : 0 < n) (p0 p1 : ℝ) (hp : ChebyshevII_AnalogLowShelf_ok p0 p1)
    (h : Filter T n (ChebyshevII_AnalogLowShelf_pole n p0 p1) (ChebyshevII_AnalogLowShelf_zero n p0 p1) (ChebyshevII_AnalogLowShelf_realpole n p0 p1)
      (ChebyshevII_AnalogLowShelf_realzero n p0 p1)
      (if n % 2 = 1 then ChebyshevII_AnalogLowShelf_gain_odd n p0 p1 else ChebyshevII_AnalogLowShelf_gain_even n p0 p1) T.refInf s) (w : ℝ) :
    (T.Y w = 0 → H2 T n s w = 1) ∧
    (T.X w = 0 → H2 T n s w = if n % 2 = 1 then (10 : ℝ) ^ (p0 / 10) else if p0 < 0 then (10 : ℝ) ^ ((p0 + p1) / 10) else (10 : ℝ) ^ ((p0 - p1) / 10)) := by
  obtain ⟨E, h1, h2⟩ := bridge T hT hn h
  rw [gain_sq] at h2
  exact C23_ChebyshevII hn p0 p1 hp h1 h2 (defined T hT) (refInf_Y T hs) w

end
end Iir
