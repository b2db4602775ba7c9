import Mathlib.LinearAlgebra.Matrix.ToLinearEquiv
import Mathlib.LinearAlgebra.Matrix.Determinant.Basic
import Mathlib.LinearAlgebra.Matrix.Adjugate
import Mathlib.LinearAlgebra.Matrix.ToLin
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.Data.Int.Basic
import Mathlib.Data.Int.Interval
import Mathlib.Tactic.Positivity
import Mathlib.Tactic.Linarith
import Mathlib.Tactic.Ring
import Mathlib.Tactic.FieldSimp

open Matrix Finset

/-- elimination of the first column -/
theorem det_schur {m : ℕ} (M : Matrix (Fin (m+1)) (Fin (m+1)) ℚ) (h : M 0 0 ≠ 0) :
    M.det = M 0 0 * (Matrix.of fun i j : Fin m => M i.succ j.succ - M i.succ 0 * M 0 j.succ / M 0 0).det := by
  let c : Fin (m+1) → ℚ := fun i => if i = 0 then 0 else M i 0 / M 0 0
  let B : Matrix (Fin (m+1)) (Fin (m+1)) ℚ := fun i j => M i j - c i * M 0 j
  have e : M.det = B.det := by
    apply Matrix.det_eq_of_forall_row_eq_smul_add_const c 0 (by simp [c])
    intro i j
    simp only [B, c]
    simp
  rw [e, Matrix.det_succ_column_zero, Fin.sum_univ_succ]
  have z : ∀ i : Fin m, B i.succ 0 = 0 := by
    intro i
    simp only [B, c]
    rw [if_neg (Fin.succ_ne_zero i)]
    field_simp
    ring
  simp only [z]
  have b0 : B 0 0 = M 0 0 := by simp [B, c]
  simp only [Fin.val_zero, pow_zero, one_mul, b0, mul_zero, zero_mul, Finset.sum_const_zero, add_zero]
  congr 2
  ext i j
  simp only [Fin.succAbove_zero, Matrix.of_apply]
  show M i.succ j.succ - (if i.succ = 0 then 0 else M i.succ 0 / M 0 0) * M 0 j.succ = _
  rw [if_neg (Fin.succ_ne_zero i)]
  ring

/-- Gaussian elimination with pivot rows r 0, r 1, ... -/
def G (A : ℤ → ℤ → ℚ) (r : ℕ → ℤ) : ℕ → ℤ → ℤ → ℚ
  | 0, i, j => A i j
  | s+1, i, j => G A r s i j - G A r s i s * G A r s (r s) j / G A r s (r s) s

/-- product of the first s pivots -/
def PP (A : ℤ → ℤ → ℚ) (r : ℕ → ℤ) : ℕ → ℚ
  | 0 => 1
  | s+1 => PP A r s * G A r s (r s) s

def rowf (r : ℕ → ℤ) (s : ℕ) (i : ℤ) (t : Fin (s+1)) : ℤ := if t.val < s then r t.val else i
def colf (s : ℕ) (j : ℤ) (t : Fin (s+1)) : ℤ := if t.val < s then (t.val : ℤ) else j

/-- bordered minor -/
def minor {R : Type} (A : ℤ → ℤ → R) (r : ℕ → ℤ) (s : ℕ) (i j : ℤ) : Matrix (Fin (s+1)) (Fin (s+1)) R :=
  fun a b => A (rowf r s i a) (colf s j b)

theorem G_shift (A : ℤ → ℤ → ℚ) (r : ℕ → ℤ) : ∀ (s : ℕ) (i j : ℤ),
    G (fun i j => G A r 1 i (j+1)) (fun t => r (t+1)) s i j = G A r (s+1) i (j+1) := by
  intro s
  induction s with
  | zero => intro i j; rfl
  | succ s ih =>
    intro i j
    show G _ _ s i j - G _ _ s i s * G _ _ s (r (s+1)) j / G _ _ s (r (s+1)) s = _
    rw [ih, ih, ih, ih]
    conv_rhs => unfold G
    push_cast
    rfl

theorem PP_shift (A : ℤ → ℤ → ℚ) (r : ℕ → ℤ) : ∀ (s : ℕ),
    PP A r (s+1) = A (r 0) 0 * PP (fun i j => G A r 1 i (j+1)) (fun t => r (t+1)) s := by
  intro s
  induction s with
  | zero => simp [PP, G]
  | succ s ih =>
    have e : PP A r (s+1+1) = PP A r (s+1) * G A r (s+1) (r (s+1)) ((s+1 : ℕ) : ℤ) := rfl
    have e2 : PP (fun i j => G A r 1 i (j+1)) (fun t => r (t+1)) (s+1) =
      PP (fun i j => G A r 1 i (j+1)) (fun t => r (t+1)) s * G (fun i j => G A r 1 i (j+1)) (fun t => r (t+1)) s (r (s+1)) s := rfl
    rw [e, ih, e2, G_shift]
    push_cast
    ring

theorem det_minor : ∀ (s : ℕ) (A : ℤ → ℤ → ℚ) (r : ℕ → ℤ) (i j : ℤ),
    (∀ t, t < s → G A r t (r t) t ≠ 0) → (minor A r s i j).det = PP A r s * G A r s i j := by
  intro s
  induction s with
  | zero =>
    intro A r i j _
    simp [minor, PP, G, rowf, colf]
  | succ s ih =>
    intro A r i j h
    have h0 : A (r 0) 0 ≠ 0 := by
      have := h 0 (by omega)
      simpa [G] using this
    have m00 : (minor A r (s+1) i j) 0 0 = A (r 0) 0 := by
      simp [minor, rowf, colf]
    rw [det_schur _ (by rw [m00]; exact h0), m00, PP_shift, mul_assoc]
    congr 1
    have key := ih (fun i j => G A r 1 i (j+1)) (fun t => r (t+1)) i (j-1) (by
      intro t ht
      rw [G_shift]
      have := h (t+1) (by omega)
      push_cast at this
      exact this)
    rw [G_shift] at key
    have ej : j - 1 + 1 = j := by ring
    rw [ej] at key
    rw [← key]
    congr 1
    ext a b
    have hr0 : rowf r (s+1) i 0 = r 0 := by simp [rowf]
    have hc0 : colf (s+1) j 0 = 0 := by simp [colf]
    have hr : rowf r (s+1) i a.succ = rowf (fun t => r (t+1)) s i a := by
      simp [rowf, Fin.val_succ]
    have hc : colf (s+1) j b.succ = colf s (j-1) b + 1 := by
      simp only [colf, Fin.val_succ]
      by_cases hb : b.val < s
      · rw [if_pos (by omega), if_pos hb]; push_cast; ring
      · rw [if_neg (by omega), if_neg hb]; ring
    simp only [Matrix.of_apply, minor, hr0, hc0, hr, hc]
    simp [G]

/-- pivot of stage s; 1 before the first stage -/
def RR (rho : ℤ → ℤ) (s : ℤ) : ℤ := if s < 0 then 1 else rho s

/-- V follows the integer-preserving elimination for the stages below k -/
def Elim (V : ℤ → ℤ → ℤ → ℤ) (rp rho : ℤ → ℤ) (k : ℤ) : Prop :=
  ∀ s, 0 ≤ s → s < k → rho s = V s (rp s) s ∧ rho s ≠ 0 ∧
    ∀ i j, V (s+1) i j * RR rho (s-1) = rho s * V s i j - V s i s * V s (rp s) j

theorem elim_pivot {V rp rho k} (h : Elim V rp rho k) (s : ℤ) (h0 : 0 ≤ s) (h1 : s < k) :
    RR rho s = V s (rp s) s ∧ RR rho s ≠ 0 := by
  have e : RR rho s = rho s := by simp [RR, not_lt.mpr h0]
  rw [e]; exact ⟨(h s h0 h1).1, (h s h0 h1).2.1⟩

theorem elim_step {V rp rho k} (h : Elim V rp rho k) (s i j : ℤ) (h0 : 0 ≤ s) (h1 : s < k) :
    V (s+1) i j * RR rho (s-1) = RR rho s * V s i j - V s i s * V s (rp s) j := by
  have e : RR rho s = rho s := by simp [RR, not_lt.mpr h0]
  rw [e]; exact (h s h0 h1).2.2 i j

theorem RR_ne {V rp rho k} (h : Elim V rp rho k) (s : ℤ) (h1 : s < k) : RR rho s ≠ 0 := by
  by_cases h0 : s < 0
  · simp [RR, h0]
  · exact (elim_pivot h s (by omega) h1).2

/-- stages that do not change an entry only scale it -/
theorem elim_gap {V rp rho k} (h : Elim V rp rho k) (i j : ℤ) :
    ∀ (d : ℕ) (a : ℤ), 0 ≤ a → a + d ≤ k → (∀ s, a ≤ s → s < a + d → V s i s = 0 ∨ V s (rp s) j = 0) →
      V (a+d) i j * RR rho (a-1) = V a i j * RR rho (a+d-1) := by
  intro d
  induction d with
  | zero => intro a _ _ _; simp
  | succ d ih =>
    intro a ha hk hs
    have hk' : a + (d:ℤ) + 1 ≤ k := by push_cast at hk; omega
    have h1 := ih a ha (by omega) (fun s x y => hs s x (by push_cast; omega))
    have h2 := elim_step h (a+d) i j (by omega) (by omega)
    have z : V (a+d) i (a+d) * V (a+d) (rp (a+d)) j = 0 := by
      rcases hs (a+d) (by omega) (by push_cast; omega) with e | e <;> rw [e] <;> ring
    rw [z, sub_zero] at h2
    have n1 := RR_ne h (a+d-1) (by omega)
    have e : a + ((d+1 : ℕ) : ℤ) = a + d + 1 := by push_cast; ring
    have e2 : a + (d:ℤ) + 1 - 1 = a + d := by ring
    rw [e, e2]
    apply mul_right_cancel₀ n1
    calc V (a+d+1) i j * RR rho (a-1) * RR rho (a+d-1)
        = (V (a+d+1) i j * RR rho (a+d-1)) * RR rho (a-1) := by ring
      _ = RR rho (a+d) * V (a+d) i j * RR rho (a-1) := by rw [h2]
      _ = RR rho (a+d) * (V (a+d) i j * RR rho (a-1)) := by ring
      _ = RR rho (a+d) * (V a i j * RR rho (a+d-1)) := by rw [h1]
      _ = V a i j * RR rho (a+d) * RR rho (a+d-1) := by ring

/-- the pivot rows of earlier stages are zero -/
theorem elim_zero {V rp rho k} (h : Elim V rp rho k) (t j : ℤ) (ht : 0 ≤ t) :
    ∀ (d : ℕ), t + 1 + d ≤ k → V (t+1+d) (rp t) j = 0 := by
  intro d
  induction d generalizing j with
  | zero =>
    intro hk
    have h1 := elim_step h t (rp t) j ht (by push_cast at hk; omega)
    have h2 := (elim_pivot h t ht (by push_cast at hk; omega)).1
    have n1 := RR_ne h (t-1) (by push_cast at hk; omega)
    rw [h2] at h1
    have : V (t+1) (rp t) j * RR rho (t-1) = 0 := by rw [h1]; ring
    rcases mul_eq_zero.mp this with e | e
    · simpa using e
    · exact absurd e n1
  | succ d ih =>
    intro hk
    push_cast at hk
    have i1 := ih j (by omega)
    have i2 := ih (t+1+d) (by omega)
    have h1 := elim_step h (t+1+d) (rp t) j (by omega) (by omega)
    have n1 := RR_ne h (t+1+d-1) (by omega)
    rw [i1, i2] at h1
    have : V (t+1+d+1) (rp t) j * RR rho (t+1+d-1) = 0 := by rw [h1]; ring
    rcases mul_eq_zero.mp this with e | e
    · have e3 : t + 1 + ((d+1 : ℕ) : ℤ) = t+1+d+1 := by push_cast; ring
      rw [e3]; exact e
    · exact absurd e n1

theorem elim_eliminated {V rp rho k} (h : Elim V rp rho k) (s t j : ℤ) (ht : 0 ≤ t) (hs : t < s) (hk : s ≤ k) :
    V s (rp t) j = 0 := by
  obtain ⟨d, hd⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ s - (t+1) by omega)
  have := elim_zero h t j ht d (by omega)
  have e : t + 1 + (d:ℤ) = s := by omega
  rwa [e] at this

/-- rows outside a set that holds the entries of column j and is closed under the columns of the factor -/
theorem elim_outside {V rp rho k} (h : Elim V rp rho k) (n j : ℤ) (pinv : ℤ → ℤ) (inp : ℤ → Prop) (hkn : k ≤ n)
    (hp : ∀ i, 0 ≤ i → i < n → 0 ≤ pinv i ∧ pinv i < n ∧ rp (pinv i) = i)
    (hr : ∀ t, 0 ≤ t → t < n → 0 ≤ rp t ∧ rp t < n ∧ pinv (rp t) = t)
    (h0 : ∀ i, 0 ≤ i → i < n → ¬ inp i → V 0 i j = 0)
    (hc : ∀ s i, 0 ≤ s → s < k → 0 ≤ i → i < n → s ≤ pinv i → inp (rp s) → ¬ inp i → V s i s = 0) :
    ∀ (s : ℕ), (s:ℤ) ≤ k → ∀ i, 0 ≤ i → i < n → ¬ inp i → V s i j = 0 := by
  intro s
  induction s with
  | zero => intro _ i a b c; exact_mod_cast h0 i a b c
  | succ s ih =>
    intro hs i a b c
    push_cast at hs ⊢
    have i1 := ih (by omega) i a b c
    have h1 := elim_step h s i j (by omega) (by omega)
    have n1 := RR_ne h (s-1) (by omega)
    have z : V s i s * V s (rp s) j = 0 := by
      have hrs := hr s (by omega) (by omega)
      by_cases ip : inp (rp s)
      · have : V s i s = 0 := by
          by_cases hpi : (s:ℤ) ≤ pinv i
          · exact hc s i (by omega) (by omega) a b hpi ip c
          · have hpi' := hp i a b
            have := elim_eliminated h s (pinv i) s hpi'.1 (by omega) (by omega)
            rw [hpi'.2.2] at this
            exact this
        rw [this]; ring
      · rw [ih (by omega) (rp s) hrs.1 hrs.2.1 ip]; ring
    rw [i1, z] at h1
    have : V (s+1) i j * RR rho (s-1) = 0 := by rw [h1]; ring
    rcases mul_eq_zero.mp this with e | e
    · exact e
    · exact absurd e n1

/-- Elim depends on the pivots below k only -/
theorem elim_frame {V V' rp rp' rho rho' k} (h : Elim V rp rho k) (h1 : ∀ s, 0 ≤ s → s < k → rp' s = rp s ∧ rho' s = rho s)
    (hV : ∀ s i j, 0 ≤ s → s ≤ k → V' s i j = V s i j) : Elim V' rp' rho' k := by
  intro s h0 hk
  obtain ⟨e1, e2⟩ := h1 s h0 hk
  have hs := h s h0 hk
  refine ⟨?_, ?_, ?_⟩
  · rw [e1, e2, hV s _ _ h0 (by omega)]; exact hs.1
  · rw [e2]; exact hs.2.1
  · intro i j
    rw [e1, e2, hV s _ _ h0 (by omega), hV s _ _ h0 (by omega), hV s _ _ h0 (by omega), hV (s+1) _ _ (by omega) (by omega)]
    have e3 : RR rho' (s-1) = RR rho (s-1) := by
      by_cases c : s - 1 < 0
      · simp [RR, c]
      · simp [RR, c, (h1 (s-1) (by omega) (by omega)).2]
    rw [e3]; exact hs.2.2 i j

/-- the stages are the rational elimination times the product of the pivots -/
theorem elim_link {V rp rho k} (h : Elim V rp rho k) : ∀ (s : ℕ), (s:ℤ) ≤ k →
    (∀ i j, (V s i j : ℚ) = PP (fun i j => (V 0 i j : ℚ)) (fun t => rp t) s * G (fun i j => (V 0 i j : ℚ)) (fun t => rp t) s i j) ∧
    PP (fun i j => (V 0 i j : ℚ)) (fun t => rp t) s = (RR rho (s-1) : ℚ) ∧
    (∀ t, t < s → G (fun i j => (V 0 i j : ℚ)) (fun t => rp t) t (rp t) t ≠ 0) := by
  intro s
  induction s with
  | zero =>
    intro _
    refine ⟨fun i j => by simp [PP, G], by simp [PP, RR], fun t ht => by omega⟩
  | succ s ih =>
    intro hs
    push_cast at hs
    obtain ⟨l1, l2, l3⟩ := ih (by omega)
    set A : ℤ → ℤ → ℚ := fun i j => (V 0 i j : ℚ) with hA
    set r : ℕ → ℤ := fun t => rp t with hr
    have hp := elim_pivot h s (by omega) (by omega)
    have nP : PP A r s ≠ 0 := by
      rw [l2]; exact_mod_cast RR_ne h (s-1) (by omega)
    have hg : (RR rho s : ℚ) = PP A r s * G A r s (rp s) s := by
      rw [hp.1]; exact l1 _ _
    have ng : G A r s (rp s) s ≠ 0 := by
      intro e
      rw [e, mul_zero] at hg
      exact hp.2 (by exact_mod_cast hg)
    have hPP : PP A r (s+1) = PP A r s * G A r s (rp s) s := rfl
    refine ⟨?_, ?_, ?_⟩
    · intro i j
      have h1 := elim_step h s i j (by omega) (by omega)
      have h2 : (V (s+1) i j : ℚ) * RR rho (s-1) = RR rho s * V s i j - V s i s * V s (rp s) j := by exact_mod_cast h1
      rw [← l2, hg, l1 i j, l1 i s, l1 (rp s) j] at h2
      have hG : G A r (s+1) i j = G A r s i j - G A r s i s * G A r s (rp s) j / G A r s (rp s) s := rfl
      rw [hPP, hG]
      push_cast
      apply mul_right_cancel₀ nP
      rw [h2]
      field_simp
    · rw [hPP, ← hg]; push_cast; congr 2; ring
    · intro t ht
      by_cases c : t < s
      · exact l3 t c
      · have : t = s := by omega
        subst this; exact ng

theorem minor_cast (A : ℤ → ℤ → ℤ) (r : ℕ → ℤ) (s : ℕ) (i j : ℤ) :
    (((minor A r s i j).det : ℤ) : ℚ) = (minor (fun i j => (A i j : ℚ)) r s i j).det := by
  have := RingHom.map_det (Int.castRingHom ℚ) (minor A r s i j)
  simp only [eq_intCast] at this
  rw [this]
  rfl

/-- every stage is a bordered minor -/
theorem elim_minor {V rp rho k} (h : Elim V rp rho k) (s : ℕ) (hs : (s:ℤ) ≤ k) (i j : ℤ) :
    V s i j = (minor (fun i j => V 0 i j) (fun t => rp t) s i j).det := by
  obtain ⟨l1, _, l3⟩ := elim_link h s hs
  have := det_minor s (fun i j => (V 0 i j : ℚ)) (fun t => rp t) i j l3
  rw [← l1, ← minor_cast] at this
  exact_mod_cast this.symm

/-- a further stage exists: the divisions are exact -/
theorem elim_extend {V rp rho k} (h : Elim V rp rho k) (hk : 0 ≤ k) (rp' rho' : ℤ → ℤ)
    (h1 : ∀ s, 0 ≤ s → s < k → rp' s = rp s ∧ rho' s = rho s)
    (hr : rho' k = V k (rp' k) k) (hn : rho' k ≠ 0) :
    ∃ V' : ℤ → ℤ → ℤ → ℤ, (∀ s i j, 0 ≤ s → s ≤ k → V' s i j = V s i j) ∧ Elim V' rp' rho' (k+1) := by
  obtain ⟨K, rfl⟩ := Int.eq_ofNat_of_zero_le hk
  have hf : Elim V rp' rho' K := elim_frame h h1 (fun _ _ _ _ _ => rfl)
  let D : ℤ → ℤ → ℤ := fun i j => (minor (fun i j => V 0 i j) (fun t => rp' t) (K+1) i j).det
  let V' : ℤ → ℤ → ℤ → ℤ := fun s i j => if s ≤ K then V s i j else D i j
  refine ⟨V', fun s i j _ hs => by simp [V', hs], ?_⟩
  intro s h0 hs
  by_cases c : s < K
  · have hh := hf s h0 c
    have a : s ≤ (K:ℤ) := by omega
    have b : s + 1 ≤ (K:ℤ) := by omega
    simpa only [V', a, b, if_true] using hh
  · have e : s = K := by omega
    subst e
    have a : ¬ ((K:ℤ) + 1 ≤ K) := by omega
    simp only [V', le_refl, if_true, a, if_false]
    refine ⟨hr, hn, ?_⟩
    intro i j
    obtain ⟨l1, l2, l3⟩ := elim_link hf K (le_refl _)
    set A : ℤ → ℤ → ℚ := fun i j => (V 0 i j : ℚ) with hA
    set r : ℕ → ℤ := fun t => rp' t with hr'
    have nP : PP A r K ≠ 0 := by
      rw [l2]; exact_mod_cast RR_ne hf (K-1) (by omega)
    have hg : (rho' K : ℚ) = PP A r K * G A r K (rp' K) K := by
      rw [hr]; exact l1 _ _
    have ng : G A r K (rp' K) K ≠ 0 := by
      intro e
      rw [e, mul_zero] at hg
      exact hn (by exact_mod_cast hg)
    have hD : ((D i j : ℤ) : ℚ) = PP A r (K+1) * G A r (K+1) i j := by
      rw [show ((D i j : ℤ) : ℚ) = (minor A r (K+1) i j).det from minor_cast _ _ _ _ _]
      apply det_minor
      intro t ht
      by_cases c : t < K
      · exact l3 t c
      · have : t = K := by omega
        subst this; exact ng
    have hPP : PP A r (K+1) = PP A r K * G A r K (rp' K) K := rfl
    have hG : G A r (K+1) i j = G A r K i j - G A r K i K * G A r K (rp' K) j / G A r K (rp' K) K := rfl
    have goal : ((D i j : ℤ) : ℚ) * (RR rho' (K-1) : ℚ) = rho' K * V K i j - V K i K * V K (rp' K) j := by
      rw [hD, hPP, hG, ← l2, hg, l1 i j, l1 i K, l1 (rp' K) j]
      field_simp
    exact_mod_cast goal

/-- no stage has happened yet -/
theorem elim_empty (V : ℤ → ℤ → ℤ → ℤ) (rp rho : ℤ → ℤ) : Elim V rp rho 0 := by
  intro s h0 h1; omega

/-- a stage of a column is the column plus a combination of the columns before the stage -/
theorem G_comb (A : ℤ → ℤ → ℚ) (r : ℕ → ℤ) : ∀ (s : ℕ) (j : ℤ),
    ∃ c : ℕ → ℚ, ∀ i, G A r s i j = A i j + ∑ t ∈ range s, c t * A i t := by
  intro s
  induction s with
  | zero => intro j; exact ⟨fun _ => 0, fun i => by simp [G]⟩
  | succ s ih =>
    intro j
    obtain ⟨c, hc⟩ := ih j
    obtain ⟨d, hd⟩ := ih s
    refine ⟨fun t => if t = s then -(G A r s (r s) j / G A r s (r s) s) else c t - (G A r s (r s) j / G A r s (r s) s) * d t, fun i => ?_⟩
    have e : G A r (s+1) i j = G A r s i j - (G A r s (r s) j / G A r s (r s) s) * G A r s i s := by
      show G A r s i j - G A r s i s * G A r s (r s) j / G A r s (r s) s = _
      ring
    rw [e, sum_range_succ, hc i, hd i]
    have e2 : ∀ t ∈ range s, (if t = s then -(G A r s (r s) j / G A r s (r s) s) else c t - (G A r s (r s) j / G A r s (r s) s) * d t) * A i t
        = c t * A i t - (G A r s (r s) j / G A r s (r s) s) * (d t * A i t) := by
      intro t ht
      rw [if_neg (by have := mem_range.mp ht; omega)]
      ring
    rw [sum_congr rfl e2, sum_sub_distrib, ← mul_sum]
    simp only [if_true]
    ring

/-- the matrix of stage 0 -/
def A0 (V : ℤ → ℤ → ℤ → ℤ) (N : ℕ) : Matrix (Fin N) (Fin N) ℚ := fun i j => (V 0 (i.val : ℤ) (j.val : ℤ) : ℚ)

theorem A0_int (V : ℤ → ℤ → ℤ → ℤ) (N : ℕ) :
    (A0 V N).det = ((Matrix.det (fun i j : Fin N => V 0 (i.val : ℤ) (j.val : ℤ)) : ℤ) : ℚ) := by
  have := RingHom.map_det (Int.castRingHom ℚ) (Matrix.of (fun i j : Fin N => V 0 (i.val : ℤ) (j.val : ℤ)))
  simp only [eq_intCast] at this
  exact this.symm

/-- a column without a pivot: the determinant is zero -/
theorem elim_singular {V rp rho} {K N : ℕ} (h : Elim V rp rho K) (hK : K < N) (pinv : ℤ → ℤ)
    (hp : ∀ i, 0 ≤ i → i < (N:ℤ) → 0 ≤ pinv i ∧ pinv i < N ∧ rp (pinv i) = i)
    (hz : ∀ i, 0 ≤ i → i < (N:ℤ) → (K:ℤ) ≤ pinv i → V K i K = 0) :
    Matrix.det (fun i j : Fin N => V 0 (i.val : ℤ) (j.val : ℤ)) = 0 := by
  have zero : ∀ i, 0 ≤ i → i < (N:ℤ) → V K i K = 0 := by
    intro i h0 h1
    by_cases c : (K:ℤ) ≤ pinv i
    · exact hz i h0 h1 c
    · have hpi := hp i h0 h1
      have := elim_eliminated h K (pinv i) K hpi.1 (by omega) (by omega)
      rw [hpi.2.2] at this
      exact this
  obtain ⟨l1, l2, _⟩ := elim_link h K (le_refl _)
  have nP : PP (fun i j => (V 0 i j : ℚ)) (fun t => rp t) K ≠ 0 := by
    rw [l2]; exact_mod_cast RR_ne h (K-1) (by omega)
  obtain ⟨c, hc⟩ := G_comb (fun i j => (V 0 i j : ℚ)) (fun t => rp t) K K
  have main : (A0 V N).det = 0 := by
    apply Matrix.exists_mulVec_eq_zero_iff.mp
    refine ⟨fun t => if t.val < K then c t.val else if t.val = K then 1 else 0, ?_, ?_⟩
    · intro e
      have := congrFun e ⟨K, hK⟩
      simp at this
    · ext i
      have g0 : G (fun i j => (V 0 i j : ℚ)) (fun t => rp t) K i.val K = 0 := by
        have z := zero i.val (by omega) (by have := i.isLt; omega)
        have l := l1 i.val K
        rw [z] at l
        push_cast at l
        rcases mul_eq_zero.mp l.symm with e | e
        · exact absurd e nP
        · exact e
      rw [hc] at g0
      show ∑ t : Fin N, A0 V N i t * (if t.val < K then c t.val else if t.val = K then 1 else 0) = 0
      have e : ∀ t : Fin N, A0 V N i t * (if t.val < K then c t.val else if t.val = K then 1 else 0) =
          (fun t : ℕ => (V 0 i.val t : ℚ) * (if t < K then c t else if t = K then 1 else 0)) t.val := by
        intro t; rfl
      rw [sum_congr rfl (fun t _ => e t), Fin.sum_univ_eq_sum_range (fun t : ℕ => (V 0 i.val t : ℚ) * (if t < K then c t else if t = K then 1 else 0))]
      rw [← sum_range_add_sum_Ico _ (show K + 1 ≤ N from hK), sum_range_succ]
      have s1 : ∑ t ∈ range K, (V 0 i.val t : ℚ) * (if t < K then c t else if t = K then 1 else 0) = ∑ t ∈ range K, c t * (V 0 i.val t : ℚ) := by
        apply sum_congr rfl
        intro t ht
        rw [if_pos (mem_range.mp ht)]; ring
      have s2 : ∑ t ∈ Ico (K+1) N, (V 0 i.val t : ℚ) * (if t < K then c t else if t = K then 1 else 0) = 0 := by
        apply sum_eq_zero
        intro t ht
        have := mem_Ico.mp ht
        rw [if_neg (by omega), if_neg (by omega)]; ring
      rw [s1, s2, if_neg (by omega), if_pos rfl]
      show _ = (0:ℚ)
      linarith [g0]
  rw [A0_int] at main
  exact_mod_cast main

/-- all stages: the determinant is not zero -/
theorem elim_nonsingular {V rp rho} {N : ℕ} (h : Elim V rp rho N) (hN : 1 ≤ N)
    (hr : ∀ t, 0 ≤ t → t < (N:ℤ) → 0 ≤ rp t ∧ rp t < N) :
    Matrix.det (fun i j : Fin N => V 0 (i.val : ℤ) (j.val : ℤ)) ≠ 0 := by
  intro hd
  have h0 : (A0 V N).det = 0 := by rw [A0_int, hd]; simp
  obtain ⟨M, rfl⟩ : ∃ M, N = M + 1 := ⟨N - 1, by omega⟩
  obtain ⟨v, nv, hv⟩ := Matrix.exists_mulVec_eq_zero_iff.mpr h0
  have hp := elim_pivot h M (by omega) (by push_cast; omega)
  have hm := elim_minor h M (by push_cast; omega) (rp M) M
  rw [← hp.1] at hm
  have z : ((minor (fun i j => V 0 i j) (fun t => rp t) M (rp M) M).det : ℚ) = 0 := by
    rw [minor_cast]
    apply Matrix.exists_mulVec_eq_zero_iff.mp
    refine ⟨v, nv, ?_⟩
    ext a
    have ra : rowf (fun t => rp t) M (rp M) a = rp a.val := by
      unfold rowf
      by_cases c : a.val < M
      · rw [if_pos c]
      · rw [if_neg c]; have := a.isLt; have e : a.val = M := by omega
        rw [e]
    have hra := hr a.val (by omega) (by have := a.isLt; push_cast; omega)
    have hrow := congrFun hv ⟨(rp a.val).toNat, by omega⟩
    show ∑ t : Fin (M+1), minor (fun i j => (V 0 i j : ℚ)) (fun t => rp t) M (rp M) M a t * v t = 0
    have hrow' : ∑ t : Fin (M+1), A0 V (M+1) ⟨(rp a.val).toNat, by omega⟩ t * v t = 0 := hrow
    rw [← hrow']
    apply sum_congr rfl
    intro t _
    have ct : colf M M t = t.val := by
      unfold colf
      by_cases c : t.val < M
      · rw [if_pos c]
      · rw [if_neg c]; have := t.isLt; omega
    have e3 : (((rp a.val).toNat : ℕ) : ℤ) = rp a.val := by omega
    simp only [minor, ra, ct, A0, e3]
  rw [← hm] at z
  exact hp.2 (by exact_mod_cast z)

/-- columns that have been eliminated are zero -/
theorem elim_column {V rp rho k} (h : Elim V rp rho k) (i j : ℤ) (hj : 0 ≤ j) :
    ∀ (d : ℕ), j + 1 + d ≤ k → V (j+1+d) i j = 0 := by
  intro d
  induction d generalizing i with
  | zero =>
    intro hk
    have h1 := elim_step h j i j hj (by push_cast at hk; omega)
    have h2 := (elim_pivot h j hj (by push_cast at hk; omega)).1
    have n1 := RR_ne h (j-1) (by push_cast at hk; omega)
    rw [h2] at h1
    have : V (j+1) i j * RR rho (j-1) = 0 := by rw [h1]; ring
    rcases mul_eq_zero.mp this with e | e
    · simpa using e
    · exact absurd e n1
  | succ d ih =>
    intro hk
    push_cast at hk
    have i1 := ih i (by omega)
    have i2 := ih (rp (j+1+d)) (by omega)
    have h1 := elim_step h (j+1+d) i j (by omega) (by omega)
    have n1 := RR_ne h (j+1+d-1) (by omega)
    rw [i1, i2] at h1
    have : V (j+1+d+1) i j * RR rho (j+1+d-1) = 0 := by rw [h1]; ring
    rcases mul_eq_zero.mp this with e | e
    · have e3 : j + 1 + ((d+1 : ℕ) : ℤ) = j+1+d+1 := by push_cast; ring
      rw [e3]; exact e
    · exact absurd e n1

/-- P*A*Q = L * inv(D) * U for the factors a complete elimination defines:
    L(t,s) = V(s,rp t,s) for s <= t, U(s,j) = V(s,rp s,j) for s <= j, zero elsewhere, D(s,s) = rho(s-1) rho(s) -/
theorem lu_exact {V rp rho} {N : ℕ} (h : Elim V rp rho N) (L U : ℕ → ℕ → ℤ)
    (hL : ∀ t s, t < N → s < N → L t s = if s ≤ t then V s (rp t) s else 0)
    (hU : ∀ s j, s < N → j < N → U s j = if s ≤ j then V s (rp s) j else 0)
    (t j : ℕ) (ht : t < N) (hj : j < N) :
    (V 0 (rp t) j : ℚ) = ∑ s ∈ range N, (L t s : ℚ) * (U s j : ℚ) / ((RR rho ((s:ℤ)-1) : ℚ) * (RR rho s : ℚ)) := by
  have hL' : ∀ s, s < N → L t s = V s (rp t) s := by
    intro s hs
    rw [hL t s ht hs]
    by_cases c : s ≤ t
    · rw [if_pos c]
    · rw [if_neg c, elim_eliminated h s t s (by omega) (by omega) (by omega)]
  have hU' : ∀ s, s < N → U s j = V s (rp s) j := by
    intro s hs
    rw [hU s j hs hj]
    by_cases c : s ≤ j
    · rw [if_pos c]
    · rw [if_neg c]
      have := elim_column h (rp s) j (by omega) (s - j - 1) (by omega)
      have e : (j:ℤ) + 1 + ((s - j - 1 : ℕ) : ℤ) = s := by omega
      rw [e] at this
      exact this.symm
  have tele : ∀ M : ℕ, M ≤ N → (V 0 (rp t) j : ℚ) = (V M (rp t) j : ℚ) / RR rho ((M:ℤ)-1) +
      ∑ s ∈ range M, (L t s : ℚ) * (U s j : ℚ) / ((RR rho ((s:ℤ)-1) : ℚ) * (RR rho s : ℚ)) := by
    intro M
    induction M with
    | zero => intro _; simp [RR]
    | succ M ih =>
      intro hM
      rw [ih (by omega), sum_range_succ, hL' M (by omega), hU' M (by omega)]
      have h1 := elim_step h M (rp t) j (by omega) (by omega)
      have h2 : (V (M+1) (rp t) j : ℚ) * RR rho ((M:ℤ)-1) = RR rho M * V M (rp t) j - V M (rp t) M * V M (rp M) j := by exact_mod_cast h1
      have n1 : (RR rho ((M:ℤ)-1) : ℚ) ≠ 0 := by exact_mod_cast RR_ne h (M-1) (by omega)
      have n2 : (RR rho M : ℚ) ≠ 0 := by exact_mod_cast RR_ne h M (by omega)
      have e1 : (((M+1 : ℕ) : ℤ)) - 1 = M := by push_cast; ring
      rw [e1]
      push_cast
      have h3 : (V (M+1) (rp t) j : ℚ) = (RR rho M * V M (rp t) j - V M (rp t) M * V M (rp M) j) / RR rho ((M:ℤ)-1) := by
        rw [eq_div_iff n1]; exact h2
      rw [h3]
      field_simp
      ring
  rw [tele N (le_refl _), elim_eliminated h N t j (by omega) (by omega) (le_refl _)]
  simp

/-- right-hand sides are further columns of an elimination -/
theorem elim_augment {V rp rho} {N : ℕ} (h : Elim V rp rho N) (b : ℤ → ℤ → ℤ) :
    ∃ V' : ℤ → ℤ → ℤ → ℤ, Elim V' rp rho N ∧ (∀ r t, 0 ≤ t → V' 0 r (N + t) = b r t) ∧
      (∀ s i (j : ℤ), 0 ≤ s → s ≤ (N:ℤ) → j < (N:ℤ) → V' s i j = V s i j) := by
  let A' : ℤ → ℤ → ℤ := fun i j => if j < N then V 0 i j else b i (j - N)
  let r : ℕ → ℤ := fun t => rp t
  let V' : ℤ → ℤ → ℤ → ℤ := fun s i j => (minor A' r s.toNat i j).det
  have agree : ∀ (s : ℕ), s ≤ N → ∀ i j, j < (N:ℤ) → V' s i j = V s i j := by
    intro s hs i j hj
    rw [elim_minor h s (by exact_mod_cast hs) i j]
    show (minor A' r (s:ℤ).toNat i j).det = _
    have e : ((s:ℤ)).toNat = s := by simp
    rw [e]
    congr 1
    ext a c
    have hc : colf s j c < N := by
      unfold colf
      by_cases d : c.val < s
      · rw [if_pos d]; omega
      · rw [if_neg d]; exact hj
    simp only [minor, A', if_pos hc]
    rfl
  have V0 : ∀ i j, V' 0 i j = A' i j := by
    intro i j
    show (minor A' r (0:ℤ).toNat i j).det = _
    simp [minor, rowf, colf]
  refine ⟨V', ?_, ?_, ?_⟩
  · have hG : ∀ t, t < N → G (fun i j => (A' i j : ℚ)) r t (r t) t ≠ 0 := by
      obtain ⟨l1, l2, l3⟩ := elim_link h N (le_refl _)
      have same : ∀ (t : ℕ), t ≤ N → ∀ i j, j < (N:ℤ) → G (fun i j => (A' i j : ℚ)) r t i j = G (fun i j => (V 0 i j : ℚ)) (fun t => rp t) t i j := by
        intro t
        induction t with
        | zero => intro _ i j hj; simp [G, A', hj]
        | succ t ih =>
          intro ht i j hj
          show G _ r t i j - G _ r t i t * G _ r t (r t) j / G _ r t (r t) t = _
          rw [ih (by omega) i j hj, ih (by omega) i t (by omega), ih (by omega) (r t) j hj, ih (by omega) (r t) t (by omega)]
          rfl
      intro t ht
      rw [same t (by omega) _ _ (by omega)]
      exact l3 t ht
    have cast : ∀ (s : ℕ), s ≤ N → ∀ i j, (V' s i j : ℚ) = PP (fun i j => (A' i j : ℚ)) r s * G (fun i j => (A' i j : ℚ)) r s i j := by
      intro s hs i j
      have : V' s i j = (minor A' r s i j).det := by
        show (minor A' r (s:ℤ).toNat i j).det = _
        simp
      rw [this, minor_cast]
      exact det_minor s _ r i j (fun t ht => hG t (by omega))
    intro s h0 hs
    obtain ⟨S, rfl⟩ := Int.eq_ofNat_of_zero_le h0
    have hS : S < N := by exact_mod_cast hs
    have hh := h S h0 hs
    refine ⟨?_, hh.2.1, ?_⟩
    · rw [agree S (by omega) _ _ (by omega)]; exact hh.1
    · intro i j
      have e1 : ((S:ℤ) + 1) = ((S+1 : ℕ) : ℤ) := by push_cast; ring
      have c1 := cast (S+1) (by omega) i j
      have c2 := cast S (by omega) i j
      have c3 := cast S (by omega) i S
      have c4 := cast S (by omega) (rp S) j
      have c5 := cast S (by omega) (rp S) S
      rw [agree S (by omega) _ _ (by omega), ← hh.1] at c5
      have hPP : PP (fun i j => (A' i j : ℚ)) r (S+1) = PP (fun i j => (A' i j : ℚ)) r S * G (fun i j => (A' i j : ℚ)) r S (r S) S := rfl
      have hGs : G (fun i j => (A' i j : ℚ)) r (S+1) i j = G (fun i j => (A' i j : ℚ)) r S i j - G (fun i j => (A' i j : ℚ)) r S i S * G (fun i j => (A' i j : ℚ)) r S (r S) j / G (fun i j => (A' i j : ℚ)) r S (r S) S := rfl
      -- the product of the pivots is the previous pivot
      have hR : ∀ (M : ℕ), M ≤ N → PP (fun i j => (A' i j : ℚ)) r M = (RR rho ((M:ℤ)-1) : ℚ) := by
        intro M
        induction M with
        | zero => intro _; simp [PP, RR]
        | succ M ih =>
          intro hM
          have d5 := cast M (by omega) (rp M) M
          have hm := h M (by omega) (by push_cast; omega)
          rw [agree M (by omega) _ _ (by omega), ← hm.1] at d5
          have e : RR rho (((M+1:ℕ):ℤ)-1) = rho M := by
            have : (((M+1:ℕ):ℤ)-1) = M := by push_cast; ring
            rw [this]; simp [RR]
          rw [e, d5]; rfl
      have hR' := hR S (by omega)
      have nG := hG S hS
      have goal : (V' ((S+1:ℕ):ℤ) i j : ℚ) * (RR rho ((S:ℤ)-1) : ℚ) = rho S * V' S i j - V' S i S * V' S (rp S) j := by
        rw [c1, hPP, hGs, ← hR', c5, c2, c3, c4]
        have nG' : G (fun i j => (A' i j : ℚ)) r S (rp S) S ≠ 0 := nG
        have hrS : r S = rp S := rfl
        rw [hrS]
        field_simp
      rw [e1]
      exact_mod_cast goal
  · intro rr t ht
    rw [V0]
    have : ¬ ((N:ℤ) + t < N) := by omega
    simp only [A', if_neg this]
    congr 1
    ring
  · intro s i j h0 hs hj
    obtain ⟨S, rfl⟩ := Int.eq_ofNat_of_zero_le h0
    exact agree S (by exact_mod_cast hs) i j hj

/-- z solves the integer system for right-hand side t -/
def Solves (V : ℤ → ℤ → ℤ → ℤ) (rp rho : ℤ → ℤ) (N : ℕ) (z : ℤ → ℤ → ℤ) : Prop :=
  ∀ t a, 0 ≤ t → 0 ≤ a → a < (N:ℤ) → ∑ j ∈ range N, V 0 (rp a) j * z t j = V 0 (rp a) (N + t) * RR rho (N - 1)

/-- Cramer's rule: the determinant times the solution is integral; back substitution computes it -/
theorem elim_cramer {V rp rho} {N : ℕ} (h : Elim V rp rho N) (hN : 1 ≤ N) :
    ∃ (z : ℤ → ℤ → ℤ) (W : ℤ → ℤ → ℤ → ℤ), Solves V rp rho N z ∧
      (∀ s t, 0 ≤ s → s < (N:ℤ) → 0 ≤ t → W t s N = V s (rp s) (N + t) * RR rho (N - 1)) ∧
      (∀ s t j, 0 ≤ s → s < (N:ℤ) → 0 ≤ t → 0 ≤ j → j < (N:ℤ) → W t s j = W t s (j+1) - V s (rp s) j * z t j) ∧
      (∀ s t, 0 ≤ s → s < (N:ℤ) → 0 ≤ t → W t s (s+1) = V s (rp s) s * z t s) := by
  obtain ⟨M, rfl⟩ : ∃ M, N = M + 1 := ⟨N - 1, by omega⟩
  let Mx : Matrix (Fin (M+1)) (Fin (M+1)) ℤ := fun a c => V 0 (rp a.val) (c.val : ℤ)
  have hdet : Mx.det = RR rho M := by
    have hp := elim_pivot h M (by omega) (by push_cast; omega)
    have hm := elim_minor h M (by push_cast; omega) (rp M) M
    rw [hp.1, hm]
    congr 1
    ext a c
    have ra : rowf (fun t => rp t) M (rp M) a = rp a.val := by
      unfold rowf
      by_cases d : a.val < M
      · rw [if_pos d]
      · rw [if_neg d]; have := a.isLt; have e : a.val = M := by omega
        rw [e]
    have ct : colf M M c = c.val := by
      unfold colf
      by_cases d : c.val < M
      · rw [if_pos d]
      · rw [if_neg d]; have := c.isLt; omega
    simp only [minor, ra, ct, Mx]
  let zv : ℤ → Fin (M+1) → ℤ := fun t => Mx.adjugate.mulVec (fun a => V 0 (rp a.val) (((M+1:ℕ):ℤ) + t))
  let z : ℤ → ℤ → ℤ := fun t j => if hj : j.toNat < M+1 then zv t ⟨j.toNat, hj⟩ else 0
  have hz : ∀ t (j : Fin (M+1)), z t j.val = zv t j := by
    intro t j
    have e : ((j.val : ℤ)).toNat = j.val := by simp
    have h1 : ((j.val : ℤ)).toNat < M + 1 := by rw [e]; exact j.isLt
    show (if hj : ((j.val : ℤ)).toNat < M+1 then zv t ⟨((j.val : ℤ)).toNat, hj⟩ else 0) = _
    rw [dif_pos h1]
    congr 1
  have e0 : (((M+1:ℕ):ℤ)) - 1 = M := by push_cast; ring
  have solves : Solves V rp rho (M+1) z := by
    intro t a ht h0 h1
    have key : Mx.mulVec (zv t) = Mx.det • (fun a : Fin (M+1) => V 0 (rp a.val) (((M+1:ℕ):ℤ) + t)) := by
      show Mx.mulVec (Mx.adjugate.mulVec _) = _
      rw [Matrix.mulVec_mulVec, Matrix.mul_adjugate, Matrix.smul_mulVec, Matrix.one_mulVec]
    have ka := congrFun key ⟨a.toNat, by omega⟩
    have ea : ((a.toNat : ℕ) : ℤ) = a := by omega
    have l : Mx.mulVec (zv t) ⟨a.toNat, by omega⟩ = ∑ j ∈ range (M+1), V 0 (rp a) j * z t j := by
      show ∑ j : Fin (M+1), V 0 (rp ((a.toNat : ℕ) : ℤ)) (j.val : ℤ) * zv t j = _
      rw [ea, ← Fin.sum_univ_eq_sum_range (fun j : ℕ => V 0 (rp a) j * z t j)]
      apply sum_congr rfl
      intro j _
      rw [hz]
    rw [← l, ka, e0, hdet]
    show RR rho M * V 0 (rp ((a.toNat : ℕ) : ℤ)) (((M+1:ℕ):ℤ) + t) = _
    rw [ea]; ring
  -- the same at every stage
  have stage : ∀ (s : ℕ), s ≤ M + 1 → ∀ t a, 0 ≤ t → 0 ≤ a → a < ((M+1:ℕ):ℤ) →
      ∑ j ∈ range (M+1), V s (rp a) j * z t j = V s (rp a) (((M+1:ℕ):ℤ) + t) * RR rho M := by
    intro s
    induction s with
    | zero => intro _ t a ht h0 h1; have := solves t a ht h0 h1; rw [e0] at this; exact_mod_cast this
    | succ s ih =>
      intro hs t a ht h0 h1
      have n1 := RR_ne h ((s:ℤ)-1) (by push_cast; omega)
      apply mul_right_cancel₀ n1
      have i1 := ih (by omega) t a ht h0 h1
      have i2 := ih (by omega) t s ht (by omega) (by push_cast; omega)
      have hst := fun j => elim_step h s (rp a) j (by omega) (by push_cast; omega)
      push_cast
      have e2 : ∀ j ∈ range (M+1), V ((s:ℤ)+1) (rp a) j * z t j * RR rho ((s:ℤ)-1) =
          RR rho s * (V s (rp a) j * z t j) - V s (rp a) s * (V s (rp s) j * z t j) := by
        intro j _
        have := hst j
        calc V ((s:ℤ)+1) (rp a) j * z t j * RR rho ((s:ℤ)-1) = (V ((s:ℤ)+1) (rp a) j * RR rho ((s:ℤ)-1)) * z t j := by ring
          _ = (RR rho s * V s (rp a) j - V s (rp a) s * V s (rp s) j) * z t j := by rw [this]
          _ = _ := by ring
      rw [sum_mul, sum_congr rfl e2, sum_sub_distrib, ← mul_sum, ← mul_sum, i1, i2]
      have := hst (((M+1:ℕ):ℤ) + t)
      push_cast at this ⊢
      calc RR rho s * (V s (rp a) (M + 1 + t) * RR rho M) - V s (rp a) s * (V s (rp s) (M + 1 + t) * RR rho M)
          = (RR rho s * V s (rp a) (M + 1 + t) - V s (rp a) s * V s (rp s) (M + 1 + t)) * RR rho M := by ring
        _ = (V ((s:ℤ)+1) (rp a) (M + 1 + t) * RR rho ((s:ℤ)-1)) * RR rho M := by rw [this]
        _ = _ := by ring
  let W : ℤ → ℤ → ℤ → ℤ := fun t s j => V s (rp s) (((M+1:ℕ):ℤ) + t) * RR rho M - ∑ i ∈ Ico j.toNat (M+1), V s (rp s) i * z t i
  have wrec : ∀ s t j, 0 ≤ j → j < ((M+1:ℕ):ℤ) → W t s j = W t s (j+1) - V s (rp s) j * z t j := by
    intro s t j h0 h1
    have e : (j+1).toNat = j.toNat + 1 := by omega
    have ej : ((j.toNat : ℕ) : ℤ) = j := by omega
    show _ - _ = _ - _ - _
    rw [e, sum_eq_sum_Ico_succ_bot (show j.toNat < M+1 by omega), ej]
    ring
  refine ⟨z, W, solves, ?_, ?_, ?_⟩
  · intro s t h0 h1 ht
    show _ - _ = _
    rw [e0]
    simp
  · intro s t j _ _ _ h0 h1
    exact wrec s t j h0 h1
  · intro s t h0 h1 ht
    have hW : W t s s = 0 := by
      obtain ⟨S, rfl⟩ := Int.eq_ofNat_of_zero_le h0
      have hs := stage S (by omega) t S ht h0 h1
      show _ - _ = _
      have e : ((S:ℤ)).toNat = S := by simp
      rw [← sum_range_add_sum_Ico _ (show S ≤ M + 1 by omega)] at hs
      have zero : ∑ j ∈ range S, V S (rp S) j * z t j = 0 := by
        apply sum_eq_zero
        intro j hj
        have hj' := mem_range.mp hj
        have := elim_column h (rp S) j (by omega) (S - j - 1) (by push_cast; omega)
        have e3 : (j:ℤ) + 1 + ((S - j - 1 : ℕ) : ℤ) = S := by omega
        rw [e3] at this
        rw [this]; ring
      rw [zero, zero_add] at hs
      rw [e, hs]; ring
    have := wrec s t s h0 h1
    rw [hW] at this
    linarith

/-- the rows of A times x: sum over the entries in storage order = sum over the columns; A x = b -/
theorem elim_solution {V : ℤ → ℤ → ℤ → ℤ} {rp rho : ℤ → ℤ} {N : ℕ} (z : ℤ → ℤ → ℤ) (hs : Solves V rp rho N z)
    (p ai ax q : ℤ → ℤ) (AW : ℤ → ℤ → ℤ) (QI pinv : ℤ → ℤ) (b : ℤ → ℤ → ℤ) (x Y : ℤ → ℤ → ℚ) (COL : ℤ → ℤ) (S : ℤ → ℤ → ℤ → ℚ) (B : ℤ)
    (hd : RR rho (N - 1) ≠ 0)
    (hq : ∀ k, 0 ≤ k → k < (N:ℤ) → 0 ≤ q k ∧ q k < N ∧ QI (q k) = k)
    (hp : ∀ i, 0 ≤ i → i < (N:ℤ) → 0 ≤ pinv i ∧ pinv i < N ∧ rp (pinv i) = i)
    (hp0 : p 0 = 0)
    (hpm : ∀ k, 0 ≤ k → k < (N:ℤ) → 0 ≤ p k ∧ p k ≤ p (k+1))
    (hai : ∀ c m, 0 ≤ c → c < (N:ℤ) → p c ≤ m → m < p (c+1) → 0 ≤ ai m ∧ ai m < N ∧ AW c (ai m) = m)
    (h01 : ∀ j m, 0 ≤ j → j < (N:ℤ) → p (q j) ≤ m → m < p (q j + 1) → V 0 (ai m) j = ax m)
    (h02 : ∀ i j, 0 ≤ j → j < (N:ℤ) → 0 ≤ i → i < (N:ℤ) → V 0 i j ≠ 0 → p (q j) ≤ AW (q j) i ∧ AW (q j) i < p (q j + 1) ∧ ai (AW (q j) i) = i)
    (hb : ∀ r t, 0 ≤ r → r < (N:ℤ) → 0 ≤ t → t < B → V 0 r (N + t) = b r t)
    (hY : ∀ j t, 0 ≤ j → j < (N:ℤ) → 0 ≤ t → t < B → Y j t * (RR rho (N - 1) : ℚ) = z t j)
    (hx : ∀ j t, 0 ≤ j → j < (N:ℤ) → 0 ≤ t → t < B → x (q j) t = Y j t)
    (hc : ∀ k e, 0 ≤ k → k < (N:ℤ) → p k ≤ e → e < p (k+1) → COL e = k)
    (hS0 : ∀ t r, S t 0 r = 0)
    (hS : ∀ t e r, 0 ≤ t → t < B → 0 ≤ e → e < p N → 0 ≤ r → r < (N:ℤ) → S t (e+1) r = S t e r + if ai e = r then (ax e : ℚ) * x (COL e) t else 0) :
    ∀ r t, 0 ≤ r → r < (N:ℤ) → 0 ≤ t → t < B → S t (p N) r = b r t := by
  intro r t r0 r1 t0 t1
  have mono : ∀ (d : ℕ) (k : ℤ), 0 ≤ k → k + d ≤ N → p k ≤ p (k + d) := by
    intro d
    induction d with
    | zero => intro k _ _; simp
    | succ d ih =>
      intro k h0 h1
      push_cast at h1
      have a1 := ih k h0 (by omega)
      have a2 := (hpm (k + d) (by omega) (by omega)).2
      have e : k + ((d+1 : ℕ) : ℤ) = k + d + 1 := by push_cast; ring
      rw [e]; omega
  -- every column has a place in the order
  have surj : ∀ c : ℤ, 0 ≤ c → c < N → 0 ≤ QI c ∧ QI c < N ∧ q (QI c) = c := by
    have inj : Set.InjOn (fun j : ℤ => q j) (Ico (0:ℤ) N : Finset ℤ) := by
      intro a ha b' hb' e
      have ha' := mem_Ico.mp (mem_coe.mp ha)
      have hb'' := mem_Ico.mp (mem_coe.mp hb')
      have e1 := (hq a ha'.1 ha'.2).2.2
      have e2 := (hq b' hb''.1 hb''.2).2.2
      have e' : q a = q b' := e
      rw [← e1, ← e2, e']
    have mp : Set.MapsTo (fun j : ℤ => q j) (Ico (0:ℤ) N : Finset ℤ) (Ico (0:ℤ) N : Finset ℤ) := by
      intro a ha
      have ha' := mem_Ico.mp (mem_coe.mp ha)
      have := hq a ha'.1 ha'.2
      exact mem_coe.mpr (mem_Ico.mpr ⟨this.1, this.2.1⟩)
    have so := surjOn_of_injOn_of_card_le (fun j : ℤ => q j) mp inj (le_refl _)
    intro c c0 c1
    obtain ⟨j, hj, e⟩ := so (mem_coe.mpr (mem_Ico.mpr ⟨c0, c1⟩))
    have hj' := mem_Ico.mp (mem_coe.mp hj)
    have e' : q j = c := e
    have := (hq j hj'.1 hj'.2).2.2
    rw [e'] at this
    rw [this]
    exact ⟨hj'.1, hj'.2, e'⟩
  -- within a column
  have column : ∀ (c : ℤ), 0 ≤ c → c < N → S t (p (c+1)) r = S t (p c) r + (V 0 r (QI c) : ℚ) * x c t := by
    intro c c0 c1
    have hpc := hpm c c0 c1
    have part : ∀ (d : ℕ), p c + d ≤ p (c+1) → S t (p c + d) r = S t (p c) r +
        (if p c ≤ AW c r ∧ AW c r < p c + d ∧ ai (AW c r) = r then (ax (AW c r) : ℚ) * x c t else 0) := by
      intro d
      induction d with
      | zero =>
        intro _
        have : ¬ (p c ≤ AW c r ∧ AW c r < p c + ((0:ℕ):ℤ) ∧ ai (AW c r) = r) := by
          rintro ⟨u, v, _⟩; push_cast at v; omega
        rw [if_neg this]; simp
      | succ d ih =>
        intro hd'
        push_cast at hd'
        have i1 := ih (by omega)
        have hle : p (c+1) ≤ p N := by
          have := mono (N - (c+1)).toNat (c+1) (by omega) (by omega)
          have e : c + 1 + (((N - (c+1)).toNat : ℕ) : ℤ) = N := by omega
          rw [e] at this; exact this
        have st := hS t (p c + d) r t0 t1 (by omega) (by omega) r0 r1
        have e : p c + ((d+1 : ℕ) : ℤ) = p c + d + 1 := by push_cast; ring
        rw [e, st, i1, hc c (p c + d) c0 c1 (by omega) (by omega)]
        by_cases hr : ai (p c + d) = r
        · have hm := (hai c (p c + d) c0 c1 (by omega) (by omega)).2.2
          rw [hr] at hm
          have n1 : ¬ (p c ≤ AW c r ∧ AW c r < p c + d ∧ ai (AW c r) = r) := by
            rintro ⟨_, v, _⟩; omega
          have y1 : (p c ≤ AW c r ∧ AW c r < p c + d + 1 ∧ ai (AW c r) = r) := by
            rw [hm]; exact ⟨by omega, by omega, hr⟩
          rw [if_pos hr, if_neg n1, if_pos y1, hm]; ring
        · rw [if_neg hr]
          have : (p c ≤ AW c r ∧ AW c r < p c + d + 1 ∧ ai (AW c r) = r) ↔ (p c ≤ AW c r ∧ AW c r < p c + d ∧ ai (AW c r) = r) := by
            constructor
            · rintro ⟨u, v, w⟩
              refine ⟨u, ?_, w⟩
              rcases lt_or_eq_of_le (Int.lt_add_one_iff.mp v) with g | g
              · exact g
              · rw [g] at w; exact absurd w hr
            · rintro ⟨u, v, w⟩; exact ⟨u, by omega, w⟩
          rw [if_congr this rfl rfl]; ring
    have fin := part (p (c+1) - p c).toNat (by omega)
    have e : p c + (((p (c+1) - p c).toNat : ℕ) : ℤ) = p (c+1) := by omega
    rw [e] at fin
    rw [fin]
    congr 1
    have sj := surj c c0 c1
    by_cases g : p c ≤ AW c r ∧ AW c r < p (c+1) ∧ ai (AW c r) = r
    · rw [if_pos g]
      have := h01 (QI c) (AW c r) sj.1 sj.2.1 (by rw [sj.2.2]; exact g.1) (by rw [sj.2.2]; exact g.2.1)
      rw [g.2.2] at this
      rw [this]
    · rw [if_neg g]
      have : V 0 r (QI c) = 0 := by
        by_contra ne
        have := h02 r (QI c) sj.1 sj.2.1 r0 r1 ne
        rw [sj.2.2] at this
        exact g this
      rw [this]; simp
  have total : ∀ (c : ℕ), c ≤ N → S t (p c) r = ∑ i ∈ range c, (V 0 r (QI i) : ℚ) * x i t := by
    intro c
    induction c with
    | zero => intro _; simp [hp0, hS0]
    | succ c ih =>
      intro hcN
      rw [sum_range_succ, ← ih (by omega)]
      have := column c (by omega) (by exact_mod_cast hcN)
      push_cast
      exact this
  have cols : ∑ i ∈ range N, (V 0 r (QI i) : ℚ) * x i t = ∑ j ∈ range N, (V 0 r j : ℚ) * Y j t := by
    symm
    apply sum_bij (fun (j : ℕ) _ => (q j).toNat)
    · intro j hj
      have h := hq j (by omega) (by exact_mod_cast mem_range.mp hj)
      exact mem_range.mpr (by omega)
    · intro a ha b' hb' e
      have h1 := hq a (by omega) (by exact_mod_cast mem_range.mp ha)
      have h2 := hq b' (by omega) (by exact_mod_cast mem_range.mp hb')
      have e' : q a = q b' := by
        have e2 : (q a).toNat = (q b').toNat := e
        omega
      have : (a:ℤ) = b' := by rw [← h1.2.2, ← h2.2.2, e']
      exact_mod_cast this
    · intro i hi
      have sj := surj i (by omega) (by exact_mod_cast mem_range.mp hi)
      refine ⟨(QI i).toNat, mem_range.mpr (by omega), ?_⟩
      have e : (((QI i).toNat : ℕ) : ℤ) = QI i := by omega
      rw [e, sj.2.2]; simp
    · intro j hj
      have jl : (j:ℤ) < N := by exact_mod_cast mem_range.mp hj
      have h := hq j (by omega) jl
      have e : (((q j).toNat : ℕ) : ℤ) = q j := by omega
      rw [e, h.2.2, hx j t (by omega) jl t0 t1]
  have hdq : (RR rho (N - 1) : ℚ) ≠ 0 := by exact_mod_cast hd
  apply mul_right_cancel₀ hdq
  rw [total N (le_refl _), cols, sum_mul]
  have hpr := hp r r0 r1
  have sv := hs t (pinv r) t0 hpr.1 hpr.2.1
  rw [hpr.2.2, hb r t r0 r1 t0 t1] at sv
  have e : ∀ j ∈ range N, (V 0 r j : ℚ) * Y j t * (RR rho (N - 1) : ℚ) = ((V 0 r j * z t j : ℤ) : ℚ) := by
    intro j hj
    rw [mul_assoc, hY j t (by omega) (by exact_mod_cast mem_range.mp hj) t0 t1]
    push_cast; ring
  rw [sum_congr rfl e, ← Int.cast_sum, sv]
  push_cast; ring
