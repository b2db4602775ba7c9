import Mathlib.Data.Fintype.Card
import Mathlib.Data.Fintype.EquivFin
import Mathlib.Data.Int.Basic
import Mathlib.Tactic.Positivity
import Mathlib.Tactic.Linarith
import Mathlib.Tactic.Ring

/-! Lemmas the verification conditions use (as assumptions instantiated by the generator). -/

/-- an injection of [0,n) into [0,n) is onto -/
theorem pigeon (a : ℤ → ℤ) (n : ℤ)
    (h : ∀ t, 0 ≤ t → t < n → 0 ≤ a t ∧ a t < n)
    (inj : ∀ t u, 0 ≤ t → t < u → u < n → a t ≠ a u) :
    ∀ i, 0 ≤ i → i < n → ∃ t, 0 ≤ t ∧ t < n ∧ a t = i := by
  intro i hi hin
  have hn : 0 ≤ n := by omega
  obtain ⟨N, rfl⟩ := Int.eq_ofNat_of_zero_le hn
  let f : Fin N → Fin N := fun t => ⟨(a t.val).toNat, by
    have := h t.val (by omega) (by exact_mod_cast t.isLt)
    omega⟩
  have fi : Function.Injective f := by
    intro t u htu
    by_contra hne
    have ht := h t.val (by omega) (by exact_mod_cast t.isLt)
    have hu := h u.val (by omega) (by exact_mod_cast u.isLt)
    have e : (a t.val).toNat = (a u.val).toNat := by
      have := congrArg Fin.val htu
      simpa [f] using this
    have e2 : a t.val = a u.val := by omega
    have hne' : t.val ≠ u.val := fun h => hne (Fin.ext h)
    rcases Nat.lt_or_gt_of_ne hne' with hl | hl
    · exact inj t.val u.val (by omega) (by exact_mod_cast hl) (by exact_mod_cast u.isLt) e2
    · exact inj u.val t.val (by omega) (by exact_mod_cast hl) (by exact_mod_cast t.isLt) e2.symm
  obtain ⟨t, ht⟩ := (Finite.injective_iff_surjective.mp fi) ⟨i.toNat, by omega⟩
  refine ⟨t.val, by omega, by exact_mod_cast t.isLt, ?_⟩
  have hb := h t.val (by omega) (by exact_mod_cast t.isLt)
  have := congrArg Fin.val ht
  simp only [f] at this
  omega

/-- i + j*m identifies i and j, and stays below m*n -/
theorem dense_index (m n i j : ℤ) (hi : 0 ≤ i) (him : i < m) (hj : 0 ≤ j) (hjn : j < n) :
    0 ≤ i + j * m ∧ i + j * m < m * n ∧ (i + j * m) / m = j ∧ (i + j * m) % m = i := by
  have hm : 0 < m := by omega
  have h1 : 0 ≤ j * m := by positivity
  have h2 : (j + 1) * m ≤ n * m := by
    apply mul_le_mul_of_nonneg_right <;> omega
  refine ⟨by omega, by nlinarith, ?_, ?_⟩
  · rw [Int.add_mul_ediv_right _ _ (by omega)]
    rw [Int.ediv_eq_zero_of_lt hi him]; ring
  · rw [Int.add_mul_emod_self_right]
    exact Int.emod_eq_of_lt hi him

theorem dense_index_inv (m n k : ℤ) (hk : 0 ≤ k) (hkm : k < m * n) (hm : 0 ≤ m) (hn : 0 ≤ n) :
    0 ≤ k % m ∧ k % m < m ∧ 0 ≤ k / m ∧ k / m < n ∧ k % m + (k / m) * m = k := by
  have hm' : 0 < m := by
    rcases lt_or_eq_of_le hm with h | h
    · exact h
    · subst h; simp at hkm; omega
  refine ⟨Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ hm', Int.ediv_nonneg hk hm, ?_, ?_⟩
  · apply Int.ediv_lt_of_lt_mul hm'; linarith [mul_comm m n]
  · have := Int.emod_add_mul_ediv k m; linarith [mul_comm (k / m) m]

/-- counting the entries of each column, then their places: the places are distinct and fill [0,nz) -/
theorem count_mono (J : ℤ → ℤ) (C : ℤ → ℤ → ℤ) (nz : ℤ)
    (hC : ∀ k, 0 ≤ k → k < nz → ∀ j, C (k + 1) j = C k j + (if J k = j then 1 else 0)) :
    ∀ (d : ℕ) (a j : ℤ), 0 ≤ a → a + d ≤ nz → C a j ≤ C (a + d) j := by
  intro d
  induction d with
  | zero => intro a j _ _; simp
  | succ d ih =>
    intro a j ha hd
    have h1 := ih a j ha (by push_cast at hd; omega)
    have h2 := hC (a + d) (by omega) (by push_cast at hd; omega) j
    have e : a + ((d + 1 : ℕ) : ℤ) = a + d + 1 := by push_cast; ring
    rw [e, h2]
    split_ifs <;> omega

theorem prefix_mono (P w : ℤ → ℤ) (n : ℤ) (hP : ∀ j, 0 ≤ j → j < n → P (j + 1) = P j + w j) (hw : ∀ j, 0 ≤ j → j < n → 0 ≤ w j) :
    ∀ (d : ℕ) (a : ℤ), 0 ≤ a → a + d ≤ n → P a ≤ P (a + d) := by
  intro d
  induction d with
  | zero => intro a _ _; simp
  | succ d ih =>
    intro a ha hd
    have h1 := ih a ha (by push_cast at hd; omega)
    have h2 := hP (a + d) (by omega) (by push_cast at hd; omega)
    have h3 := hw (a + d) (by omega) (by push_cast at hd; omega)
    have e : a + ((d + 1 : ℕ) : ℤ) = a + d + 1 := by push_cast; ring
    rw [e, h2]; omega

/-- the sum over the columns of the counts after k entries is k -/
theorem count_total (J : ℤ → ℤ) (C : ℤ → ℤ → ℤ) (n nz : ℤ) (hn : 0 ≤ n)
    (hC0 : ∀ j, C 0 j = 0)
    (hC : ∀ k, 0 ≤ k → k < nz → ∀ j, C (k + 1) j = C k j + (if J k = j then 1 else 0))
    (hJ : ∀ k, 0 ≤ k → k < nz → 0 ≤ J k ∧ J k < n) :
    ∀ (k : ℕ), (k : ℤ) ≤ nz → ∀ P : ℤ → ℤ, P 0 = 0 → (∀ j, 0 ≤ j → j < n → P (j + 1) = P j + C k j) → P n = k := by
  intro k
  induction k with
  | zero =>
    intro _ P h0 hP
    have : ∀ (d : ℕ), (d : ℤ) ≤ n → P d = 0 := by
      intro d
      induction d with
      | zero => intro _; simpa using h0
      | succ d ih =>
        intro hd
        have := hP d (by omega) (by push_cast at hd; omega)
        have h := ih (by push_cast at hd; omega)
        push_cast
        rw [this, h]
        have := hC0 (d : ℤ)
        simp only [Nat.cast_zero]
        omega
    obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le hn
    simpa using this m (le_refl _)
  | succ k ih =>
    intro hk P h0 hP
    have hkz : (k : ℤ) < nz := by push_cast at hk; omega
    let Q : ℤ → ℤ := fun j => P j - (if J k < j then 1 else 0)
    have hj := hJ k (by omega) hkz
    have hQ := ih (by omega) Q (by simp only [Q]; rw [h0, if_neg (by omega)]; ring) (by
      intro j a b
      have h1 := hP j a b
      have h2 := hC k (by omega) hkz j
      simp only [Q]
      have e : ((k + 1 : ℕ) : ℤ) = (k : ℤ) + 1 := by push_cast; ring
      rw [e, h2] at h1
      rw [h1]
      by_cases c : J k = j
      · rw [if_pos c, if_pos (by omega), if_neg (by omega)]; ring
      · rw [if_neg c]
        by_cases c2 : J k < j
        · rw [if_pos c2, if_pos (by omega)]; ring
        · rw [if_neg c2, if_neg (by omega)]; ring)
    simp only [Q] at hQ
    rw [if_pos hj.2] at hQ
    push_cast
    omega

theorem count_place (J : ℤ → ℤ) (C : ℤ → ℤ → ℤ) (P : ℤ → ℤ) (n nz : ℤ) (hn : 0 ≤ n) (hnz : 0 ≤ nz)
    (hC0 : ∀ j, C 0 j = 0)
    (hC : ∀ k, 0 ≤ k → k < nz → ∀ j, C (k + 1) j = C k j + (if J k = j then 1 else 0))
    (hJ : ∀ k, 0 ≤ k → k < nz → 0 ≤ J k ∧ J k < n)
    (hP0 : P 0 = 0) (hP : ∀ j, 0 ≤ j → j < n → P (j + 1) = P j + C nz j) :
    P n = nz ∧ (∀ j, 0 ≤ j → j < n → 0 ≤ C nz j) ∧ (∀ a, 0 ≤ a → a ≤ n → 0 ≤ P a ∧ P a ≤ nz) ∧
    (∀ k, 0 ≤ k → k < nz → 0 ≤ C k (J k) ∧ P (J k) + C k (J k) < P (J k + 1)) ∧
    (∀ k k', 0 ≤ k' → k' < k → k < nz → P (J k') + C k' (J k') ≠ P (J k) + C k (J k)) ∧
    (∃ inv : ℤ → ℤ, ∀ q, 0 ≤ q → q < nz → 0 ≤ inv q ∧ inv q < nz ∧ P (J (inv q)) + C (inv q) (J (inv q)) = q) := by
  have mono : ∀ a b j, 0 ≤ a → a ≤ b → b ≤ nz → C a j ≤ C b j := by
    intro a b j ha hab hb
    obtain ⟨d, hd⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ b - a by omega)
    have := count_mono J C nz hC d a j ha (by omega)
    rwa [show a + (d : ℤ) = b by omega] at this
  have cpos : ∀ a j, 0 ≤ a → a ≤ nz → 0 ≤ C a j := by
    intro a j ha hb
    have := mono 0 a j (le_refl _) ha hb
    have h := hC0 j
    omega
  have pm : ∀ a b, 0 ≤ a → a ≤ b → b ≤ n → P a ≤ P b := by
    intro a b ha hab hb
    obtain ⟨d, hd⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ b - a by omega)
    have := prefix_mono P (fun j => C nz j) n hP (fun j _ _ => cpos nz j hnz (le_refl _)) d a ha (by omega)
    rwa [show a + (d : ℤ) = b by omega] at this
  have tot : P n = nz := by
    obtain ⟨N, rfl⟩ := Int.eq_ofNat_of_zero_le hnz
    exact count_total J C n N hn hC0 hC hJ N (le_refl _) P hP0 hP
  have pl : ∀ k, 0 ≤ k → k < nz → 0 ≤ C k (J k) ∧ P (J k) + C k (J k) < P (J k + 1) := by
    intro k hk hkz
    have hj := hJ k hk hkz
    have h1 := hC k hk hkz (J k)
    rw [if_pos rfl] at h1
    have h2 := mono (k + 1) nz (J k) (by omega) (by omega) (le_refl _)
    have h3 := hP (J k) hj.1 hj.2
    exact ⟨cpos k _ hk (by omega), by omega⟩
  have inj : ∀ k k', 0 ≤ k' → k' < k → k < nz → P (J k') + C k' (J k') ≠ P (J k) + C k (J k) := by
    intro k k' h0 hk hkz heq
    have hj := hJ k (by omega) hkz
    have hj' := hJ k' h0 (by omega)
    have p1 := pl k (by omega) hkz
    have p2 := pl k' h0 (by omega)
    rcases lt_trichotomy (J k') (J k) with h | h | h
    · have := pm (J k' + 1) (J k) (by omega) (by omega) (by omega)
      omega
    · have h1 := hC k' h0 (by omega) (J k')
      rw [if_pos rfl] at h1
      have h2 := mono (k' + 1) k (J k') (by omega) (by omega) (by omega)
      rw [h] at heq h1 h2
      omega
    · have := pm (J k + 1) (J k') (by omega) (by omega) (by omega)
      omega
  have bnd : ∀ k, 0 ≤ k → k < nz → 0 ≤ P (J k) + C k (J k) ∧ P (J k) + C k (J k) < nz := by
    intro k hk hkz
    have hj := hJ k hk hkz
    have p1 := pl k hk hkz
    have a := pm 0 (J k) (le_refl _) hj.1 (by omega)
    have b := pm (J k + 1) n (by omega) (by omega) (le_refl _)
    omega
  refine ⟨tot, fun j _ _ => cpos nz j hnz (le_refl _), fun a ha hb => ?_, pl, inj, ?_⟩
  · have a1 := pm 0 a (le_refl _) ha hb
    have a2 := pm a n ha hb (le_refl _)
    omega
  · have sur := pigeon (fun k => P (J k) + C k (J k)) nz bnd (fun t u ht htu hu => inj u t ht htu hu)
    classical
    refine ⟨fun q => if h : 0 ≤ q ∧ q < nz then Classical.choose (sur q h.1 h.2) else 0, ?_⟩
    intro q h1 h2
    have h : 0 ≤ q ∧ q < nz := ⟨h1, h2⟩
    simp only [dif_pos h]
    exact Classical.choose_spec (sur q h1 h2)

/-- numbering the nonzeros -/
theorem count_nonzero (z : ℤ → Prop) [DecidablePred z] (N : ℤ → ℤ) (len : ℤ) (hlen : 0 ≤ len) (h0 : N 0 = 0)
    (hN : ∀ k, 0 ≤ k → k < len → N (k + 1) = N k + (if z k then 1 else 0)) :
    (∀ a b, 0 ≤ a → a ≤ b → b ≤ len → N a ≤ N b ∧ N b ≤ N a + (b - a)) ∧
    (∀ k, 0 ≤ k → k < len → z k → 0 ≤ N k ∧ N k < N len) ∧
    (∀ k k', 0 ≤ k' → k' < k → k < len → z k' → N k' < N k) ∧
    (∃ src : ℤ → ℤ, ∀ q, 0 ≤ q → q < N len → 0 ≤ src q ∧ src q < len ∧ z (src q) ∧ N (src q) = q) := by
  have mono : ∀ (d : ℕ) a, 0 ≤ a → a + d ≤ len → N a ≤ N (a + d) ∧ N (a + d) ≤ N a + d := by
    intro d
    induction d with
    | zero => intro a _ _; simp
    | succ d ih =>
      intro a ha hd
      have h1 := ih a ha (by push_cast at hd; omega)
      have h2 := hN (a + d) (by omega) (by push_cast at hd; omega)
      have e : a + ((d + 1 : ℕ) : ℤ) = a + d + 1 := by push_cast; ring
      rw [e, h2]
      push_cast
      split_ifs <;> omega
  have m2 : ∀ a b, 0 ≤ a → a ≤ b → b ≤ len → N a ≤ N b ∧ N b ≤ N a + (b - a) := by
    intro a b ha hab hb
    obtain ⟨d, hd⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ b - a by omega)
    have := mono d a ha (by omega)
    rw [show a + (d : ℤ) = b by omega] at this
    omega
  refine ⟨m2, ?_, ?_, ?_⟩
  · intro k hk hkl hz
    have h1 := hN k hk hkl
    rw [if_pos hz] at h1
    have h2 := m2 0 k (le_refl _) hk (by omega)
    have h3 := m2 (k + 1) len (by omega) (by omega) (le_refl _)
    omega
  · intro k k' h0' hk hkl hz
    have h1 := hN k' h0' (by omega)
    rw [if_pos hz] at h1
    have h3 := m2 (k' + 1) k (by omega) (by omega) (by omega)
    omega
  · have sur : ∀ (l : ℕ), (l : ℤ) ≤ len → ∀ q, 0 ≤ q → q < N l → ∃ k, 0 ≤ k ∧ k < (l : ℤ) ∧ z k ∧ N k = q := by
      intro l
      induction l with
      | zero => intro _ q h1 h2; simp only [Nat.cast_zero, h0] at h2; omega
      | succ l ih =>
        intro hl q h1 h2
        have h3 := hN l (by omega) (by push_cast at hl; omega)
        have e : ((l + 1 : ℕ) : ℤ) = (l : ℤ) + 1 := by push_cast; ring
        rw [e, h3] at h2
        by_cases hz : z l
        · rw [if_pos hz] at h2
          by_cases hq : q = N l
          · exact ⟨l, by omega, by push_cast; omega, hz, hq.symm⟩
          · obtain ⟨k, a, b, c, d⟩ := ih (by push_cast at hl; omega) q h1 (by omega)
            exact ⟨k, a, by push_cast; omega, c, d⟩
        · rw [if_neg hz] at h2
          obtain ⟨k, a, b, c, d⟩ := ih (by push_cast at hl; omega) q h1 (by omega)
          exact ⟨k, a, by push_cast; omega, c, d⟩
    obtain ⟨L, rfl⟩ := Int.eq_ofNat_of_zero_le hlen
    classical
    refine ⟨fun q => if h : 0 ≤ q ∧ q < N L then Classical.choose (sur L (le_refl _) q h.1 h.2) else 0, ?_⟩
    intro q h1 h2
    have h : 0 ≤ q ∧ q < N L := ⟨h1, h2⟩
    have s := Classical.choose_spec (sur L (le_refl _) q h1 h2)
    simp only [dif_pos h]
    exact s

/-- a prefix sum after one term was changed -/
theorem sum_update (S T w v : ℤ → ℤ) (a : ℤ) (x : ℤ) (hS0 : S 0 = 0) (hT0 : T 0 = 0)
    (hv : ∀ k, v k = if k = a then x else w k)
    (hS : ∀ k, 0 ≤ k → S (k + 1) = S k + w k) (hT : ∀ k, 0 ≤ k → T (k + 1) = T k + v k) :
    ∀ k, 0 ≤ k → T k = S k + (if 0 ≤ a ∧ a < k then x - w a else 0) := by
  intro k hk
  obtain ⟨d, rfl⟩ := Int.eq_ofNat_of_zero_le hk
  clear hk
  induction d with
  | zero =>
    have : ¬ (0 ≤ a ∧ a < ((0 : ℕ) : ℤ)) := by push_cast; omega
    rw [if_neg this]; simp [hS0, hT0]
  | succ d ih =>
    have h1 := hS d (by omega)
    have h2 := hT d (by omega)
    have h3 := hv d
    push_cast
    rw [h1, h2, ih, h3]
    by_cases c : (d : ℤ) = a
    · subst c
      rw [if_pos rfl, if_neg (by omega), if_pos (by omega)]; ring
    · rw [if_neg c]
      by_cases c2 : 0 ≤ a ∧ a < (d : ℤ)
      · rw [if_pos c2, if_pos (by omega)]; ring
      · rw [if_neg c2, if_neg (by omega)]; ring

/-- positions inside consecutive columns: what lies before them is at most what the columns hold -/
theorem sum_columns (S T p t : ℤ → ℤ) (n : ℤ)
    (hS : ∀ k, 0 ≤ k → S (k + 1) = S k + p k) (hT : ∀ k, 0 ≤ k → T (k + 1) = T k + t k)
    (h : ∀ k, 0 ≤ k → k < n → p k ≤ t k ∧ t k ≤ p (k + 1)) :
    ∀ a b, 0 ≤ a → a ≤ b → b ≤ n → 0 ≤ (T b - S b) - (T a - S a) ∧ (T b - S b) - (T a - S a) ≤ p b - p a := by
  intro a b ha hab
  obtain ⟨d, hd⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ b - a by omega)
  obtain rfl : b = a + d := by omega
  clear hab hd
  induction d with
  | zero => intro _; simp
  | succ d ih =>
    intro hd
    push_cast at hd
    have h1 := hS (a + d) (by omega)
    have h2 := hT (a + d) (by omega)
    have h3 := h (a + d) (by omega) (by omega)
    have h4 := ih (by omega)
    have e : a + ((d + 1 : ℕ) : ℤ) = a + d + 1 := by push_cast; ring
    rw [e, h1, h2]
    omega

/-- a count grows by at most one with every entry -/
theorem count_steps (Q : ℤ → ℤ) (n : ℤ) (h : ∀ t, 0 ≤ t → t < n → 0 ≤ Q (t + 1) - Q t ∧ Q (t + 1) - Q t ≤ 1) :
    ∀ a b, 0 ≤ a → a ≤ b → b ≤ n → 0 ≤ Q b - Q a ∧ Q b - Q a ≤ b - a := by
  intro a b ha hab
  obtain ⟨d, hd⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ b - a by omega)
  obtain rfl : b = a + d := by omega
  clear hab hd
  induction d with
  | zero => intro _; simp
  | succ d ih =>
    intro hd
    push_cast at hd
    have h1 := h (a + d) (by omega) (by omega)
    have h4 := ih (by omega)
    have e : a + ((d + 1 : ℕ) : ℤ) = a + d + 1 := by push_cast; ring
    rw [e]
    omega

/-- neighbours in increasing order are in increasing order throughout -/
theorem sorted_global (A : ℤ → ℤ) (lo hi : ℤ) (h : ∀ t, lo ≤ t → t + 1 < hi → A t < A (t + 1)) :
    ∀ a b, lo ≤ a → a < b → b < hi → A a < A b := by
  intro a b ha hab
  obtain ⟨d, hd⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ b - a - 1 by omega)
  obtain rfl : b = a + d + 1 := by omega
  clear hab hd
  induction d with
  | zero => intro hb; simpa using h a ha (by simpa using hb)
  | succ d ih =>
    intro hd
    push_cast at hd
    have h1 := h (a + d + 1) (by omega) (by omega)
    have h4 := ih (by omega)
    have e : a + ((d + 1 : ℕ) : ℤ) + 1 = a + d + 1 + 1 := by push_cast; ring
    rw [e]
    omega

/-- every counted entry has two ends: all counts together are at most two per entry -/
theorem sum_edges (e : ℤ → Prop) [DecidablePred e] (r c : ℤ → ℤ) (Q S : ℤ → ℤ → ℤ) (n : ℤ) (hn : 0 ≤ n)
    (hQ0 : ∀ v, Q 0 v = 0)
    (hQ : ∀ t, 0 ≤ t → ∀ v, Q (t + 1) v = Q t v + if e t then (if r t = v then 1 else 0) + (if c t = v then 1 else 0) else 0)
    (hS0 : ∀ t, S t 0 = 0) (hS : ∀ t k, 0 ≤ k → S t (k + 1) = S t k + Q t k) :
    ∀ t, 0 ≤ t → S t n ≤ 2 * t := by
  have step : ∀ t, 0 ≤ t → ∀ k, 0 ≤ k → S (t + 1) k - S t k ≤ (if r t < k then 1 else 0) + (if c t < k then 1 else 0) := by
    intro t ht k hk
    obtain ⟨d, rfl⟩ := Int.eq_ofNat_of_zero_le hk
    induction d with
    | zero => simp only [Nat.cast_zero, hS0]; split_ifs <;> omega
    | succ d ih =>
      have h := ih (by omega)
      have e1 : ((d + 1 : ℕ) : ℤ) = (d : ℤ) + 1 := by push_cast; ring
      rw [e1, hS (t + 1) d (by omega), hS t d (by omega), hQ t ht]
      split_ifs at * <;> omega
  have zero : ∀ k, 0 ≤ k → S 0 k = 0 := by
    intro k hk
    obtain ⟨d, rfl⟩ := Int.eq_ofNat_of_zero_le hk
    induction d with
    | zero => simpa using hS0 0
    | succ d ih =>
      have e1 : ((d + 1 : ℕ) : ℤ) = (d : ℤ) + 1 := by push_cast; ring
      rw [e1, hS 0 d (by omega), hQ0, ih (by omega)]; rfl
  intro t ht
  obtain ⟨d, rfl⟩ := Int.eq_ofNat_of_zero_le ht
  induction d with
  | zero => have := zero n hn; simp only [Nat.cast_zero]; omega
  | succ d ih =>
    have h := ih (by omega)
    have s := step d (by omega) n hn
    have e1 : ((d + 1 : ℕ) : ℤ) = (d : ℤ) + 1 := by push_cast; ring
    rw [e1]
    split_ifs at s <;> omega
