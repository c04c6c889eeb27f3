/- The schemas that deduct/logic.py and the contracts instantiate, proved once and for all.
   Sums and products run over integers from 0 to n - 1 and are empty for n <= 0. -/
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.Polynomial.Derivative
import Mathlib.Algebra.Polynomial.Eval.Degree
import Mathlib.Data.Real.Basic
import Mathlib.Tactic.Linarith
import Mathlib.Tactic.Ring
import Mathlib.Tactic.FieldSimp
import Mathlib.Tactic.LinearCombination
open Finset

namespace GS

noncomputable def S (n : ℤ) (f : ℤ → ℝ) : ℝ := ∑ k ∈ range n.toNat, f k
noncomputable def P (n : ℤ) (f : ℤ → ℝ) : ℝ := ∏ k ∈ range n.toNat, f k

theorem toNat_succ {n : ℤ} (h : 0 ≤ n) : (n + 1).toNat = n.toNat + 1 := by omega

-- sum-base, sum-step, sum-ext
theorem sum_base (n : ℤ) (f) (h : n ≤ 0) : S n f = 0 := by simp [S, Int.toNat_of_nonpos h]
theorem sum_step (n : ℤ) (f) (h : 0 ≤ n) : S (n + 1) f = S n f + f n := by
  unfold S; rw [toNat_succ h, sum_range_succ, Int.toNat_of_nonneg h]
theorem sum_ext (n : ℤ) (f g : ℤ → ℝ) (h : ∀ k, 0 ≤ k → k < n → f k = g k) : S n f = S n g := by
  unfold S; refine sum_congr rfl (fun k hk => h k (by omega) ?_)
  have := mem_range.1 hk; omega
theorem prod_base (n : ℤ) (f) (h : n ≤ 0) : P n f = 1 := by simp [P, Int.toNat_of_nonpos h]
theorem prod_step (n : ℤ) (f) (h : 0 ≤ n) : P (n + 1) f = P n f * f n := by
  unfold P; rw [toNat_succ h, prod_range_succ, Int.toNat_of_nonneg h]
theorem prod_ext (n : ℤ) (f g : ℤ → ℝ) (h : ∀ k, 0 ≤ k → k < n → f k = g k) : P n f = P n g := by
  unfold P; refine prod_congr rfl (fun k hk => h k (by omega) ?_)
  have := mem_range.1 hk; omega

-- max: a number with the properties used exists
theorem max_exists (n : ℤ) (f : ℤ → ℝ) (h : 0 < n) :
    ∃ M, (∀ k, 0 ≤ k → k < n → f k ≤ M) ∧ ∃ k, 0 ≤ k ∧ k < n ∧ f k = M := by
  obtain ⟨x, hx, hm⟩ := exists_max_image (range n.toNat) (fun k : ℕ => f k) ⟨0, by simp; omega⟩
  have hx' := mem_range.1 hx
  refine ⟨f x, fun k h0 h1 => ?_, x, by omega, by omega, rfl⟩
  have := hm k.toNat (mem_range.2 (by omega))
  simpa [Int.toNat_of_nonneg h0] using this

-- sum-swap, sum-scale, sum-add, sum-delta
theorem sum_swap (n m : ℤ) (f : ℤ → ℤ → ℝ) : S n (fun i => S m (f i)) = S m (fun j => S n (fun i => f i j)) := sum_comm
theorem sum_scale (n : ℤ) (c : ℝ) (f) : S n (fun i => c * f i) = c * S n f ∧ S n (fun i => f i * c) = c * S n f := by
  unfold S; rw [mul_sum]; refine ⟨rfl, sum_congr rfl (fun k _ => by ring)⟩
theorem sum_add (n : ℤ) (f g : ℤ → ℝ) : S n (fun i => f i + g i) = S n f + S n g := sum_add_distrib
theorem sum_delta (n k : ℤ) (f : ℤ → ℝ) (h0 : 0 ≤ k) (h1 : k < n) : S n (fun i => if i = k then f i else 0) = f k := by
  unfold S
  rw [sum_eq_single k.toNat]
  · simp [Int.toNat_of_nonneg h0]
  · intro b _ hb; have : ((b : ℤ) ≠ k) := by omega
    simp [this]
  · intro h; exact absurd (mem_range.2 (by omega)) h

-- sum-head, prod-head
theorem sum_head (n : ℤ) (f : ℤ → ℝ) (h : 1 ≤ n) : S n f = f 0 + S (n - 1) (fun k => f (k + 1)) := by
  obtain ⟨m, rfl⟩ : ∃ m : ℕ, n = m + 1 := ⟨(n - 1).toNat, by omega⟩
  have a : ((m : ℤ) + 1).toNat = m + 1 := by omega
  have b : ((m : ℤ) + 1 - 1).toNat = m := by omega
  unfold S; rw [a, b, sum_range_succ']; push_cast; ring
theorem prod_head (n : ℤ) (f : ℤ → ℝ) (h : 1 ≤ n) : P n f = f 0 * P (n - 1) (fun k => f (k + 1)) := by
  obtain ⟨m, rfl⟩ : ∃ m : ℕ, n = m + 1 := ⟨(n - 1).toNat, by omega⟩
  have a : ((m : ℤ) + 1).toNat = m + 1 := by omega
  have b : ((m : ℤ) + 1 - 1).toNat = m := by omega
  unfold P; rw [a, b, prod_range_succ']; push_cast; ring
-- one operand: a sum or a product of one term is this term
theorem sum_one (f : ℤ → ℝ) : S 1 f = f 0 := by simp [S]
theorem prod_one (f : ℤ → ℝ) : P 1 f = f 0 := by simp [P]
-- falling products of the derivative of a polynomial
theorem fall_head (u k : ℤ) (h : 1 ≤ k) :
    P k (fun q => ((u + 1 + q : ℤ) : ℝ)) = ((u + 1 : ℤ) : ℝ) * P (k - 1) (fun q => ((u + 1 + 1 + q : ℤ) : ℝ)) := by
  rw [prod_head k _ h]; congr 1
  · simp
  · refine prod_ext _ _ _ (fun j _ _ => ?_); push_cast; ring
-- lists put one after the other
theorem sum_split (n m : ℤ) (f g : ℤ → ℝ) (hn : 0 ≤ n) (hm : 0 ≤ m) :
    S (n + m) (fun k => if k < n then f k else g (k - n)) = S n f + S m g := by
  unfold S
  have : (n + m).toNat = n.toNat + m.toNat := by omega
  rw [this, sum_range_add]
  congr 1
  · refine sum_congr rfl (fun k hk => ?_)
    have := mem_range.1 hk; dsimp only; rw [if_pos (by omega)]
  · refine sum_congr rfl (fun k hk => ?_)
    dsimp only; rw [if_neg (by push_cast; omega)]; congr 1; push_cast; omega
theorem prod_split (n m : ℤ) (f g : ℤ → ℝ) (hn : 0 ≤ n) (hm : 0 ≤ m) :
    P (n + m) (fun k => if k < n then f k else g (k - n)) = P n f * P m g := by
  unfold P
  have : (n + m).toNat = n.toNat + m.toNat := by omega
  rw [this, prod_range_add]
  congr 1
  · refine prod_congr rfl (fun k hk => ?_)
    have := mem_range.1 hk; dsimp only; rw [if_pos (by omega)]
  · refine prod_congr rfl (fun k hk => ?_)
    dsimp only; rw [if_neg (by push_cast; omega)]; congr 1; push_cast; omega

-- chains: functions applied one after the other
def chain (f : ℕ → ℝ → ℝ) : ℕ → ℝ → ℝ
  | 0, t => t
  | n + 1, t => f n (chain f n t)
theorem chain_ext (f g : ℕ → ℝ → ℝ) (n : ℕ) (t : ℝ) (h : ∀ k < n, f k = g k) : chain f n t = chain g n t := by
  induction n with
  | zero => rfl
  | succ n ih => simp only [chain]; rw [h n (by omega), ih (fun k hk => h k (by omega))]
theorem chain_split (f g : ℕ → ℝ → ℝ) (n m : ℕ) (t : ℝ) :
    chain (fun k => if k < n then f k else g (k - n)) (n + m) t = chain g m (chain f n t) := by
  induction m with
  | zero => exact chain_ext _ _ _ _ (fun k hk => by rw [if_pos (by omega)])
  | succ m ih =>
    show (if n + m < n then f (n + m) else g (n + m - n)) _ = g m (chain g m (chain f n t))
    rw [if_neg (by omega), show n.add m = n + m from rfl, ih, Nat.add_sub_cancel_left]
theorem chain_one (f : ℕ → ℝ → ℝ) (t : ℝ) : chain f 1 t = f 0 t := rfl
-- the first member of two lists put one after the other: in the first list if it has one, else in the second
theorem first_split (p q : ℕ → Prop) [DecidablePred p] [DecidablePred q] (n m k : ℕ)
    (hk : (if k < n then p k else q (k - n))) (hf : ∀ i < k, ¬ (if i < n then p i else q (i - n))) (hm : k < n + m) :
    (k < n ∧ p k ∧ ∀ i < k, ¬ p i) ∨ (n ≤ k ∧ k - n < m ∧ (∀ i < n, ¬ p i) ∧ q (k - n) ∧ ∀ i < k - n, ¬ q i) := by
  by_cases h : k < n
  · left; refine ⟨h, by simpa [h] using hk, fun i hi => ?_⟩
    have := hf i hi; simpa [show i < n by omega] using this
  · right; refine ⟨by omega, by omega, fun i hi => ?_, by simpa [h] using hk, fun i hi => ?_⟩
    · have := hf i (by omega); simpa [hi] using this
    · have := hf (n + i) (by omega); simpa using this

-- band-sum: terms that vanish outside one or two bands
theorem band_sum (N d w : ℤ) (t : ℤ → ℝ) (h0 : 0 ≤ w) (hd : 0 ≤ d) (h1 : w + d ≤ N)
    (hz : ∀ j, 0 ≤ j → j < N → (j < w ∨ j ≥ w + d) → t j = 0) : S N t = S d (fun m => t (w + m)) := by
  unfold S
  have e : N.toNat = w.toNat + (d.toNat + (N - w - d).toNat) := by omega
  rw [e, sum_range_add, sum_range_add]
  rw [sum_eq_zero (s := range w.toNat) (fun k hk => hz k (by omega) (by have := mem_range.1 hk; omega) (Or.inl (by have := mem_range.1 hk; omega)))]
  rw [sum_eq_zero (s := range (N - w - d).toNat) (fun k hk => hz _ (by omega) (by have := mem_range.1 hk; push_cast; omega) (Or.inr (by push_cast; omega)))]
  simp only [zero_add, add_zero]
  refine sum_congr rfl (fun k _ => ?_); congr 1; push_cast; omega
theorem band_sum_two (N d w v : ℤ) (t : ℤ → ℝ) (h0 : 0 ≤ w) (hd : 0 ≤ d) (hwv : w + d ≤ v) (h1 : v + d ≤ N)
    (hz : ∀ j, 0 ≤ j → j < N → (j < w ∨ j ≥ w + d) → (j < v ∨ j ≥ v + d) → t j = 0) :
    S N t = S d (fun m => t (w + m)) + S d (fun m => t (v + m)) := by
  have a := band_sum N d w (fun j => if j < w + d then t j else 0) h0 hd (by omega)
    (fun j h0 h1 h2 => by
      by_cases h : j < w + d
      · simp only [h, if_true]; exact hz j h0 h1 h2 (Or.inl (by omega))
      · simp [h])
  have b := band_sum N d v (fun j => if j < w + d then 0 else t j) (by omega) hd h1
    (fun j h0 h1 h2 => by
      by_cases h : j < w + d
      · simp [h]
      · simp only [h, if_false]; exact hz j h0 h1 (Or.inr (by omega)) h2)
  have c : S N t = S N (fun j => if j < w + d then t j else 0) + S N (fun j => if j < w + d then 0 else t j) := by
    rw [← sum_add]; refine sum_ext _ _ _ (fun k _ _ => ?_); by_cases h : k < w + d <;> simp [h]
  rw [c, a, b]; congr 1
  · refine sum_ext _ _ _ (fun k h0 h1 => ?_); rw [if_pos (by omega)]
  · refine sum_ext _ _ _ (fun k h0 h1 => ?_); rw [if_neg (by omega)]

-- integer products
theorem mono_lt (a x y : ℤ) (h : 0 ≤ a) (hxy : x < y) : a * x + a ≤ a * y := by nlinarith
theorem mono_shift (a x y k : ℤ) (h : k ≤ a) (hxy : x < y) : a * x - k * x + a - k ≤ a * y - k * y := by nlinarith
theorem mono_two (a x y : ℤ) (h : 0 ≤ a) (hxy : x + 2 ≤ y) : a * x + 2 * a ≤ a * y := by nlinarith
theorem mono_next (a x y : ℤ) (h : x + 1 = y) : a * x + a = a * y := by subst h; ring
theorem mono_nz (x y : ℤ) (hx : x ≠ 0) (hy : y ≠ 0) : x * y ≠ 0 := mul_ne_zero hx hy
theorem even_half (d : ℤ) (h : d % 2 = 0) : ∃ e, d = 2 * e := ⟨d / 2, by omega⟩
theorem half_div (m k e : ℤ) (hk : 0 < k) (h : m = k * e) : m / k = e := by subst h; exact Int.mul_ediv_cancel_left e (by omega)
-- inverses
theorem inv_mul (b r : ℝ) (h : b ≠ 0) : b * b⁻¹ = 1 ∧ b * r * b⁻¹ = r := by constructor <;> field_simp
theorem inv_pos' (b : ℝ) : (0 < b → 0 < b⁻¹) ∧ (b < 0 → b⁻¹ < 0) := ⟨fun h => inv_pos.2 h, fun h => inv_lt_zero.2 h⟩
-- powers
theorem powi (x : ℝ) (n : ℤ) (h : 1 ≤ n) : x ^ (0 : ℕ) = 1 ∧ x ^ n.toNat = x ^ (n - 1).toNat * x := by
  refine ⟨pow_zero x, ?_⟩
  rw [← pow_succ]; congr 1; omega

/- ---------------- Legendre polynomials -/
open Polynomial

noncomputable def leg : ℕ → ℝ[X]
  | 0 => 1
  | 1 => X
  | n + 2 => C (1 / ((n : ℝ) + 2)) * (C (2 * (n : ℝ) + 3) * (X * leg (n + 1)) - C ((n : ℝ) + 1) * leg n)

noncomputable def LEG (d n : ℕ) (s : ℝ) : ℝ := (derivative^[d] (leg n)).eval s

theorem leg_rec (n : ℕ) : C ((n : ℝ) + 2) * leg (n + 2) = C (2 * (n : ℝ) + 3) * (X * leg (n + 1)) - C ((n : ℝ) + 1) * leg n := by
  have h : ((n : ℝ) + 2) ≠ 0 := by positivity
  rw [leg, ← mul_assoc, ← C_mul, mul_one_div_cancel h, C_1, one_mul]

theorem iter_X_mul (d : ℕ) (p : ℝ[X]) : derivative^[d + 1] (X * p) = X * derivative^[d + 1] p + C ((d : ℝ) + 1) * derivative^[d] p := by
  induction d with
  | zero => simp [derivative_mul]; ring
  | succ d ih =>
    rw [Function.iterate_succ_apply' derivative (d + 1), ih, Function.iterate_succ_apply' derivative (d + 1) p]
    simp only [derivative_add, derivative_mul, derivative_X, derivative_C, zero_mul, zero_add, one_mul]
    rw [← Function.iterate_succ_apply' derivative d p]
    push_cast; simp only [C_add, C_1]; ring

theorem iter_C_mul (d : ℕ) (c : ℝ) (p : ℝ[X]) : derivative^[d] (C c * p) = C c * derivative^[d] p := iterate_derivative_C_mul c p d

theorem iter_sub (d : ℕ) (p q : ℝ[X]) : derivative^[d] (p - q) = derivative^[d] p - derivative^[d] q := iterate_derivative_sub

-- legendre-recurrence: Bonnet and its derivatives
theorem legendre_base (s : ℝ) : LEG 0 0 s = 1 ∧ LEG 0 1 s = s := by simp [LEG, leg]
theorem legendre_bonnet (n : ℕ) (s : ℝ) (h : 2 ≤ n) :
    LEG 0 n s = 1 / n * ((2 * n - 1) * s * LEG 0 (n - 1) s - (n - 1) * LEG 0 (n - 2) s) := by
  obtain ⟨m, rfl⟩ := Nat.exists_eq_add_of_le h
  rw [show 2 + m = m + 2 by omega, show m + 2 - 1 = m + 1 by omega, show m + 2 - 2 = m by omega]
  simp only [LEG, Function.iterate_zero, id, leg]
  simp only [eval_mul, eval_sub, eval_C, eval_X]; push_cast; ring
theorem legendre_deriv (d n : ℕ) (s : ℝ) (hd : 1 ≤ d) (h : 2 ≤ n) :
    LEG d n s = 1 / n * ((2 * n - 1) * (s * LEG d (n - 1) s + d * LEG (d - 1) (n - 1) s) - (n - 1) * LEG d (n - 2) s) := by
  obtain ⟨m, rfl⟩ := Nat.exists_eq_add_of_le h
  obtain ⟨e, rfl⟩ := Nat.exists_eq_add_of_le hd
  rw [show 2 + m = m + 2 by omega, show m + 2 - 1 = m + 1 by omega, show m + 2 - 2 = m by omega, show 1 + e = e + 1 by omega, show e + 1 - 1 = e by omega]
  unfold LEG
  rw [show leg (m + 2) = C (1 / ((m : ℝ) + 2)) * (C (2 * (m : ℝ) + 3) * (X * leg (m + 1)) - C ((m : ℝ) + 1) * leg m) from by rw [leg]]
  rw [iter_C_mul, iter_sub, iter_C_mul, iter_C_mul, iter_X_mul]
  simp only [eval_mul, eval_sub, eval_add, eval_C, eval_X]; push_cast; ring

-- legendre-low
theorem deg_C_mul (c : ℝ) (p : ℝ[X]) : (C c * p).natDegree ≤ p.natDegree :=
  (natDegree_mul_le).trans (by simp)
theorem leg_degree : ∀ n, (leg n).natDegree ≤ n
  | 0 => by simp [leg]
  | 1 => by simp [leg]
  | n + 2 => by
    rw [leg]
    refine (deg_C_mul _ _).trans ((natDegree_sub_le _ _).trans (max_le ?_ ?_))
    · refine (deg_C_mul _ _).trans ((natDegree_mul_le).trans ?_)
      have := leg_degree (n + 1); rw [natDegree_X]; omega
    · refine (deg_C_mul _ _).trans ?_
      have := leg_degree n; omega
theorem low_poly (d n : ℕ) (h : n < d) : derivative^[d] (leg n) = 0 :=
  iterate_derivative_eq_zero (lt_of_le_of_lt (leg_degree n) h)
theorem legendre_low (d n : ℕ) (s : ℝ) (h : n < d) : LEG d n s = 0 := by simp [LEG, low_poly d n h]
-- legendre-diagonal
theorem legendre_diagonal (d : ℕ) (s : ℝ) (h : 1 ≤ d) : LEG d d s = (2 * d - 1) * LEG (d - 1) (d - 1) s := by
  rcases Nat.lt_or_ge d 2 with h2 | h2
  · obtain rfl : d = 1 := by omega
    simp [LEG, leg]; norm_num
  · rw [legendre_deriv d d s h h2, legendre_low d (d - 1) s (by omega), legendre_low d (d - 2) s (by omega)]
    have : (d : ℝ) ≠ 0 := by positivity
    field_simp; ring

-- legendre-expansion: P_{n+1}' - P_{n-1}' = (2n+1) P_n, hence P_i' = sum of (2j+1) P_j over j < i with i - j odd
theorem C_two : (C (2 : ℝ)) = 2 := rfl
theorem C_three : (C (3 : ℝ)) = 3 := rfl
theorem leg_two (n : ℕ) :
    (X * derivative (leg (n + 1)) - derivative (leg n) = C ((n : ℝ) + 1) * leg (n + 1)) ∧
    (derivative (leg (n + 1)) - X * derivative (leg n) = C ((n : ℝ) + 1) * leg n) := by
  induction n with
  | zero => constructor <;> simp [leg]
  | succ n ih =>
    obtain ⟨h1, h2⟩ := ih
    have hn : (C ((n : ℝ) + 2)) ≠ 0 := by
      rw [Ne, C_eq_zero]; positivity
    have hr := leg_rec n
    have hd := congrArg derivative hr
    simp only [derivative_sub, derivative_mul, derivative_C, derivative_X, zero_mul, zero_add, one_mul] at hd
    have e1 : (C ((n : ℝ) + 2)) = C ((n : ℝ)) + 2 := by rw [C_add, C_two]
    have e2 : (C (2 * (n : ℝ) + 3)) = 2 * C ((n : ℝ)) + 3 := by rw [C_add, C_mul, C_two, C_three]
    have e3 : (C ((n : ℝ) + 1)) = C ((n : ℝ)) + 1 := by rw [C_add, C_1]
    have e4 : C (((n + 1 : ℕ) : ℝ) + 1) = C ((n : ℝ)) + 2 := by push_cast; rw [C_add, C_add, C_1]; ring
    rw [e1, e2, e3] at hd hr; rw [e3] at h1 h2; rw [e1] at hn; rw [e4]
    have b : derivative (leg (n + 1 + 1)) - X * derivative (leg (n + 1)) = (C (n : ℝ) + 2) * leg (n + 1) := by
      apply mul_left_cancel₀ hn
      linear_combination hd + (C (n : ℝ) + 1) * h1
    refine ⟨?_, b⟩
    apply mul_left_cancel₀ hn
    linear_combination (C (n : ℝ) + 2) * X * b - (C (n : ℝ) + 2) * hr + (C (n : ℝ) + 2) * (X * h1 - h2)
theorem leg_step (n : ℕ) : derivative (leg (n + 2)) = derivative (leg n) + C (2 * (n : ℝ) + 3) * leg (n + 1) := by
  have a := (leg_two (n + 1)).2
  have b := (leg_two n).1
  have e1 : C (((n + 1 : ℕ) : ℝ) + 1) = C ((n : ℝ)) + 2 := by push_cast; rw [C_add, C_add, C_1]; ring
  have e3 : (C ((n : ℝ) + 1)) = C ((n : ℝ)) + 1 := by rw [C_add, C_1]
  have e2 : (C (2 * (n : ℝ) + 3)) = 2 * C ((n : ℝ)) + 3 := by rw [C_add, C_mul, C_two, C_three]
  rw [e1] at a; rw [e3] at b; rw [e2]
  linear_combination a + b

noncomputable def cf (i j : ℕ) : ℝ := if j < i ∧ (i - j) % 2 = 1 then 2 * (j : ℝ) + 1 else 0

theorem legendre_expansion : ∀ (i n : ℕ), i ≤ n → derivative (leg i) = ∑ j ∈ range n, C (cf i j) * leg j
  | 0, n, _ => by simp [leg, cf]
  | 1, n, h => by
    rw [sum_eq_single 0]
    · simp [leg, cf]
    · intro j _ hj; have : ¬ (j < 1 ∧ (1 - j) % 2 = 1) := by omega
      rw [cf, if_neg this]; simp
    · intro h0; exact absurd (mem_range.2 (by omega)) h0
  | i + 2, n, h => by
    rw [leg_step, legendre_expansion i n (by omega)]
    have hm : i + 1 ∈ range n := mem_range.2 (by omega)
    rw [← add_sum_erase _ _ hm, ← add_sum_erase _ _ hm]
    have c0 : cf i (i + 1) = 0 := by simp [cf]
    have c1 : cf (i + 2) (i + 1) = 2 * (i : ℝ) + 3 := by
      have : (i + 1 < i + 2 ∧ (i + 2 - (i + 1)) % 2 = 1) := by omega
      simp only [cf, this, and_self, if_true]; push_cast; ring
    have c2 : ∀ j ∈ (range n).erase (i + 1), C (cf i j) * leg j = C (cf (i + 2) j) * leg j := by
      intro j hj
      have hne := ne_of_mem_erase hj
      have : (j < i ∧ (i - j) % 2 = 1) ↔ (j < i + 2 ∧ (i + 2 - j) % 2 = 1) := by omega
      simp only [cf, this]
    rw [sum_congr rfl c2, c0, c1]; simp; ring

-- legendre-matrix: powers of the transposed matrix act on coefficients as derivatives do on the functions
noncomputable def DLM (n : ℕ) : ℕ → ℕ → ℕ → ℝ
  | 0, p, q => if p = q then 1 else 0
  | k + 1, p, q => ∑ r ∈ range n, DLM n k p r * cf q r
theorem dlm_one (n p q : ℕ) (hp : p < n) : DLM n 1 p q = cf q p := by
  show ∑ r ∈ range n, (if p = r then (1 : ℝ) else 0) * cf q r = cf q p
  rw [sum_eq_single p] <;> simp
  · intro b _ hb h; exact absurd h.symm hb
  · intro h; omega
theorem legendre_matrix (n k q : ℕ) (h : q < n) : derivative^[k] (leg q) = ∑ p ∈ range n, C (DLM n k p q) * leg p := by
  induction k generalizing q with
  | zero =>
    rw [sum_eq_single q]
    · simp [DLM]
    · intro b _ hb; simp [DLM, hb]
    · intro hq; exact absurd (mem_range.2 h) hq
  | succ k ih =>
    rw [Function.iterate_succ_apply, legendre_expansion q n h.le]
    rw [iterate_derivative_sum]
    have : ∀ r ∈ range n, derivative^[k] (C (cf q r) * leg r) = ∑ p ∈ range n, C (cf q r * DLM n k p r) * leg p := by
      intro r hr
      rw [iter_C_mul, ih r (mem_range.1 hr), mul_sum]
      refine sum_congr rfl (fun p _ => by rw [C_mul, mul_assoc])
    rw [sum_congr rfl this, sum_comm]
    refine sum_congr rfl (fun p _ => ?_)
    rw [← sum_mul]; congr 1
    simp only [DLM, map_sum]
    refine sum_congr rfl (fun r _ => by rw [mul_comm])

end GS
