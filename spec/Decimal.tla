------------------------------- MODULE Decimal -------------------------------
(***************************************************************************)
(* Decimal expansions of rationals by long division, so that real numbers      *)
(* observed with some digits can be compared with exact values in 32 bits.     *)
(***************************************************************************)
LOCAL INSTANCE Integers

LOCAL DAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pow10(_)
Pow10(k) == IF k <= 0 THEN 1 ELSE 10 * Pow10(k - 1)

\* floor(num / den * 10^k) for 0 <= num, 0 < den < 2 * 10^8, the result being small enough
RECURSIVE Digits(_, _, _), Digits2(_, _, _)
Digits(num, den, k) ==
  IF k <= 0 THEN (num \div den) \div Pow10(-k)
  ELSE LET q == num \div den
       IN q * Pow10(k) + Digits2((num % den), den, k)
Digits2(r, den, k) == IF k = 0 \/ r = 0 THEN 0
                      ELSE ((r * 10) \div den) * Pow10(k - 1) + Digits2((r * 10) % den, den, k - 1)

\* v * 10^-k is num/den (>= 0) up to tol units of v; |k| <= 9
Fits(num, den, k) == k <= 0 \/ (num \div den) < 2000000000 \div Pow10(k)
Close(v, k, num, den, tol) ==
  /\ Fits(num, den, k)
  /\ DAbs(v - Digits(num, den, k)) <= tol
=============================================================================
