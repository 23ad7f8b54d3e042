------------------------------ MODULE Statistics ------------------------------
(***************************************************************************)
(* Error estimates and coherences, squared so as to be rational.               *)
(***************************************************************************)
EXTENDS Regression

Reduced(n, d) == LET g == GCD(n, d) IN IF g = 0 THEN <<n, d>> ELSE <<n \div g, d \div g>>

\* product of fractions, reduced before multiplying
Times(x, y) == LET a == Reduced(x[1], y[2])
                   c == Reduced(y[1], x[2])
               IN <<a[1] * c[1], a[2] * c[2]>>

\* square of the error of an output e for input q of inputs b, z = [den, num] being its estimate,
\* with k observations rejected
ErrorSquare(e, b, z, q, k) ==
  LET n   == Len(e)
      res == ScaledResidual(e, b, z)
      inv == InverseDiagonal(b, q)
  IN Times(Times(Reduced(Energy(res, Ones(n)), z.den * z.den), Reduced(inv.num, inv.den)),
           Times(Reduced(n * n, n - Len(b)), <<1, (n - k) * (n - k)>>))

-----------------------------------------------------------------------------
\* blocks of at least size windows, the last one taking the remainder
Blocks(n, size) == LET m == n \div size
                   IN IF m = 0 THEN << <<1, n>> >>
                      ELSE [j \in 1..m |-> <<(j - 1) * size + 1, IF j = m THEN n ELSE j * size>>]
Part(s, r) == SubSeq(s, r[1], r[2])

\* square of the multiple coherence of output e with inputs b: <<num, den>>, den = 0 when undefined
CoherenceSquare(e, b) ==
  LET w == Ones(Len(e))
      d == Det(Cross(b, w))[1]
      en == Energy(e, w)
  IN IF d = 0 \/ en = 0 THEN <<0, 0>> ELSE <<d * en - Det(Cross(Append(b, e), w))[1], d * en>>

\* with respect to a bound <<num, den>> of the coherence
Below(c, m) == c[1] * m[2] * m[2] < m[1] * m[1] * c[2]
Same(c, m) == c[1] * m[2] * m[2] = m[1] * m[1] * c[2]
Above(c, m) == ~Below(c, m) /\ ~Same(c, m)

\* "in", "out", or "any" on a bound reached exactly, where rounding decides
Verdict(lo, hi, c) ==
  IF c[2] = 0 THEN "any"
  ELSE IF Below(c, lo) \/ Above(c, hi) THEN "out"
  ELSE IF (Same(c, lo) /\ c[1] # 0) \/ (Same(c, hi) /\ c[1] # c[2]) THEN "any"
  ELSE "in"
=============================================================================
