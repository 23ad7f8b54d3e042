------------------------------ MODULE Regression ------------------------------
(***************************************************************************)
(* Exact weighted least squares on Gaussian integers.                         *)
(* A complex number is <<re, im>>.  An observation i has an output e[i] and     *)
(* inputs b[q][i], q \in 1..Q, and an integer weight w[i] >= 0.         *)
(* Estimates are num / den, den being the determinant of the cross powers.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Zero == <<0, 0>>
Add(x, y)  == <<x[1] + y[1], x[2] + y[2]>>
Sub(x, y)  == <<x[1] - y[1], x[2] - y[2]>>
Mul(x, y)  == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Conj(x)    == <<x[1], -x[2]>>
Scale(k, x) == <<k * x[1], k * x[2]>>
Abs2(x)    == x[1] * x[1] + x[2] * x[2]
Abs(x)     == IF x < 0 THEN -x ELSE x

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
RECURSIVE CSumTo(_, _)
CSumTo(f, n) == IF n = 0 THEN Zero ELSE Add(f[n], CSumTo(f, n - 1))

RECURSIVE GCD(_, _)
GCD(x, y) == IF y < 0 THEN GCD(x, -y) ELSE IF y = 0 THEN Abs(x) ELSE GCD(y, x % y)

\* sum of w conj(u) v
Dot(u, v, w) == CSumTo([i \in DOMAIN u |-> Scale(w[i], Mul(Conj(u[i]), v[i]))], Len(u))
Energy(u, w) == SumTo([i \in DOMAIN u |-> w[i] * Abs2(u[i])], Len(u))

\* matrix of cross powers of the columns
Cross(cols, w) == [p \in DOMAIN cols |-> [q \in DOMAIN cols |-> Dot(cols[p], cols[q], w)]]

Det2(a, b, c, d) == Sub(Mul(a, d), Mul(b, c))
\* A without its first row and column q
Minor(A, q) == [i \in 1..(Len(A) - 1) |-> [j \in 1..(Len(A) - 1) |-> A[i + 1][IF j < q THEN j ELSE j + 1]]]
RECURSIVE Det(_)
Det(A) == CASE Len(A) = 1 -> A[1][1]
            [] Len(A) = 2 -> Det2(A[1][1], A[1][2], A[2][1], A[2][2])
            [] Len(A) = 3 ->
                 Add(Sub(Mul(A[1][1], Det2(A[2][2], A[2][3], A[3][2], A[3][3])),
                         Mul(A[1][2], Det2(A[2][1], A[2][3], A[3][1], A[3][3]))),
                     Mul(A[1][3], Det2(A[2][1], A[2][2], A[3][1], A[3][2])))
            [] OTHER -> CSumTo([q \in DOMAIN A |-> Scale(IF q % 2 = 1 THEN 1 ELSE -1, Mul(A[1][q], Det(Minor(A, q))))], Len(A))

\* A with column q replaced
Put(A, q, r) == [i \in DOMAIN A |-> [j \in DOMAIN A |-> IF j = q THEN r[i] ELSE A[i][j]]]

\* least squares of e on b: [den, num], singular iff den = 0
LSE(e, b, w) ==
  LET A == Cross(b, w)
      r == [q \in DOMAIN b |-> Dot(b[q], e, w)]
  IN [den |-> Det(A)[1], num |-> [q \in DOMAIN b |-> Det(Put(A, q, r))]]

\* den * (e - z.b) for z = num/den
ScaledResidual(e, b, z) ==
  [i \in DOMAIN e |-> Sub(Scale(z.den, e[i]), CSumTo([q \in DOMAIN b |-> Mul(z.num[q], b[q][i])], Len(b)))]

\* weighted energy of the residual of the least squares: num / den
ResidualEnergy(e, b, w) == [num |-> Det(Cross(Append(b, e), w))[1], den |-> Det(Cross(b, w))[1]]

Ones(n) == [i \in 1..n |-> 1]

\* element q of the diagonal of the inverse cross powers: num / den
InverseDiagonal(b, q) ==
  LET A == Cross(b, Ones(Len(b[1])))
      unit == [p \in DOMAIN b |-> IF p = q THEN <<1, 0>> ELSE Zero]
  IN [num |-> Det(Put(A, q, unit))[1], den |-> Det(A)[1]]

-----------------------------------------------------------------------------
\* selections of observations, by 0-based indices
Kept(n, out) == {i \in 1..n : (i - 1) \notin out}
Without(s, out) == LET k == Kept(Len(s), out)
                   IN [j \in 1..Cardinality(k) |->
                         s[CHOOSE i \in k : Cardinality({x \in k : x < i}) = j - 1]]
Rng(s) == {s[i] : i \in DOMAIN s}
\* 0-based positions in the original of the kept observations
Numbers(n, out) == Without([i \in 1..n |-> i - 1], out)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
=============================================================================
