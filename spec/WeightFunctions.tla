--------------------------- MODULE WeightFunctions ---------------------------
(***************************************************************************)
(* Robust weights on residuals of integer magnitude.                            *)
(* x: magnitudes; out: 0-based numbers of the rejected observations.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

WAbs(v) == IF v < 0 THEN -v ELSE v
KeptIn(x, out) == {i \in DOMAIN x : (i - 1) \notin out}

\* twice the median of f on S
Rank(f, S, i) == Cardinality({j \in S : f[j] < f[i] \/ (f[j] = f[i] /\ j < i)})
Nth(f, S, r) == f[CHOOSE i \in S : Rank(f, S, i) = r]
Median2(f, S) == LET n == Cardinality(S)
                 IN Nth(f, S, (n - 1) \div 2) + Nth(f, S, n \div 2)

\* four times the median absolute deviation
MAD4(x, out) ==
  LET S == KeptIn(x, out)
      m == Median2(x, S)
  IN Median2([i \in DOMAIN x |-> WAbs(2 * x[i] - m)], S)

\* scale = MAD / 0.44845, a multiple of MAD4
ScaleNum == 5000
ScaleDen == 8969

\* Huber weight of magnitude v for the multiple an/ad of the scale: <<num, den>>
Huber(v, mad4, an, ad) ==
  LET num == an * mad4 * ScaleNum
      den == ad * ScaleDen * v
  IN IF den <= num THEN <<1, 1>> ELSE <<num, den>>

HuberWeights(x, out, an, ad) ==
  LET m == MAD4(x, out) IN [i \in DOMAIN x |-> Huber(x[i], m, an, ad)]
=============================================================================
