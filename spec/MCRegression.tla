----------------------------- MODULE MCRegression -----------------------------
(***************************************************************************)
(* The exact least squares of Regression: normal equations, minimality,        *)
(* permutations and duplicated observations, residual energy.                  *)
(***************************************************************************)
EXTENDS Regression, TLC

CONSTANTS N, Q, Values, Imag, Wts

VARIABLES e, b, w
vars == <<e, b, w>>

C == Values \X Imag
Init == e \in [1..N -> C] /\ b = <<>> /\ w = <<>>
Next == b = <<>> /\ b' \in [1..Q -> [1..N -> C]] /\ w' \in [1..N -> Wts] /\ UNCHANGED e
Spec == Init /\ [][Next]_vars

z == LSE(e, b, w)
res == ScaledResidual(e, b, z)
good == z.den # 0
Perm == [i \in 1..N |-> N + 1 - i]

RealDet == /\ Det(Cross(b, w))[2] = 0 /\ Det(Cross(b, w))[1] >= 0
           /\ Det(Cross(Append(b, e), w))[2] = 0 /\ Det(Cross(Append(b, e), w))[1] >= 0

Normal == good => \A q \in 1..Q : Dot(b[q], res, w) = Zero

\* weighted energy of the residual is the one announced (over den)
EnergyLaw == good => Energy(res, w) = ResidualEnergy(e, b, w).num * z.den

\* moving the estimate by one unit in any direction does not help
Minimal == good => \A q \in 1..Q : \A d \in {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>} :
  LET moved == [z EXCEPT !.num[q] = Add(@, d)]
  IN Energy(ScaledResidual(e, b, moved), w) >= Energy(res, w)

Permuted == LSE([i \in 1..N |-> e[Perm[i]]], [q \in 1..Q |-> [i \in 1..N |-> b[q][Perm[i]]]],
                [i \in 1..N |-> w[Perm[i]]]) = z

\* a weight of zero is an elimination, a weight of two a repetition
Dropped == LET out == {i - 1 : i \in {j \in 1..N : w[j] = 0}}
           IN Cardinality(out) < N =>
              LSE(Without(e, out), [q \in 1..Q |-> Without(b[q], out)], Without(w, out)) = z

Inverse == LET A == Cross(b, Ones(N)) IN
  Det(A)[1] # 0 => \A q \in 1..Q :
    /\ InverseDiagonal(b, q).num > 0
    /\ InverseDiagonal(b, q).num * A[q][q][1] >= InverseDiagonal(b, q).den

Laws == b = <<>> \/ (RealDet /\ Normal /\ EnergyLaw /\ Minimal /\ Permuted /\ Dropped /\ Inverse)
=============================================================================
