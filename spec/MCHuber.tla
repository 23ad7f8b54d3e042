------------------------------- MODULE MCHuber -------------------------------
(* Laws of the Huber weights on all small vectors of magnitudes and rejections. *)
EXTENDS WeightFunctions, TLC
CONSTANTS N, M
SmallNum == 5
SmallDen == 9    \* the laws do not depend on the constant
VARIABLES x, out
Init == out = {} /\ \E n \in 1..N : x \in {[i \in 1..n |-> IF i = 1 THEN a ELSE -1] : a \in 0..M}
Next == /\ Len(x) > 1 => x[2] = -1
        /\ out = {}
        /\ x' \in {y \in [DOMAIN x -> 0..M] : y[1] = x[1]}
        /\ out' \in SUBSET (0..Len(x) - 2)
        /\ Len(x) > 1
Spec == Init /\ [][Next]_<<x, out>>

Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
W == HuberWeights(x, out, 3, 2)
Kept0 == KeptIn(x, out)
Bounded == \A i \in Kept0 : Leq(<<0, 1>>, W[i]) /\ Leq(W[i], <<1, 1>>)
Monotone == \A i, j \in Kept0 : x[i] <= x[j] => Leq(W[j], W[i])
ScaleFree == LET V == HuberWeights([i \in DOMAIN x |-> 3 * x[i]], out, 3, 2)
             IN \A i \in Kept0 : Leq(W[i], V[i]) /\ Leq(V[i], W[i])
Reversed == LET n == Len(x)
                V == HuberWeights([i \in DOMAIN x |-> x[n + 1 - i]], {n - 1 - o : o \in out}, 3, 2)
            IN \A i \in Kept0 : V[n + 1 - i] = W[i]
IgnoresRejected == LET V == HuberWeights([i \in DOMAIN x |-> IF (i - 1) \in out THEN 0 ELSE x[i]], out, 3, 2)
                   IN \A i \in Kept0 : V[i] = W[i]
Laws == (Len(x) > 1 /\ x[2] = -1) \/ (Bounded /\ Monotone /\ ScaleFree /\ Reversed /\ IgnoresRejected)
=============================================================================
