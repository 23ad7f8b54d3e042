------------------------------- MODULE MCChain -------------------------------
(***************************************************************************)
(* Laws of MEstimation on all small problems: who is rejected, in which       *)
(* numbering, what each step sees, and the real formulation.                   *)
(***************************************************************************)
EXTENDS MEstimation, TLC

CONSTANTS N, Q, Values, Imag, Mode

VARIABLES e, b, given, wfs

C == Values \X Imag
none == [k |-> "none"]
T(rows) == [k |-> "table", t |-> rows]
clip == [k |-> "clip", num |-> 1, den |-> 2]
Chains == IF Mode = "plain" THEN {<<none>>}
          ELSE IF Mode = "real"
          THEN {<<none>>, <<none, T(<<<<2, 0, 2, 1, 2>>>>)>>, <<none, clip>>, <<none, none>>}
          ELSE {<<none>>, <<none, clip>>, <<none, T(<<<<2, 0, 2, 1, 2>>>>)>>,
                <<none, T(<<<<>>, <<0, 2, 2, 2, 1>>>>), clip>>, <<none, T(<<<<2, 2, -1, 2, 2>>, <<>>>>), none>>,
                <<none, [k |-> "fail", at |-> 1]>>, <<none, [k |-> "failn", n |-> N - 1], clip>>}
o == [tn |-> 1, td |-> 10, maxit |-> 5, eps |-> 0]

Init == e \in [1..N -> C] /\ b = <<>> /\ given = {} /\ wfs = <<>>
Next == b = <<>> /\ b' \in [1..Q -> [1..N -> C]] /\ wfs' \in Chains
        /\ given' \in {{}, {0}, {N - 1}} /\ UNCHANGED e
Spec == Init /\ [][Next]_<<e, b, given, wfs>>

same(z, y) == z.den # 0 /\ y.den # 0 =>
  \A q \in DOMAIN z.num : Scale(y.den, z.num[q]) = Scale(z.den, y.num[q])

ChainLaws ==
  LET r == Estimate(e, b, wfs, o, NoGuess, given)
      kept == (0..N-1) \ r.rej
  IN /\ r.out \in {"ok", "nonconv", "fail", "any"}
     /\ given \subseteq r.rej /\ r.rej \subseteq 0..N-1
     /\ r.out = "ok" => kept # {} /\ r.z.den # 0
     \* in original numbering: as if the given ones had never been there
     /\ LET s == Estimate(Without(e, given), [q \in 1..Q |-> Without(b[q], given)], wfs, o, NoGuess, {})
            num == Numbers(N, given)
        IN N > Cardinality(given) /\ (\A i \in DOMAIN wfs : wfs[i].k # "failn") =>
           /\ s.out = r.out
           /\ r.out = "ok" => r.rej = given \cup {num[i + 1] : i \in s.rej} /\ r.z = s.z
     \* steps never bring an observation back, nor see one that is out
     /\ \A i \in DOMAIN wfs : LET p == Estimate(e, b, SubSeq(wfs, 1, i), o, NoGuess, given)
                              IN r.out = "ok" => p.out = "ok" /\ p.rej \subseteq r.rej
     /\ \A i \in DOMAIN r.calls : Len(r.calls[i].e) <= N - Cardinality(given)
                                  /\ r.calls[i].it < o.maxit
                                  /\ \A j \in r.calls[i].rej : j < Len(r.calls[i].e)
     /\ \A i \in DOMAIN r.calls : r.calls[i].it # 0 => i > 1 /\ r.calls[i].it = r.calls[i-1].it + 1
                                    /\ r.calls[i-1].rej \subseteq r.calls[i].rej
     \* plain steps: least squares on what is left
     /\ r.out = "ok" /\ wfs[Len(wfs)].k = "none" =>
          same(r.z, LSE(e, b, [i \in 1..N |-> IF i - 1 \in r.rej THEN 0 ELSE 1]))
     \* repeated plain steps change nothing
     /\ wfs = <<none>> /\ r.out = "ok" =>
          LET s == Estimate(e, b, <<none, none>>, o, NoGuess, given) IN s.out = "ok" /\ same(s.z, r.z) /\ s.rej = r.rej

RealDirect == LET r == Estimate(Halves(e), RealInputs(b), wfs, o, NoGuess, BothHalves(given))
              IN IF r.out = "ok" THEN FromReal(r, Q) ELSE r
RealLaws ==
  LET r == RealDirect
      c == Estimate(e, b, wfs, o, NoGuess, given)
  IN /\ given \subseteq r.rej \/ r.out # "ok"
     /\ r.out = "ok" => r.rej \subseteq 0..N-1
     \* without weights, both formulations are one
     /\ (\A i \in DOMAIN wfs : wfs[i].k = "none") =>
          /\ r.out = c.out
          /\ r.out = "ok" => same(r.z, c.z) /\ r.rej = c.rej
     /\ EstimateReal(e, b, wfs, o, given).out = r.out
     \* data without imaginary parts: the imaginary observations only weigh nothing
     /\ (\A i \in 1..N : e[i][2] = 0 /\ \A q \in 1..Q : b[q][i][2] = 0) /\ r.out = "ok" /\ wfs = <<none>> =>
          \A q \in 1..Q : r.z.num[q][2] = 0

Laws == b = <<>> \/ (IF Mode # "chain" THEN RealLaws ELSE ChainLaws)
=============================================================================
