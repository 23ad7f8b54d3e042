------------------------------ MODULE TraceMEst ------------------------------
(***************************************************************************)
(* Events: one estimation of several outputs, with what each call of a         *)
(* weighting was given.  Numbers observed are in 1/Unit.                        *)
(***************************************************************************)
EXTENDS MEstimation, TraceBase, SequencesExt

Unit == 10000
Limit == 3400000

Guess(e, p) == IF e.init = <<>> THEN NoGuess ELSE [den |-> 1, num |-> e.init[p]]
Results(e) == [p \in DOMAIN e.outputs |->
                 IF e.op = "real" THEN EstimateReal(e.outputs[p], e.inputs, e.wfs, e.opts, Rng(e.given[p]))
                 ELSE IF e.op = "step" THEN Step(e.outputs[p], e.inputs, e.wfs[1], e.opts, Guess(e, p), Rng(e.given[p]))
                 ELSE Estimate(e.outputs[p], e.inputs, e.wfs, e.opts, Guess(e, p), Rng(e.given[p]))]
Owner(e) == IF e.op = "real" THEN "C26" ELSE "C11"

\* the first output that is not estimated decides
RECURSIVE FirstBad(_, _)
FirstBad(r, p) == IF p > Len(r) THEN "ok" ELSE IF r[p].out = "ok" THEN FirstBad(r, p + 1) ELSE r[p].out

Near(x, num, den) == Abs(x * den - Unit * num) <= 2 * Abs(den)
TooBig(num, den) == Abs(num) > 300 * Abs(den)
SameZ(z, w) == \A q \in DOMAIN w.num : \A k \in 1..2 :
                 TooBig(w.num[q][k], w.den) \/ Near(z[q][k], w.num[q][k], w.den)

SameCall(c, d) ==
  /\ c.it = d.it /\ c.e = d.e /\ c.b = d.b /\ Rng(c.rej) = d.rej
  /\ Len(c.res) = Len(d.res)
  /\ \A i \in DOMAIN d.res : (i - 1) \in d.rej \/
       \A k \in 1..2 : TooBig(d.res[i][k], d.den) \/ Near(c.res[i][k], d.res[i][k], d.den)

MEstExpected(e) == Results(e)

MEstJudge(e) ==
  LET r == Results(e)
      out == FirstBad(r, 1)
      fuzzy == \E p \in DOMAIN r : r[p].fuzzy \/ r[p].out = "any"
      upto == IF out = "ok" THEN Len(r) ELSE CHOOSE p \in DOMAIN r : r[p].out # "ok" /\ FirstBad(SubSeq(r, 1, p - 1), 1) = "ok"
      calls == FlattenSeq([p \in 1..upto |-> r[p].calls])
  IN (IF e.mutated THEN {<<Owner(e), "arguments">>} ELSE {}) \cup
     (IF out = "any" THEN {}
      ELSE IF out # e.out THEN {<<Owner(e), IF e.out = "ok" THEN "accepted" ELSE IF out = "ok" THEN "refused" ELSE "error">>}
      ELSE (IF ~fuzzy /\ Len(e.calls) # Len(calls) THEN {<<Owner(e), "iterations">>}
            ELSE IF ~fuzzy /\ \E i \in DOMAIN calls : ~SameCall(e.calls[i], calls[i]) THEN {<<Owner(e), "calls">>}
            ELSE {})
           \cup (IF out = "ok" THEN
                   (IF \E p \in DOMAIN r : (IF e.op = "step" THEN Sorted(Rng(e.rej[p])) ELSE e.rej[p]) # Sorted(r[p].rej) THEN {<<Owner(e), "rejected">>} ELSE {})
                   \cup (IF Len(e.z) # Len(r) \/ \E p \in DOMAIN r : Len(e.z[p]) # Len(e.inputs) THEN {<<Owner(e), "shape">>}
                         ELSE IF \E p \in DOMAIN r : ~SameZ(e.z[p], r[p].z) THEN {<<Owner(e), "estimate">>} ELSE {})
                 ELSE {}))
=============================================================================
