----------------------------- MODULE TraceValues -----------------------------
(***************************************************************************)
(* Events: one call of prefilter_values ("values") or of its massive version    *)
(* ("mass", e.nrem remotes), e.ints being the requested intervals in ticks and   *)
(* e.out[combination][interval][frequency] = [v, t] what is returned.             *)
(***************************************************************************)
EXTENDS PrefilterValues, TraceBase

Part(e, i) == IF e.op = "mass" THEN Restrict(e.q, e.ints[i]) ELSE e.q
Combinations(e) == IF e.op = "mass" THEN Power(e.nrem) ELSE 1
Intervals(e) == IF e.op = "mass" THEN Len(e.ints) ELSE 1

Refused(e) == \E i \in 1..Intervals(e) : \E k \in DOMAIN e.freqs : ~WindowsOK(Part(e, i), e.freqs[k])


ValuesExpected(e) ==
  IF Refused(e) THEN "refused"
  ELSE [i \in 1..Intervals(e) |-> [k \in DOMAIN e.freqs |->
         [v |-> ValuesAt(Part(e, i), e.freqs[k]), t |-> Centres(Part(e, i), e.freqs[k])]]]

ValuesJudge(e) ==
  (IF e.mutated THEN {<<"C24", "arguments">>} ELSE {})
  \cup (IF Refused(e) THEN IF e.ok THEN {<<"C24", "not refused">>} ELSE {}
        ELSE IF ~e.ok THEN {<<"C24", "refused">>}
        ELSE IF Len(e.out) # Combinations(e) \/ \E c \in DOMAIN e.out : Len(e.out[c]) # Intervals(e)
                \/ \E i \in DOMAIN e.out[c] : Len(e.out[c][i]) # Len(e.freqs)
             THEN {<<"C24", "alignment">>}
        ELSE LET want == ValuesExpected(e)
                 all == {<<c, i, k>> : c \in DOMAIN e.out, i \in 1..Intervals(e), k \in DOMAIN e.freqs}
             IN (IF \E x \in all : Exact(Part(e, x[2]), e.freqs[x[3]]) /\ e.out[x[1]][x[2]][x[3]].v # want[x[2]][x[3]].v THEN {<<"C24", "values">>} ELSE {})
                \cup (IF \E x \in all : e.out[x[1]][x[2]][x[3]].t # want[x[2]][x[3]].t THEN {<<"C24", "times">>} ELSE {}))
=============================================================================
