------------------------------ MODULE TraceMemo ------------------------------
(***************************************************************************)
(* An estimator is a function: memo records what was answered to each request   *)
(* (key) first - asked alone, with nothing before - and every later answer,        *)
(* alone or together with others, in any order and after any history, must be       *)
(* the same.  e.keys: the single requests asked together;                            *)
(*   "estimate"   one outcome for all: the first that fails decides                    *)
(*   "each"       one answer per request                                              *)
(*   "effect"     an interrupted or direct use: no answer expected                      *)
(*   "mass"       as "each", for a massive processing                                   *)
(* An answer is [out, z, rej]: outcome, numbers in 1/Unit, exact lists of numbers.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES tid, l, memo

Traces == ndJsonDeserialize(IOEnv.TRACE)
Detail == IOEnv.DETAIL = "1"

Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b) == a = b \/ (a > -2000000000 /\ b > -2000000000 /\ Abs(a - b) <= 2 + Abs(a) \div 500000)
SameNumbers(z, w) == /\ DOMAIN z = DOMAIN w
                     /\ \A i \in DOMAIN z : /\ DOMAIN z[i] = DOMAIN w[i]
                                            /\ \A j \in DOMAIN z[i] : Close(z[i][j], w[i][j])

Clause(a, b) ==
  IF a.out # b.out THEN "outcome"
  ELSE IF a.out # "ok" THEN ""
  ELSE IF a.shape # b.shape THEN "shape"
  ELSE IF a.rej # b.rej THEN "rejected"
  ELSE IF ~SameNumbers(a.z, b.z) THEN "estimate" ELSE ""

\* what answering several requests at once amounts to
RECURSIVE First(_, _)
First(a, i) == IF i > Len(a) THEN "ok" ELSE IF a[i].out # "ok" THEN a[i].out ELSE First(a, i + 1)

\* every combination of remotes once (or only the full one)
Covered(e) ==
  LET asked == IF e.combine THEN SUBSET (0..e.nrem - 1) ELSE {0..e.nrem - 1}
      of(c) == {c[i] : i \in DOMAIN c}
  IN /\ {of(e.combs[i]) : i \in DOMAIN e.combs} = asked
     /\ \A i, j \in DOMAIN e.combs : i # j => of(e.combs[i]) # of(e.combs[j])
     /\ \A i \in DOMAIN e.combs : \A j, k \in DOMAIN e.combs[i] : j < k => e.combs[i][j] < e.combs[i][k]

Judge(e) ==
  CASE e.op = "effect" -> {}
    [] e.op = "estimate" ->
         LET w == [i \in DOMAIN e.keys |-> memo[e.keys[i]]]
             out == First(w, 1)
         IN IF \E i \in DOMAIN e.keys : e.keys[i] \notin DOMAIN memo THEN {}
            ELSE IF e.out # out THEN {"outcome"}
            ELSE IF out # "ok" THEN {}
            ELSE IF Len(e.ans) # Len(w) THEN {"shape"}
            ELSE {Clause(w[i], e.ans[i]) : i \in DOMAIN w} \ {""}
    [] e.op = "mass" ->
         IF e.out = "fail" THEN {"refused"} ELSE IF e.out # "ok" THEN {"ragged"}
         ELSE (IF ~Covered(e) THEN {"combinations"} ELSE {})
              \cup (IF Len(e.keys) # Len(e.combs) * e.nint * e.nfreq THEN {"ragged"} ELSE {})
              \cup ({Clause(memo[e.keys[i]], e.ans[i]) : i \in {j \in DOMAIN e.keys : e.keys[j] \in DOMAIN memo}} \ {""})
    [] OTHER ->
         IF Len(e.ans) # Len(e.keys) THEN {"shape"}
         ELSE {Clause(memo[e.keys[i]], e.ans[i]) : i \in {j \in DOMAIN e.keys : e.keys[j] \in DOMAIN memo}} \ {""}

\* answers are remembered the first time
Learn(e) ==
  IF e.op \in {"effect", "mass", "estimate"} \/ Len(e.ans) # Len(e.keys) THEN memo
  ELSE LET new == {i \in DOMAIN e.keys : e.keys[i] \notin DOMAIN memo}
       IN [k \in DOMAIN memo \cup {e.keys[i] : i \in new} |->
             IF k \in DOMAIN memo THEN memo[k] ELSE e.ans[CHOOSE i \in new : e.keys[i] = k]]

Init == tid \in 1..Len(Traces) /\ l = 0 /\ memo = <<>>

Next ==
  /\ l < Len(Traces[tid])
  /\ LET e == Traces[tid][l + 1]
         bad == Judge(e) \cup (IF "mutated" \in DOMAIN e /\ e.mutated THEN {"arguments"} ELSE {})
     IN /\ \A b \in bad : PrintT(<<"BAD", tid, l + 1, e.prop, b>>)
        /\ bad # {} /\ Detail => PrintT(<<"SPEC", [i \in DOMAIN e.keys |-> memo[e.keys[i]]]>>)
        /\ memo' = Learn(e)
  /\ l' = l + 1
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_<<tid, l, memo>>
=============================================================================
