------------------------------ MODULE TraceTags ------------------------------
(***************************************************************************)
(* Are recorded uses of razorback's Tags behaviours of TagTables?           *)
(* Each event holds e.ok, the returned value e.res and e.obs, all tables as   *)
(* observed after it through every way of reading them.                       *)
(***************************************************************************)
EXTENDS TagTables, Json, IOUtils, TLC

VARIABLES tid, l, T

Traces == ndJsonDeserialize(IOEnv.TRACE)
Detail == IOEnv.DETAIL = "1"

AsMap(q) == [k \in {q[i][1] : i \in DOMAIN q} |->
               LET i == CHOOSE i \in DOMAIN q : q[i][1] = k IN q[i][2]]
AsTable(x) == [n |-> x.n, t |-> AsMap(x.t)]
Obs(e) == [i \in DOMAIN e.obs |-> AsTable(e.obs[i])]

Creates(e) == e.op \in {"new", "copy"}

SameValue(e, v) == IF ~e.ok THEN TRUE
                   ELSE IF e.op = "filter" THEN Elems(e.res) = v /\ Len(e.res) = Cardinality(v)
                   ELSE e.res = v

\* all tables after the outcome o
After(e, o) == IF Creates(e) THEN (IF o.ok THEN Append(T, o.t) ELSE T)
               ELSE [T EXCEPT ![e.i] = o.t]

Allowed(e) ==
  LET P == Possible(e, T)
      O == Obs(e)
  IN IF \E o \in P : o.ok = e.ok /\ SameValue(e, o.v) /\ After(e, o) = O THEN "ok"
     ELSE IF \A o \in P : o.ok # e.ok THEN (IF e.ok THEN "accepted" ELSE "refused")
     ELSE IF \A o \in P : o.ok = e.ok => ~SameValue(e, o.v) THEN "value"
     ELSE IF \E i \in DOMAIN e.obs : ~e.obs[i].agree THEN "agree"
     ELSE "table"

Clause(e) ==
  LET a == Allowed(e)
      O == Obs(e)
  IN IF a # "ok" THEN a
     ELSE IF \E i \in DOMAIN e.obs : ~e.obs[i].agree THEN "agree"
     ELSE IF \E i \in DOMAIN O : ~TableOK(O[i]) THEN "range"
     ELSE ""

Init == tid \in 1..Len(Traces) /\ l = 0 /\ T = <<>>

Next ==
  /\ l < Len(Traces[tid])
  /\ LET e == Traces[tid][l + 1]
         c == Clause(e)
     IN /\ c # "" => PrintT(<<"BAD", tid, l + 1, "C06", c>>)
        /\ c # "" /\ Detail => PrintT(<<"SPEC", Possible(e, T)>>)
        /\ T' = Obs(e)
  /\ l' = l + 1
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_<<tid, l, T>>
=============================================================================
