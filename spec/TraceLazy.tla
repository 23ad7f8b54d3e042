------------------------------ MODULE TraceLazy ------------------------------
(***************************************************************************)
(* Histories of files and of the sets made of their recordings.               *)
(*   W  files   Q  sets   K  coefficients asked for and not yet computed:       *)
(*                           [must, may |-> files that must, that may be read]    *)
(* Operations on sets do not depend on the files: only their shape is recorded    *)
(* then, and it must be right whether or not the files can be read.                *)
(***************************************************************************)
EXTENDS LazyFiles, Json, IOUtils

VARIABLES tid, l, W, Q, K

Traces == ndJsonDeserialize(IOEnv.TRACE)
Detail == IOEnv.DETAIL = "1"

Unknown == [n |-> -1, t |-> <<>>, r |-> <<>>]
ShapeOf(v) == [n |-> v.n, t |-> Elems(v.t), r |-> v.r]

Used(e) == IF "hs" \in DOMAIN e THEN Elems(e.hs) ELSE IF "h" \in DOMAIN e THEN {e.h} ELSE {}
Sure(e) == \A h \in Used(e) : Q[h].n # -1
ShapeClause(e, m) ==
  IF m.ok # e.ok THEN (IF e.ok THEN "accepted" ELSE "refused")
  ELSE IF ~e.ok THEN ""
  ELSE LET a == Shape(m.v)
           b == ShapeOf(e.res)
       IN IF a.t # b.t THEN "tags" ELSE IF a.r # b.r THEN "runs" ELSE IF a.n # b.n THEN "channels" ELSE ""

Allowed(e, must, may) ==
  IF e.ok /\ ~There(W, must) THEN "read without the file"
  ELSE IF ~e.ok /\ There(W, may) THEN "refused" ELSE ""

ComputeClause(e) ==
  LET S == Q[e.h]
      ks == NamesIn(e, Q)
      need == Needs(S, ks)
      c == Allowed(e, need, need)
      want(k) == [i \in DOMAIN S.r |-> LET v == TagView(S, S.r[i], k)
                                       IN [j \in DOMAIN v |-> Read(W, v[j].g)]]
  IN IF c # "" \/ ~e.ok THEN c
     ELSE IF {e.res[i][1] : i \in DOMAIN e.res} # ks \/ Len(e.res) # Cardinality(ks) THEN "tags"
     ELSE IF \E i \in DOMAIN e.res : e.res[i][2] # want(e.res[i][1]) THEN "samples"
     ELSE ""

CountClause(e) == IF e.ok /\ e.res # [i \in DOMAIN Q[e.h].r |-> Q[e.h].r[i].n \div 2] THEN "windows" ELSE ""

FourierClause(e) ==
  IF ~Windowable(Q[e.h]) THEN (IF e.ok THEN "accepted" ELSE "")
  ELSE LET c == IF e.op = "later" THEN (IF e.ok THEN "" ELSE "refused")
                ELSE Allowed(e, Asking(e, Q).must, Asking(e, Q).may)
       IN IF c # "" THEN c ELSE CountClause(e)

Clause(e) ==
  IF ~Sure(e) THEN ""
  ELSE CASE e.op \in Makers -> ShapeClause(e, MadeBy(e, W, Q))
         [] e.op = "compute" -> ComputeClause(e)
         [] e.op \in {"fourier", "later"} -> FourierClause(e)
         [] e.op = "now" -> Allowed(e, K[e.k].must, K[e.k].may)
         [] OTHER -> ""

Expected(e) == IF e.op \in Makers THEN MadeBy(e, W, Q) ELSE IF e.op = "now" THEN K[e.k] ELSE <<Needs(Q[e.h], NamesIn(e, Q)), Q[e.h]>>

Init == tid \in 1..Len(Traces) /\ l = 0 /\ W = <<>> /\ Q = <<>> /\ K = <<>>

NewFiles(e) ==
  CASE e.op = "file"    -> Append(W, [s |-> e.s, p |-> e.p, n |-> e.n, away |-> FALSE, ver |-> 0])
    [] e.op = "move"    -> [W EXCEPT ![e.f].away = e.away]
    [] e.op = "rewrite" -> [W EXCEPT ![e.f].ver = e.ver]
    [] OTHER            -> W

NewSets(e, c) ==
  IF ~(e.op \in Makers /\ e.ok) THEN Q
  ELSE Append(Q, IF Sure(e) /\ c = "" THEN MadeBy(e, W, Q).v ELSE Unknown)

Asked(e, c) ==
  IF ~(e.op = "later" /\ e.ok) THEN K
  ELSE Append(K, IF Sure(e) /\ c = "" THEN Asking(e, Q) ELSE [must |-> {}, may |-> DOMAIN W])

Next ==
  /\ l < Len(Traces[tid])
  /\ LET e == Traces[tid][l + 1]
         c == Clause(e)
     IN /\ c # "" => /\ PrintT(<<"BAD", tid, l + 1, "C27", c>>)
                     /\ Detail => PrintT(<<"SPEC", Expected(e)>>)
        /\ W' = NewFiles(e)
        /\ Q' = NewSets(e, c)
        /\ K' = Asked(e, c)
  /\ l' = l + 1
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_<<tid, l, W, Q, K>>
=============================================================================
