------------------------------- MODULE TraceAts -------------------------------
(***************************************************************************)
(* Histories of ATS files, of the recordings loaded from them and of what is   *)
(* computed from these recordings together.                                    *)
(*   W  files     A  recordings                                                 *)
(***************************************************************************)
EXTENDS AtsFiles, TLC, Json, IOUtils, SequencesExt

VARIABLES tid, l, W, A

Traces == ndJsonDeserialize(IOEnv.TRACE)

Known(ids) == \A i \in DOMAIN ids : ids[i] \in DOMAIN W
Given(ids) == [i \in DOMAIN ids |-> W[ids[i]]]
First(s, n) == SubSeq(s, 1, n)
Lowest(rs) == LET ns == {A[rs[i]].n : i \in DOMAIN rs} IN CHOOSE n \in ns : \A k \in ns : n <= k
Later(i, j) == A[i].start < A[j].start
RunOf(r, s) == [s |-> A[r].start, p |-> A[r].rate, ch |-> s, c |-> A[r].cals]

LoadClause(e) ==
  LET good == Known(e.fs) /\ Loadable(Given(e.fs), e.ncal) IN
  IF good # e.ok THEN (IF e.ok THEN "accepted" ELSE "refused")
  ELSE IF ~good THEN ""
  ELSE LET r == Recording(W, e.fs, e.cals) IN
       IF e.start # r.start \/ e.rate # r.rate THEN "clock"
       ELSE IF e.n # r.n \/ e.nch # Len(r.chans) THEN "size"
       ELSE IF e.rcals # r.cals THEN "calibrations"
       ELSE IF e.warn # (\E i \in DOMAIN e.fs : Short(W[e.fs[i]])) THEN "warning"
       ELSE ""

DirClause(e) ==
  LET good == Loadable(Given(e.fs), 0)
      want == Channels(W, Recording(W, e.fs, <<>>))
      bag(s, x) == Cardinality({i \in DOMAIN s : s[i] = x}) IN
  IF good # e.ok THEN (IF e.ok THEN "accepted" ELSE "refused")
  ELSE IF ~good THEN ""
  ELSE IF Len(e.vals) # Len(want) \/ \E i \in DOMAIN want : bag(e.vals, want[i]) # bag(want, want[i])
       THEN "samples" ELSE ""

ReadClause(e) ==
  IF ~e.ok THEN "refused"
  ELSE IF e.vals # SubSeq(Samples(W, A[e.r], e.c), e.lo + 1, e.hi) THEN "samples" ELSE ""

AllClause(e) ==
  IF ~e.ok THEN "refused"
  ELSE IF e.vals # [i \in DOMAIN e.rs |-> Channels(W, A[e.rs[i]])] THEN "samples" ELSE ""

\* recordings of one start and rate, side by side
MergeClause(e) ==
  LET n == Lowest(e.rs)
      want == FlattenSeq([i \in DOMAIN e.rs |->
                [c \in DOMAIN A[e.rs[i]].chans |-> First(Samples(W, A[e.rs[i]], c), n)]])
  IN IF ~e.ok THEN "refused"
     ELSE IF n < 2 THEN (IF e.vals # <<>> THEN "samples" ELSE "")
     ELSE IF e.vals # want THEN "samples"
     ELSE IF e.rcals # FlattenSeq([i \in DOMAIN e.rs |-> A[e.rs[i]].cals]) THEN "calibrations"
     ELSE ""

\* recordings apart in time, with the same number of channels
JoinClause(e) ==
  LET order == SortSeq(e.rs, Later) IN
  IF ~e.ok THEN "refused"
  ELSE IF e.vals # [i \in DOMAIN order |-> Channels(W, A[order[i]])] THEN "samples"
  ELSE IF e.rcals # [i \in DOMAIN order |-> A[order[i]].cals] THEN "calibrations" ELSE ""

DiffClause(e) ==
  LET n == Min2(A[e.r].n, A[e.r2].n) IN
  IF ~e.ok THEN "refused"
  ELSE IF e.vals # [j \in 1..n |-> Samples(W, A[e.r], e.c)[j] - Samples(W, A[e.r2], e.c2)[j]]
       THEN "samples" ELSE ""

Clause(e) == CASE e.op = "load" -> LoadClause(e)
               [] e.op = "loaddir" -> DirClause(e)
               [] e.op = "read" -> ReadClause(e)
               [] e.op = "all" -> AllClause(e)
               [] e.op = "merge" -> MergeClause(e)
               [] e.op = "join" -> JoinClause(e)
               [] e.op = "diff" -> DiffClause(e)
               [] OTHER -> ""

Init == tid \in 1..Len(Traces) /\ l = 0 /\ W = <<>> /\ A = <<>>

Next ==
  /\ l < Len(Traces[tid])
  /\ LET e == Traces[tid][l + 1]
         c == Clause(e)
     IN /\ c # "" => PrintT(<<"BAD", tid, l + 1, "C17", c>>)
        /\ W' = IF e.op = "file" THEN Append(W, e.file) ELSE W
        /\ A' = IF e.op = "load" /\ e.ok
                THEN Append(A, IF c \in {"accepted", "size"}
                               THEN [start |-> e.start, rate |-> e.rate, n |-> 0, chans |-> <<>>, cals |-> <<>>]
                               ELSE Recording(W, e.fs, e.cals))
                ELSE A
  /\ l' = l + 1
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_<<tid, l, W, A>>
=============================================================================
