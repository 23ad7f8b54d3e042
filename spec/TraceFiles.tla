------------------------------ MODULE TraceFiles ------------------------------
(***************************************************************************)
(* Histories of binary files and of the arrays loaded from them.            *)
(*   W  bytes of each file    A  arrays loaded                               *)
(***************************************************************************)
EXTENDS FileArrays, TLC, Json, IOUtils

VARIABLES tid, l, W, A

Traces == ndJsonDeserialize(IOEnv.TRACE)
Detail == IOEnv.DETAIL = "1"

\* a read on a file: values needed are there or the read fails
ReadClause(e) ==
  LET a == A[e.a]
      bytes == W[a.f]
      good == ManyOK(e.ix, <<a.n>>)
      pos == Flat(Complete(e.ix, <<a.n>>), <<a.n>>)
      all == \A i \in 1..a.n : Present(a, bytes, i - 1)
      needed == \A j \in DOMAIN pos : Present(a, bytes, pos[j][1])
  IN IF ~good THEN (IF e.ok THEN "accepted" ELSE "")
     ELSE IF ~e.ok THEN (IF all THEN "refused" ELSE "")
     ELSE IF bytes < a.off + a.item * a.n /\ ~needed THEN "missing"
     ELSE IF e.shape # ShapeOf(Complete(e.ix, <<a.n>>), <<a.n>>) THEN "shape"
     ELSE IF e.vals # [j \in DOMAIN pos |-> a.base + pos[j][1]] THEN "values"
     ELSE ""

\* a read in memory, value of coordinates <<i, j>> being 100 i + j
GridClause(e) ==
  LET good == ManyOK(e.ix, e.dims)
      pos == Flat(Complete(e.ix, e.dims), e.dims)
  IN IF good # e.ok THEN (IF e.ok THEN "accepted" ELSE "refused")
     ELSE IF ~good THEN ""
     ELSE IF e.shape # ShapeOf(Complete(e.ix, e.dims), e.dims) THEN "shape"
     ELSE IF e.vals # [j \in DOMAIN pos |-> 100 * pos[j][1] + pos[j][2]] THEN "values"
     ELSE ""

LoadClause(e) ==
  LET x == Load(W[e.f], e.off, e.size, e.item) IN
  IF x.ok # e.ok THEN (IF e.ok THEN "accepted" ELSE "refused")
  ELSE IF ~e.ok THEN ""
  ELSE IF e.n # x.n THEN "size" ELSE IF e.warn # x.warn THEN "warning" ELSE ""

Clause(e) == CASE e.op \in {"read", "array", "dask"} -> ReadClause(e)
               [] e.op = "grid" -> GridClause(e)
               [] e.op = "load" -> LoadClause(e)
               [] OTHER -> ""

Init == tid \in 1..Len(Traces) /\ l = 0 /\ W = <<>> /\ A = <<>>

Next ==
  /\ l < Len(Traces[tid])
  /\ LET e == Traces[tid][l + 1]
         c == Clause(e)
     IN /\ c # "" => PrintT(<<"BAD", tid, l + 1, "C16", c>>)
        /\ W' = CASE e.op = "write" -> Append(W, e.bytes)
                  [] e.op = "resize" -> [W EXCEPT ![e.f] = e.bytes]
                  [] OTHER -> W
        /\ A' = IF e.op = "load" /\ e.ok
                THEN Append(A, [f |-> e.f, off |-> e.off, item |-> e.item, n |-> e.n, base |-> e.base])
                ELSE A
  /\ l' = l + 1
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_<<tid, l, W, A>>
=============================================================================
