------------------------------ MODULE TraceData ------------------------------
(***************************************************************************)
(* Recorded histories of a file system, of data path queries and of command  *)
(* lines.  e.F is the file system after the event.                            *)
(***************************************************************************)
EXTENDS DataFiles, TLC, Json, IOUtils

VARIABLES tid, l, F

Traces == ndJsonDeserialize(IOEnv.TRACE)
Detail == IOEnv.DETAIL = "1"

AsFS(q) == [p \in {q[i][1] : i \in DOMAIN q} |->
              LET i == CHOOSE i \in DOMAIN q : q[i][1] = p IN q[i][2]]
Elems(q) == {q[i] : i \in DOMAIN q}

\* what the event must give: [ok, said, p, F]
Want(e) ==
  CASE e.op = "mk"   -> [ok |-> TRUE, said |-> "", p |-> e.p, F |-> Mk(F, e.p, e.kind)]
    [] e.op = "rm"   -> [ok |-> TRUE, said |-> "", p |-> e.p, F |-> Rm(F, e.p)]
    [] e.op = "start" -> [ok |-> TRUE, said |-> "", p |-> <<>>, F |-> AsFS(e.F)]
    [] e.op = "path" -> [ok |-> TRUE, said |-> "", p |-> DataPath(F, e.cwd, e.t), F |-> F]
    [] e.op = "file" -> LET x == DataFile(F, e.cwd, e.name, e.t)
                        IN [ok |-> x.ok, said |-> "", p |-> x.p, F |-> F]
    [] e.op = "show" -> Show(F, e.cwd, e.t)
    [] e.op = "create" -> Create(F, e.cwd, e.t)
    [] OTHER -> [ok |-> TRUE, said |-> "", p |-> <<>>, F |-> F]

Clauses(e) ==
  LET w == Want(e) IN
  (IF AsFS(e.F) # w.F THEN {"files"} ELSE {})
  \cup (IF e.op \in {"path", "file", "show", "create"}
        THEN (IF e.ok # w.ok THEN {IF e.ok THEN "accepted" ELSE "refused"}
              ELSE IF ~e.ok THEN {}
              ELSE (IF e.res # w.p THEN {"path"} ELSE {})
                   \cup (IF e.said # w.said THEN {"report"} ELSE {}))
        ELSE {})
  \cup (IF e.op = "commands" /\ (Elems(e.res) # Commands(Elems(e.plugins)) \/
                                 Len(e.res) # Cardinality(Elems(e.res))) THEN {"commands"} ELSE {})
  \cup (IF e.op = "plugin" /\ (~e.ok \/ e.said # e.name) THEN {"plugin"} ELSE {})

Init == tid \in 1..Len(Traces) /\ l = 0 /\ F = <<>>

Next ==
  /\ l < Len(Traces[tid])
  /\ LET e == Traces[tid][l + 1]
         bad == Clauses(e)
     IN /\ \A c \in bad : PrintT(<<"BAD", tid, l + 1, "C19", c>>)
        /\ bad # {} /\ Detail => PrintT(<<"SPEC", Want(e)>>)
        /\ F' = AsFS(e.F)
  /\ l' = l + 1
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_<<tid, l, F>>
=============================================================================
