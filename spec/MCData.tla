-------------------------------- MODULE MCData --------------------------------
(***************************************************************************)
(* All small histories of a file system and of path commands.               *)
(***************************************************************************)
EXTENDS DataFiles, TLC

CONSTANTS Depth

VARIABLES F, cwd, last, n

Dirs == {<<"w">>, <<"w", "a">>}
Targets == {<<>>, <<"m">>, <<"m", "s">>}
Names == {<<"f">>}

Places == {d \o <<"data">> \o t : d \in Dirs, t \in Targets} \cup {Pack(t) : t \in Targets}
          \cup {d \o <<"data">> \o t \o <<"f">> : d \in Dirs, t \in Targets} \cup {Pack(t) \o <<"f">> : t \in Targets}

Parent(p) == SubSeq(p, 1, Len(p) - 1)

Init == /\ F = [p \in {<<"w">>, <<"w", "a">>, <<"pkg">>, <<"pkg", "razorback">>} |-> 0]
        /\ cwd = <<"w">> /\ last = [op |-> "", t |-> <<>>, said |-> ""] /\ n = 0

Next ==
  /\ n < Depth /\ n' = n + 1
  /\ \/ \E p \in Places, k \in {0, 1} : /\ ~Exists(F, p) /\ IsDir(F, Parent(p))
                                        /\ F' = Mk(F, p, k) /\ UNCHANGED cwd
                                        /\ last' = [op |-> "mk", t |-> <<>>, said |-> ""]
     \/ \E p \in Places : /\ Exists(F, p) /\ F' = Rm(F, p) /\ UNCHANGED cwd
                          /\ last' = [op |-> "rm", t |-> <<>>, said |-> ""]
     \/ \E d \in Dirs : cwd' = d /\ UNCHANGED F /\ last' = [op |-> "cd", t |-> <<>>, said |-> ""]
     \/ \E t \in Targets : LET x == Create(F, cwd, t) IN
          /\ F' = x.F /\ UNCHANGED cwd
          /\ last' = [op |-> "create", t |-> t, said |-> IF x.ok THEN x.said ELSE "refused"]

vars == <<F, cwd, last, n>>
Spec == Init /\ [][Next]_vars

Tree == TreeOK(F)

\* the create option only adds directories, and only under the local data directory
Additive == [][last'.op = "create" =>
                 /\ \A p \in DOMAIN F : p \in DOMAIN F' /\ F'[p] = F[p]
                 /\ \A p \in DOMAIN F' \ DOMAIN F : F'[p] = 0 /\ p \in Prefixes(Local(cwd, last'.t))
                 /\ last'.said # "created" => F' = F]_vars

\* what it created is what the path commands then show
Effective == last.op = "create" /\ last.said = "created" => DataPath(F, cwd, last.t) = Local(cwd, last.t)

\* local first; a file found is there, and is refused only if it is nowhere
Found == \A t \in Targets, m \in Names :
  LET x == DataFile(F, cwd, m, t) IN
  /\ x.ok => Exists(F, x.p)
  /\ ~x.ok => ~Exists(F, Pack(t) \o m) /\ ~(IsDir(F, Local(cwd, t)) /\ Exists(F, Local(cwd, t) \o m))
  /\ Exists(F, Local(cwd, t) \o m) /\ TreeOK(F) => x.p = Local(cwd, t) \o m
  /\ DataPath(F, cwd, t) = Local(cwd, t) <=> IsDir(F, Local(cwd, t))
=============================================================================
