------------------------------ MODULE DataFiles ------------------------------
(***************************************************************************)
(* Resolution of data files and the path commands, over a file system F: a   *)
(* map from paths (sequences of names) to 0 for a directory and k > 0 for a   *)
(* file of content k.  The current directory is cwd; packaged data are under  *)
(* Packaged.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Packaged == <<"pkg", "razorback", "data">>

Local(cwd, t) == cwd \o <<"data">> \o t
Pack(t)       == Packaged \o t

Exists(F, p) == p \in DOMAIN F
IsDir(F, p)  == Exists(F, p) /\ F[p] = 0

DataPath(F, cwd, t) == IF IsDir(F, Local(cwd, t)) THEN Local(cwd, t) ELSE Pack(t)

\* name of a data file in directory t: <<TRUE, path>>, or refused
DataFile(F, cwd, name, t) ==
  LET a == DataPath(F, cwd, t) \o name
      b == Pack(t) \o name
  IN IF Exists(F, a) THEN [ok |-> TRUE, p |-> a]
     ELSE IF Exists(F, b) THEN [ok |-> TRUE, p |-> b]
     ELSE [ok |-> FALSE, p |-> <<>>]

Prefixes(p) == {SubSeq(p, 1, k) : k \in 1..Len(p)}

\* path command with the create option
Create(F, cwd, t) ==
  LET p == Local(cwd, t) IN
  IF Exists(F, p) THEN [ok |-> TRUE, said |-> "exists", p |-> p, F |-> F]
  ELSE IF \E q \in Prefixes(p) : Exists(F, q) /\ ~IsDir(F, q)
       THEN [ok |-> FALSE, said |-> "", p |-> p, F |-> F]
  ELSE [ok |-> TRUE, said |-> "created", p |-> p,
        F |-> [q \in DOMAIN F \cup Prefixes(p) |-> IF q \in DOMAIN F THEN F[q] ELSE 0]]

Show(F, cwd, t) == [ok |-> TRUE, said |-> "shown", p |-> DataPath(F, cwd, t), F |-> F]

\* steps of the environment
Mk(F, p, kind) == [q \in DOMAIN F \cup {p} |-> IF q = p THEN kind ELSE F[q]]
Below(F, p)    == {q \in DOMAIN F : Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p}
Rm(F, p)       == [q \in DOMAIN F \ Below(F, p) |-> F[q]]

TreeOK(F) == \A p \in DOMAIN F : \A q \in Prefixes(p) \ {p} : Exists(F, q) => IsDir(F, q)

BuiltIn == {"path", "version"}
Commands(plugins) == BuiltIn \cup plugins
=============================================================================
