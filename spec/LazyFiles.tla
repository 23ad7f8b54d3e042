------------------------------ MODULE LazyFiles ------------------------------
(***************************************************************************)
(* Recordings loaded from files are symbolic: they say where samples are,      *)
(* and the samples are read when they are computed.                            *)
(*                                                                           *)
(* W: the files, each [s, p, n |-> clock and size of its recording,              *)
(*    away |-> it cannot be read now, ver |-> what it holds now].                 *)
(* The samples of file f are track f of SignalSets.                              *)
(***************************************************************************)
EXTENDS Inventories

ClockOf(f) == <<f.s, f.p, f.n>>

\* fs: numbers of the files of the channels; T: tag table
Load(W, fs, cals, T) ==
  IF fs = <<>> \/ \E i \in DOMAIN fs : W[fs[i]].away \/ ClockOf(W[fs[i]]) # ClockOf(W[fs[1]])
  THEN Err
  ELSE LET f == W[fs[1]] IN
       Build(T, Len(fs), <<Sync([s |-> f.s, p |-> f.p, n |-> f.n,
                                 ch |-> [i \in DOMAIN fs |->
                                          [g |-> <<<<fs[i], 0, f.n>>>>,
                                           c |-> IF cals = <<>> THEN 2 ELSE cals[i]]]])>>)

Tracks(g) == {g[i][1] : i \in DOMAIN g}

\* the files holding the samples of the channels X of a set (channels numbered from 0)
FilesOf(S, X) == UNION {UNION {Tracks(S.r[i].ch[c+1].g) : c \in X} : i \in DOMAIN S.r}
AllChannels(S) == 0..(S.n - 1)
Needs(S, names) == FilesOf(S, UNION {Elems(S.t[k]) : k \in names})

There(W, F) == \A f \in F : ~W[f].away

\* what is read: the samples the files hold at that time
Read(W, g) == [i \in DOMAIN g |-> <<g[i][1], W[g[i][1]].ver, g[i][2], g[i][3]>>]

\* windows of two samples, one after the other
WindowedFiles(S, X) ==
  FilesOf([S EXCEPT !.r = [i \in DOMAIN S.r |-> CutRun(S.r[i], 0, 2 * (S.r[i].n \div 2))]], X)
Windowable(S) == S.r # <<>> /\ \A i \in DOMAIN S.r : S.r[i].n >= 4

\* what is known of a set without reading anything
Shape(S) == [n |-> S.n, t |-> {<<k, Len(S.t[k])>> : k \in DOMAIN S.t},
             r |-> [i \in DOMAIN S.r |-> <<S.r[i].s, S.r[i].p, S.r[i].n>>]]

-----------------------------------------------------------------------------
(* Operations: records e with e.op; sets are designated by their numbers *)

Makers == {"load", "channels", "runs", "extract", "join", "merge", "fuse", "copy", "pack"}
TableOf(v) == [k \in {v[i][1] : i \in DOMAIN v} |-> (CHOOSE x \in Elems(v) : x[1] = k)[2]]

\* the set made by e: it depends on the files for loading only
MadeBy(e, W, Q) ==
  LET S == Q[e.h]
      many == [i \in DOMAIN e.hs |-> Q[e.hs[i]]]
  IN CASE e.op = "load"     -> Load(W, e.fs, e.cals, TableOf(e.tags))
       [] e.op = "channels" -> SelectChannels(S, [i \in DOMAIN e.tags |-> [tag |-> TRUE, name |-> e.tags[i], idx |-> 0]])
       [] e.op = "runs"     -> SelectRuns(S, e.idx)
       [] e.op = "extract"  -> ExtractT(S, e.a, e.b, e.excl)
       [] e.op = "join"     -> JoinSets(many)
       [] e.op = "merge"    -> Merge(many)
       [] e.op = "fuse"     -> Ok(MergeConsecutive(S))
       [] e.op = "copy"     -> Ok(S)
       [] e.op = "pack"     -> PackAll(many)

\* the channels concerned: those of the tags, all of them if none is given
NamesIn(e, Q) == IF e.tags = <<>> THEN DOMAIN Q[e.h].t ELSE Elems(e.tags)

\* the files that must be there for coefficients, and those that may have to be
Asking(e, Q) ==
  LET S == Q[e.h]
      X == IF e.tags = <<>> THEN AllChannels(S) ELSE UNION {Elems(S.t[k]) : k \in Elems(e.tags)}
  IN [must |-> WindowedFiles(S, X), may |-> FilesOf(S, X)]
=============================================================================
