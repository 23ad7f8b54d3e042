-------------------------------- MODULE MCLazy --------------------------------
(* Histories of files that come and go, of the sets made of their recordings   *)
(* and of what is asked for.  Files 1 and 2 are recorded together, so are 3 and  *)
(* 4 right after them; 5 is recorded alone during both, 6 later.                 *)
EXTENDS LazyFiles, Json

CONSTANTS Sim, Depth, MaxSets, Versions

VARIABLES W, Q, K, hist

Clocks == <<<<0, 4, 4>>, <<0, 4, 4>>, <<16, 4, 5>>, <<16, 4, 5>>, <<0, 4, 8>>, <<48, 4, 5>>>>
Fresh(c) == [s |-> c[1], p |-> c[2], n |-> c[3], away |-> FALSE, ver |-> 0]

Groups == {<<<<1, 2>>, <<<<"Ex", <<0>>>>, <<"Ey", <<1>>>>, <<"E", <<1, 0>>>>>>>>,
           <<<<4, 3>>, <<<<"Ex", <<1>>>>, <<"Ey", <<0>>>>, <<"E", <<0, 1>>>>>>>>,
           <<<<3, 4>>, <<<<"Ex", <<0>>>>, <<"Ey", <<1>>>>, <<"E", <<1, 0>>>>>>>>,
           <<<<2, 2>>, <<<<"Ex", <<1>>>>, <<"Ey", <<0>>>>, <<"E", <<0, 1>>>>>>>>,
           <<<<5>>, <<<<"Bx", <<0>>>>>>>>,
           <<<<6>>, <<<<"Bx", <<0>>>>>>>>,
           <<<<1, 5>>, <<<<"Bx", <<0>>>>>>>>}
Bounds == {-1, 4, 8, 12, 16, 17, 24, 100}

Pick(X) == IF Sim /\ X # {} THEN {RandomElement(X)} ELSE X
Subsets(X) == {AnySeq(Y) : Y \in (SUBSET X) \ {{}}}
One(X) == {<<x>> : x \in X}
Pairs == {<<i, j>> : i \in DOMAIN Q, j \in DOMAIN Q}

Ops == IF Sim THEN Makers \cup {"move", "rewrite", "compute", "later", "now", "fourier"}
       ELSE Makers \cup {"move", "later"}
Now(op) == IF op \in Makers /\ Len(Q) >= MaxSets THEN FALSE
           ELSE IF op \in {"load", "move", "rewrite"} THEN TRUE
           ELSE IF op = "now" THEN K # <<>>
           ELSE Q # <<>>

Events(op) ==
  LET hs == Pick(DOMAIN Q)
      on(h) == [op |-> op, h |-> h]
  IN CASE op = "move"    -> {[op |-> op, f |-> f, away |-> ~W[f].away] : f \in Pick(DOMAIN W)}
       [] op = "rewrite" -> {[op |-> op, f |-> f, ver |-> v] : f \in Pick(DOMAIN W), v \in Pick(Versions)}
       [] op = "load"    -> {[op |-> op, fs |-> g[1], cals |-> <<>>, tags |-> g[2]] : g \in Pick(Groups)}
       [] op = "channels" -> UNION {{on(h) @@ [tags |-> t] : t \in Pick(Subsets(DOMAIN Q[h].t))} : h \in hs}
       [] op = "runs"    -> UNION {{on(h) @@ [idx |-> <<i - 1>>] : i \in DOMAIN Q[h].r} : h \in hs}
       [] op = "extract" -> {on(h) @@ [a |-> a, b |-> b, excl |-> x] :
                               h \in hs, a \in Pick(Bounds), b \in Pick(Bounds), x \in Pick(BOOLEAN)}
       [] op \in {"join", "merge"} -> {[op |-> op, hs |-> p] : p \in Pick(Pairs)}
       [] op = "pack"    -> {[op |-> op, hs |-> p] : p \in Pick(One(DOMAIN Q) \cup Pairs)}
       [] op \in {"fuse", "copy"} -> {on(h) : h \in hs}
       [] op \in {"compute", "fourier", "later"} ->
            UNION {{on(h) @@ [tags |-> t, p |-> 4] : t \in Pick({<<>>} \cup Subsets(DOMAIN Q[h].t))} : h \in hs}
       [] op = "now"     -> {[op |-> op, k |-> k] : k \in Pick(DOMAIN K)}

Init == W = [f \in DOMAIN Clocks |-> Fresh(Clocks[f])] /\ Q = <<>> /\ K = <<>> /\ hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E op \in Pick({o \in Ops : Now(o)}) : \E e \in Pick(Events(op)) :
       LET m == IF op \in Makers THEN MadeBy(e, W, Q) ELSE Err
           asked == op = "later" /\ Windowable(Q[e.h])
       IN /\ e.op = "extract" => e.a <= e.b
          /\ Sim \/ op \notin Makers \/ m.ok
          /\ Q' = IF m.ok THEN Append(Q, m.v) ELSE Q
          /\ W' = CASE op = "move"    -> [W EXCEPT ![e.f].away = e.away]
                    [] op = "rewrite" -> [W EXCEPT ![e.f].ver = e.ver]
                    [] OTHER          -> W
          /\ K' = IF asked THEN Append(K, Asking(e, Q)) ELSE K
          /\ hist' = Append(hist, e)

vars == <<W, Q, K, hist>>
Spec == Init /\ [][Next]_vars

Names == UNION {DOMAIN Q[i].t : i \in DOMAIN Q}
All(S) == FilesOf(S, AllChannels(S))

Laws ==
  LET needs == [i \in DOMAIN Q |-> All(Q[i])]
  IN \A i \in DOMAIN Q :
       LET S == Q[i] IN
       /\ SetOK(S) /\ needs[i] \subseteq DOMAIN W
       \* every file is read with the clock it has: sample k of track f is at its own time
       /\ \A j \in DOMAIN S.r : \A c \in DOMAIN S.r[j].ch :
            LET g == S.r[j].ch[c].g IN
            \A x \in DOMAIN g : /\ g[x][2] + g[x][3] <= W[g[x][1]].n
                                /\ W[g[x][1]].p = S.r[j].p
                                /\ W[g[x][1]].s + g[x][2] * W[g[x][1]].p
                                     = S.r[j].s + SumSeq([y \in 1..(x-1) |-> g[y][3]]) * S.r[j].p
       \* less is asked of what is smaller
       /\ \A k \in DOMAIN S.t : Needs(S, {k}) = All(KeepChannels(S, Elems(S.t[k])))
       /\ \A k, m \in DOMAIN S.t : Needs(S, {k, m}) = Needs(S, {k}) \cup Needs(S, {m})
       /\ \A a, b \in Bounds : a <= b => All(ExtractIn(S, a, b)) \subseteq needs[i]
       /\ All(MergeConsecutive(S)) = needs[i]
       /\ WindowedFiles(S, AllChannels(S)) \subseteq needs[i]
       /\ LET P == PackAll(<<S>>) IN P.ok => All(P.v) \subseteq needs[i]
       /\ \A h \in DOMAIN Q :
            /\ LET J == JoinSets(<<S, Q[h]>>) IN J.ok => All(J.v) = needs[i] \cup needs[h]
            /\ LET M == Merge(<<S, Q[h]>>) IN M.ok => All(M.v) \subseteq needs[i] \cup needs[h]
       \* what can be read, and what is read, depends on its own files only
       /\ \A f \in DOMAIN W \ needs[i] :
            LET V == [W EXCEPT ![f].away = ~W[f].away, ![f].ver = 99] IN
            /\ There(V, needs[i]) = There(W, needs[i])
            /\ \A j \in DOMAIN S.r : \A c \in DOMAIN S.r[j].ch : Read(V, S.r[j].ch[c].g) = Read(W, S.r[j].ch[c].g)
Asked == \A k \in DOMAIN K : K[k].must \subseteq K[k].may

\* the coming and going of files changes no set
Steady == [][W' # W => Q' = Q /\ K' = K]_vars

View == <<W, Q, K, Len(hist)>>
Emit == Len(hist) < Depth \/ PrintT("PROGRAM " \o ToJson(hist))
=============================================================================
