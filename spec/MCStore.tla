------------------------------- MODULE MCStore -------------------------------
(***************************************************************************)
(* Programs over signal sets and inventories: bounded exploration of         *)
(* SetStore, and generation of programs to be replayed on the real code.     *)
(* With Sim = TRUE parameters are drawn at random (tlc -simulate) and each    *)
(* program of Depth events is printed.                                        *)
(***************************************************************************)
EXTENDS SetStore, Json

CONSTANTS Sim, Depth, Ops, MaxT, Pers, Sizes, MaxHeap

VARIABLES H, I, hist

Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

Layouts == {<<<<"Ex", <<0>>>>, <<"Ey", <<1>>>>>>,
            <<<<"Ex", <<1>>>>, <<"Ey", <<0>>>>>>,
            <<<<"Ex", <<0>>>>, <<"Ey", <<1>>>>, <<"E", <<0, 1>>>>>>,
            <<<<"Hx", <<0>>>>, <<"Hy", <<1>>>>, <<"B", <<1, 0>>>>>>,
            <<<<"Hx", <<1>>>>>>,
            <<<<"Rx", <<0>>>>, <<"B", <<1>>>>>>}

Fresh == 10 * (1 + Len(hist))       \* track numbers never used before

MkRun(k, s, p, n) ==
  [s |-> s, p |-> p, n |-> n,
   ch |-> <<[g |-> <<<<Fresh + 2 * k, 0, n>>>>, c |-> 2 + (k % 3)],
            [g |-> <<<<Fresh + 2 * k + 1, 0, n>>>>, c |-> 3]>>]

Builds ==
  {[op |-> "build", t |-> t, tn |-> tn, parts |-> <<Sync(MkRun(0, s, p, n))>>] :
      t \in Pick(Layouts), tn \in Pick({-1, 2}), s \in Pick(0..MaxT), p \in Pick(Pers), n \in Pick(Sizes)}
  \cup
  {[op |-> "build", t |-> t, tn |-> -1, parts |-> <<Sync(MkRun(0, s, p, n)), Sync(MkRun(1, s2, p2, n2))>>] :
      t \in Pick(Layouts), s \in Pick(0..MaxT), p \in Pick(Pers), n \in Pick(Sizes),
      s2 \in Pick(0..MaxT), p2 \in Pick(Pers), n2 \in Pick(Sizes)}

Hs == Pick(DOMAIN H)
Is == Pick(DOMAIN I)
Names == {"Ex", "Ey", "E", "Hx", "Hy", "B", "Rx", "G"}
Sels == {<<[tag |-> TRUE, name |-> k, idx |-> 0]>> : k \in Names}
        \cup {<<[tag |-> FALSE, name |-> "", idx |-> i]>> : i \in 0..2}
        \cup {<<[tag |-> FALSE, name |-> "", idx |-> 1], [tag |-> TRUE, name |-> k, idx |-> 0]>> : k \in Names}
RunSels == {<<>>, <<0>>, <<1>>, <<-1>>, <<1, 0>>, <<0, 1>>, <<2>>}

P2(h) == [sync |-> FALSE, h |-> h]

Events(op) ==
  CASE op = "build" -> Builds
    [] op = "join"  -> {[op |-> op, h |-> h, parts |-> <<>>] : h \in Hs}
                       \cup {[op |-> op, h |-> h, parts |-> <<P2(h2)>>] : h \in Hs, h2 \in Hs}
                       \cup {[op |-> op, h |-> h, parts |-> <<P2(h2), P2(h3)>>] : h \in Hs, h2 \in Hs, h3 \in Hs}
    [] op = "merge" -> {[op |-> op, a |-> <<h, h2>>] : h \in Hs, h2 \in Hs}
    [] op = "extract" -> {[op |-> op, h |-> h, lo |-> a, hi |-> b, excl |-> x] :
                            h \in Hs, a \in Pick(0..MaxT), b \in Pick(0..(2*MaxT)), x \in Pick({TRUE, FALSE})}
    [] op = "channels" -> {[op |-> op, h |-> h, sel |-> s] : h \in Hs, s \in Pick(Sels)}
    [] op = "runs"  -> {[op |-> op, h |-> h, idx |-> x] : h \in Hs, x \in Pick(RunSels)}
    [] op = "copy"  -> {[op |-> op, h |-> h, deep |-> x] : h \in Hs, x \in Pick({TRUE, FALSE})}
    [] op = "fuse"  -> {[op |-> op, h |-> h] : h \in Hs}
    [] op = "settag" -> {[op |-> op, h |-> h, key |-> k, v |-> v, fa |-> TRUE] :
                            h \in Hs, k \in Pick(Names), v \in Pick({<<0>>, <<1>>, <<1, 0>>, <<2>>, <<>>})}
    [] op = "deltag" -> {[op |-> op, h |-> h, key |-> k] : h \in Hs, k \in Pick(Names)}
    [] op = "retag" -> {[op |-> op, h |-> h, t |-> t, tn |-> tn] : h \in Hs, t \in Pick(Layouts), tn \in Pick({-1, 2, 3})}
    [] op = "inv"   -> {[op |-> op, a |-> <<h, h2>>] : h \in Hs, h2 \in Hs}
                       \cup {[op |-> op, a |-> <<h, h2, h3>>] : h \in Hs, h2 \in Hs, h3 \in Hs}
    [] op = "append" -> {[op |-> op, i |-> i, h |-> h] : i \in Is, h \in Hs}
    [] op = "add"   -> {[op |-> op, i |-> i, i2 |-> j] : i \in Is, j \in Is}
    [] op = "iextract" -> {[op |-> op, i |-> i, lo |-> a, hi |-> b, excl |-> x] :
                            i \in Is, a \in Pick(0..MaxT), b \in Pick(0..(2*MaxT)), x \in Pick({TRUE, FALSE})}
    [] op = "ichannels" -> {[op |-> op, i |-> i, names |-> <<k, k2>>] : i \in Is, k \in Pick(Names), k2 \in Pick(Names)}
    [] op = "pack"  -> {[op |-> op, i |-> i, multi |-> m] : i \in Is, m \in Pick({TRUE, FALSE})}
    [] op = "joinmerge" -> {[op |-> op, i |-> i] : i \in Is}
    [] op = "igroups" -> {[op |-> op, i |-> i, groups |-> <<[k |-> "G", old |-> <<k, k2>>]>>] :
                            i \in Is, k \in Pick(Names), k2 \in Pick(Names)}
    [] op = "iquery" -> {[op |-> op, i |-> i] : i \in Is}

NeedsSet(op) == op # "build"
NeedsInv(op) == op \in {"append", "add", "iextract", "ichannels", "pack", "joinmerge", "igroups", "iquery"}

Init == H = <<>> /\ I = <<>> /\ hist = <<>>

Next ==
  /\ Len(hist) < Depth
  /\ \E op \in Pick({o \in Ops : /\ NeedsSet(o) => H # <<>>
                                 /\ NeedsInv(o) => I # <<>>
                                 /\ (Len(H) < 2 => o = "build")
                                 /\ (Len(H) >= MaxHeap => o # "build")}) :
     \E e \in Events(op) :
        LET p == Predict(e, H, I) IN
        /\ H' = HeapAfter(p, H)
        /\ I' = InvsAfter(p, H, I)
        /\ hist' = Append(hist, e)

vars == <<H, I, hist>>
Spec == Init /\ [][Next]_vars

AllOK   == \A i \in DOMAIN H : SetOK(H[i])
\* only tag edits change an existing set, and only the one they address
Isolated == [][\A i \in DOMAIN H : H'[i] = H[i] \/
                 (hist'[Len(hist')].op \in {"settag", "deltag", "retag"} /\ hist'[Len(hist')].h = i
                  /\ H'[i].r = H[i].r)]_vars
\* programs are told apart by their current state only
View == <<H, I, Len(hist)>>
Emit == Len(hist) < Depth \/ PrintT("PROGRAM " \o ToJson(hist))
=============================================================================
