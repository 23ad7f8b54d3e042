-------------------------------- MODULE MCTags --------------------------------
(***************************************************************************)
(* Bounded exploration of TagTables: programs over a few tables, and          *)
(* generation of programs to be replayed on the real code (Sim = TRUE).        *)
(***************************************************************************)
EXTENDS TagTables, Json, TLC

CONSTANTS Sim, Depth, Names, Sizes, MaxTables

VARIABLES T, hist

Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

Code == [a |-> <<97>>, ab |-> <<97, 98>>, b |-> <<98>>, Ex |-> <<69, 120>>, Ey |-> <<69, 121>>, n |-> <<110>>]
NC == {<<k, Code[k]>> : k \in Names}
RECURSIVE Listed(_)
Listed(X) == IF X = {} THEN <<>> ELSE LET y == CHOOSE y \in X : TRUE IN <<y>> \o Listed(X \ {y})

Good == {<<0>>, <<1, 0>>} \cup (IF Sim THEN {<<1>>, <<0, 0>>, <<0, 1, 0>>} ELSE {})
Bad == {<<2>>, <<-1>>, <<>>}
Entry(k, v) == [k |-> k, fa |-> TRUE, v |-> v]
Refused == [k |-> "1a", fa |-> FALSE, v |-> <<0>>]
\* the argument keeps random draws from being made once for all
Entries(h) ==
  IF Sim /\ RandomElement(0..9 + h - h) < 8 THEN {Entry(RandomElement(Names), RandomElement(Good))}
  ELSE Pick({Entry(k, v) : k \in Pick(Names), v \in Pick(Good \cup Bad)} \cup {Refused})
Seconds(h) == {Entry(k, v) : k \in Pick(Names), v \in Pick({<<0>>, <<2>>})}
Pairs(h) == {<<x, y>> : x \in Entries(h), y \in IF Sim THEN Entries(h) ELSE Seconds(h)}
Pats == {<<STAR>>, <<97>>, <<97, STAR>>, <<QUEST>>, <<69, QUEST>>, <<STAR, 98>>, <<LBR, 97, RBR>>, <<LBR, BANG, 97, RBR>>}

Blank == [i |-> 0, k |-> "", j |-> 0, n |-> 0, q |-> <<>>, pats |-> <<>>, nc |-> <<>>]
Ev(op, i, k, q) == [Blank EXCEPT !.i = i, !.k = k, !.q = q] @@ [op |-> op]

Ones == {<<x>> : x \in Entries(Len(hist))}
Twos == {p \in Pairs(Len(hist)) : p[1].k # p[2].k}
Patterned(op, i, x, y) ==
  [Ev(op, i, "", <<>>) EXCEPT !.j = i, !.pats = <<x, y>>, !.nc = Listed({c \in NC : c[1] \in DOMAIN T[i].t})]

Ops == {"new", "copy", "set", "update", "default", "del", "pop", "popitem", "clear", "get", "in", "eq", "filter", "fget"}
Now(op) == IF op = "new" THEN Len(T) < MaxTables
           ELSE IF op = "copy" THEN T # <<>> /\ Len(T) < MaxTables
           ELSE T # <<>> /\ (~Sim \/ op \notin {"clear", "popitem"} \/ Len(hist) % 5 = 0)
Events(op) ==
  LET Is == Pick(DOMAIN T)
  IN CASE op = "new" -> {[Blank EXCEPT !.n = m, !.q = q] @@ [op |-> "new"] :
                           m \in Pick(Sizes \cup {-1}), q \in {<<>>} \cup Ones \cup Twos}
       [] op \in {"copy", "popitem", "clear"} -> {Ev(op, i, "", <<>>) : i \in Is}
       [] op = "set" -> {Ev(op, i, "", x) : i \in Is, x \in Ones}
       [] op = "update" -> {Ev(op, i, "", x) : i \in Is, x \in Ones \cup Twos}
       [] op = "default" -> {Ev(op, i, x[1].k, x) : i \in Is, x \in Ones}
       [] op \in {"del", "pop", "get", "in"} -> {Ev(op, i, k, <<>>) : i \in Is, k \in Pick(Names)}
       [] op = "eq" -> {[Ev("eq", i, "", <<>>) EXCEPT !.j = j] : i \in Is, j \in Pick(DOMAIN T)}
       [] OTHER -> {Patterned(op, i, x, y) : i \in Is, x \in Pick(Pats), y \in Pick(Pats)}

After(e, o) == IF e.op \in {"new", "copy"} THEN (IF o.ok THEN Append(T, o.t) ELSE T) ELSE [T EXCEPT ![e.i] = o.t]

Init == T = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Pick({o \in Ops : Now(o)}) : \E e \in Pick(Events(op)) : \E o \in Possible(e, T) :
              /\ T' = After(e, o)
              /\ hist' = Append(hist, e @@ [ok |-> o.ok])

vars == <<T, hist>>
Spec == Init /\ [][Next]_vars

\* every name always stands for existing channels
AllOK == \A i \in DOMAIN T : TableOK(T[i])

Last == hist'[Len(hist')]
Mutators == {"set", "update", "default", "del", "pop", "popitem", "clear"}

\* tables never influence each other, questions change nothing, ranges never change
Isolated == [][\A i \in DOMAIN T : /\ T'[i].n = T[i].n
                                   /\ T'[i] = T[i] \/ (Last.op \in Mutators /\ Last.i = i)]_vars
\* a refused operation removes nothing and invents nothing
Refusals == [][~Last.ok /\ Last.i > 0 =>
                 LET t == T[Last.i].t  u == T'[Last.i].t
                 IN /\ DOMAIN t \subseteq DOMAIN u
                    /\ \A k \in DOMAIN u : (k \in DOMAIN t /\ u[k] = t[k]) \/ \E x \in Elems(Last.q) : x.k = k /\ x.v = u[k]]_vars
\* removing takes away one name at most, but for clear
Removals == [][Last.ok /\ Last.op \in {"del", "pop", "popitem"} =>
                 Cardinality(DOMAIN T[Last.i].t) = 1 + Cardinality(DOMAIN T'[Last.i].t)]_vars
\* what was put is what is found, and the same table is found by all its names
Puts == [][Last.ok /\ Last.op \in {"set", "update"} =>
             \A x \in Elems(Last.q) : x.k \in DOMAIN T'[Last.i].t]_vars

\* looking up by patterns: the union over the patterns, nothing for none, everything for *
Lookups == \A i \in DOMAIN T : LET x == T[i] IN
  /\ Lookup(x, Code, <<>>) = {}
  /\ Lookup(x, Code, <<<<STAR>>>>) = DOMAIN x.t
  /\ \A p, q \in Pats : Lookup(x, Code, <<p, q>>) = Lookup(x, Code, <<p>>) \cup Lookup(x, Code, <<q>>)
  /\ \A k \in DOMAIN x.t : k \in Lookup(x, Code, <<Code[k]>>)

View == <<T, Len(hist)>>
Emit == Len(hist) < Depth \/ PrintT("PROGRAM " \o ToJson(hist))
=============================================================================
