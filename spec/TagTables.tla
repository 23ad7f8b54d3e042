------------------------------ MODULE TagTables ------------------------------
(***************************************************************************)
(* Tables of named channels, as a state machine over a sequence T of tables. *)
(* A table is [n |-> size of its range, t |-> map from names to tuples of    *)
(* channel numbers].  Possible(e, T) is the set of outcomes allowed for the   *)
(* operation e: records [ok, t, v], t being the table after the operation.    *)
(***************************************************************************)
EXTENDS Globs, FiniteSets

Elems(q) == {q[i] : i \in DOMAIN q}

NONE == "(none)"

\* entries of an update: sequence of [k |-> name, fa |-> first character is a letter, v |-> values]
EntryOK(n, x) == x.fa /\ x.v # <<>> /\ Elems(x.v) \subseteq 0..(n-1)
Put(t, k, v)  == [y \in DOMAIN t \cup {k} |-> IF y = k THEN v ELSE t[y]]
Without(t, k) == [y \in DOMAIN t \ {k} |-> t[y]]

RECURSIVE PutAll(_, _)
PutAll(t, q) == IF q = <<>> THEN t ELSE PutAll(Put(t, Head(q).k, Head(q).v), Tail(q))

TableOK(x) == \A k \in DOMAIN x.t : x.t[k] # <<>> /\ Elems(x.t[k]) \subseteq 0..(x.n-1)

Top(q) == LET all == UNION {Elems(q[i].v) : i \in DOMAIN q}
          IN IF all = {} THEN 0 ELSE 1 + CHOOSE m \in all : \A y \in all : y <= m

Out(ok, x, v) == [ok |-> ok, t |-> x, v |-> v]

\* a new table; declared size n, or -1 for the smallest one that holds the entries
NewTable(n, q) ==
  LET m == IF n >= 0 THEN n ELSE Top(q)
      x == [n |-> m, t |-> PutAll(<<>>, q)]
  IN Out(\A i \in DOMAIN q : EntryOK(m, q[i]), x, <<>>)

\* entries are taken in order up to the first refused one (or none of them is)
Update(x, q) ==
  IF \A i \in DOMAIN q : EntryOK(x.n, q[i])
  THEN {Out(TRUE, [x EXCEPT !.t = PutAll(@, q)], <<>>)}
  ELSE LET k == CHOOSE i \in DOMAIN q : ~EntryOK(x.n, q[i]) /\ \A j \in 1..(i-1) : EntryOK(x.n, q[j])
       IN {Out(FALSE, x, <<>>), Out(FALSE, [x EXCEPT !.t = PutAll(@, SubSeq(q, 1, k-1))], <<>>)}

Lookup(x, code, pats) == {k \in DOMAIN x.t : \E i \in DOMAIN pats : Matches(pats[i], code[k])}

\* increasing sequence of the elements of a set of integers
RECURSIVE Ascending(_)
Ascending(X) == IF X = {} THEN <<>>
                ELSE LET m == CHOOSE m \in X : \A y \in X : m <= y
                     IN <<m>> \o Ascending(X \ {m})

CodeOf(e) == [k \in {e.nc[i][1] : i \in DOMAIN e.nc} |->
                LET i == CHOOSE i \in DOMAIN e.nc : e.nc[i][1] = k IN e.nc[i][2]]

SameTable(a, b) == a.n = b.n /\ a.t = b.t

Possible(e, T) ==
  LET x == IF e.i > 0 THEN T[e.i] ELSE [n |-> 0, t |-> <<>>]
      has == e.k \in DOMAIN x.t
      same(v) == {Out(TRUE, x, v)}
  IN
  CASE e.op = "new"     -> {NewTable(e.n, e.q)}
    [] e.op = "copy"    -> same(<<>>)                     \* a new table with the same content
    [] e.op = "set"     -> Update(x, e.q)
    [] e.op = "update"  -> Update(x, e.q)
    [] e.op = "default" -> IF has THEN same(<<>>) ELSE Update(x, e.q)
    [] e.op = "del"     -> {Out(has, IF has THEN [x EXCEPT !.t = Without(@, e.k)] ELSE x, <<>>)}
    [] e.op = "pop"     -> {Out(has, IF has THEN [x EXCEPT !.t = Without(@, e.k)] ELSE x,
                                IF has THEN x.t[e.k] ELSE <<>>)}
    [] e.op = "popitem" -> IF DOMAIN x.t = {} THEN {Out(FALSE, x, <<>>)}
                           ELSE {Out(TRUE, [x EXCEPT !.t = Without(@, k)], x.t[k]) : k \in DOMAIN x.t}
    [] e.op = "clear"   -> {Out(TRUE, [x EXCEPT !.t = <<>>], <<>>)}
    [] e.op = "get"     -> {Out(has, x, IF has THEN x.t[e.k] ELSE <<>>)}
    [] e.op = "in"      -> same(<<IF has THEN 1 ELSE 0>>)
    [] e.op = "eq"      -> same(<<IF SameTable(x, T[e.j]) THEN 1 ELSE 0>>)
    [] e.op = "filter"  -> same(Lookup(x, CodeOf(e), e.pats))
    [] e.op = "fget"    -> same(Ascending(UNION {Elems(x.t[k]) : k \in Lookup(x, CodeOf(e), e.pats)}))
=============================================================================
