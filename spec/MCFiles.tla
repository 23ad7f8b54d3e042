------------------------------- MODULE MCFiles -------------------------------
(***************************************************************************)
(* The arithmetic of slices against their meaning, for all small dimensions  *)
(* and bounds: the positions are those of the arithmetic progression from    *)
(* the (wrapped) start that lie before the (wrapped) stop.                    *)
(***************************************************************************)
EXTENDS FileArrays, TLC

CONSTANTS MaxDim, Far

VARIABLES dim, x

Opt == {<<>>} \cup {<<i>> : i \in (-Far)..Far}

Init == dim \in 1..MaxDim /\ x = Whole
Next == /\ x = Whole
        /\ \E a \in Opt, b \in Opt, c \in Opt \ {<<0>>} :
             x' = [k |-> "slice", a |-> a, b |-> b, c |-> c]
        /\ UNCHANGED dim
Spec == Init /\ [][Next]_<<dim, x>>

Right ==
  LET p == Positions(x, dim)
      c == IF x.c = <<>> THEN 1 ELSE x.c[1]
      wrap(v) == IF v < 0 THEN v + dim ELSE v
      \* the slice as a filter on the progression start + k c over all integers
      lowOK(i) == IF c > 0 THEN x.a = <<>> \/ i >= wrap(x.a[1]) ELSE x.b = <<>> \/ i > wrap(x.b[1])
      highOK(i) == IF c > 0 THEN x.b = <<>> \/ i < wrap(x.b[1]) ELSE x.a = <<>> \/ i <= wrap(x.a[1])
      first == IF p = <<>> THEN 0 ELSE p[1]
  IN /\ \A j \in DOMAIN p : p[j] \in 0..(dim-1) /\ lowOK(p[j]) /\ highOK(p[j])
     /\ \A j \in 1..(Len(p)-1) : p[j+1] - p[j] = c
     /\ p # <<>> => \A i \in 0..(dim-1) : lowOK(i) /\ highOK(i) => (IF c > 0 THEN i >= first ELSE i <= first)
     /\ p = <<>> => \A i \in 0..(dim-1) : ~(lowOK(i) /\ highOK(i))
     /\ p # <<>> => LET nxt == p[Len(p)] + c IN nxt \notin 0..(dim-1) \/ ~(lowOK(nxt) /\ highOK(nxt))
=============================================================================
