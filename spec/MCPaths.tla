------------------------------- MODULE MCPaths -------------------------------
(***************************************************************************)
(* The left-to-right shortest match of Paths against the declarative         *)
(* meaning of patterns, for all small patterns and names.                     *)
(***************************************************************************)
EXTENDS Paths, TLC

CONSTANTS MaxP, MaxW

VARIABLES p, w, n

a == 97  dash == 45

Bricks == {<<a>>, <<SLASH>>, <<STAR>>, <<STAR, STAR>>, <<QUEST>>, <<LBR, a, SLASH, RBR>>,
           <<LBR, BANG, a, RBR>>, <<LBRACE, a, RBRACE>>, <<LBRACE, 98, RBRACE>>}
Chars == {a, UNDER, SLASH, dash}

\* the meaning: is there a way to cut the name
RECURSIVE Cuts(_, _)
Cuts(q, x) ==
  IF q = <<>> THEN x = <<>>
  ELSE CASE q[1] = LBRACE -> \E k \in 1..Len(x) : (\A i \in 1..k : IsWord(x[i]))
                               /\ Cuts(From(q, IndexOf(q, RBRACE) + 1), From(x, k + 1))
         [] q[1] = STAR /\ Len(q) >= 2 /\ q[2] = STAR -> \E k \in 0..Len(x) : Cuts(From(q, 3), From(x, k + 1))
         [] q[1] = STAR -> \E k \in 0..Len(x) : (\A i \in 1..k : x[i] # SLASH) /\ Cuts(Rest(q), From(x, k + 1))
         [] q[1] = QUEST -> x # <<>> /\ Cuts(Rest(q), Rest(x))
         [] q[1] = LBR -> x # <<>> /\ InClass(x[1], q, ClassEnd(q)) /\ Cuts(From(q, ClassEnd(q) + 1), Rest(x))
         [] OTHER -> x # <<>> /\ x[1] = q[1] /\ Cuts(Rest(q), Rest(x))

Init == p = <<>> /\ w = <<>> /\ n = 0
Next == \/ n < MaxP /\ w = <<>> /\ \E b \in Bricks : p' = p \o b /\ n' = n + 1 /\ w' = w
        \/ Len(w) < MaxW /\ \E c \in Chars : w' = Append(w, c) /\ p' = p /\ n' = n
Spec == Init /\ [][Next]_<<p, w, n>>

HasField == \E i \in DOMAIN p : p[i] = LBRACE
Deep == \E i \in 1..(Len(p)-1) : p[i] = STAR /\ p[i+1] = STAR

Right == LET m == Shortest(p, w) IN
  /\ m.ok = Cuts(p, w)
  /\ m.ok => \A i \in DOMAIN m.f : m.f[i][2] # <<>> /\ \A j \in DOMAIN m.f[i][2] : IsWord(m.f[i][2][j])
  /\ m.ok /\ ~(\E i \in DOMAIN p : p[i] \in {STAR, QUEST, LBR}) =>
       LET RECURSIVE Join(_, _)
           Join(q, f) == IF q = <<>> THEN <<>>
                         ELSE IF q[1] = LBRACE THEN f[1][2] \o Join(From(q, IndexOf(q, RBRACE) + 1), Tail(f))
                         ELSE <<q[1]>> \o Join(Rest(q), f)
       IN Join(p, m.f) = w                            \* the fields rebuild the name
  /\ ~HasField /\ ~Deep /\ SLASH \notin SetOf(w) => m.ok = Matches(p, w)   \* shell patterns

NormalOK == LET x == Normal(w) IN
  /\ Normal(x) = x
  /\ x # <<>>
  /\ ~\E i \in 1..(Len(x)-1) : x[i] = SLASH /\ x[i+1] = SLASH
=============================================================================
