------------------------------ MODULE FileArrays ------------------------------
(***************************************************************************)
(* Arrays read lazily from binary files.  A file is its number of bytes (-1   *)
(* once deleted); an array is [f |-> file, off, item |-> bytes per value,      *)
(* n |-> number of values]; its i-th value (from 0) is base + i.              *)
(* An index is [k |-> "int", i] or [k |-> "slice", a, b, c] where a, b, c are   *)
(* sequences of length 0 (left out) or 1; indices of several dimensions are    *)
(* sequences of these.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y

\* positions designated by an index in 0..(dim-1), in order
Clip(x, dim, low, high) == LET y == IF x < 0 THEN x + dim ELSE x
                           IN IF y < low THEN low ELSE IF y > high THEN high ELSE y

Count(a, b, c) == IF c > 0 THEN (IF b <= a THEN 0 ELSE (b - a - 1) \div c + 1)
                  ELSE (IF b >= a THEN 0 ELSE (a - b - 1) \div (-c) + 1)

IndexOK(x, dim) == IF x.k = "int" THEN x.i >= -dim /\ x.i < dim
                   ELSE IF x.k = "slice" THEN x.c = <<>> \/ x.c[1] # 0
                   ELSE FALSE

Positions(x, dim) ==
  IF x.k = "int" THEN <<IF x.i < 0 THEN x.i + dim ELSE x.i>>
  ELSE LET c == IF x.c = <<>> THEN 1 ELSE x.c[1]
           a == IF x.a = <<>> THEN (IF c > 0 THEN 0 ELSE dim - 1)
                ELSE IF c > 0 THEN Clip(x.a[1], dim, 0, dim) ELSE Clip(x.a[1], dim, -1, dim - 1)
           b == IF x.b = <<>> THEN (IF c > 0 THEN dim ELSE -1)
                ELSE IF c > 0 THEN Clip(x.b[1], dim, 0, dim) ELSE Clip(x.b[1], dim, -1, dim - 1)
       IN [j \in 1..Count(a, b, c) |-> a + (j - 1) * c]

\* shape and row-major positions for an index of an array of that shape
Whole == [k |-> "slice", a |-> <<>>, b |-> <<>>, c |-> <<>>]
Complete(ix, shape) == [d \in DOMAIN shape |-> IF d <= Len(ix) THEN ix[d] ELSE Whole]
ManyOK(ix, shape) == Len(ix) <= Len(shape) /\ \A d \in DOMAIN ix : IndexOK(ix[d], shape[d])

RECURSIVE Flat(_, _)
Flat(ix, shape) ==          \* sequences of coordinates
  IF shape = <<>> THEN <<<<>>>>
  ELSE LET p == Positions(ix[1], shape[1])
           r == Flat(Tail(ix), Tail(shape))
       IN [j \in 1..(Len(p) * Len(r)) |->
             <<p[(j - 1) \div Len(r) + 1]>> \o r[((j - 1) % Len(r)) + 1]]

RECURSIVE ShapeOf(_, _)
ShapeOf(ix, shape) ==
  IF shape = <<>> THEN <<>>
  ELSE (IF ix[1].k = "int" THEN <<>> ELSE <<Len(Positions(ix[1], shape[1]))>>)
       \o ShapeOf(Tail(ix), Tail(shape))

-----------------------------------------------------------------------------
Whole1(bytes, off, item) == IF bytes < off THEN -1 ELSE (bytes - off) \div item

Load(bytes, off, size, item) ==
  LET n == Min2(size, Whole1(bytes, off, item))
  IN [ok |-> bytes >= 0 /\ n > 0, n |-> n, warn |-> Whole1(bytes, off, item) < size]

Present(a, bytes, i) == a.off + a.item * (i + 1) <= bytes
=============================================================================
