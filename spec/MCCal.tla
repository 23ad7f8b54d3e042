-------------------------------- MODULE MCCal --------------------------------
(* Laws of Calibrations on all small files: which rows are used, values at,   *)
(* between and outside of them.                                               *)
EXTENDS Calibrations, TLC

CONSTANTS MaxLines, Freqs, Moduli, Phases, MaxRows, Mode

VARIABLES lines, rows

Row(f, m, ph) == [k |-> "row", f |-> f, m |-> m, ph |-> ph]
Lines == {[k |-> "mark", on |-> TRUE], [k |-> "mark", on |-> FALSE], [k |-> "blank"], [k |-> "text"]}
         \cup {Row(f, m, ph) : f \in Freqs, m \in Moduli, ph \in Phases}
PRows == {[f |-> f, lev |-> v, ch |-> <<<<m, 0>>, <<0, m + f>>>>] : f \in Freqs, v \in {0, 1}, m \in Moduli}

Init == lines = <<>> /\ rows = <<>>
Next == \/ Mode = "metronix" /\ Len(lines) < MaxLines /\ lines' \in {Append(lines, x) : x \in Lines} /\ UNCHANGED rows
        \/ Mode = "phoenix" /\ Len(rows) < MaxRows /\ rows' \in {Append(rows, x) : x \in PRows} /\ UNCHANGED lines
Spec == Init /\ [][Next]_<<lines, rows>>

Marks(on) == {i \in DOMAIN lines : lines[i].k = "mark" /\ lines[i].on = on}
BlankIn(a, z) == \E i \in (a + 1)..(z - 1) : lines[i].k = "blank"
\* declaratively: the lines that follow the first mark, up to a blank
Mine(on) == LET i == MinOf(Marks(on)) IN {j \in DOMAIN lines : j > i /\ lines[j].k # "blank" /\ ~BlankIn(i, j)}
SectionRight ==
  \A on \in BOOLEAN :
    LET s == Section(lines, on) IN
    IF Marks(on) = {} THEN ~s.ok
    ELSE /\ s.ok <=> Mine(on) # {} /\ \A j \in Mine(on) : lines[j].k = "row"
         /\ s.ok => Len(s.t) = Cardinality(Mine(on)) /\ \A j \in Mine(on) : s.t[j - MinOf(Marks(on))] = lines[j]

Increasing(t) == \A i \in 1..(Len(t) - 1) : t[i].f < t[i + 1].f
All == {f \in 0..20 : f > 0}
Eq(v, re, im) == v.ok /\ v.re = re * v.den /\ v.im = im * v.den
\* v lies between x and y
Between(v, x, y) == (x * v.den <= v.re /\ v.re <= y * v.den) \/ (y * v.den <= v.re /\ v.re <= x * v.den)
MetronixRight ==
  \A on \in BOOLEAN :
    LET t == Section(lines, on).t IN
    (Section(lines, on).ok /\ Increasing(t)) =>
      \A f \in All :
        LET v == Metronix(lines, on, 2, f, 7) IN
        /\ \A i \in DOMAIN t : t[i].f = f => Eq(v, RowValue(t[i])[1], RowValue(t[i])[2])
        /\ \A i \in 1..(Len(t) - 1) : t[i].f < f /\ f < t[i + 1].f =>
             /\ v.ok /\ Between(v, RowValue(t[i])[1], RowValue(t[i + 1])[1])
             \* on the chord
             /\ (v.re - RowValue(t[i])[1] * v.den) * (t[i + 1].f - t[i].f)
                  = (RowValue(t[i + 1])[1] - RowValue(t[i])[1]) * (f - t[i].f) * v.den
             /\ (v.im - RowValue(t[i])[2] * v.den) * (t[i + 1].f - t[i].f)
                  = (RowValue(t[i + 1])[2] - RowValue(t[i])[2]) * (f - t[i].f) * v.den
        /\ f > t[Len(t)].f => ~v.ok
        /\ f < t[1].f => v.ok = on

\* what is outside of the section does not matter
Apart ==
  \A on \in BOOLEAN :
    Section(lines, on).ok =>
      LET i == MinOf(Marks(on))
          s == Section(lines, on)
          alone == <<lines[i]>> \o s.t
      IN Section(alone, on) = s /\ Section(<<[k |-> "text"]>> \o alone \o <<[k |-> "blank"], [k |-> "text"]>>, on) = s

Levels == {0, 1}
PhoenixRight ==
  \A v \in Levels :
    LET t == PhoenixRows(rows, v) IN
    /\ PhoenixOK(rows, v) <=> \E i \in DOMAIN rows : rows[i].lev = v
    /\ \A i \in DOMAIN t : t[i].lev = v
    /\ Len(t) + Len(PhoenixRows(rows, 1 - v)) = Len(rows)
    /\ Increasing(t) => \A c \in 1..2 : \A i \in DOMAIN t :
         Eq(Phoenix(rows, v, c, t[i].f), t[i].ch[c][1], t[i].ch[c][2])
    \* rows of other levels do not matter
    /\ \A c \in 1..2 : \A f \in All : Phoenix(rows, v, c, f) = Phoenix(t, v, c, f)
=============================================================================
