----------------------------- MODULE TraceFourier -----------------------------
(***************************************************************************)
(* Events: the coefficients of a signal set, e.co[channel][window] over all    *)
(* its runs, multiplied by half the reported window length.                    *)
(***************************************************************************)
EXTENDS Fourier, TraceBase

FourierOK(e) == /\ \A i \in DOMAIN e.runs : RunOK(e.runs[i], e.nper, e.on, e.od) /\ ~e.runs[i].bad
                /\ e.wlen >= 0 => \A i \in DOMAIN e.runs : WindowLength(e.runs[i], e.nper) = e.wlen

Geometry(e, i) == LET len == WindowLength(e.runs[i], e.nper)
                      s == Shift(len, e.on, e.od)
                  IN <<Count(e.runs[i].n, len, s), len, s>>

RECURSIVE Before(_, _)
Before(e, i) == IF i = 1 THEN 0 ELSE Before(e, i - 1) + Geometry(e, i - 1)[1]

\* the taper may have a phase of e.ph quarter turns
Turned(c, k) == CASE k = 0 -> c [] k = 1 -> <<c[2], -c[1]>> [] k = 2 -> <<-c[1], -c[2]>> [] k = 3 -> <<-c[2], c[1]>>

CoefficientsOK(e) ==
  \A i \in DOMAIN e.runs :
    LET r == e.runs[i]
        g == Geometry(e, i)
        b == Before(e, i)
    IN \A c \in DOMAIN r.data : \A k \in 1..g[1] :
         Agrees(Turned(e.co[c][b + k], e.ph), r.cals[c], r, r.data[c], e.win, (k - 1) * g[3], g[2])

FourierExpected(e) == IF FourierOK(e) THEN [i \in DOMAIN e.runs |-> Geometry(e, i)] ELSE "refused"

FourierJudge(e) ==
  IF e.ok # FourierOK(e) THEN {<<"C10", IF e.ok THEN "accepted" ELSE "refused">>}
  ELSE IF ~e.ok THEN {}
  ELSE IF e.geo # [i \in DOMAIN e.runs |-> Geometry(e, i)] THEN {<<"C10", "windows">>}
  ELSE IF Len(e.co) # Len(e.runs[1].data)
          \/ \E c \in DOMAIN e.co : Len(e.co[c]) # Before(e, Len(e.runs) + 1) THEN {<<"C10", "count">>}
  ELSE IF ~CoefficientsOK(e) THEN {<<"C10", "coefficients">>}
  ELSE {}
=============================================================================
