------------------------------ MODULE TraceCal ------------------------------
(***************************************************************************)
(* Events: e.op = "metronix" or "phoenix", e.ok whether a function was       *)
(* returned, e.ev its evaluations [f, c, h, ok, exact, re, im, d]: the value  *)
(* returned at f is (re + i im)/d, exactly.                                   *)
(***************************************************************************)
EXTENDS Calibrations, TraceBase

On(e) == Chopper(e.rate, e.limit)

Built(e) == IF e.op = "metronix" THEN MetronixOK(e.lines, On(e), e.alpha)
            ELSE PhoenixOK(e.rows, e.lev)

Want(e, x) == IF e.op = "metronix" THEN Metronix(e.lines, On(e), e.alpha, x.f, x.h)
              ELSE Phoenix(e.rows, e.lev, x.c, x.f)

Agrees(x, w) ==
  /\ x.ok = w.ok
  /\ x.ok => x.exact /\ x.re * w.den = w.re * x.d /\ x.im * w.den = w.im * x.d

CalExpected(e) == IF Built(e) THEN <<TRUE, [i \in DOMAIN e.ev |-> Want(e, e.ev[i])]>> ELSE <<FALSE, <<>>>>

CalJudge(e) ==
  IF e.ok # Built(e) THEN {<<"C18", IF e.ok THEN "accepted" ELSE "refused">>}
  ELSE IF ~e.ok THEN {}
  ELSE LET bad == {i \in DOMAIN e.ev : ~Agrees(e.ev[i], Want(e, e.ev[i]))}
       IN IF e.nf # e.wantnf THEN {<<"C18", "channels">>}
          ELSE IF bad = {} THEN {}
          ELSE {<<"C18", IF \E i \in bad : e.ev[i].ok # Want(e, e.ev[i]).ok THEN "range" ELSE "value">>}
=============================================================================
