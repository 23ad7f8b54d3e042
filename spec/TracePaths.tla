----------------------------- MODULE TracePaths -----------------------------
EXTENDS Paths, TraceBase

PathExpected(e) == IF Accepted(e.pat, e.tpls) THEN <<TRUE, TagsFrom(e.names, e.pat, e.tpls)>>
                   ELSE <<FALSE, <<>>>>

PathJudge(e) ==
  LET x == PathExpected(e)
      w == x[2]
  IN IF e.ok # x[1] THEN {<<"C20", IF e.ok THEN "accepted" ELSE "refused">>}
     ELSE IF ~e.ok THEN {}
     ELSE IF e.res = w THEN {}
     ELSE IF Len(e.res) # Len(w) \/ \E i \in DOMAIN w : e.res[i][1] # w[i][1] THEN {<<"C20", "names">>}
     ELSE {<<"C20", "tags">>}
=============================================================================
