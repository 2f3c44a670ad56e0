------------------------------ MODULE Conform ------------------------------
(* Generic trace-validation frame: the events recorded from the real code    *)
(* (operation and observation, one JSON object per line) are replayed in the *)
(* specification; the first event of a history whose observation the         *)
(* specification does not allow is reported ("@M") and the rest of that      *)
(* history is skipped.  "#reset" starts a new history.  Observations are     *)
(* compared in their JSON form; where the specification leaves the outcome   *)
(* open it says "?".                                                        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Init0, Step(_, _), Trace
VARIABLES st, i, bad

Init == st = Init0 /\ i = 0 /\ bad = FALSE
Next == /\ i < Len(Trace)
        /\ i' = i + 1
        /\ LET e == Trace[i + 1] IN
             IF e.op.f = "#reset"
             THEN st' = Init0 /\ bad' = FALSE
             ELSE IF bad THEN UNCHANGED <<st, bad>>
             ELSE LET r == Step(st, e.op)
                      x == ToJson(r.o)
                  IN /\ st' = r.s
                     /\ IF x = e.obs \/ x = "\"?\""
                        THEN bad' = FALSE
                        ELSE /\ PrintT("@M " \o ToJson(<<i + 1, x>>))
                             /\ bad' = TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
