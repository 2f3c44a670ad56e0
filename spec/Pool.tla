-------------------------------- MODULE Pool --------------------------------
(* What a client may observe of the thread pool, whatever its implementation: *)
(* a task is submitted (call), the submission returns (ret: accepted or       *)
(* refused), the task starts on some thread and finishes, its future delivers *)
(* the outcome (got), the pool is stopped (stop ... stopped) and destroyed     *)
(* (gone).  A recorded trace is allowed iff every event is allowed in turn.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Tasks == 1 .. 6
Pool0 == [on |-> TRUE, kind |-> [t \in Tasks |-> <<"v">>],
          st |-> [t \in Tasks |-> "none"],      \* none, called, accepted, refused
          run |-> [t \in Tasks |-> "no"],       \* no, running, done
          by |-> [t \in Tasks |-> -1],          \* thread that submitted it
          late |-> [t \in Tasks |-> FALSE],     \* submitted after the pool had stopped
          phase |-> "up",                       \* up, stopping, stopped
          over |-> FALSE]

Given(s) == {t \in Tasks : s.st[t] = "accepted"}
AllDone(s)  == \A t \in Given(s) : s.run[t] = "done"
Outcome(s, t) == IF s.kind[t][1] = "x" THEN "x" \o ToString(t) ELSE "v" \o ToString(t)

\* is event e allowed in s
Allowed(s, e) ==
  CASE e.f = "prog"    -> TRUE
    [] e.f = "call"    -> s.st[e.id] = "none"
    [] e.f = "start"   -> /\ s.st[e.id] \in {"called", "accepted"}
                          /\ s.run[e.id] = "no"
                          /\ s.phase # "stopped"
                          /\ (~s.on => s.st[e.id] = "called" /\ e.t = s.by[e.id])   \* run by the caller, at once
    [] e.f = "fin"     -> s.run[e.id] = "running"
    [] e.f = "ret"     -> /\ s.st[e.id] = "called"
                          /\ IF e.ok THEN ~s.late[e.id] /\ (~s.on \/ s.phase = "stopped" => s.run[e.id] = "done")
                                     ELSE s.phase # "up" /\ s.run[e.id] = "no"
    [] e.f = "got"     -> s.st[e.id] = "accepted" /\ s.run[e.id] = "done" /\ e.r = Outcome(s, e.id)
    [] e.f = "stop"    -> TRUE
    [] e.f = "stopped" -> s.phase # "up" /\ AllDone(s)
    [] e.f = "gone"    -> s.phase # "up" /\ AllDone(s) /\ e.alive = 0
    [] e.f = "end"     -> e.why = "end"

After(s, e) ==
  CASE e.f = "prog"    -> [Pool0 EXCEPT !.on = e.on, !.kind = [t \in Tasks |-> LET k == {i \in 1..Len(e.tasks) : e.tasks[i][1] = t}
                                                                             IN IF k = {} THEN <<"v">> ELSE e.tasks[CHOOSE i \in k : TRUE][2]]]
    [] e.f = "call"    -> [s EXCEPT !.st[e.id] = "called", !.by[e.id] = e.t, !.late[e.id] = (s.phase = "stopped")]
    [] e.f = "start"   -> [s EXCEPT !.run[e.id] = "running"]
    [] e.f = "fin"     -> [s EXCEPT !.run[e.id] = "done"]
    [] e.f = "ret"     -> [s EXCEPT !.st[e.id] = IF e.ok THEN "accepted" ELSE "refused"]
    [] e.f = "got"     -> s
    [] e.f = "stop"    -> [s EXCEPT !.phase = IF s.phase = "up" THEN "stopping" ELSE s.phase]
    [] e.f = "stopped" -> [s EXCEPT !.phase = "stopped"]
    [] e.f = "gone"    -> [s EXCEPT !.phase = "stopped"]
    [] e.f = "end"     -> [s EXCEPT !.over = TRUE]

Step(s, e) == [s |-> After(s, e), o |-> IF Allowed(s, e) THEN "ok" ELSE "not allowed"]

Inv0(s) == \A t \in Tasks : /\ s.run[t] # "no" => s.st[t] \in {"called", "accepted"}
                            /\ s.st[t] = "refused" => s.run[t] = "no"
=============================================================================
