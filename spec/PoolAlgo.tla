------------------------------ MODULE PoolAlgo ------------------------------
(* The algorithm of AmpGen/ThreadPool: a queue and a stop flag protected by   *)
(* one mutex, a condition variable for the workers, client threads that       *)
(* submit, wait for results, stop and destroy.  One step is one               *)
(* synchronisation operation of one thread; TLC explores every schedule.      *)
(* Every step carries the events a client could observe (module Pool), and    *)
(* the abstract state is advanced with them, so "the algorithm refines the    *)
(* pool" is the invariant that no event was ever not allowed.                 *)
EXTENDS Pool

VT(v) == [k |-> v]
\* programs: number of workers, client programs, what each task does
Prog(nt, on, cl, tasks) == [f |-> "prog", nt |-> nt, on |-> on, cl |-> cl, tasks |-> tasks]
NT(p) == p.nt
NC(p) == Len(p.cl)
Kind(p, t) == LET k == {i \in 1..Len(p.tasks) : p.tasks[i][1] = t} IN IF k = {} THEN <<"v">> ELSE p.tasks[CHOOSE i \in k : TRUE][2]

None == [f |-> "none"]
Algo0 == [p |-> None, q |-> <<>>, stop |-> FALSE, mtx |-> -1, th |-> <<>>, a |-> Pool0, ok |-> TRUE]
\* a thread: pc, client position, task it runs, whether woken
Cl(i) == [pc |-> "op", at |-> 1, task |-> 0, ret |-> ""]
Wk    == [pc |-> "lock", at |-> 0, task |-> 0, ret |-> ""]
Load(p) == [p |-> p, q |-> <<>>, stop |-> FALSE, mtx |-> -1, a |-> After(Pool0, p), ok |-> TRUE,
            th |-> [i \in 1 .. NC(p) + NT(p) |-> IF i <= NC(p) THEN Cl(i) ELSE Wk]]
Emit1(s, e) == [s EXCEPT !.a = After(s.a, e), !.ok = s.ok /\ Allowed(s.a, e)]
Id(i) == i - 1
Goto(s, i, pc) == [s EXCEPT !.th[i].pc = pc]
Workers(s) == {i \in DOMAIN s.th : i > NC(s.p)}
ClientsDone(s) == \A i \in 2 .. NC(s.p) : s.th[i].pc = "done"
\* the submission by thread i of task t begins; r is the pc to continue with afterwards
BeginSubmit(s, i, t, r) ==
  LET s1 == Emit1([s EXCEPT !.th[i].ret = r], [f |-> "call", id |-> t, t |-> Id(i)]) IN
  [s1 EXCEPT !.th[i].pc = "elock", !.th[i].at = s.th[i].at]
SubTask(s, i) == IF i <= NC(s.p) THEN s.p.cl[i][s.th[i].at][2] ELSE Kind(s.p, s.th[i].task)[2]
Op(s, i) == s.p.cl[i][s.th[i].at]
NextOp(s, i) == [s EXCEPT !.th[i].at = @ + 1, !.th[i].pc = IF s.th[i].at = Len(s.p.cl[i]) THEN "done" ELSE "op"]

Enabled(s, i) ==
  LET t == s.th[i] IN
  CASE t.pc \in {"lock", "relock", "elock", "slock"} -> s.mtx = -1
    [] t.pc \in {"check", "enter", "start", "body", "ebody", "enotify", "sset", "snotify"} -> TRUE
    [] t.pc = "wait" -> FALSE
    [] t.pc = "bar" -> s.a.run[Kind(s.p, t.task)[2]] # "no"
    [] t.pc = "sjoin" -> \A w \in Workers(s) : s.th[w].pc = "done"
    [] t.pc = "op" -> (CASE Op(s, i)[1] = "get" -> s.a.st[Op(s, i)[2]] # "accepted" \/ s.a.run[Op(s, i)[2]] = "done"
                         [] Op(s, i)[1] = "join" -> ClientsDone(s)
                         [] OTHER -> TRUE)
    [] t.pc = "done" -> FALSE

WakeOne(s) == {w \in Workers(s) : s.th[w].pc = "wait"}
\* all outcomes of one step of thread i (a set: which waiter is woken is open)
Move(s, i) ==
  LET t == s.th[i] IN
  CASE t.pc = "lock"   -> {Goto([s EXCEPT !.mtx = i], i, "check")}
    [] t.pc = "relock" -> {Goto([s EXCEPT !.mtx = i], i, "check")}
    [] t.pc = "check"  -> IF ~s.stop /\ s.q = <<>> THEN {Goto(s, i, "enter")}
                          ELSE IF s.q = <<>> THEN {Goto([s EXCEPT !.mtx = -1], i, "done")}
                          ELSE {Goto([s EXCEPT !.mtx = -1, !.q = Tail(s.q), !.th[i].task = Head(s.q)], i, "start")}
    [] t.pc = "enter"  -> {Goto([s EXCEPT !.mtx = -1], i, "wait")}
    [] t.pc = "start"  -> LET s1 == Emit1(s, [f |-> "start", id |-> t.task, t |-> Id(i)])
                              k == Kind(s.p, t.task)[1]
                          IN IF k = "n" THEN {BeginSubmit(s1, i, Kind(s.p, t.task)[2], "body")}
                             ELSE IF k = "b" THEN {Goto(s1, i, "bar")}
                             ELSE {Goto(s1, i, "body")}
    [] t.pc = "bar"    -> {Goto(s, i, "body")}
    [] t.pc = "body"   -> {Goto(Emit1(s, [f |-> "fin", id |-> t.task]), i, "lock")}
    [] t.pc = "elock"  -> {Goto([s EXCEPT !.mtx = i], i, "ebody")}
    [] t.pc = "ebody"  -> LET x == SubTask(s, i) IN
                          IF s.stop THEN LET s1 == Emit1([s EXCEPT !.mtx = -1], [f |-> "ret", id |-> x, ok |-> FALSE])
                                         IN IF t.ret = "body" THEN {Goto(s1, i, "body")} ELSE {NextOp(s1, i)}
                          ELSE {Goto([s EXCEPT !.mtx = -1, !.q = Append(s.q, x)], i, "enotify")}
    [] t.pc = "enotify" -> LET x == SubTask(s, i)
                               fin(z) == LET s1 == Emit1(z, [f |-> "ret", id |-> x, ok |-> TRUE])
                                         IN IF t.ret = "body" THEN Goto(s1, i, "body") ELSE NextOp(s1, i)
                           IN IF WakeOne(s) = {} THEN {fin(s)} ELSE {fin(Goto(s, w, "relock")) : w \in WakeOne(s)}
    [] t.pc = "slock"  -> {Goto([s EXCEPT !.mtx = i], i, "sset")}
    [] t.pc = "sset"   -> {Goto([s EXCEPT !.mtx = -1, !.stop = TRUE], i, "snotify")}
    [] t.pc = "snotify" -> {Goto([s EXCEPT !.th = [j \in DOMAIN s.th |-> IF j \in WakeOne(s) THEN [s.th[j] EXCEPT !.pc = "relock"] ELSE s.th[j]]], i, "sjoin")}
    [] t.pc = "sjoin"  -> {NextOp(Emit1(s, IF Op(s, i)[1] = "del" THEN [f |-> "gone", alive |-> 0] ELSE [f |-> "stopped"]), i)}
    [] t.pc = "op"     ->
         LET o == Op(s, i) IN
         CASE o[1] = "enq" /\ s.p.on -> {BeginSubmit(s, i, o[2], "op")}
           [] o[1] = "enq" -> LET s1 == Emit1(s, [f |-> "call", id |-> o[2], t |-> Id(i)])
                                  s2 == Emit1(s1, [f |-> "start", id |-> o[2], t |-> Id(i)])
                                  s3 == Emit1(s2, [f |-> "fin", id |-> o[2]])
                              IN {NextOp(Emit1(s3, [f |-> "ret", id |-> o[2], ok |-> TRUE]), i)}
           [] o[1] = "get" -> {NextOp(IF s.a.st[o[2]] = "accepted" THEN Emit1(s, [f |-> "got", id |-> o[2], r |-> Outcome(s.a, o[2])]) ELSE s, i)}
           [] o[1] = "join" -> {NextOp(s, i)}
           [] o[1] \in {"wait", "del"} -> {Goto(Emit1(s, [f |-> "stop"]), i, "slock")}

Over(s) == s.p # None /\ \A i \in DOMAIN s.th : s.th[i].pc = "done"
Stuck(s) == s.p # None /\ ~Over(s) /\ \A i \in DOMAIN s.th : ~Enabled(s, i)
=============================================================================
