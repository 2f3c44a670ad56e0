----------------------------- MODULE EventKinds -----------------------------
(* Event types: what a list of particle names (head first) says about the    *)
(* layout of events, and the ordering of particles read with identifiers.    *)
EXTENDS Integers, Sequences, TLC, FiniteSets
PT == [ x \in {"D0", "Dbar0", "K+", "K-", "pi+", "pi-", "pi0", "p+", "pbar-", "gamma0", "mu-", "mu+", "Lambda(c)+", "Lambda(c)bar-", "J/psi0"} |->
   CASE x = "D0" -> <<421, 0, "Dbar0">> [] x = "Dbar0" -> <<-421, 0, "D0">> [] x = "K+" -> <<321, 0, "K-">> [] x = "K-" -> <<-321, 0, "K+">>
     [] x = "pi+" -> <<211, 0, "pi-">> [] x = "pi-" -> <<-211, 0, "pi+">> [] x = "pi0" -> <<111, 0, "pi0">> [] x = "p+" -> <<2212, 1, "pbar-">>
     [] x = "pbar-" -> <<-2212, 1, "p+">> [] x = "gamma0" -> <<22, 2, "gamma0">> [] x = "mu-" -> <<13, 1, "mu+">> [] x = "mu+" -> <<-13, 1, "mu-">>
     [] x = "Lambda(c)+" -> <<4122, 1, "Lambda(c)bar-">> [] x = "Lambda(c)bar-" -> <<-4122, 1, "Lambda(c)+">> [] x = "J/psi0" -> <<443, 2, "J/psi0">> ]
Pickled(n) == CASE n = "K+" -> "K~" [] n = "K-" -> "K#" [] n = "pi+" -> "pi~" [] n = "pi-" -> "pi#" [] n = "p+" -> "p~" [] n = "pbar-" -> "pbar#" [] n = "mu-" -> "mu#" [] n = "mu+" -> "mu~" [] OTHER -> n
Id(n) == PT[n][1]
Anti(n) == PT[n][3]
States(n) == IF n = "gamma0" THEN 2 ELSE PT[n][2] + 1
RECURSIVE Times(_, _)
Times(fs, i) == IF i > Len(fs) THEN 1 ELSE States(fs[i]) * Times(fs, i + 1)
CountOf(fs, x, n) == Cardinality({i \in 1..n : fs[i] = x})
Format(fs, i, out) == LET stub == IF out THEN "_" \o ToString(i) \o "_" \o Pickled(fs[i]) ELSE ToString(i - 1) IN
   <<<<stub \o "_Px", 4 * (i - 1)>>, <<stub \o "_Py", 4 * (i - 1) + 1>>, <<stub \o "_Pz", 4 * (i - 1) + 2>>, <<stub \o "_E", 4 * (i - 1) + 3>>>>
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
FormatOf(h, fs, td, out, ext) == Concat([i \in DOMAIN fs |-> Format(fs, i, out)]) \o (IF td THEN << <<h \o "_decayTime", 4 * Len(fs)>> >> ELSE <<>>)
   \o [k \in DOMAIN ext |-> <<ext[k], 4 * Len(fs) + (IF td THEN 1 ELSE 0) + k - 1>>]
Info(h, fs, td, ext) ==
   <<h, fs, Len(fs), 4 * Len(fs) + (IF td THEN 1 ELSE 0), 3 * Len(fs) - 7, <<States(h), Times(fs, 1)>>, [i \in DOMAIN fs |-> <<CountOf(fs, fs[i], i - 1), CountOf(fs, fs[i], Len(fs))>>],
     FormatOf(h, fs, td, FALSE, ext), FormatOf(h, fs, td, TRUE, ext), [i \in DOMAIN fs |-> Anti(fs[i])], Anti(h)>>
\* the particles of an event arrive in any order with their identifiers; either all as in the type or all as its conjugate
SameUpTo(fs, ids, sgn) == Len(ids) = Len(fs) /\ \A x \in {ids[i] : i \in DOMAIN ids} \cup {sgn * Id(fs[i]) : i \in DOMAIN fs} :
   Cardinality({i \in DOMAIN ids : ids[i] = x}) = Cardinality({i \in DOMAIN fs : sgn * Id(fs[i]) = x})
\* position j of the input goes to the place among its kind with the same rank
Place(fs, ids, sgn, i) == LET rank == CountOf([k \in DOMAIN fs |-> Id(fs[k])], Id(fs[i]), i) IN
   CHOOSE j \in DOMAIN ids : ids[j] = sgn * Id(fs[i]) /\ Cardinality({k \in 1..j : ids[k] = ids[j]}) = rank
Ordering(fs, ids) ==
   IF ~SameUpTo(fs, ids, 1) /\ ~SameUpTo(fs, ids, -1) THEN <<0, [i \in DOMAIN fs |-> i]>>
   ELSE LET sgn == IF SameUpTo(fs, ids, 1) THEN 1 ELSE -1 IN <<1, [i \in DOMAIN fs |-> Place(fs, ids, sgn, i)]>>
\* a symmetrised event has, at the places of each kind, the particles of that kind
Symm(fs) == [i \in DOMAIN fs |-> LET same == {k \in DOMAIN fs : fs[k] = fs[i]} IN
   LET r == Cardinality({k \in same : k <= i}) IN CHOOSE k \in same : Cardinality({m \in same : m <= k}) = r]
Apply(s, o) ==
   CASE o.f = "info" -> [s |-> s, o |-> Info(o.h, o.fs, o.td, o.ext)]
     [] o.f = "order" -> [s |-> s, o |-> Ordering(o.fs, o.ids)]
     [] o.f = "symm" -> [s |-> s, o |-> Symm(o.fs)]
     [] o.f = "equal" -> [s |-> s, o |-> <<IF o.h = o.h2 /\ o.fs = o.fs2 THEN 1 ELSE 0>>]
=============================================================================
