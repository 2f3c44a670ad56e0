------------------------------- MODULE Events -------------------------------
(* Event records, event lists, their vectorised form and caches of function  *)
(* values over them.  An event is [d, w, g]: its data (four numbers per      *)
(* particle: px, py, pz, E), its weight (in quarters) and its generator      *)
(* density.  Lists A and B are scalar lists, S is a vectorised list that     *)
(* stores events in blocks of four lanes.  The position of an event in its   *)
(* list is its index.  A cache holds, for every function registered, the     *)
(* values at every event of the list it was allocated for, as of the last    *)
(* update of that function.                                                  *)
EXTENDS Integers, Sequences, TLC, FiniteSets
NP == 3
Zero == [i \in 1..(4 * NP) |-> 0]
Fresh == [d |-> Zero, w |-> 4, g |-> 1]
RECURSIVE SumE(_, _, _)
SumE(l, i, k) == IF i > Len(l) THEN 0 ELSE (CASE k = "w" -> l[i].w [] k = "wg" -> (l[i].w * 8) \div l[i].g) + SumE(l, i + 1, k)
RECURSIVE SumD(_, _, _)
SumD(d, sub, k) == IF sub = <<>> THEN 0 ELSE d[4 * Head(sub) + k] + SumD(d, Tail(sub), k)
Inv2(d, sub) == SumD(d, sub, 4) * SumD(d, sub, 4) - SumD(d, sub, 1) * SumD(d, sub, 1) - SumD(d, sub, 2) * SumD(d, sub, 2) - SumD(d, sub, 3) * SumD(d, sub, 3)
Dump(l) == [i \in DOMAIN l |-> <<l[i].d, l[i].w, l[i].g, i - 1>>]
Quad(d, a) == SubSeq(d, 4 * a + 1, 4 * a + 4)
Swapped(d, a, b) == [k \in DOMAIN d |-> LET p == (k - 1) \div 4 IN LET r == (k - 1) % 4 IN
   d[4 * (IF p = a THEN b ELSE IF p = b THEN a ELSE p) + r + 1]]
Reordered(d, perm) == [k \in DOMAIN d |-> LET p == (k - 1) \div 4 IN LET r == (k - 1) % 4 IN
   IF \E q \in DOMAIN perm : perm[q] = p THEN d[4 * ((CHOOSE q \in DOMAIN perm : perm[q] = p) - 1) + r + 1] ELSE d[k]]
Moved(d, k) == [i \in DOMAIN d |-> IF i = 1 THEN d[i] + k ELSE d[i]]
\* functions over events: number of components and their values (complex, as pairs)
Comps(f) == CASE f = 1 -> 1 [] f = 2 -> 3 [] f = 3 -> 2 [] f = 4 -> 1
FVal(f, c, d) == <<f * d[c] + d[5], IF f = 4 THEN 0 ELSE d[c + 1] - c>>
NoCache == [src |-> "-", al |-> "AoS", n |-> 0, v |-> <<>>]
Start == [A |-> <<>>, B |-> <<>>, S |-> <<>>, c |-> NoCache]
\* a change of a list's length puts an end to the use of a cache over it
Drop(s, l) == IF s.c.src = l THEN [s EXCEPT !.c = NoCache] ELSE s
Set(s, l, v) == [(IF Len(v) # Len(s[l]) \/ v = <<>> THEN Drop(s, l) ELSE s) EXCEPT ![l] = v]
None(s) == [s |-> s, o |-> <<>>]
Apply(s, o) ==
   CASE o.f = "push" -> None(Set(s, o.l, Append(s[o.l], o.e)))
     [] o.f = "emplace" -> None(Set(s, o.l, Append(s[o.l], o.e)))
     [] o.f = "fill" -> None(Set(s, o.l, s[o.l] \o o.es))
     [] o.f = "add" -> None(Set(s, o.l, s[o.l] \o s[o.m]))
     [] o.f = "copy" -> None(Drop(Set(s, o.m, s[o.l]), o.m))
     [] o.f = "erase" -> None(Drop(Set(s, o.l, SubSeq(s[o.l], 1, o.i) \o SubSeq(s[o.l], o.j + 1, Len(s[o.l]))), o.l))
     [] o.f = "filter" -> None(Drop(Set(s, o.l, SelectSeq(s[o.l], LAMBDA e : e.w >= o.t)), o.l))
     [] o.f = "clear" -> None(Drop(Set(s, o.l, <<>>), o.l))
     [] o.f = "resize" -> None(Drop(Set(s, o.l, [i \in 1..o.n |-> Fresh]), o.l))
     [] o.f = "setw" -> None([s EXCEPT ![o.l][o.i + 1].w = o.w, ![o.l][o.i + 1].g = o.g])
     [] o.f = "setw1" -> None([s EXCEPT ![o.l][o.i + 1].w = o.w, ![o.l][o.i + 1].g = 1])
     [] o.f = "setg" -> None([s EXCEPT ![o.l][o.i + 1].g = o.g])
     [] o.f = "scale" -> None([s EXCEPT ![o.l] = [i \in DOMAIN @ |-> [@[i] EXCEPT !.w = o.k * @, !.d = Moved(@, o.k)]]])
     [] o.f = "swap" -> None([s EXCEPT ![o.l][o.i + 1].d = Swapped(@, o.a, o.b)])
     [] o.f = "reorder" -> None([s EXCEPT ![o.l][o.i + 1].d = Reordered(@, o.p)])
     [] o.f = "setp" -> None([s EXCEPT ![o.l][o.i + 1].d = [k \in DOMAIN @ |-> IF (k - 1) \div 4 = o.a THEN o.q[k - 4 * o.a] ELSE @[k]]])
     [] o.f = "setx" -> None([s EXCEPT ![o.l][o.i + 1].d[o.k + 1] = o.x])
     [] o.f = "setall" -> None([s EXCEPT ![o.l][o.i + 1].d = o.d])
     [] o.f = "dump" -> [s |-> s, o |-> Dump(s[o.l])]
     [] o.f = "sums" -> [s |-> s, o |-> <<Len(s[o.l]), SumE(s[o.l], 1, "w"), Cardinality({i \in DOMAIN s[o.l] : s[o.l][i].w >= 3})>>]
     [] o.f = "inv" -> [s |-> s, o |-> IF Len(o.sub) \in 1..3 THEN <<Inv2(s[o.l][o.i + 1].d, o.sub), Inv2(s[o.l][o.i + 1].d, o.sub)>> ELSE <<Inv2(s[o.l][o.i + 1].d, o.sub)>>]
     [] o.f = "tosimd" -> None(Drop([s EXCEPT !.S = s[o.l]], "S"))
     [] o.f = "sdump" -> [s |-> s, o |-> <<Dump(s.S), Dump(s.S)>>]
     [] o.f = "ssum" -> [s |-> s, o |-> <<Len(s.S), SumE(s.S, 1, "w"), SumE(s.S, 1, "wg")>>]
     [] o.f = "ssetw" -> None([s EXCEPT !.S = [i \in DOMAIN @ |-> IF (i - 1) \div 4 = o.b THEN [@[i] EXCEPT !.w = o.ws[i - 4 * o.b], !.g = o.gs[i - 4 * o.b]] ELSE @[i]]])
     [] o.f = "ssetg" -> None([s EXCEPT !.S = [i \in DOMAIN @ |-> IF (i - 1) \div 4 = o.b THEN [@[i] EXCEPT !.g = o.gs[i - 4 * o.b]] ELSE @[i]]])
     [] o.f = "sscale" -> None([s EXCEPT !.S = [i \in DOMAIN @ |-> [@[i] EXCEPT !.w = o.k * @, !.d = Moved(@, o.k)]]])
     [] o.f = "sfirst" -> None([s EXCEPT !.S = [i \in DOMAIN @ |-> IF i <= o.n THEN [@[i] EXCEPT !.w = @ + 1, !.d = Moved(@, 5)] ELSE @[i]]])
     [] o.f = "sclear" -> None(Drop([s EXCEPT !.S = <<>>], "S"))
     [] o.f = "sresize" -> None(Drop([s EXCEPT !.S = [i \in 1..o.n |-> Fresh]], "S"))
     [] o.f = "calloc" -> None([s EXCEPT !.c = [src |-> o.l, al |-> o.al, n |-> o.n, v |-> [f \in 1..o.n |-> "?"]]])
     [] o.f = "cupdate" -> None([s EXCEPT !.c.v[o.k] = [i \in DOMAIN s[s.c.src] |-> [c \in 1..Comps(o.k) |-> FVal(o.k, c, s[s.c.src][i].d)]]])
     [] o.f = "cread" -> [s |-> s, o |-> s.c.v[o.k]]
=============================================================================
