------------------------------- MODULE MC_P15 -------------------------------
(* P15: index notation for every pattern of labels, and tensors with          *)
(* symmetric storage.                                                         *)
EXTENDS Tens, Json, IOUtils
VARIABLES st, h
Shard == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
Depth == atoi(IOEnv.DEPTH)
Deep == IOEnv.DEEP = "1"
Ls == <<"a", "b", "c", "d", "e", "f">>
DimOf == [a |-> 4, b |-> 2, c |-> 3, d |-> 2, e |-> 3, f |-> 4]
Val(seed, k) == <<((k * k + seed * k + seed) % 11) - 4, IF (k + seed) % 3 = 0 THEN (k % 5) - 2 ELSE 0>>
Gen(q, seed) == LET d == [k \in DOMAIN q |-> DimOf[q[k][1]]] IN T(d, [k \in 1 .. Vol(d) |-> Val(seed, k)])
Low(q) == [k \in DOMAIN q |-> <<q[k], FALSE>>]
Inj(S, n) == {q \in [1..n -> S] : \A i, j \in 1..n : i # j => q[i] # q[j]}
LSet == {Ls[k] : k \in 1..6}
FlipA(q) == [k \in DOMAIN q |-> IF q[k][1] \in {"a", "f"} THEN <<q[k][1], TRUE>> ELSE q[k]]
Calc(e, ts, live) == [f |-> "calc", e |-> e, ts |-> ts, live |-> live]
Odd(q) == (Len(q) + (IF q # <<>> /\ q[1][1] \in {"a", "c", "e"} THEN 1 ELSE 0)) % 2 = 1
Two(qa, qb) == Calc(<<"*", <<"T", 1, qa>>, <<"T", 2, qb>>>>, <<Gen(qa, 3), Gen(qb, 5)>>, Odd(qb))
As == {<<"a">>, <<"a", "b">>, <<"b", "a">>, <<"a", "b", "c">>}
Products == UNION {{Two(Low(qa), Low(qb)), Two(Low(qa), FlipA(Low(qb))), Two(FlipA(Low(qa)), Low(qb))} : qa \in As, qb \in UNION {Inj(LSet, n) : n \in 1 .. IF Deep THEN 3 ELSE 2} \cup Inj({"a", "b", "c"}, 3) \cup Inj({"a", "c", "f"}, 3)}
Sum(qa, qb, sg) == Calc(<<sg, <<"T", 1, qa>>, <<"T", 2, qb>>>>, <<Gen(qa, 3), Gen(qb, 5)>>, Odd(qb))
Sums == {Sum(Low(qa), Low(qb), sg) : qa \in {<<"a", "b", "c">>}, qb \in Inj({"a", "b", "c"}, 3), sg \in {"+", "-"}}
        \cup {Sum(Low(<<"a", "b">>), Low(qb), sg) : qb \in Inj({"a", "b"}, 2), sg \in {"+", "-"}}
        \cup {Sum(Low(qa), Low(qb), "+") : qa \in {<<"b", "c", "d", "e">>, <<"e", "b", "d", "c">>}, qb \in Inj({"b", "c", "d", "e"}, 4)}
        \cup {Sum(Low(<<"a">>), Low(<<"a">>), "-")}
Reorders == {Calc(<<"r", Low(qb), <<"T", 1, Low(qa)>>>>, <<Gen(Low(qa), 3)>>, FALSE) : qa \in {<<"a", "b", "c">>}, qb \in Inj({"a", "b", "c"}, 3)}
            \cup UNION {{Calc(<<"r", Low(qb), <<"T", 1, Low(qa)>>>>, <<Gen(Low(qa), 3)>>, FALSE) : qb \in {qa, <<qa[2], qa[1]>>}} : qa \in {<<"a", "f">>, <<"a", "b">>, <<"e", "c">>}}
Times(q, l) == Cardinality({k \in DOMAIN q : q[k] = l})
Chains == LET small == Inj({"a", "b", "c"}, 1) \cup Inj({"a", "b", "c"}, 2)
              ok(x, y, z) == \A l \in {"a", "b", "c"} : Times(x, l) + Times(y, l) + Times(z, l) <= 2
              ts(x, y, z) == <<Gen(Low(x), 3), Gen(Low(y), 5), Gen(Low(z), 2)>>
          IN {Calc(<<"*", <<"*", <<"T", 1, Low(x[1])>>, <<"T", 2, Low(x[2])>>>>, <<"T", 3, Low(x[3])>>>>, ts(x[1], x[2], x[3]), Odd(Low(x[3]))) : x \in {y \in small \X small \X small : ok(y[1], y[2], y[3])}}
             \cup {Calc(<<"*", <<"T", 1, Low(x[1])>>, <<"*", <<"T", 2, Low(x[2])>>, <<"s", <<3, 1>>, <<"T", 3, Low(x[3])>>>>>>>>, ts(x[1], x[2], x[3]), Odd(Low(x[1]))) : x \in {y \in small \X small \X small : ok(y[1], y[2], y[3])}}
\* a sum of products used as a factor
Mixed == {Calc(<<"*", <<"+", <<"T", 1, Low(<<"a", "b">>)>>, <<"T", 2, Low(q)>>>>, <<"T", 3, FlipA(Low(<<"a", "c">>))>>>>, <<Gen(Low(<<"a", "b">>), 3), Gen(Low(q), 5), Gen(Low(<<"a", "c">>), 2)>>, lv) : q \in Inj({"a", "b"}, 2), lv \in BOOLEAN}
Whole == {[f |-> "unary", u |-> u, t |-> Gen(Low(q), 4), live |-> lv] : u \in {"neg", "conj", "get"}, q \in {<<"a">>, <<"a", "b">>, <<"c", "b", "a">>}, lv \in BOOLEAN}
         \cup {[f |-> "dot", a |-> Gen(Low(q), 4), b |-> Gen(Low(q), 7), live |-> lv] : q \in {<<"a">>, <<"a", "f">>, <<"c">>, <<"b", "c">>}, lv \in BOOLEAN}
         \cup {[f |-> "dot", a |-> T(<<1>>, <<<<3, 1>>>>), b |-> T(<<1>>, <<<<2, -1>>>>), live |-> FALSE]}
         \cup {[f |-> "lin", a |-> Gen(Low(q), 4), b |-> Gen(Low(q), 7), x |-> x, live |-> lv] : q \in {<<"a">>, <<"a", "b">>, <<"b", "a">>, <<"c", "b", "a">>, <<"b", "c", "d", "e">>}, x \in {<<3, 0>>, <<-2, 1>>, <<0, 1>>}, lv \in BOOLEAN}
         \cup {[f |-> "match", a |-> Gen(Low(q), 4), b |-> Gen(Low(r), 7), live |-> FALSE] : q, r \in {<<"a">>, <<"a", "b">>, <<"b", "a">>, <<"d", "f">>, <<"b", "c", "d">>}}
         \cup {[f |-> "eps", n |-> n] : n \in 2..4} \cup {[f |-> "one", n |-> n] : n \in 1..5}
         \cup {[f |-> "at", d |-> d] : d \in {<<3>>, <<2, 3>>, <<3, 2>>, <<2, 3, 4>>, <<4, 1, 3>>, <<1>>, <<2, 2, 2, 3>>}}
         \cup {[f |-> "matinv", t |-> T(<<n, n>>, [k \in 1 .. n * n |-> <<((k * k + s * k + s) % 5) - 1, IF c /\ (k + s) % 2 = 0 THEN (k % 3) - 1 ELSE 0>>]), live |-> lv] : n \in 1 .. IF Deep THEN 4 ELSE 3, s \in 0 .. 9, c \in BOOLEAN, lv \in BOOLEAN}
Hash(o) == IF o.f = "calc" THEN Len(o.ts[1].v) + 3 * Len(o.ts[Len(o.ts)].v) + Len(ToString(o.e)) ELSE Len(ToString(o))
Flat == {o \in Products \cup Sums \cup Reorders \cup Chains \cup Mixed \cup Whole : Hash(o) % Shards = Shard}
\* ---- symmetric storage
Dims == {<<2, 2>>, <<3, 3>>, <<2, 2, 2>>, <<3, 2, 3>>, <<2, 2, 2, 2>>}
Pairs(d) == {p \in (DOMAIN d) \X (DOMAIN d) : p[1] # p[2] /\ d[p[1]] = d[p[2]]}
Symmetric(s, c) == \A k \in 1 .. Vol(s.d) : s.v[At(Canon(Coord(k, s.d), s.cls), s.d)] = s.v[At(Canon(Canon(Coord(k, s.d), c), s.cls), s.d)]
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Sites(d) == {Coord(k, d) : k \in {1, 2, Vol(d) \div 2, Vol(d) - 1, Vol(d)}}
After(s) ==
  {[f |-> "sym", at |-> <<p[1] - 1, p[2] - 1>>] : p \in {q \in Pairs(s.d) : Symmetric(s, Merge(s.cls, {q[1], q[2]}))}}
  \cup (IF Len(s.d) > 2 /\ Symmetric(s, {DOMAIN s.d}) /\ \A k \in DOMAIN s.d : s.d[k] = s.d[1] THEN {[f |-> "sym", at |-> [k \in DOMAIN s.d |-> k - 1]]} ELSE {})
  \cup {[f |-> "set", c |-> c, x |-> x, live |-> c[1] = 0] : c \in Sites(s.d), x \in {<<5, 0>>, <<-2, 3>>}}
Last2(s) == {[f |-> "plus", v |-> [k \in 1 .. Vol(s.d) |-> Val(2, k)], p |-> p] : p \in {q \in Perms(Len(s.d)) : \A k \in DOMAIN s.d : s.d[q[k]] = s.d[k]}}
  \cup (IF Len(s.d) = 2 /\ s.d[1] = s.d[2] THEN {[f |-> "inv"]} ELSE {})
Fresh(s) == s.cls = {} /\ \A k \in DOMAIN s.v : s.v[k] = CZ
Hash2(o) == Len(ToString(o)) + IF o.f = "set" THEN o.c[1] + 3 * o.c[Len(o.c)] + o.x[2] ELSE IF o.f = "sym" THEN o.at[1] + 2 * o.at[2] ELSE IF o.f = "plus" THEN o.p[1] + 2 * o.p[2] ELSE 0
OpsOf(s) == IF s.d = <<>> THEN Flat \cup {[f |-> "new", d |-> d] : d \in Dims}
            ELSE IF Fresh(s) THEN {o \in After(s) \cup Last2(s) : Hash2(o) % Shards = Shard} ELSE After(s) \cup Last2(s)
\* ---- laws of the calculus
Laws(o) == CASE o.f = "calc" /\ o.e[1] = "*" /\ o.e[2][1] = "T" /\ o.e[3][1] = "T" ->
                   \* the product commutes up to the order of the free indices
                   LET x == Prod(Ev(o.e[2], o.ts), Ev(o.e[3], o.ts)) y == Prod(Ev(o.e[3], o.ts), Ev(o.e[2], o.ts)) IN Along(y, x.ix) = x.t
             [] o.f = "matinv" /\ Invertible(o.t) -> TRUE
             [] OTHER -> TRUE
Checked(s, o) == IF Laws(o) THEN Step(s, o) ELSE Assert(FALSE, o)
INSTANCE Explore WITH Init0 <- Sym0, Ops <- OpsOf, Step <- Checked, Depth <- Depth
=============================================================================
