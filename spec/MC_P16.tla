------------------------------- MODULE MC_P16 -------------------------------
(* P16: histories of building, appending, inverting and applying sequences of *)
(* Lorentz transformations.                                                   *)
EXTENDS Lorentz, IOUtils
VARIABLES st, h
Shard == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
Depth == atoi(IOEnv.DEPTH)
Deep == IOEnv.DEEP = "1"
R(w, x, y, z) == [t |-> "r", q |-> <<w, x, y, z>>]
B(w, x, y, z) == [t |-> "b", q |-> <<w, x, y, z>>]
Few == {R(1, 0, 0, 1), R(2, 1, 0, -1), B(2, 1, 0, 0), B(3, 0, -1, 1)} \cup IF Deep THEN {R(1, 1, 1, 1), B(2, 0, 0, -1)} ELSE {}
Box == IF Deep THEN -2..2 ELSE -1..1
All == {T \in {[t |-> t, q |-> <<w, x, y, z>>] : t \in {"r", "b"}, w \in 0..3, x \in Box, y \in Box, z \in Box} : Nrm(T) > 0}
Ps == {<<0, 0, 3, 3, 5, 4>>, <<0, 0, -3, 3, 5, 4>>, <<3, 4, 0, 5, 13, 12>>, <<-2, 1, 2, 3, 5, 4>>, <<2, -2, -1, 3, 5, 4>>, <<0, 3, 0, 3, 5, 4>>, <<-4, 0, 3, 5, 13, 12>>, <<0, 0, 0, 0, 1, 1>>,
       <<0, 0, 1, 1, 1, 0>>, <<0, 0, -1, 1, 1, 0>>, <<3, 4, 0, 5, 5, 0>>, <<1, -2, -2, 3, 3, 0>>, <<-4, 0, 3, 5, 5, 0>>}
V4 == {<<1, 2, -1, 5>>, <<0, 0, 0, 1>>, <<2, 0, 1, -1>>}
G4s == {<<G1, GZ, GZ, GZ>>, <<<<1, 1>>, <<0, -2>>, <<3, 0>>, <<-1, 1>>>>}
G2s == {<<<<1, 1>>, <<-2, 3>>>>}
Applies(f, key, x) == {[f |-> f, rep |-> "v", v |-> [k \in 1..4 |-> <<v[k], 0>>]] @@ (key :> x) : v \in V4} \cup {[f |-> f, rep |-> "v", v |-> v] @@ (key :> x) : v \in G4s}
   \cup {[f |-> f, rep |-> "b", v |-> v] @@ (key :> x) : v \in G4s} \cup {[f |-> f, rep |-> "s", v |-> v] @@ (key :> x) : v \in G2s}
Singles == {[f |-> "tr", T |-> T] : T \in All} \cup UNION {Applies("act", "T", T) : T \in Few} \cup {[f |-> "alg"]} \cup {[f |-> "pair", r |-> 1, T |-> T, U |-> U] : T \in All, U \in IF Deep THEN Few ELSE {R(2, 1, 0, -1), B(3, 0, -1, 1)}}
Hash(o) == IF o.f = "tr" THEN o.T.q[1] + o.T.q[2] + 3 * o.T.q[3] + 5 * o.T.q[4] + 12 ELSE IF o.f = "pair" THEN o.T.q[1] + o.T.q[2] + 3 * o.T.q[3] + 5 * o.T.q[4] + 12 + o.U.q[1] ELSE Len(ToString(o))
MaxLen == 3
Build(s) ==
  {[f |-> "one", r |-> r, T |-> T] : r \in {k \in 1..2 : s[k] = <<>>}, T \in Few}
  \cup {[f |-> "pair", r |-> 1, T |-> T, U |-> U] : T \in Few, U \in {x \in Few : s[1] = <<>>}}
  \cup {[f |-> "push", r |-> r, T |-> T] : r \in {k \in 1..2 : Len(s[k]) < MaxLen}, T \in Few}
  \cup {[f |-> "app", r |-> r, a |-> a] : r \in {k \in 1..2 : Len(s[k]) + Len(s[3 - k]) <= 2 * MaxLen}, a \in {k \in 1..2 : Len(s[k]) <= MaxLen - 1}}
  \cup {[f |-> "join", r |-> r, a |-> a, b |-> b] : r \in 1..2, a \in {k \in 1..2 : Len(s[k]) <= MaxLen - 1}, b \in {k \in 1..2 : Len(s[k]) <= MaxLen - 1}}
  \cup {[f |-> "inv", r |-> r, a |-> a] : r \in 1..2, a \in 1..2}
  \cup {[f |-> "copy", r |-> r, a |-> 3 - r] : r \in 1..2}
  \cup {[f |-> "clear", r |-> r] : r \in {k \in 1..2 : s[k] # <<>>}} \cup {[f |-> "new", r |-> r] : r \in {k \in 1..2 : s[k] # <<>>}}
  \cup {[f |-> "wick", r |-> 1, p |-> p, ve |-> v] : p \in {x \in Ps : s = Zero}, v \in {-1, 1}}
Brief(r) == {[f |-> "apply", r |-> r, rep |-> x[1], v |-> x[2]] : x \in {<<"v", <<<<1, 0>>, <<2, 0>>, <<-1, 1>>, <<5, 0>>>>>>, <<"b", <<<<1, 1>>, <<0, -2>>, <<3, 0>>, <<-1, 1>>>>>>, <<"s", <<<<1, 1>>, <<-2, 3>>>>>>}}
Looks(s) == UNION {(IF Deep THEN Applies("apply", "r", r) ELSE Brief(r)) : r \in {k \in 1..2 : s[k] # <<>> \/ s = Zero}} \cup {[f |-> "len", r |-> r, v |-> v] : r \in {k \in 1..2 : Prod(s[k]) < 1500}, v \in {<<1, 2, -1, 5>>}}
Small(s) == Len(s[1]) <= 3 /\ Len(s[2]) <= 3 /\ Prod(s[1]) * Prod(s[2]) < 20000
OpsOf(s) == IF s = Zero THEN {o \in Singles \cup Build(s) \cup Looks(s) : Hash(o) % Shards = Shard} ELSE (IF Small(s) THEN Build(s) ELSE {}) \cup Looks(s)
LawsOf(q) == Len(q) <= 2 => KeepsMetric(q) /\ Undone(q) /\ SpinorLaw(q, <<1, 2, -1, 5>>) /\ BispinorLaw(q)
Laws(s, o) == /\ o.f = "tr" => LawsOf(<<o.T>>)
              /\ o.f = "pair" /\ o.T \in Few => LawsOf(Do(s, o).s[o.r])
              /\ o.f = "wick" => WickLaw(o.p, o.ve) /\ LawsOf(SubSeq(Wick(o.p, o.ve), 1, 1))
              /\ o.f = "alg" => \A i, j \in 1..5 : Plus(Mul(Gam(i), Gam(j)), Mul(Gam(j), Gam(i))) = Scale(AlgObs[1][i][j], Id(4))
Checked(s, o) == IF Laws(s, o) THEN Do(s, o) ELSE Assert(FALSE, o)
INSTANCE Explore WITH Init0 <- Zero, Ops <- OpsOf, Step <- Checked
=============================================================================
