------------------------------- MODULE MC_P10 -------------------------------
(* P10: conjugation of every enumerated decay, and CP doubling of models.    *)
EXTENDS DecaySets
VARIABLES st, h
ParNames == <<"D0{K-,pi+}_Re", "D0{K-,pi+}_Im", "D0{K*(892)bar0{K-,pi+},pi0}_Re", "D0{K*(892)bar0{K-,pi+},pi0}_Im", "D0[P]{rho(770)0{pi+,pi-},K*(892)bar0}_Re", "D0{rho(770)0,K*(892)bar0}_Im", "K(1)(1270)+[D]{K*(892)0{K+,pi-},pi+}_Re",
              "Dbar0{K+,pi-}_Re", "rho(770)0{pi+,pi-}_Re", "D0{K-,pi+}", "K*(892)0_mass", "rho(770)0_width", "K*(892)0::Spline::3", "kMatrix::x", "foo", "foo_Re", "foo_bar", "a_b_c", "D0_Re", "Lambda0{p+,pi-}_Im", "Lambda(b)0{Lambda0{p+,pi-},J/psi(1S)0}_Re">>
KnownPar(n) == \A x \in {NameText(y) : y \in NamesIn(CutAt(n, "_", 1, 1, <<>>)[1], 1, "")} : x \in DOMAIN NameIx \/ x \in {"foo", "a", "kMatrix::x", "K*(892)0::Spline::3"}
P == SelectSeq(ParNames, KnownPar)
One == {<<i>> : i \in DOMAIN P}
TwoPar == {<<i, j>> \in (DOMAIN P) \X (DOMAIN P) : i # j}
Models == {[k \in DOMAIN q |-> <<P[q[k]], 3 * k>>] : q \in One \cup TwoPar}
All == {[f |-> "conj", d |-> s] : s \in Pairs0 \cup Modded \cup Nested}
       \cup {[f |-> "conjF", d |-> s] : s \in Nested}
       \cup {[f |-> "cp", params |-> m, polar |-> b, forbid |-> fb] : m \in Models, b \in BOOLEAN, fb \in {<<>>, <<"D0", "rho(770)0">>}}
Mine == {o \in All : (IF o.f = "cp" THEN Weigh(o.params[1][1], 1) + Weigh(o.params[Len(o.params)][1], 2) ELSE Weigh(o.d, 1)) % Shards = Shard}
OpsOf(s) == Mine
\* conjugating twice gives the decay back, conjugation exchanges the conjugates and keeps the momenta and shapes
Kept(t) == <<t.orb, t.cfg, t.ls, Len(t.d)>>
Holds(o) == o.f = "conj" => Involution(o.d) /\ LET t == Parsed(o.d) u == Conj(t, TRUE, TRUE, TRUE) IN Kept(u) = Kept(t) /\ (t.p.A # " " => Name(u.p) = Name(AntiOf(t.p)))
Checked(s, o) == IF Holds(o) THEN Do2(s, o) ELSE Assert(FALSE, o)
INSTANCE Explore WITH Init0 <- 0, Ops <- OpsOf, Step <- Checked, Depth <- 1
=============================================================================
