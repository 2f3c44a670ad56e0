------------------------------- MODULE MC_P09 -------------------------------
(* P09: every two-body descriptor over chosen particles with every kind of   *)
(* modifier, every order of daughters of nested decays, and pairs of decays. *)
EXTENDS DecaySets
VARIABLES st, h
Finals == {<<>>, <<"K-", "pi+", "pi+", "pi-">>, <<"pi+", "pi-", "pi+", "pi-">>, <<"pi-", "pi+", "K-">>}
Cmps == {"D0{K-,pi+}", "D0{pi+,K-}", "D0[P]{K-,pi+}", "D0{K-,pi-}", "Dbar0{K-,pi+}", "D0", "D0{K*(892)bar0{K-,pi+},pi0}", "D0{pi0,K*(892)bar0}", "D0{pi0,K*(892)bar0{pi+,K-}}", "D0{rho(770)0{pi+,pi-},rho(770)0[D]{pi+,pi-}}", "D0{rho(770)0[D]{pi+,pi-},rho(770)0{pi-,pi+}}",
         "D0{rho(770)0,rho(770)0}", "D0{rho(770)0,rho(770)0{pi+,pi-}}", "D0[D]{rho(770)0,rho(770)0}", "D0[1]{rho(770)0,rho(770)0}", "D0{rho(770)0[Flatte]{pi+,pi-},rho(770)0}", "D0{pi+,pi-,pi0}", "D0{K-,pi+,pi0}"}
All == {[f |-> "parse", d |-> s, fs |-> <<>>] : s \in Pairs0 \cup Modded}
       \cup {[f |-> "parse", d |-> s, fs |-> fs] : s \in Nested, fs \in IF Wide THEN Finals ELSE {<<"pi+", "pi-", "pi+", "pi-">>}}
       \cup {[f |-> "cmp", a |-> a, b |-> b] : a, b \in Cmps}
       \cup {[f |-> "quasi", d |-> s] : s \in Nested}
       \cup {[f |-> "quarks", d |-> s] : s \in Pairs0 \cup Nested}
Mine == {o \in All : (IF o.f = "cmp" THEN Weigh(o.a, 1) + Weigh(o.b, 2) ELSE Weigh(o.d, 1)) % Shards = Shard}
OpsOf(s) == Mine
\* every descriptor: printing and reading again gives the same decay; with two daughters in the other order too
Flipped(s) == LET d == DaughterTexts(s) IN IF Len(d) = 2 THEN HeadText(s) \o "{" \o d[2] \o "," \o d[1] \o "}"
                                           ELSE IF Len(d) = 3 THEN HeadText(s) \o "{" \o d[3] \o "," \o d[1] \o "," \o d[2] \o "}" ELSE s
Holds(o) == /\ o.f = "parse" => RoundTrip(o.d) /\ Bare(Parsed(Flipped(o.d))) = Bare(Parsed(o.d))
            /\ o.f = "cmp" => (Text(Parsed(o.a)) = Text(Parsed(o.b))) = (Bare(Parsed(o.a)) = Bare(Parsed(o.b)))
Checked(s, o) == IF Holds(o) THEN Do2(s, o) ELSE Assert(FALSE, o)
INSTANCE Explore WITH Init0 <- 0, Ops <- OpsOf, Step <- Checked, Depth <- 1
=============================================================================
