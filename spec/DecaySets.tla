----------------------------- MODULE DecaySets -----------------------------
(* The decays enumerated by the decay checks, split over parallel runs.      *)
EXTENDS Decay
Wide == IOEnv.DEPTH = "2"
Heads == {"rho(770)0", "rho(770)+", "K*(892)bar0", "K*(892)0", "f(0)(980)0", "a(1)(1260)+", "a(1)(1260)0", "D0", "Dbar0", "D-", "Lambda0", "Lambdabar0", "Delta(1232)--", "Deltabar(1232)--", "NonResV0", "phi(1020)0", "B0", "J/psi(1S)0", "W+"}
Ends == {"pi+", "pi-", "pi0", "K+", "K-", "p+", "pbar-", "gamma0", "mu-", "mu+", "n0", "K0", "Kbar0", "rho(770)0"}
Known(n) == n \in DOMAIN NameIx
\* whole spins and conserved charge
Fits(s) == LET t == Unsorted(s) IN
  /\ KnownSpins(t.p, t.d)
  /\ (t.p.two + SX!FoldLeft(LAMBDA a, d : a + d.p.two, 0, t.d)) % 2 = 0
  /\ t.p.q = SX!FoldLeft(LAMBDA a, d : a + d.p.q, 0, t.d)
  /\ t.minL # 999
Whole(s) == LET t == Unsorted(s) IN (t.p.two + SX!FoldLeft(LAMBDA a, d : a + d.p.two, 0, t.d)) % 2 = 0
Two(n, m, a, b) == n \o m \o "{" \o a \o "," \o b \o "}"
Pairs0 == {t \in {Two(n, "", a, b) : n \in {x \in Heads : Known(x)}, a, b \in {x \in Ends : Known(x)}} : Fits(t)}
ModSet == {"", "[S]", "[P]", "[D]", "[F]", "[1]", "[P1]", "[a]", "[Dx]", "[D0]", "[BW]", "[SBW]", "[Flatte]", "[FormFactor]", "[Photon]", "[BW.LHCb]", "[GSpline.EFF]", "[NoSym]", "[Inco;NoSym;BgSpin0]", "[D;Flatte]",
           "[Flatte;D]", "[k=v]", "[D;k=v;m=n]", "[k=v;D;NoSym]", "[vertex=VV]", "[vertex=VV;D]", "[D2;vertex=VV;Flatte;NoSym;k=1]", "[unknown]", "[LASS.BW;P]", "[D;P]", "[vertex=]", "[None;x=y=z]"}
Modded == {s \in {Two(n, m, a, b) : n \in {"rho(770)0", "D0", "Dbar0", "K*(892)bar0", "a(1)(1260)0"}, m \in ModSet, a \in {"pi+", "pi+[k=v]"}, b \in {"pi-", "K-[NoSym]"}} : Unsorted(s).minL # 999}
\* sub-decays, some differing only in a modifier or in their own daughters
Subs == {"pi+", "pi-", "K-", "rho(770)0{pi+,pi-}", "rho(770)0{pi-,pi+}", "rho(770)0[Flatte]{pi+,pi-}", "rho(770)0{pi0,gamma0}", "K*(892)bar0{K-,pi+}", "K*(892)0{pi-,K+}", "phi(1020)0{rho(770)0{pi-,pi+},pi0}",
         "phi(1020)0{pi0,rho(770)0[D]{pi+,pi-}}", "a(1)(1260)+{rho(770)0{pi+,pi-},pi+}", "a(1)(1260)-[D]{pi-,rho(770)0{pi+,pi-}}", "omega(782)0{pi-,pi0,pi+}", "omega(782)0{pi+,pi-,pi0}", "Lambda0{p+,pi-}", "Lambdabar0{pi+,pbar-}", "K*(892)0"}
Nested == {s \in {Two(n, m, a, b) : n \in {"D0", "Dbar0", "B0", "Lambda(b)0"}, m \in {"", "[P]"}, a, b \in Subs} : Whole(s)}
          \cup {n \o "{" \o a \o "," \o b \o "," \o c \o "}" : n \in {"D0", "Dbar0"}, a, b, c \in IF Wide THEN Subs ELSE {"pi+", "K-", "rho(770)0{pi+,pi-}", "rho(770)0[Flatte]{pi-,pi+}", "K*(892)0", "omega(782)0{pi-,pi0,pi+}"}}
Shard == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
RECURSIVE Weigh(_, _)
Weigh(s, i) == IF i > Len(s) THEN 0 ELSE i * Pos[Ch(s, i)] + Weigh(s, i + 3)
=============================================================================
