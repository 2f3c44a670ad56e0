------------------------------- MODULE MC_P12 -------------------------------
(* P12: every model of a few declared decays, for several final states.      *)
EXTENDS Rules
VARIABLES st, h
Shard == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
Size == atoi(IOEnv.SIZE)
Pool == <<"D0{K*(892)bar0,pi0}", "K*(892)bar0{K-,pi+}", "K*(892)bar0[LASS]{K-,pi+}", "K*(892)bar0{Kbar0,pi0}", "D0{rho(770)0,rho(770)0}", "rho(770)0{pi+,pi-}",
          "rho(770)0[GounarisSakurai]{pi-,pi+}", "D0{a(1)(1260)+,pi-}", "a(1)(1260)+{rho(770)0,pi+}", "a(1)(1260)+[D]{rho(770)0,pi+}", "D0{K*(892)bar0{K-,pi+},pi0}",
          "D0[P]{rho(770)0,rho(770)0{pi+,pi-}}", "D0{K*(892)bar0,rho(770)0}", "D0{K-,pi+}", "D0[D]{rho(770)0,K*(892)bar0{K-,pi+}}", "D0{foo,pi0}", "D0{NonResS0{K-,pi+},pi0}", "pi0{gamma0,gamma0}">>
Finals == <<<<"K-", "pi+", "pi0">>, <<"pi0", "pi+", "K-">>, <<"pi+", "pi-", "pi+", "pi-">>, <<"K-", "pi+", "pi+", "pi-">>, <<"K-", "pi+">>, <<"K-", "pi+", "gamma0", "gamma0">>>>
Picks == {S \in SUBSET (DOMAIN Pool) : Cardinality(S) \in 1 .. Size}
Entry(i, k, v) ==
  CASE (i + v) % 7 = 3 -> [k |-> "a", n |-> Pool[i], m |-> k + 1, x |-> "x"]
    [] (i + 2 * v) % 11 = 5 -> [k |-> "r", n |-> Pool[i], pre |-> "", re |-> k]
    [] OTHER -> [k |-> "c", n |-> Pool[i], pre |-> IF v = 2 /\ i % 3 = 0 THEN "A" ELSE "", re |-> k + 1, im |-> IF v = 1 THEN 90 * ((i + k) % 4) ELSE k - 2, fr |-> (i + v) % 3 # 0, fi |-> k % 2 = 0]
Model(S, v) == LET q == Ascending(S) n == Len(q)
                   r == IF v = 2 THEN [k \in 1..n |-> q[n + 1 - k]] ELSE q
               IN <<[k |-> "p", n |-> "x", re |-> 3], [k |-> "p", n |-> "foo_Re", re |-> 2]>> \o [k \in 1..n |-> IF k = n /\ v # 2 /\ (r[1] + n) % 4 = 1 /\ IsDecay(Pool[r[k]]) THEN [k |-> "d", n |-> Pool[r[k]], re |-> 2 - k] ELSE Entry(r[k], k, v)]
Change(n, v) == IF v = 0 THEN <<<<1, 5, 0>>, <<n, 90, 180>>>> ELSE <<<<n, -2, 270>>, <<3, 4, 90>>>>
All == UNION {UNION {{[f |-> "rules", ps |-> Model(S, v), mother |-> "D0", fs |-> Finals[t], pre |-> IF v = 2 /\ t % 2 = 0 THEN "A" ELSE "", polar |-> v = 1, deg |-> t % 2 = 0, ch |-> Change(Cardinality(S) + 2, v)]
        : t \in {k \in DOMAIN Finals : (k + Cardinality(S) + v) % 2 = 0 \/ Cardinality(S) < 3}} : v \in 0..2} : S \in Picks}
Key(o) == Len(o.fs) + Len(o.ps) + LET RECURSIVE w(_) w(k) == IF k = 0 THEN 0 ELSE Len(o.ps[k].n) * k + w(k - 1) IN w(Len(o.ps))
Mine == {o \in All : Key(o) % Shards = Shard}
OpsOf(s) == Mine
\* the cascades of a model end in the final state, so no final-state particle of a model that has any can be a leaf that can decay
Holds(o) == \A M \in {Prep(o.ps)} : Matches(M, o.mother, o.fs, o.pre) # {} => \A n \in {o.fs[k] : k \in DOMAIN o.fs} : RulesOf(M, n) = {}
Checked(s, o) == IF Holds(o) THEN Do3(s, o) ELSE Assert(FALSE, o)
INSTANCE Explore WITH Init0 <- 0, Ops <- OpsOf, Step <- Checked, Depth <- 1
=============================================================================
