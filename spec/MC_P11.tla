------------------------------- MODULE MC_P11 -------------------------------
(* P11: exchanges of identical final-state particles.                        *)
EXTENDS DecaySets
VARIABLES st, h
Flat2 == {n \o "{" \o a \o "," \o b \o "," \o c \o "," \o d \o "}" : n \in {"B0"}, a, b, c, d \in {"pi+", "p+", "mu+", "K-"}}
         \cup {n \o "{" \o a \o "," \o b \o "," \o c \o "}" : n \in {"D0", "Dbar0"}, a, b, c \in {"pi+", "p+", "pbar-", "rho(770)0{pi-,pi+}", "Lambda0{p+,pi-}", "gamma0"}}
         \cup {Two(n, "", a, b) : n \in {"B0"}, a, b \in {"Lambda0{pi-,p+}", "a(1)(1260)+{rho(770)0{pi+,pi-},pi+}", "Delta(1232)+{p+,pi0}", "omega(782)0{pi+,pi-,pi0}", "J/psi(1S)0{mu+,mu-}", "p+", "mu-"}}
Leaves0(s) == LET q == LeavesOf(Parsed(s).d) IN [k \in DOMAIN q |-> Name(q[k].p)]
Rev(q) == [k \in DOMAIN q |-> q[Len(q) + 1 - k]]
All == UNION {{[f |-> "swap", d |-> s, fs |-> Leaves0(s)], [f |-> "swap", d |-> s, fs |-> Rev(Leaves0(s))]} : s \in {x \in Flat2 : \A n \in NamesIn(x, 1, "") : NameText(n) \in DOMAIN NameIx}}
Mine == {o \in All : Weigh(o.d, 1) % Shards = Shard}
OpsOf(s) == Mine
\* the exchanges form a group acting within names, and the sign is a homomorphism: half are even if a fermion pair is exchanged
Holds(o) == LET e == Obs(o)
                n == Len(o.fs)
                cnt == [x \in {o.fs[k] : k \in 1..n} |-> Cardinality({k \in 1..n : o.fs[k] = x})]
                fac[m \in 0..n] == IF m = 0 THEN 1 ELSE m * fac[m - 1]
                RECURSIVE prod(_)
                prod(S) == IF S = {} THEN 1 ELSE LET x == CHOOSE y \in S : TRUE IN fac[cnt[x]] * prod(S \ {x})
                twice == {x \in DOMAIN cnt : cnt[x] > 1 /\ Fermion(Get(x))}
            IN /\ Len(e) = prod(DOMAIN cnt)
               /\ \A a, b \in DOMAIN e : a # b => e[a][1] # e[b][1]
               /\ Cardinality({k \in DOMAIN e : e[k][2] = -1}) = IF twice = {} THEN 0 ELSE Len(e) \div 2
Checked(s, o) == IF Holds(o) THEN Do2(s, o) ELSE Assert(FALSE, o)
INSTANCE Explore WITH Init0 <- 0, Ops <- OpsOf, Step <- Checked, Depth <- 1
=============================================================================
