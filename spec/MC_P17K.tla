------------------------------ MODULE MC_P17K ------------------------------
EXTENDS EventKinds, IOUtils
VARIABLES st, h
Finals == {<<"K+", "pi-">>, <<"K-", "pi+", "pi0">>, <<"K-", "pi+", "pi+", "pi-">>, <<"pi+", "pi-", "pi+", "pi-">>, <<"p+", "K-", "pi+">>, <<"mu-", "mu+", "gamma0">>, <<"pi0", "pi0", "pi0">>, <<"J/psi0", "K+", "pi-", "pi+">>}
Heads == {"D0", "Lambda(c)+"}
IdsFor(fs) == LET S == {Id(fs[i]) : i \in DOMAIN fs} \cup {-Id(fs[i]) : i \in DOMAIN fs} IN
   IF Len(fs) <= 3 THEN [DOMAIN fs -> S] ELSE {[i \in DOMAIN fs |-> sg * Id(fs[p[i]])] : sg \in {1, -1}, p \in Permutations(DOMAIN fs)}
      \cup {[i \in DOMAIN fs |-> IF i = j THEN x ELSE Id(fs[i])] : j \in DOMAIN fs, x \in S}
OpsOf(s) == {[f |-> "info", h |-> hd, fs |-> fs, td |-> td, ext |-> ext] : hd \in Heads, fs \in Finals, td \in {TRUE, FALSE}, ext \in {<<>>, <<"x">>, <<"tag", "eta">>}}
   \cup {[f |-> "symm", h |-> "D0", fs |-> fs, n |-> n] : fs \in Finals, n \in 1..12}
   \cup UNION {{[f |-> "order", h |-> "D0", fs |-> fs, ids |-> ids] : ids \in IdsFor(fs)} : fs \in Finals}
   \cup {[f |-> "equal", h |-> a, fs |-> x, h2 |-> b, fs2 |-> y] : a, b \in Heads, x, y \in Finals}
INSTANCE Explore WITH Init0 <- 0, Ops <- OpsOf, Step <- Apply, Depth <- 1
Inv == TRUE
=============================================================================
