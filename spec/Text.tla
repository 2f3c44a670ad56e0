-------------------------------- MODULE Text --------------------------------
(* Contracts of the text and combinatorics helpers, as mathematical          *)
(* definitions independent of how they are computed.                         *)
EXTENDS Strings, FiniteSets
\* ---- splitting and joining
RECURSIVE Pieces(_, _, _)
Pieces(s, D, cur) == IF s = "" THEN <<cur>> ELSE IF Ch(s, 1) \in D THEN <<cur>> \o Pieces(Rest(s, 2), D, "") ELSE Pieces(Rest(s, 2), D, cur \o Ch(s, 1))
\* a final empty piece does not count (text ends with, or is, nothing)
Split(s, d, drop) == LET p == Pieces(s, {d}, "") q == IF p[Len(p)] = "" THEN SubSeq(p, 1, Len(p) - 1) ELSE p
                     IN IF drop THEN SelectSeq(q, LAMBDA x : x \notin {"", " ", "\n", "\t"}) ELSE q
RECURSIVE Keep(_, _, _)
Keep(s, D, cur) == LET f == IF cur = "" THEN <<>> ELSE <<cur>> IN
   IF s = "" THEN f ELSE IF Ch(s, 1) \in D THEN f \o <<Ch(s, 1)>> \o Keep(Rest(s, 2), D, "") ELSE Keep(Rest(s, 2), D, cur \o Ch(s, 1))
SplitAny(s, D, keep) == IF keep THEN Keep(s, D, "") ELSE SelectSeq(Pieces(s, D, ""), LAMBDA x : x # "")
\* ---- trimming
Space == {" ", "\t", "\n", "\r"}
RECURSIVE LTrim(_), RTrim(_)
LTrim(s) == IF s # "" /\ Ch(s, 1) \in Space THEN LTrim(Rest(s, 2)) ELSE s
RTrim(s) == IF s # "" /\ Ch(s, Len(s)) \in Space THEN RTrim(Sub(s, 1, Len(s) - 1)) ELSE s
\* ---- searching and replacing
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o SortSet(S \ {m})
FindAll(s, p) == SortSet({i - 1 : i \in Occ(s, p)})
FindNext(s, P, b) == LET c == UNION {{i - 1 : i \in {j \in Occ(s, p) : j > b}} : p \in P} IN IF c = {} THEN -1 ELSE MinOf(c)
RECURSIVE Replace(_, _, _)
Replace(s, a, b) == IF a = "" \/ s = "" THEN s ELSE IF StartsWith(s, a) THEN b \o Replace(Rest(s, Len(a) + 1), a, b) ELSE Ch(s, 1) \o Replace(Rest(s, 2), a, b)
RECURSIVE ReplaceRules(_, _)
ReplaceRules(s, r) == IF r = <<>> THEN s ELSE ReplaceRules(Replace(s, r[1][1], r[1][2]), Tail(r))
RECURSIVE Swap(_, _, _)
Swap(s, a, b) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = a THEN b ELSE IF Ch(s, 1) = b THEN a ELSE Ch(s, 1)) \o Swap(Rest(s, 2), a, b)
RECURSIVE Wild(_, _, _)
Wild(s, p, w) == IF p = "" THEN s = ""
               ELSE IF Ch(p, 1) = w THEN Wild(s, Rest(p, 2), w) \/ (s # "" /\ Wild(Rest(s, 2), p, w))
               ELSE s # "" /\ Ch(s, 1) = Ch(p, 1) /\ Wild(Rest(s, 2), Rest(p, 2), w)
RECURSIVE Edit(_, _)
Min3(a, b, c) == MinOf({a, b, c})
Edit(s, t) == IF s = "" THEN Len(t) ELSE IF t = "" THEN Len(s) ELSE IF Ch(s, 1) = Ch(t, 1) THEN Edit(Rest(s, 2), Rest(t, 2))
              ELSE 1 + Min3(Edit(Rest(s, 2), t), Edit(s, Rest(t, 2)), Edit(Rest(s, 2), Rest(t, 2)))
\* ---- nested items:  head{item,item,...}  (no braces: the whole text)
RECURSIVE ItemsIn(_, _, _, _, _, _)
ItemsIn(s, i, d, cur, b, sep) ==     \* i: position, d: depth of nesting inside the outer bracket
   LET c == Ch(s, i) IN
   IF c = b[2] /\ d = 0 THEN <<cur>>
   ELSE IF c = sep /\ d = 0 THEN <<cur>> \o ItemsIn(s, i + 1, 0, "", b, sep)
   ELSE ItemsIn(s, i + 1, IF c = b[1] THEN d + 1 ELSE IF c = b[2] THEN d - 1 ELSE d, cur \o c, b, sep)
RECURSIVE Balanced(_, _, _, _)
Balanced(s, i, d, b) == IF i > Len(s) THEN d = 0 ELSE IF Ch(s, i) = b[1] THEN Balanced(s, i + 1, d + 1, b) ELSE IF Ch(s, i) = b[2] THEN d > 0 /\ Balanced(s, i + 1, d - 1, b) ELSE Balanced(s, i + 1, d, b)
Items(s, b, sep) == IF ~Balanced(s, 1, 0, b) THEN <<>> ELSE IF ~Contains(s, b[1]) THEN <<s>>
                    ELSE LET k == First(s, b[1]) IN <<Sub(s, 1, k - 1)>> \o ItemsIn(s, k + 1, 0, "", b, sep)
\* ---- numbers
NumDec(s) == LET b == IF s # "" /\ Ch(s, 1) \in {"-", "+"} THEN Rest(s, 2) ELSE s
             IN b # "" /\ b # "." /\ \A i \in 1..Len(b) : (IsDigit(Ch(b, i)) \/ Ch(b, i) = ".") /\ Cardinality(Occ(b, ".")) <= 1
RECURSIVE TenP(_)
TenP(n) == IF n = 0 THEN 1 ELSE 10 * TenP(n - 1)
\* value of a decimal in thousandths
Milli(s) == LET neg == Ch(s, 1) = "-"
                b == IF Ch(s, 1) \in {"-", "+"} THEN Rest(s, 2) ELSE s
                k == IF Contains(b, ".") THEN First(b, ".") ELSE Len(b) + 1
                w == Sub(b, 1, k - 1) f == Rest(b, k + 1)
                v == (IF w = "" THEN 0 ELSE NatVal(w, 1, 0)) * 1000 + (IF f = "" THEN 0 ELSE NatVal(f, 1, 0) * TenP(3 - Len(f)))
            IN IF neg THEN -v ELSE v
\* n/1000 rounded to d decimals (no ties), as text
Digit(k) == Digits[k + 1]
RECURSIVE NatStr(_, _)
NatStr(n, w) == IF n < 10 /\ w <= 1 THEN Digit(n) ELSE NatStr(n \div 10, w - 1) \o Digit(n % 10)
AbsN(n) == IF n < 0 THEN -n ELSE n
Round(n, d) == LET p == TenP(3 - d) m == (AbsN(n) + p \div 2) \div p t == NatStr(m, d + 1)
               IN (IF n < 0 THEN "-" ELSE "") \o (IF d = 0 THEN t ELSE Sub(t, 1, Len(t) - d) \o "." \o Rest(t, Len(t) - d + 1))
NoTie(n, d) == LET p == TenP(3 - d) IN p = 1 \/ (AbsN(n) % p) # p \div 2
NonZero(n, d) == n >= 0 \/ AbsN(n) * 2 > TenP(3 - d)
\* ---- combinatorics
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE SeqLess(Tail(a), Tail(b))
RECURSIVE SortSeqs(_)
SortSeqs(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ SeqLess(x, y) IN <<m>> \o SortSeqs(S \ {m})
RECURSIVE Perms(_)
Choose(n, r) == SortSeqs({SortSet(T) : T \in {U \in SUBSET (0..n - 1) : Cardinality(U) = r}})
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o p : p \in Perms(S \ {x})} : x \in S}
RECURSIVE Product(_)
Product(q) == IF q = <<>> THEN <<<<>>>> ELSE LET t == Product(Tail(q)) IN
   LET n == Len(t) IN [k \in 1..Len(q[1]) * n |-> <<q[1][((k - 1) \div n) + 1]>> \o t[((k - 1) % n) + 1]]
RECURSIVE Insert(_, _)
Insert(x, q) == IF q = <<>> THEN <<x>> ELSE IF x <= q[1] THEN <<x>> \o q ELSE <<q[1]>> \o Insert(x, Tail(q))
RECURSIVE Sorted(_)
Sorted(q) == IF q = <<>> THEN <<>> ELSE Insert(q[1], Sorted(Tail(q)))
Rev(q) == [k \in DOMAIN q |-> q[Len(q) + 1 - k]]
RECURSIVE SumF(_)
SumF(q) == IF q = <<>> THEN 0 ELSE q[1] * q[1] + 1 + SumF(Tail(q))
\* ---- lines of a file: no carriage returns, no empty lines, no comment lines
NoCR(l) == Replace(l, "\r", "")
FileLines(ls, c) == SelectSeq([k \in DOMAIN ls |-> NoCR(ls[k])], LAMBDA l : l # "" /\ Ch(l, 1) # c)
\* ---- environment variables in paths: $NAME up to . or /, or ${NAME}
RECURSIVE Expand(_, _)
VarEnd(s, k) == LET e == {i \in k + 1..Len(s) : Ch(s, i) \in {".", "/"}} IN IF e = {} THEN Len(s) + 1 ELSE MinOf(e)
LookupEnv(env, n) == IF \E k \in DOMAIN env : env[k][1] = n THEN <<TRUE, env[CHOOSE k \in DOMAIN env : env[k][1] = n][2]>> ELSE <<FALSE, "">>
Expand(s, env) ==
   IF ~Contains(s, "$") THEN s
   ELSE LET k == First(s, "$")
            braced == k < Len(s) /\ Ch(s, k + 1) = "{"
            e == IF braced THEN MinOf({i \in Occ(s, "}") : i > k}) ELSE VarEnd(s, k)
            n == IF braced THEN Sub(s, k + 2, e - 1) ELSE Sub(s, k + 1, e - 1)
            v == LookupEnv(env, n)
        IN IF ~v[1] THEN s ELSE Expand(Sub(s, 1, k - 1) \o v[2] \o Rest(s, IF braced THEN e + 1 ELSE e), env)
\* ---- the operation table
Do(o) ==
   CASE o.f = "split" -> <<Split(o.s, o.d, TRUE), Split(o.s, o.d, FALSE), JoinWith(Split(o.s, o.d, FALSE), o.d)>>
     [] o.f = "splitany" -> <<SplitAny(o.s, {o.ds[k] : k \in DOMAIN o.ds}, FALSE), SplitAny(o.s, {o.ds[k] : k \in DOMAIN o.ds}, TRUE), JoinWith(SplitAny(o.s, {o.ds[k] : k \in DOMAIN o.ds}, TRUE), "")>>
     [] o.f = "join" -> JoinWith(o.q, o.d)
     [] o.f = "trim" -> <<LTrim(o.s), RTrim(o.s), LTrim(RTrim(o.s))>>
     [] o.f = "find" -> FindAll(o.s, o.p)
     [] o.f = "next" -> FindNext(o.s, {o.ps[k] : k \in DOMAIN o.ps}, o.b)
     [] o.f = "replace" -> Replace(o.s, o.a, o.b)
     [] o.f = "rules" -> ReplaceRules(o.s, o.r)
     [] o.f = "swap" -> Swap(o.s, o.a, o.b)
     [] o.f = "wild" -> Wild(o.s, o.p, o.w)
     [] o.f = "edit" -> Edit(o.s, o.t)
     [] o.f = "items" -> Items(o.s, o.b, o.sep)
     [] o.f = "num" -> <<IF NumDec(o.s) THEN <<TRUE, Milli(o.s)>> ELSE <<FALSE, 0>>, IF IsInt(o.s) THEN <<TRUE, IntVal(o.s)>> ELSE <<FALSE, 0>>,
                         IF o.s \in {"1", "true"} THEN <<TRUE, 1>> ELSE IF o.s \in {"0", "false"} THEN <<TRUE, 0>> ELSE <<FALSE, 0>>>>
     [] o.f = "round" -> <<Round(o.n, o.d), Round(o.n, o.d) \o "\\pm" \o Round(o.e, o.d)>>
     [] o.f = "ncr" -> Choose(o.n, o.r)
     [] o.f = "product" -> Product(o.q)
     [] o.f = "sort" -> <<Sorted(o.q), Rev(Sorted(o.q))>>
     [] o.f = "acc" -> SumF(o.q) + o.init
     [] o.f = "lines" -> FileLines(o.ls, o.c)
     [] o.f = "expand" -> Expand(o.s, o.env)
     [] o.f = "ls" -> LET m == SelectSeq(o.files, LAMBDA x : o.p = "" \/ Wild(x, o.p, "*")) IN m
     [] o.f = "enum" -> IF \E k \in 1..4 : <<"Alpha", "Beta", "Alphabet", "B">>[k] = o.s THEN o.s ELSE IF o.s \in {"0", "1", "2", "3"} THEN <<"Alpha", "Beta", "Alphabet", "B">>[DigitVal(o.s) + 1] ELSE "Invalid"
Strs(A, n) == LET S[k \in 0..n] == IF k = 0 THEN {""} ELSE S[k - 1] \cup {s \o c : s \in S[k - 1], c \in A} IN S[n]
Seqs(A, n) == UNION {[1..k -> A] : k \in 0..n}
=============================================================================
