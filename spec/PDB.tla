-------------------------------- MODULE PDB --------------------------------
(* The particle database: rows of the property files become particles and    *)
(* antiparticles, found by name and by number; aliases and particles added    *)
(* or changed by hand; quark content and flavour comparison.                  *)
EXTENDS Strings, FiniteSets
SX == INSTANCE SequencesExt

\* the elements of a set in increasing order
Ordered(S, Less(_, _)) ==
  LET RECURSIVE go(_)
      go(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T \ {x} : Less(x, y) IN <<m>> \o go(T \ {m})
  IN go(S)

\* ---- rows
Blank(c) == c \in {" ", "\t", "\r", "\n"}
RECURSIVE LTrim(_)
LTrim(s) == IF s # "" /\ Blank(Ch(s, 1)) THEN LTrim(Rest(s, 2)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # "" /\ Blank(Ch(s, Len(s))) THEN RTrim(Sub(s, 1, Len(s) - 1)) ELSE s
Trim(s) == LTrim(RTrim(s))
\* fields between commas; an empty field after the last comma does not count
RECURSIVE Cut(_, _, _, _)
Cut(s, i, from, acc) == IF i > Len(s) THEN (IF from > Len(s) THEN acc ELSE Append(acc, Rest(s, from)))
                        ELSE IF Ch(s, i) = "," THEN Cut(s, i + 1, i + 1, Append(acc, Sub(s, from, i - 1)))
                        ELSE Cut(s, i + 1, from, acc)
Fields(s) == Cut(s, 1, 1, <<>>)

Sgn(c) == CASE c = "+" -> 1 [] c = "-" -> -1 [] c = "++" -> 2 [] c = "--" -> -2 [] OTHER -> 0
Flip(s) == CASE s = "+" -> "-" [] s = "-" -> "+" [] s = "++" -> "--" [] s = "--" -> "++"
             [] StartsWith(s, "+") -> "-" \o Rest(s, 2) [] StartsWith(s, "-") -> "+" \o Rest(s, 2) [] OTHER -> s
Spin2(s) == IF s = "?" THEN -1 ELSE IF s = "" THEN 0 ELSE IF Contains(s, "/") THEN IntVal(Sub(s, 1, First(s, "/") - 1)) ELSE 2 * IntVal(s)
SpinOK(s) == s = "?" \/ IsInt(s) \/ (Contains(s, "/") /\ IsInt(Sub(s, 1, First(s, "/") - 1)))

\* ---- decimal numbers in a canonical form: <<sign, digits, exponent>> with value sign 0.digits 10^exponent
RECURSIVE Strip0(_)
Strip0(d) == IF d # "" /\ Ch(d, Len(d)) = "0" THEN Strip0(Sub(d, 1, Len(d) - 1)) ELSE d
RECURSIVE Lead0(_, _)
Lead0(d, e) == IF d # "" /\ Ch(d, 1) = "0" THEN Lead0(Rest(d, 2), e - 1) ELSE <<d, e>>
EPos(s) == Occ(s, "E") \cup Occ(s, "e")
Dec(s0, shift) ==
  LET s1 == IF s0 = "" THEN "0" ELSE s0
      neg == Ch(s1, 1) = "-"
      s == IF Ch(s1, 1) \in {"-", "+"} THEN Rest(s1, 2) ELSE s1
      ep == EPos(s)
      m == IF ep = {} THEN s ELSE Sub(s, 1, MinOf(ep) - 1)
      x == IF ep = {} THEN 0 ELSE IntVal(Rest(s, MinOf(ep) + 1))
      pt == Occ(m, ".")
      ip == IF pt = {} THEN m ELSE Sub(m, 1, MinOf(pt) - 1)
      fp == IF pt = {} THEN "" ELSE Rest(m, MinOf(pt) + 1)
      r == Lead0(ip \o fp, Len(ip) + x)
      d == Strip0(r[1])
  IN IF d = "" THEN "0" ELSE (IF neg THEN "-" ELSE "") \o d \o "e" \o ToString(r[2] + shift)

\* ---- quark content: the alternatives, each counting d u s c b t minus their antiquarks
Flavours == <<"d", "u", "s", "c", "b", "t">>
AntiFl   == <<"D", "U", "S", "C", "B", "T">>
State(s) == [f \in 1..6 |-> Cardinality(Occ(s, Flavours[f])) - Cardinality(Occ(s, AntiFl[f]))]
Vac == [f \in 1..6 |-> 0]
RECURSIVE QCut(_, _, _, _)
QCut(s, i, cur, acc) == IF i > Len(s) THEN (IF cur = "" THEN acc ELSE Append(acc, cur))
                        ELSE IF Ch(s, i) \in {"(", ")", "+", "-"} THEN QCut(s, i + 1, "", IF cur = "" THEN acc ELSE Append(acc, cur))
                        ELSE QCut(s, i + 1, cur \o Ch(s, i), acc)
RECURSIVE NoSqrt(_)
NoSqrt(s) == IF Contains(s, "sqrt") THEN LET i == First(s, "sqrt") IN NoSqrt(Sub(s, 1, i - 1) \o Rest(s, i + 4)) ELSE s
Quarks(s) == IF Contains(s, "non-qQ") THEN <<Vac>> ELSE
             LET t == QCut(NoSqrt(s), 1, "", <<>>)
                 u == SelectSeq([k \in DOMAIN t |-> State(t[k])], LAMBDA z : z # Vac)
             IN IF u = <<>> THEN <<Vac>> ELSE u
AntiQ(q) == [k \in DOMAIN q |-> [f \in 1..6 |-> -q[k][f]]]
Combine(a, b, sg) == [k \in 1 .. Len(a) * Len(b) |-> LET i == ((k - 1) \div Len(b)) + 1
                                                        j == ((k - 1) % Len(b)) + 1
                                                    IN [f \in 1..6 |-> a[i][f] + sg * b[j][f]]]
RECURSIVE SumQ(_)
SumQ(qs) == IF qs = <<>> THEN <<Vac>> ELSE Combine(qs[1], SumQ(Tail(qs)), 1)
\* flavours agree if some alternative of one is an alternative of the other
\* what can be seen of a content: the set of alternatives, each as one number
Code(v) == ((((v[1] * 21 + v[2]) * 21 + v[3]) * 21 + v[4]) * 21 + v[5]) * 21 + v[6]
SeeQ(q) == Ordered({Code(q[k]) : k \in DOMAIN q}, LAMBDA x_, y_ : x_ < y_)
Agree(a, b) == \E i \in DOMAIN a, j \in DOMAIN b : a[i] = b[j]

\* ---- one particle
Row(s) == LET f == Fields(s) IN
  IF Len(f) # 18 THEN [ok |-> FALSE]
  ELSE LET t == [k \in 1..18 |-> Trim(f[k])] IN
  [ok |-> TRUE, base |-> t[17], cs |-> t[14], A |-> IF Len(t[12]) = 1 THEN t[12] ELSE " ", id |-> IF t[13] = "" THEN 0 ELSE IntVal(t[13]), q |-> Sgn(t[14]),
   two |-> Spin2(t[9]), G |-> Sgn(t[8]), P |-> Sgn(t[10]), C |-> Sgn(t[11]), quarks |-> Quarks(t[18]), custom |-> FALSE, neg |-> FALSE,
   mass |-> Dec(t[1], -3), width |-> Dec(t[4], -3)]
Fermion(p) == p.two % 2 = 1 /\ p.two > 0
Anti(p) == IF p.A = " " THEN p ELSE
  [p EXCEPT !.cs = Flip(p.cs), !.q = -p.q, !.P = IF Fermion(p) THEN -p.P ELSE p.P, !.quarks = AntiQ(p.quarks), !.id = -p.id]
Name(p) == IF p.custom THEN p.base ELSE p.base \o (IF p.id < 0 /\ p.A = "F" THEN "bar" ELSE "") \o p.cs
J(p) == IF p.two = -1 THEN "?" ELSE IF p.two % 2 = 0 THEN ToString(p.two \div 2) ELSE ToString(p.two) \o "/2"
\* name, number, charge, twice the spin, spin, P, C, G, distinct antiparticle, fermion, quarks, mass, width
Show(p) == <<Name(p), p.id, p.q, p.two, J(p), p.P, p.C, p.G, p.A # " ", Fermion(p), SeeQ(p.quarks), p.mass, p.width>>
New(n) == [ok |-> TRUE, base |-> n, cs |-> "", A |-> " ", id |-> 0, q |-> 0, two |-> 0, G |-> 0, P |-> 0, C |-> 0, quarks |-> <<Vac>>, custom |-> FALSE, neg |-> FALSE,
           mass |-> "0", width |-> "0"]

\* ---- the list: objects (numbered), the object each name and each number leads to (a sequence of pairs, last one counts)
Empty == [objs |-> <<>>, nm |-> <<>>, id |-> <<>>]
Last(q, k) == LET S == {i \in DOMAIN q : q[i][1] = k} IN IF S = {} THEN 0 ELSE q[CHOOSE i \in S : \A j \in S : j <= i][2]
Add1(l, p) == [objs |-> Append(l.objs, p), nm |-> Append(l.nm, <<Name(p), Len(l.objs) + 1>>), id |-> Append(l.id, <<p.id, Len(l.objs) + 1>>)]
ReadRow(l, r) ==
  LET p == IF r = "" \/ StartsWith(r, "*") \/ StartsWith(r, "#") THEN [ok |-> FALSE] ELSE Row(r) IN
  IF ~p.ok THEN l ELSE IF p.A = " " THEN Add1(l, p) ELSE Add1(Add1(l, p), Anti(p))
ReadRows(l, rows, i) == SX!FoldLeft(ReadRow, l, rows)
ByName(l, n) == Last(l.nm, n)
ById(l, i) == Last(l.id, i)
Alias(l, n, a) == IF ByName(l, n) = 0 THEN l ELSE
  LET p == [l.objs[ByName(l, n)] EXCEPT !.base = a, !.custom = TRUE, !.A = " "] IN
  [l EXCEPT !.objs = Append(l.objs, p), !.nm = Append(l.nm, <<a, Len(l.objs) + 1>>)]
SetProp(p, k, v) == CASE k = "mass" -> [p EXCEPT !.mass = Dec(v, 0)]
                      [] k = "width" -> [p EXCEPT !.width = Dec(v, 0)]
                      [] k = "spin" -> [p EXCEPT !.two = IF v = "?" THEN 0 ELSE Spin2(v)]
                      [] k = "parity" -> [p EXCEPT !.P = Sgn(v)]
                      [] k = "charge" -> [p EXCEPT !.q = Sgn(v)]
                      [] k = "quarks" -> [p EXCEPT !.quarks = Quarks(v)]
                      [] OTHER -> p
RECURSIVE Props(_, _, _)
Props(p, kv, i) == IF i + 1 > Len(kv) THEN p ELSE Props(SetProp(p, kv[i], kv[i + 1]), kv, i + 2)
AddP(l, n, kv) == LET k == ByName(l, n) IN
  IF k # 0 THEN [l EXCEPT !.objs[k] = Props(l.objs[k], kv, 1)]
  ELSE [l EXCEPT !.objs = Append(l.objs, Props(New(n), kv, 1)), !.nm = Append(l.nm, <<n, Len(l.objs) + 1>>)]

ShowN(l, n) == LET k == ByName(l, n) IN IF k = 0 THEN "unknown" ELSE <<Show(l.objs[k]), Show(Anti(l.objs[k])), Show(Anti(Anti(l.objs[k])))>>
ShowI(l, i) == LET k == ById(l, i) IN IF k = 0 THEN "unknown" ELSE Name(l.objs[k])
Ask(l, o) == <<[k \in DOMAIN o.names |-> ShowN(l, o.names[k])], [k \in DOMAIN o.ids |-> ShowI(l, o.ids[k])],
              <<Cardinality({l.nm[k][1] : k \in DOMAIN l.nm}), Cardinality({l.id[k][1] : k \in DOMAIN l.id})>> >>

Do(l, o) ==
  CASE o.f = "load"   -> LET l2 == ReadRows(Empty, o.rows, 1) IN [s |-> l2, o |-> Ask(l2, o)]
    [] o.f = "import" -> LET l2 == ReadRows(l, o.rows, 1) IN [s |-> l2, o |-> Ask(l2, o)]
    [] o.f = "alias"  -> LET l2 == Alias(l, o.name, o.alias) IN [s |-> l2, o |-> Ask(l2, o)]
    [] o.f = "add"    -> LET l2 == AddP(l, o.name, o.props) IN [s |-> l2, o |-> Ask(l2, o)]
    [] o.f = "ask"    -> [s |-> l, o |-> Ask(l, o)]
    [] o.f = "quarks" -> LET a == Quarks(o.head)
                             b == [k \in DOMAIN o.parts |-> Quarks(o.parts[k])]
                         IN [s |-> l, o |-> <<SeeQ(a), SeeQ(AntiQ(a)), SeeQ(SumQ(b)), Agree(a, SumQ(b)), ~Agree(a, SumQ(b)), SeeQ(Combine(a, SumQ(b), -1))>>]
\* every particle that has a distinct antiparticle is paired with it: opposite number and charge, conjugated content
Paired(l) == \A k \in DOMAIN l.objs : LET p == l.objs[k] a == Anti(p) IN
  /\ Anti(a) = p
  /\ p.A # " " => a.id = -p.id /\ a.q = -p.q /\ a.quarks = AntiQ(p.quarks) /\ a.two = p.two /\ a.mass = p.mass
\* names lead to objects that exist and that carry the name they are found by (unless renamed by hand)
Found(l) == \A k \in DOMAIN l.nm : l.nm[k][2] \in DOMAIN l.objs
=============================================================================
