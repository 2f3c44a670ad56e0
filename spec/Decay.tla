------------------------------- MODULE Decay -------------------------------
(* Decay descriptors and decay trees: parsing, canonical order and printed    *)
(* form, matching, charge conjugation, exchange of identical particles,       *)
(* orbital and spin couplings, quasi-stable trees.  Particles come from the   *)
(* database module.                                                           *)
EXTENDS PDB, Json, IOUtils
\* the rows of the particle files in use
RowFile == ndJsonDeserialize(IOEnv.ROWS)
Rows == [k \in DOMAIN RowFile |-> RowFile[k].r]
DB == ReadRows(Empty, Rows, 1)
NameIx == LET N == {DB.nm[k][1] : k \in DOMAIN DB.nm} IN [n \in N |-> Last(DB.nm, n)]
IdIx   == LET N == {DB.id[k][1] : k \in DOMAIN DB.id} IN [n \in N |-> Last(DB.id, n)]
Get(n) == DB.objs[NameIx[n]]
AntiOf(p) == IF p.A = " " THEN p ELSE DB.objs[IdIx[-p.id]]

\* ---- order of characters, strings and decimal numbers
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Pos == [c \in {Ch(Ascii, i) : i \in 1 .. Len(Ascii)} |-> CHOOSE i \in 1 .. Len(Ascii) : Ch(Ascii, i) = c]
CharCode(c) == 31 + Pos[c]
RECURSIVE StrLess(_, _, _)
StrLess(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                    ELSE IF Ch(a, i) = Ch(b, i) THEN StrLess(a, b, i + 1) ELSE Pos[Ch(a, i)] < Pos[Ch(b, i)]
DExp(x) == IntVal(Rest(x, First(x, "e") + 1))
DDig(x) == Sub(x, 1, First(x, "e") - 1)
\* x > y for decimals that are not negative
DGreater(x, y) == IF x = y \/ x = "0" THEN FALSE ELSE IF y = "0" THEN TRUE
                  ELSE IF DExp(x) # DExp(y) THEN DExp(x) > DExp(y) ELSE StrLess(DDig(y), DDig(x), 1)
\* width below one keV
Narrow(p) == p.width = "0" \/ Ch(p.width, 1) = "-" \/ DExp(p.width) < -5

\* ---- descriptors:  name[modifier;modifier]{daughter,daughter}
RECURSIVE CutTop(_, _, _, _, _)
CutTop(s, i, from, depth, acc) ==
  IF i > Len(s) THEN Append(acc, Rest(s, from))
  ELSE CASE Ch(s, i) = "{" -> CutTop(s, i + 1, from, depth + 1, acc)
         [] Ch(s, i) = "}" -> CutTop(s, i + 1, from, depth - 1, acc)
         [] Ch(s, i) = "," /\ depth = 0 -> CutTop(s, i + 1, i + 1, 0, Append(acc, Sub(s, from, i - 1)))
         [] OTHER -> CutTop(s, i + 1, from, depth, acc)
RECURSIVE CutAt(_, _, _, _, _)
CutAt(s, c, i, from, acc) == IF i > Len(s) THEN Append(acc, Rest(s, from))
                             ELSE IF Ch(s, i) = c THEN CutAt(s, c, i + 1, i + 1, Append(acc, Sub(s, from, i - 1)))
                             ELSE CutAt(s, c, i + 1, from, acc)
HeadText(s) == IF Contains(s, "{") THEN Sub(s, 1, First(s, "{") - 1) ELSE s
DaughterTexts(s) == IF Contains(s, "{") THEN CutTop(Sub(s, First(s, "{") + 1, Len(s) - 1), 1, 1, 0, <<>>) ELSE <<>>
NameText(h) == IF Contains(h, "[") THEN Sub(h, 1, First(h, "[") - 1) ELSE h
ModTexts(h) == IF Contains(h, "[") THEN CutAt(Sub(h, First(h, "[") + 1, Len(h) - 1), ";", 1, 1, <<>>) ELSE <<>>

Shapes == {"FormFactor", "ExpFF", "None", "BW", "SBW", "GounarisSakurai", "kMatrix", "FOCUS", "Bugg", "kMatrixSimple", "Flatte", "Gaussian", "Poly",
           "DecaySpline", "GSpline", "FormFactorSpline", "MIPWA", "InelasticSpline", "Photon", "LASS", "Isotensor", "PALANO", "NonRelBW", "GLASS", "CoupledChannel"}
IsShape(m) == (IF Contains(m, ".") THEN Sub(m, 1, First(m, ".") - 1) ELSE m) \in Shapes
Letters == <<"S", "P", "D", "F", "G", "H", "I">>
LetterOf(c) == {k \in 1..7 : Letters[k] = c}
\* what the modifiers say: orbital momentum, spin configuration, line shape, vertex
Mod1(x, c) == IF LetterOf(c) # {} THEN [x EXCEPT !.orb = MinOf(LetterOf(c)) - 1]
              ELSE IF c = "0" THEN [x EXCEPT !.cfg = ""] ELSE [x EXCEPT !.cfg = c]
OneMod(x, m) ==
  IF StartsWith(m, "vertex=") /\ Cardinality(Occ(m, "=")) = 1 /\ Len(m) > 7 THEN [x EXCEPT !.vtx = Rest(m, 8)]
  ELSE IF IsShape(m) THEN [x EXCEPT !.ls = m]
  ELSE IF Len(m) = 1 THEN Mod1(x, m)
  ELSE IF Len(m) = 2 THEN Mod1(Mod1(x, Ch(m, 1)), Ch(m, 2))
  ELSE x
NoMods == [orb |-> 0, cfg |-> "", ls |-> "BW", vtx |-> ""]

\* ---- quantum numbers of a node:  p properties, d daughters
NonRes(p) == Contains(Name(p), "NonRes")
RECURSIVE QuarksOf(_)
DauQuarks(d) == SumQ([k \in DOMAIN d |-> QuarksOf(d[k])])
QuarksOf(t) == IF NonRes(t.p) THEN DauQuarks(t.d) ELSE t.p.quarks
Strong(p, d) == (NonRes(p) \/ Agree(p.quarks, DauQuarks(d))) /\ p.id \notin {24, -24, 23, -23}
IAbs(x) == IF x < 0 THEN -x ELSE x
ParityOK(p, d, l) == p.P = d[1].p.P * d[2].p.P * (IF l % 2 = 0 THEN 1 ELSE -1)
\* (orbital, twice the total spin) pairs allowed by addition of angular momenta (twos: twice the spins of head and daughters)
Triangle(a, b, c) == (a + b + c) % 2 = 0 /\ IAbs(a - b) <= c /\ c <= a + b
LS(t0, t1, t2) == {ls \in (0 .. ((t0 + t1 + t2) \div 2)) \X (0 .. (t1 + t2)) : Triangle(t1, t2, ls[2]) /\ Triangle(2 * ls[1], ls[2], t0)}
Allowed(p, d, cons) == {ls \in LS(p.two, d[1].p.two, d[2].p.two) : cons => ParityOK(p, d, ls[1])}
\* smallest orbital momentum; unknown spins (-1) are not treated
KnownSpins(p, d) == p.two >= 0 /\ \A k \in DOMAIN d : d[k].p.two >= 0
LOf(p, d, cons) == {ls[1] : ls \in Allowed(p, d, cons)}
MinL(p, d) == IF Len(d) # 2 THEN 0 ELSE LET S == LOf(p, d, Strong(p, d)) IN IF S = {} THEN 999 ELSE MinOf(S)

\* ---- trees: p properties, own (modifiers say), mods as written, minL, orb, dfl (line shape not asked for), ls, i index, d daughters
Default(p) == IF p.id = 22 THEN "Photon" ELSE IF NonRes(p) \/ Narrow(p) THEN "FormFactor" ELSE "BW"
Node(p, x, mods, i, d) ==
  LET m == MinL(p, d) IN
  [p |-> p, mods |-> mods, cfg |-> x.cfg, vtx |-> x.vtx, dfl |-> x.ls = "BW", ls |-> IF x.ls = "BW" THEN Default(p) ELSE x.ls,
   minL |-> m, orb |-> IF x.orb = 0 THEN m ELSE x.orb, i |-> i, d |-> d]
HasMod(t, m) == \E k \in DOMAIN t.mods : t.mods[k] = m
OrbText(t) == Letters[t.orb + 1] \o t.cfg
ModText(t) ==
  LET parts == (IF t.orb # t.minL \/ t.cfg # "" THEN <<OrbText(t)>> ELSE <<>>)
               \o (IF t.dfl THEN <<>> ELSE <<t.ls>>)
               \o SelectSeq(<<"BgSpin0", "Inco", "NoSym">>, LAMBDA m : HasMod(t, m))
               \o SelectSeq(t.mods, LAMBDA m : Contains(m, "="))
  IN IF parts = <<>> THEN "" ELSE "[" \o JoinWith(parts, ";") \o "]"
RECURSIVE Text(_)
Text(t) == Name(t.p) \o ModText(t) \o (IF t.d = <<>> THEN "" ELSE "{" \o JoinWith([k \in DOMAIN t.d |-> Text(t.d[k])], ",") \o "}")

\* replace every particle by its antiparticle, leaving the order as it is
RECURSIVE AntiTree(_)
AntiTree(t) == [t EXCEPT !.p = AntiOf(t.p), !.d = [k \in DOMAIN t.d |-> AntiTree(t.d[k])]]
\* the order of daughters: spin, decaying before stable, mass, particle before antiparticle, charge, number, index, printed form
Before(a, b) ==
  IF a.p.two # b.p.two THEN a.p.two > b.p.two
  ELSE IF (a.d = <<>>) # (b.d = <<>>) THEN b.d = <<>>
  ELSE IF a.p.mass # b.p.mass THEN DGreater(a.p.mass, b.p.mass)
  ELSE IF IAbs(a.p.id) = IAbs(b.p.id) /\ a.p.id # b.p.id THEN a.p.id > b.p.id
  ELSE IF a.p.q # b.p.q THEN a.p.q > b.p.q
  ELSE IF a.p.id # b.p.id THEN a.p.id > b.p.id
  ELSE IF a.i # b.i THEN a.i < b.i
  ELSE LET x == Text(a) y == Text(b) IN x # y /\ StrLess(x, y, 1)
RECURSIVE Insert(_, _, _)
Insert(q, x, k) == IF k > Len(q) THEN Append(q, x) ELSE IF Before(x, q[k]) THEN SubSeq(q, 1, k - 1) \o <<x>> \o SubSeq(q, k, Len(q)) ELSE Insert(q, x, k + 1)
RECURSIVE SortQ(_, _)
SortQ(q, acc) == IF q = <<>> THEN acc ELSE SortQ(Tail(q), Insert(acc, q[1], 1))
Sorted(t) == IF t.p.id < 0 THEN AntiTree([AntiTree(t) EXCEPT !.d = SortQ(AntiTree(t).d, <<>>)]) ELSE [t EXCEPT !.d = SortQ(t.d, <<>>)]

\* ---- final states: depth first, in the order of the tree
RECURSIVE LeavesOf(_)
LeavesOf(q) == IF q = <<>> THEN <<>> ELSE (IF q[1].d = <<>> THEN <<q[1]>> ELSE LeavesOf(q[1].d)) \o LeavesOf(Tail(q))
\* give each leaf the first free place of its name; <<tree, free places left>>
RECURSIVE Assign(_, _, _, _)
Assign(q, fs, free, acc) ==
  IF q = <<>> THEN <<acc, free>>
  ELSE IF q[1].d # <<>> THEN LET r == Assign(q[1].d, fs, free, <<>>) IN Assign(Tail(q), fs, r[2], Append(acc, [q[1] EXCEPT !.d = r[1]]))
  ELSE LET S == {k \in free : fs[k] = Name(q[1].p)} IN
       IF S = {} THEN Assign(Tail(q), fs, free, Append(acc, q[1]))
       ELSE Assign(Tail(q), fs, free \ {MinOf(S)}, Append(acc, [q[1] EXCEPT !.i = MinOf(S) - 1]))

RECURSIVE Unsorted(_)
Parsed(s) == Sorted(Unsorted(s))
Unsorted(s) ==
  LET h == HeadText(s)
      mods == ModTexts(h)
      ds == DaughterTexts(s)
      d == [k \in DOMAIN ds |-> Parsed(ds[k])]
  IN Node(Get(NameText(h)), SX!FoldLeft(OneMod, NoMods, mods), mods, 999, d)
\* a decay with its final-state particles placed; good when every place is taken
Placed(s, fs) == LET u == Unsorted(s)
                     r == Assign(u.d, fs, DOMAIN fs, <<>>)
                 IN [t |-> Sorted([u EXCEPT !.d = r[1]]), good |-> r[2] = {}]

\* ---- equality of decays (indices do not count)
RECURSIVE Bare(_)
Bare(t) == <<Name(t.p), t.orb, t.cfg, t.ls, t.dfl, t.vtx, SelectSeq(<<"BgSpin0", "Inco", "NoSym">>, LAMBDA m : HasMod(t, m)),
             SelectSeq(t.mods, LAMBDA m : Contains(m, "=")), [k \in DOMAIN t.d |-> Bare(t.d[k])]>>

\* ---- matching: bits 1 none, 2 exact, 4 partial expansion, 8 different orbital
Bit(n, b) == (n \div b) % 2 = 1
Join(a, b) == (IF Bit(a, 1) \/ Bit(b, 1) THEN 1 ELSE 0) + (IF Bit(a, 2) \/ Bit(b, 2) THEN 2 ELSE 0) + (IF Bit(a, 4) \/ Bit(b, 4) THEN 4 ELSE 0) + (IF Bit(a, 8) \/ Bit(b, 8) THEN 8 ELSE 0)
RECURSIVE Match(_, _)
Match(a, b) ==
  IF Name(a.p) # Name(b.p) THEN 1
  ELSE IF (a.d = <<>>) # (b.d = <<>>) THEN 4
  ELSE IF Len(a.d) # Len(b.d) THEN 1
  ELSE LET m == [k \in DOMAIN a.d |-> Match(a.d[k], b.d[k])]
           r == SX!FoldLeft(Join, IF a.orb # b.orb THEN 8 ELSE 0, m)
       IN IF \E k \in DOMAIN m : m[k] = 0 THEN 1 ELSE IF r = 0 THEN 2 ELSE IF Bit(r, 2) /\ r # 2 THEN r - 2 ELSE r

\* ---- charge conjugation
Again(t) == LET m == MinL(t.p, t.d) IN [t EXCEPT !.minL = m, !.orb = IF t.orb = 0 THEN m ELSE t.orb, !.ls = IF t.dfl THEN Default(t.p) ELSE t.ls]
RECURSIVE Conj(_, _, _, _)
Conj(t, head, inv, sort) ==
  LET p == IF (~head \/ inv) /\ t.p.A # " " THEN Get(Name(AntiOf(t.p))) ELSE Get(Name(t.p))
      d == [k \in DOMAIN t.d |-> Conj(t.d[k], FALSE, inv, sort)]
      u == [t EXCEPT !.p = p, !.d = d]
  IN Again(IF sort THEN Sorted(u) ELSE u)
RECURSIVE SpinParity(_)
TwoBody(t) == \A k \in {1} : Len(t.d) <= 2
RECURSIVE AllTwoBody(_)
AllTwoBody(t) == Len(t.d) <= 2 /\ t.p.two >= 0 /\ \A k \in DOMAIN t.d : AllTwoBody(t.d[k])
SpinParity(t) ==
  IF t.d = <<>> THEN 1 ELSE IF Len(t.d) = 1 THEN SpinParity(t.d[1])
  ELSE LET f == t.p.two - 2 * t.orb - t.d[1].p.two - t.d[2].p.two
           g == f \div 2      \* whole for allowed decays
       IN (IF g % 2 = 0 THEN 1 ELSE -1) * SpinParity(t.d[1]) * SpinParity(t.d[2])
RECURSIVE CPar(_)
RECURSIVE ProdC(_)
ProdC(d) == IF d = <<>> THEN 1 ELSE (IF d[1].p.C = 0 THEN 1 ELSE d[1].p.C) * CPar(d[1]) * ProdC(Tail(d))
CPar(t) == IF Len(t.d) = 1 THEN CPar(t.d[1]) ELSE ProdC(t.d)
CPOf(t) == CPar(t) * SpinParity(t)

\* ---- exchange of identical final-state particles
Perms(n) == {f \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => f[a] # f[b]}
\* sign of exchanging only the fermions: the parity of the inversions among them
Inversions(f, F) == Cardinality({ab \in F \X F : ab[1] < ab[2] /\ f[ab[1]] > f[ab[2]]})
Exchange(leaves) ==
  LET n == Len(leaves)
      ok == {f \in Perms(n) : \A k \in 1..n : Name(leaves[f[k]].p) = Name(leaves[k].p)}
      F == {k \in 1..n : Fermion(leaves[k].p)}
      one(f) == <<[k \in 1..n |-> f[k] - 1], IF Inversions(f, F) % 2 = 0 THEN 1 ELSE -1>>
      less(f, g) == \E k \in 1..n : f[k] < g[k] /\ \A j \in 1..(k - 1) : f[j] = g[j]
      q == Ordered(ok, less)
  IN [k \in DOMAIN q |-> one(q[k])]
\* leaves in the order of their places
RECURSIVE InsI(_, _, _)
InsI(q, x, k) == IF k > Len(q) THEN Append(q, x) ELSE IF x.i < q[k].i THEN SubSeq(q, 1, k - 1) \o <<x>> \o SubSeq(q, k, Len(q)) ELSE InsI(q, x, k + 1)
RECURSIVE SortI(_, _)
SortI(q, acc) == IF q = <<>> THEN acc ELSE SortI(Tail(q), InsI(acc, q[1], 1))

\* ---- the tree of quasi-stable particles only
Plain(p) == Node(p, NoMods, <<>>, 999, <<>>)
Quasi(p) == Narrow(p) /\ Name(p) # "gamma0"
RECURSIVE QTree(_)
RECURSIVE Flat(_, _)
Flat(q, only) == IF q = <<>> THEN <<>> ELSE
  LET t == QTree(q[1]) IN (IF t.d = <<>> \/ (Quasi(t.p) /\ ~only) THEN <<t>> ELSE t.d) \o Flat(Tail(q), only)
QTree(t) == LET d == Flat(t.d, Len(t.d) = 1) IN Sorted([Plain(t.p) EXCEPT !.d = d])

\* ---- adding the CP conjugates of a model: parameters are <<name, value>> (values are whole numbers here)
Braces(s, c) == Cardinality(Occ(s, c))
RECURSIVE NamesIn(_, _, _)
NamesIn(s, i, cur) == IF i > Len(s) THEN (IF cur = "" THEN {} ELSE {cur})
                      ELSE IF Ch(s, i) \in {"{", "}", ","} THEN (IF cur = "" THEN {} ELSE {cur}) \cup NamesIn(s, i + 1, "")
                      ELSE NamesIn(s, i + 1, cur \o Ch(s, i))
IsDecay(s) == Braces(s, "{") > 0 /\ Braces(s, "{") = Braces(s, "}") /\ \A n \in NamesIn(s, 1, "") : NameText(n) \in DOMAIN NameIx
\* the conjugate of one parameter: <<>> or <<name, sign, parameter>>
Conjugate(par, polar, forbid) ==
  LET n == par[1] IN
  IF Contains(n, "::") THEN
    LET a == Sub(n, 1, First(n, "::") - 1) IN IF a \in DOMAIN NameIx THEN <<Name(Anti(Get(a))) \o Rest(n, First(n, "::")), 1, n>> ELSE <<>>
  ELSE LET tk == CutAt(n, "_", 1, 1, <<>>)
           last == tk[Len(tk)] IN
  IF Len(tk) = 1 /\ IsDecay(n) THEN IF Name(Parsed(n).p) \in forbid THEN <<>> ELSE <<Text(Conj(Parsed(n), TRUE, TRUE, TRUE)), 1, n>>
  ELSE IF last \in {"Re", "Im"} THEN
    IF ~(IsDecay(tk[1]) \/ tk[1] \in DOMAIN NameIx) THEN <<>>
    ELSE LET t == Parsed(tk[1])
             u == Conj(t, TRUE, TRUE, TRUE)
         IN IF Name(t.p) \in forbid \/ u.p.A = " " THEN <<>>
            ELSE <<Text(u) \o "_" \o last, IF polar /\ last = "Im" THEN 1 ELSE CPOf(u), n>>
  ELSE IF Len(tk) = 2 /\ tk[1] \in DOMAIN NameIx THEN <<Name(Anti(Get(tk[1]))) \o "_" \o tk[2], 1, n>>
  ELSE <<>>
RECURSIVE Doubled(_, _, _, _, _)
Doubled(ps, k, polar, forbid, acc) ==
  IF k > Len(ps) THEN acc ELSE
  LET c == Conjugate(ps[k], polar, forbid) IN
  Doubled(ps, k + 1, polar, forbid, IF c = <<>> \/ c[1] \in {ps[j][1] : j \in DOMAIN ps} \cup {acc[j][1] : j \in DOMAIN acc} THEN acc ELSE Append(acc, c))
ValueOf(ps, n) == ps[CHOOSE k \in DOMAIN ps : ps[k][1] = n][2]
AfterCP(ps, add) == ps \o [k \in DOMAIN add |-> <<add[k][1], add[k][2] * ValueOf(ps, add[k][3])>>]
Moved(ps) == [k \in DOMAIN ps |-> <<ps[k][1], ps[k][2] + 10 * k>>]

\* ---- observations
CfgNo(c) == IF c = "" THEN 0 ELSE IF IsDigit(c) THEN DigitVal(c) ELSE 10 + CharCode(c)
RECURSIVE See(_)
See(t) == <<Name(t.p), t.orb, CfgNo(t.cfg), t.ls, t.i, [k \in DOMAIN t.d |-> See(t.d[k])]>>
LSeq(p, d, cons) == Ordered(Allowed(p, d, cons), LAMBDA a_, b_ : a_[1] < b_[1] \/ (a_[1] = b_[1] /\ a_[2] < b_[2]))
Range(p, d, cons) == LET S == LOf(p, d, cons) IN IF S = {} THEN <<999, 999>> ELSE <<MinOf(S), CHOOSE x \in S : \A y \in S : y <= x>>
Obs(o) ==
  CASE o.f = "parse" -> LET r == Placed(o.d, o.fs) IN <<Text(r.t), See(r.t), r.good, Text(Parsed(Text(r.t)))>>
    [] o.f = "cmp"   -> LET a == Parsed(o.a) b == Parsed(o.b) IN <<Text(a) = Text(b), Match(a, b), Match(b, a)>>
    [] o.f = "conj"  -> LET t == Parsed(o.d)
                            a == Conj(t, TRUE, TRUE, TRUE)
                            u == Conj(t, TRUE, TRUE, FALSE)
                        IN <<Text(a), See(a), Text(Conj(a, TRUE, TRUE, TRUE)), Text(u), IF AllTwoBody(t) THEN CPOf(t) ELSE 0, Text(AntiTree(t))>>
    [] o.f = "conjF" -> LET t == Parsed(o.d) b == Conj(t, TRUE, FALSE, TRUE) IN IF b.minL = t.minL THEN Text(b) ELSE "?"
    [] o.f = "swap"  -> LET r == Placed(o.d, o.fs) IN Exchange(SortI(LeavesOf(r.t.d), <<>>))
    [] o.f = "ls"    -> LET t == Unsorted(o.d) IN [k \in 1..2 |-> <<LSeq(t.p, t.d, k = 1), Range(t.p, t.d, k = 1)>>]
    [] o.f = "quasi" -> Text(QTree(Parsed(o.d)))
    [] o.f = "quarks" -> LET t == Parsed(o.d) IN <<SeeQ(QuarksOf(t)), SeeQ(DauQuarks(t.d)), Strong(t.p, t.d)>>
    [] o.f = "cp" -> LET f == {o.forbid[k] : k \in DOMAIN o.forbid}
                         add == Doubled(o.params, 1, o.polar, f, <<>>) IN <<AfterCP(o.params, add), AfterCP(Moved(o.params), add)>>
    [] OTHER -> "?"
\* decays without any allowed orbital momentum have no printed form for their spin configuration; left open
RECURSIVE Odd(_)
Odd(x) == \/ LET h == HeadText(x)
                 d == DaughterTexts(x)
                 m == SX!FoldLeft(OneMod, NoMods, ModTexts(h))
             IN m.cfg # "" /\ m.orb = 0 /\ MinL(Get(NameText(h)), [k \in DOMAIN d |-> [p |-> Get(NameText(HeadText(d[k]))), d |-> IF NonRes(Get(NameText(HeadText(d[k])))) THEN Unsorted(d[k]).d ELSE <<>>]]) = 999
          \/ \E k \in DOMAIN DaughterTexts(x) : Odd(DaughterTexts(x)[k])
Do2(s, o) == [s |-> s, o |-> IF IF o.f = "cmp" THEN Odd(o.a) \/ Odd(o.b) ELSE IF o.f = "cp" THEN FALSE ELSE Odd(o.d) THEN "?" ELSE Obs(o)]

\* ---- what is to hold of every descriptor s
RoundTrip(s) == LET t == Parsed(s) IN Bare(Parsed(Text(t))) = Bare(t) /\ Text(Parsed(Text(t))) = Text(t)
Involution(s) == LET t == Parsed(s) IN Bare(Conj(Conj(t, TRUE, TRUE, TRUE), TRUE, TRUE, TRUE)) = Bare(t)
=============================================================================
