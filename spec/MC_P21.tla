------------------------------- MODULE MC_P21 -------------------------------
(* P21: every operation on every tuple of operands of the domain, each tuple *)
(* in each lane next to changing neighbours; all short programs of in-place  *)
(* updates of a real and of a complex register.                              *)
EXTENDS Simd, IOUtils, SequencesExt
VARIABLES st, h
Part == IOEnv.PART
T == IOEnv.TIER = "thorough"
DEP == CHOOSE k \in 1..12 : ToString(k) = IOEnv.DEPTH
Types == {"d", "f"}
r(n, d) == <<n, d, 0, 1>>
Rs == {r(-7, 2), r(-3, 1), r(-1, 1), r(-1, 4), r(0, 1), r(1, 2), r(1, 1), r(3, 4), r(2, 1), r(5, 1), r(9, 4)} \cup (IF T THEN {r(-5, 1), r(-2, 1), r(-1, 2), r(-9, 8), r(1, 4), r(3, 1), r(4, 1), r(7, 1), r(15, 2)} ELSE {})
Ps == {<<0, 1, n, d>> : n \in -7..7, d \in {1, 2, 3, 4, 6}}
Cs == {<<0, 1, 0, 1>>, <<1, 1, 0, 1>>, <<-1, 1, 0, 1>>, <<0, 1, 1, 1>>, <<0, 1, -1, 1>>, <<1, 2, -1, 4>>, <<3, 1, 4, 1>>, <<-3, 1, 4, 1>>, <<3, 1, -4, 1>>, <<-3, 1, -4, 1>>, <<-4, 1, 0, 1>>, <<9, 4, 0, 1>>, <<0, 1, 2, 1>>, <<0, 1, -2, 1>>, <<2, 1, 1, 1>>}
      \cup (IF T THEN {<<-1, 4, 3, 2>>, <<5, 1, -3, 1>>, <<-1, 2, -1, 2>>, <<5, 1, 12, 1>>, <<-9, 1, 0, 1>>} ELSE {})
Good(t, v) == Fine(t, v)
\* the k-th packing of a sequence of tuples, stride s
At(q, k, s, i) == q[1 + ((k + s * (i - 1)) % Len(q))]
Strides == IF T THEN {1, 7, 3, 0} ELSE {1, 7}
Unary(fam, o, t, Dom, F(_)) == LET q == TLCEval(SetToSeq({a \in Dom : Good(t, F(a))})) IN
   {[f |-> fam, o |-> o, t |-> t, a |-> [i \in 1..8 |-> At(q, k, s, i)]] : k \in 1..Len(q), s \in Strides}
Binary(fam, o, t, DA, DB, F(_, _)) == LET q == TLCEval(SetToSeq({ab \in DA \X DB : Good(t, F(ab[1], ab[2]))})) IN
   {[f |-> fam, o |-> o, t |-> t, a |-> [i \in 1..8 |-> At(q, k, s, i)[1]], b |-> [i \in 1..8 |-> At(q, k, s, i)[2]]] : k \in 1..Len(q), s \in Strides}
OpsU == UNION {Unary("un", o, t, Rs \cup Ps, LAMBDA a : Un(o, RV(a))) : t \in Types, o \in {"neg", "abs", "sqrt", "sin", "cos", "tan", "exp", "log", "sign", "conj", "toint", "gather", "sc.s", "sc.c"}}
OpsB == UNION {Binary("bin", o, t, Rs, Rs, LAMBDA a, b : Bin(o, RV(a), RV(b))) : t \in Types, o \in {"+", "-", "*", "/", "fmod", "atan2", "rem"}}
   \cup UNION {Binary("cmp", o, t, Rs, Rs, LAMBDA a, b : Cmp(o, RV(a), RV(b))) : t \in Types, o \in {"<", ">", "<=", ">=", "=="}}
OpsC == UNION {Unary("cun", o, t, Cs, LAMBDA a : CUn(o, CV(a))) : t \in Types, o \in {"neg", "conj", "norm", "mnorm", "abs", "real", "imag", "sqrt"}}
   \cup UNION {Binary("cbin", o, t, Cs, Cs, LAMBDA a, b : Bin(o, CV(a), CV(b))) : t \in Types, o \in {"+", "-", "*", "/"}}
OpsM == UNION {Binary("crbin", o, t, Cs, Cs, LAMBDA a, b : Bin(o, CV(a), RealV(CV(b)))) : t \in Types, o \in {"+", "-", "*", "/"}}
   \cup UNION {Binary("rcbin", o, t, Cs, Cs, LAMBDA a, b : Bin(o, RealV(CV(a)), CV(b))) : t \in Types, o \in {"+", "-", "*", "/"}}
   \cup UNION {Binary("csbin", o, t, Cs, {<<n, 2, 0, 1>>}, LAMBDA a, b : Bin(o, CV(a), RealV(CV(b)))) : t \in Types, o \in {"+", "-", "*", "/"}, n \in {-3, 1, 4}}
   \cup UNION {Binary("scbin", o, t, {<<n, 2, 0, 1>>}, Cs, LAMBDA a, b : Bin(o, RealV(CV(a)), CV(b))) : t \in Types, o \in {"+", "-", "*", "/"}, n \in {-3, 1, 4}}
\* masks of eight lanes and the operations they steer
Masks == [1..8 -> {0, 1}]
Few == {m \in Masks : m \in {[i \in 1..8 |-> IF i = k THEN 1 ELSE 0] : k \in 0..8} \cup {[i \in 1..8 |-> IF i = k THEN 0 ELSE 1] : k \in 0..8} \cup {[i \in 1..8 |-> i % 2], [i \in 1..8 |-> (i \div 2) % 2], [i \in 1..8 |-> (i \div 4) % 2]}}
RA == [i \in 1..8 |-> r(2 * i - 7, 2)]
RB == [i \in 1..8 |-> r(9 - i, 4)]
RC == [i \in 1..8 |-> r(i * i - 20, 8)]
CA == [i \in 1..8 |-> <<2 * i - 7, 2, i, 4>>]
CB == [i \in 1..8 |-> <<9 - i, 4, 3 - i, 1>>]
Shift(a, k) == [i \in 1..8 |-> a[1 + ((i + k) % 8)]]
OpsS == {[f |-> "mask", o |-> o, t |-> t, m |-> m, n |-> n, w |-> w] : o \in {"and", "or", "xor"}, t \in Types, m \in Few, n \in Few, w \in BOOLEAN}
   \cup {[f |-> "maskb", o |-> o, t |-> "d", m |-> m, b |-> b, w |-> w] : o \in {"and", "or"}, m \in Few, b \in BOOLEAN, w \in BOOLEAN}
   \cup {[f |-> "not", t |-> t, m |-> m] : t \in Types, m \in Masks} \cup {[f |-> "all", t |-> "d", m |-> m] : m \in Masks}
   \cup {[f |-> "sel", t |-> t, m |-> m, a |-> RA, b |-> RB] : t \in Types, m \in Masks} \cup {[f |-> "selb", t |-> t, c |-> c, a |-> RA, b |-> RB] : t \in Types, c \in BOOLEAN}
   \cup {[f |-> "csel", o |-> o, t |-> t, m |-> m, a |-> CA, b |-> CB] : t \in Types, m \in Masks, o \in {"cc", "rc", "cr"}}
   \cup {[f |-> "cselb", o |-> "cc", t |-> t, c |-> c, a |-> CA, b |-> CB] : t \in Types, c \in BOOLEAN} \cup {[f |-> "cselb", o |-> o, t |-> "d", c |-> c, a |-> CA, b |-> CB] : c \in BOOLEAN, o \in {"rc", "cr"}}
   \cup {[f |-> "at", t |-> "d", a |-> Shift(x, k)] : x \in {CA, CB}, k \in 0..7} \cup {[f |-> "sum", t |-> "d", a |-> Shift(x, k)] : x \in {RA, RB, RC}, k \in 0..7}
   \cup {[f |-> "fma", t |-> t, a |-> Shift(x, k), b |-> Shift(y, l), c |-> z] : t \in Types, x \in {RA, RB, RC}, y \in {RA, RB, RC}, z \in {RA, RB, RC}, k \in {0, 1, 3}, l \in {0, 1, 2, 5}}
   \cup {[f |-> "pack", t |-> "d", n |-> n, k |-> k, c |-> c] : n \in 1..9, k \in 0..8, c \in BOOLEAN} \cup {[f |-> "asize", t |-> "d", n |-> n] : n \in 0..40}
   \cup {[f |-> "eqall", t |-> "d", a |-> [i \in 1..8 |-> IF m[i] = 1 THEN r(3, 2) ELSE r(i, 2)], b |-> r(3, 2)] : m \in Masks}
\* functions at points where the value is not a fraction: compared with the scalar function of the language
ElR == {r(n, d) : n \in {-37, -11, -5, -1, 0, 1, 2, 7, 19, 40}, d \in {3, 7}}
ElC == {<<n, 3, m, 7>> : n \in {-11, -2, 1, 8}, m \in {-9, -1, 3, 16}}
Pack(fam, o, t, q, p) == {[f |-> fam, o |-> o, t |-> t, a |-> [i \in 1..8 |-> At(q, k, s, i)], b |-> [i \in 1..8 |-> At(p, 3 * k, 5, i)]] : k \in 1..Len(q), s \in Strides}
NonZero == {a \in ElR : a[1] # 0}
OpsE == UNION {Pack("el", o, t, SetToSeq(ElR), SetToSeq(NonZero)) : t \in Types, o \in {"sin", "cos", "sc.s", "sc.c", "tan", "exp", "abs", "neg", "sqrt", "fmod", "atan2"}}
   \cup UNION {Pack("el", "log", t, SetToSeq(NonZero), SetToSeq(NonZero)) : t \in Types} \cup UNION {Pack("el", o, t, SetToSeq(ElC), SetToSeq(ElC)) : t \in Types, o \in {"c.exp", "c.log", "c.sqrt"}}
\* programs on the registers
OpsP(s) == IF s.t = "" THEN {[f |-> g, t |-> t, a |-> a] : g \in {"setr"}, t \in Types, a \in {RA, RB}} \cup {[f |-> "setz", t |-> t, a |-> a] : t \in Types, a \in {CA}}
   ELSE IF s.which = "r" THEN IF \E i \in 1..8 : ~Fine(s.t, s.r[i]) THEN {} ELSE {[f |-> "updr", o |-> o, t |-> s.t, a |-> a, self |-> FALSE] : o \in {"+=", "-=", "*=", "/="}, a \in {RB, Shift(RA, 2)}} \cup {[f |-> "updr", o |-> o, t |-> s.t, a |-> RB, self |-> TRUE] : o \in {"+=", "-=", "*="}}
   ELSE IF \E i \in 1..8 : ~Fine(s.t, s.z[i]) THEN {} ELSE {[f |-> "updz", o |-> o, t |-> s.t, a |-> a, self |-> FALSE] : o \in {"+=", "-=", "*=", "/="}, a \in {Shift(CA, 1), CB}} \cup {[f |-> "updz", o |-> o, t |-> s.t, a |-> CB, self |-> TRUE] : o \in {"+=", "-=", "*="}}
OpsOf(s) == CASE Part = "un" -> OpsU [] Part = "bin" -> OpsB [] Part = "cplx" -> OpsC [] Part = "mixed" -> OpsM [] Part = "select" -> OpsS [] Part = "el" -> OpsE [] Part = "prog" -> OpsP(s)
INSTANCE Explore WITH Init0 <- Start, Ops <- OpsOf, Step <- Apply, Depth <- DEP
\* no lane influences another: lanes of equal content are equal, whatever is beside them
Inv == \A i, j \in 1..8 : (RA[i] = RA[j] /\ RB[i] = RB[j]) => i = j
=============================================================================
