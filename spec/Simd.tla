-------------------------------- MODULE Simd --------------------------------
(* Vector registers.  A register holds eight lanes (two registers of four    *)
(* doubles, or one of eight floats); every operation acts on each lane as    *)
(* the scalar operation of module Num does, and on that lane only.  Two      *)
(* registers, r (real) and z (complex), are updated in place.                *)
(* A real lane is <<n, d, p, q>> = n/d + pi p/q, a complex lane              *)
(* <<n, d, m, e>> = n/d + i m/e, a mask lane 0 or 1.                         *)
EXTENDS Num, FiniteSets
RV(a) == V(Q(a[1], a[2]), Z, Q(a[3], a[4]), Z, a[3] = 0 /\ Dyadic(Q(a[1], a[2])))
CV(a) == G(Q(a[1], a[2]), Q(a[3], a[4]), Dyadic(Q(a[1], a[2])) /\ Dyadic(Q(a[3], a[4])))
\* floored remainder
RemV(a, b) == IF NoPi(a) /\ NoPi(b) /\ a.x /\ b.x /\ QLt(Z, b.re) THEN
                 LET n == a.re[1] * b.re[2] d == a.re[2] * b.re[1] IN G(QAdd(a.re, QNeg(QMul(<<n \div d, 1>>, b.re))), Z, TRUE) ELSE U
FloorV(a) == IF NoPi(a) /\ a.x /\ ~QLt(a.re, Z) THEN IntV(a.re[1] \div a.re[2]) ELSE U
SignV(a) == IF ~NoPi(a) \/ a.re = Z THEN U ELSE IF QLt(a.re, Z) THEN IntV(-1) ELSE IntV(1)
\* principal square root of a complex number
Halves == {Q(n, 2) : n \in -12..12}
CSqrtV(a) == LET S == {<<x, y>> \in Halves \X Halves : /\ (x[1] > 0 \/ (x[1] = 0 /\ y[1] >= 0))
                                                       /\ QAdd(QMul(x, x), QNeg(QMul(y, y))) = a.re /\ QMul(<<2, 1>>, QMul(x, y)) = a.im}
             IN IF ~NoPi(a) \/ ~a.x \/ S = {} THEN U ELSE LET w == CHOOSE w \in S : TRUE IN G(w[1], w[2], FALSE)
Un(o, a) == CASE o = "neg" -> Neg(a) [] o = "abs" -> AbsV(a) [] o = "sqrt" -> SqrtV(a) [] o = "sin" -> SinV(a) [] o = "cos" -> CosV(a) [] o = "tan" -> TanV(a)
              [] o = "exp" -> ExpV(a) [] o = "log" -> LogV(a) [] o = "sign" -> SignV(a) [] o = "conj" -> a [] o = "toint" -> FloorV(a)
              [] o = "gather" -> LET k == FloorV(a) IN IF IsV(k) THEN IntV(3 * k.re[1] - 7) ELSE U
              [] o = "sc.s" -> SinV(a) [] o = "sc.c" -> CosV(a)
Bin(o, a, b) == CASE o \in {"+", "+="} -> Add(a, b) [] o \in {"-", "-="} -> SubV(a, b) [] o \in {"*", "*="} -> Mul(a, b) [] o \in {"/", "/="} -> Div(a, b) [] o = "fmod" -> FmodV(a, b) [] o = "atan2" -> ATan2V(a, b) [] o = "rem" -> RemV(a, b)
Cmp(o, a, b) == CASE o = "<" -> Lt(a, b) [] o = ">" -> Gt(a, b) [] o = "<=" -> Le(a, b) [] o = ">=" -> Ge(a, b) [] o = "==" -> EqV(a, b)
CUn(o, a) == CASE o = "neg" -> Neg(a) [] o = "conj" -> Conj(a) [] o = "norm" -> NormV(a) [] o = "mnorm" -> NormV(a) [] o = "abs" -> AbsV(a) [] o = "real" -> RealV(a) [] o = "imag" -> ImagV(a) [] o = "sqrt" -> CSqrtV(a)
Log2(o, m, n) == CASE o = "and" -> m * n [] o = "or" -> IF m + n > 0 THEN 1 ELSE 0 [] o = "xor" -> (m + n) % 2
\* what the driver can read back from a lane: in single precision only small fractions
FineQ(t, q) == t = "d" \/ (q[2] <= 60 /\ Abs(q[1]) <= 20 * q[2])
Fine(t, v) == IsV(v) /\ Shown(v) /\ FineQ(t, v.re) /\ FineQ(t, v.im) /\ FineQ(t, v.pr) /\ (t = "d" \/ v.pr = Z \/ v.pr[2] <= 12)
L8(t, F(_)) == LET v == TLCEval([i \in 1..8 |-> F(i)]) IN IF \A i \in 1..8 : Fine(t, v[i]) THEN [i \in 1..8 |-> Show(v[i])] ELSE "?"
Str8(F(_)) == [i \in 1..8 |-> ToString(F(i))]
ROne == <<1, 1, 0, 1>>
Start == [r |-> [i \in 1..8 |-> RV(ROne)], z |-> [i \in 1..8 |-> CV(ROne)], t |-> "", which |-> ""]
Read(o) == CASE o.f \in {"un"} -> L8(o.t, LAMBDA i : Un(o.o, RV(o.a[i])))
             [] o.f = "bin" -> L8(o.t, LAMBDA i : Bin(o.o, RV(o.a[i]), RV(o.b[i])))
             [] o.f = "fma" -> L8(o.t, LAMBDA i : Add(Mul(RV(o.a[i]), RV(o.b[i])), RV(o.c[i])))
             [] o.f = "cmp" -> L8(o.t, LAMBDA i : Cmp(o.o, RV(o.a[i]), RV(o.b[i])))
             [] o.f = "mask" -> Str8(LAMBDA i : Log2(o.o, o.m[i], o.n[i]))
             [] o.f = "maskb" -> Str8(LAMBDA i : Log2(o.o, o.m[i], IF o.b THEN 1 ELSE 0))
             [] o.f = "not" -> Str8(LAMBDA i : 1 - o.m[i])
             [] o.f = "sel" -> L8(o.t, LAMBDA i : IF o.m[i] = 1 THEN RV(o.a[i]) ELSE RV(o.b[i]))
             [] o.f = "selb" -> L8(o.t, LAMBDA i : IF o.c THEN RV(o.a[i]) ELSE RV(o.b[i]))
             [] o.f = "csel" -> L8(o.t, LAMBDA i : IF o.m[i] = 1 THEN (IF o.o = "rc" THEN RealV(CV(o.a[i])) ELSE CV(o.a[i])) ELSE (IF o.o = "cr" THEN RealV(CV(o.b[i])) ELSE CV(o.b[i])))
             [] o.f = "cselb" -> L8(o.t, LAMBDA i : IF o.c THEN (IF o.o = "rc" THEN RealV(CV(o.a[i])) ELSE CV(o.a[i])) ELSE (IF o.o = "cr" THEN RealV(CV(o.b[i])) ELSE CV(o.b[i])))
             [] o.f = "cun" -> L8(o.t, LAMBDA i : CUn(o.o, CV(o.a[i])))
             [] o.f = "cbin" -> L8(o.t, LAMBDA i : Bin(o.o, CV(o.a[i]), CV(o.b[i])))
             [] o.f = "crbin" -> L8(o.t, LAMBDA i : Bin(o.o, CV(o.a[i]), RealV(CV(o.b[i]))))
             [] o.f = "rcbin" -> L8(o.t, LAMBDA i : Bin(o.o, RealV(CV(o.a[i])), CV(o.b[i])))
             [] o.f = "csbin" -> L8(o.t, LAMBDA i : Bin(o.o, CV(o.a[i]), RealV(CV(o.b[1]))))
             [] o.f = "scbin" -> L8(o.t, LAMBDA i : Bin(o.o, RealV(CV(o.a[1])), CV(o.b[i])))
             [] o.f = "at" -> L8(o.t, LAMBDA i : CV(o.a[i]))
             [] o.f = "sum" -> LET s == TLCEval([k \in {0, 4} |-> Add(Add(RV(o.a[k + 1]), RV(o.a[k + 2])), Add(RV(o.a[k + 3]), RV(o.a[k + 4])))]) IN <<Show(s[0])[1], Show(s[4])[1]>>
             [] o.f = "all" -> <<ToString(o.m[1] * o.m[2] * o.m[3] * o.m[4]), ToString(o.m[5] * o.m[6] * o.m[7] * o.m[8])>>
             [] o.f = "el" -> <<>>
             \* packing of o.n values 10, 20, ... from place o.k on: past the end the last value, or the default
             [] o.f = "pack" -> [i \in 1..4 |-> LET j == o.k + i IN ToString(IF j <= o.n THEN 10 * j ELSE IF o.c THEN 7 ELSE 10 * o.n)]
             [] o.f = "asize" -> ToString(4 * ((o.n + 3) \div 4))
             [] o.f = "eqall" -> <<IF \A i \in 1..4 : o.a[i] = o.b THEN "1" ELSE "0", IF \A i \in 5..8 : o.a[i] = o.b THEN "1" ELSE "0">>
ShowR(t, s) == L8(t, LAMBDA i : s[i])
\* values that stay shown and small; a lane that leaves the domain keeps its old value in the specification's view, and the history ends there
Apply(s, o) ==
   CASE o.f = "setr" -> LET n == [i \in 1..8 |-> RV(o.a[i])] IN [s |-> [s EXCEPT !.r = n, !.t = o.t, !.which = "r"], o |-> ShowR(o.t, n)]
     [] o.f = "setz" -> LET n == [i \in 1..8 |-> CV(o.a[i])] IN [s |-> [s EXCEPT !.z = n, !.t = o.t, !.which = "z"], o |-> ShowR(o.t, n)]
     [] o.f = "updr" -> LET n == TLCEval([i \in 1..8 |-> Bin(o.o, s.r[i], IF o.self THEN s.r[i] ELSE RV(o.a[i]))]) IN [s |-> [s EXCEPT !.r = n], o |-> ShowR(o.t, n)]
     [] o.f = "updz" -> LET n == TLCEval([i \in 1..8 |-> Bin(o.o, s.z[i], IF o.self THEN s.z[i] ELSE CV(o.a[i]))]) IN [s |-> [s EXCEPT !.z = n], o |-> ShowR(o.t, n)]
     [] OTHER -> [s |-> s, o |-> Read(o)]
=============================================================================
