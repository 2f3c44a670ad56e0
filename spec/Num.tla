-------------------------------- MODULE Num --------------------------------
(* Exact numbers for the expression calculus: Gaussian rationals extended by *)
(* rational multiples of pi, i.e. (re + i im) + pi (pr + i pi).  A value     *)
(* carries x = TRUE when floating-point evaluation of it is exact too (all   *)
(* intermediate results are small dyadic numbers); decisions that depend on  *)
(* the equality of inexact numbers are undefined (U), as is everything that  *)
(* leaves the domain.  TLC integers are 32 bit, so magnitudes are capped.    *)
EXTENDS Integers, Sequences, TLC
U == [k |-> "U"]
Cap == 20000
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(n, d) == LET s == IF d < 0 THEN -1 ELSE 1 g == Gcd(Abs(n), Abs(d)) IN <<(s * n) \div g, (s * d) \div g>>
Z == <<0, 1>>
OK(q) == Abs(q[1]) <= Cap /\ q[2] <= Cap
QAdd(a, b) == Q(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
QNeg(a) == <<-a[1], a[2]>>
QMul(a, b) == Q(a[1] * b[1], a[2] * b[2])
QInv(a) == Q(a[2], a[1])
QLt(a, b) == a[1] * b[2] < b[1] * a[2]
Dyadic(q) == q[2] \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
V(re, im, pr, pi, x) == IF OK(re) /\ OK(im) /\ OK(pr) /\ OK(pi) THEN [k |-> "v", re |-> re, im |-> im, pr |-> pr, pi |-> pi, x |-> x] ELSE U
G(re, im, x) == V(re, im, Z, Z, x)
R(n, d) == G(Q(n, d), Z, Dyadic(Q(n, d)))
IntV(n) == R(n, 1)
EV == [k |-> "e"]
PiV == V(Z, Z, <<1, 1>>, Z, FALSE)
IV == G(Z, <<1, 1>>, TRUE)
IsV(v) == v.k = "v"
NoPi(v) == IsV(v) /\ v.pr = Z /\ v.pi = Z
OnlyPi(v) == IsV(v) /\ v.re = Z /\ v.im = Z
IsReal(v) == IsV(v) /\ v.im = Z /\ v.pi = Z
IsZero(v) == NoPi(v) /\ v.re = Z /\ v.im = Z
Same(a, b) == a.re = b.re /\ a.im = b.im /\ a.pr = b.pr /\ a.pi = b.pi
Add(a, b) == IF ~IsV(a) \/ ~IsV(b) THEN U ELSE V(QAdd(a.re, b.re), QAdd(a.im, b.im), QAdd(a.pr, b.pr), QAdd(a.pi, b.pi), a.x /\ b.x)
Neg(a) == IF ~IsV(a) THEN U ELSE V(QNeg(a.re), QNeg(a.im), QNeg(a.pr), QNeg(a.pi), a.x)
SubV(a, b) == Add(a, Neg(b))
\* product of complex rationals, guarded against overflow of the intermediate sums
MulG(ar, ai, br, bi) ==
   LET rr == QMul(ar, br) ii == QMul(ai, bi) ri == QMul(ar, bi) ir == QMul(ai, br)
   IN IF OK(rr) /\ OK(ii) /\ OK(ri) /\ OK(ir) THEN <<TRUE, QAdd(rr, QNeg(ii)), QAdd(ri, ir)>> ELSE <<FALSE, Z, Z>>
Mul(a, b) ==
   IF ~IsV(a) \/ ~IsV(b) THEN U
   ELSE IF NoPi(a) /\ NoPi(b) THEN LET m == MulG(a.re, a.im, b.re, b.im) IN IF m[1] THEN G(m[2], m[3], a.x /\ b.x /\ Dyadic(m[2]) /\ Dyadic(m[3])) ELSE U
   ELSE LET p == IF NoPi(a) THEN b ELSE a
            q == IF NoPi(a) THEN a ELSE b
        IN IF ~NoPi(q) THEN U
           ELSE LET m == MulG(p.re, p.im, q.re, q.im) n == MulG(p.pr, p.pi, q.re, q.im)
                IN IF m[1] /\ n[1] THEN V(m[2], m[3], n[2], n[3], FALSE) ELSE U
InvV(b) ==   \* 1/b for b without pi
   LET n == QAdd(QMul(b.re, b.re), QMul(b.im, b.im))
   IN IF n = Z \/ ~OK(n) THEN U
      ELSE LET i == QInv(n) re == QMul(b.re, i) im == QMul(QNeg(b.im), i) IN G(re, im, b.x /\ Dyadic(re) /\ Dyadic(im))
SmallC(b) == Abs(b.re[1]) <= 100 /\ b.re[2] <= 100 /\ Abs(b.im[1]) <= 100 /\ b.im[2] <= 100
RECURSIVE Div(_, _)
Div(a, b) ==
   IF ~IsV(a) \/ ~IsV(b) THEN U
   ELSE IF NoPi(b) THEN (IF ~SmallC(b) THEN U ELSE LET i == InvV(b) IN IF ~IsV(i) THEN U ELSE LET m == Mul(a, i) IN IF ~IsV(m) THEN U ELSE [m EXCEPT !.x = i.x /\ @])
   ELSE IF OnlyPi(b) /\ OnlyPi(a) THEN Div(G(a.pr, a.pi, FALSE), G(b.pr, b.pi, FALSE))
   ELSE U
RECURSIVE PowN(_, _)
PowN(a, n) == IF n = 0 THEN IntV(1) ELSE Mul(PowN(a, n - 1), a)
InexactV(v) == IF IsV(v) THEN [v EXCEPT !.x = FALSE] ELSE v
RECURSIVE ISqrtN(_, _)
ISqrtN(n, k) == IF k * k >= n THEN k ELSE ISqrtN(n, k + 1)
SqrtV(a) ==
   IF ~NoPi(a) \/ a.im # Z \/ a.re[1] < 0 \/ a.re[1] > 10000 \/ a.re[2] > 10000 THEN U
   ELSE LET p == ISqrtN(a.re[1], 0) q == ISqrtN(a.re[2], 0)
        IN IF p * p = a.re[1] /\ q * q = a.re[2] THEN G(Q(p, q), Z, FALSE) ELSE U
PowV(a, b) ==
   IF ~IsV(a) \/ ~NoPi(b) \/ b.im # Z THEN U
   ELSE IF b.re[2] = 1 /\ Abs(b.re[1]) <= 6 THEN
        (IF IsZero(a) THEN (IF b.re[1] > 0 THEN InexactV(IntV(0)) ELSE U)
         ELSE IF b.re[1] >= 0 THEN InexactV(PowN(a, b.re[1])) ELSE InexactV(Div(IntV(1), PowN(a, -b.re[1]))))
   ELSE IF b.re = <<1, 2>> /\ ~IsZero(a) THEN SqrtV(a)
   ELSE IF b.re = <<-1, 2>> /\ ~IsZero(a) THEN Div(IntV(1), SqrtV(a))
   ELSE U
\* real part used by comparisons; undefined when a tie could be broken by rounding
CmpReal(a, b) == IsV(a) /\ IsV(b) /\ a.pr = Z /\ b.pr = Z /\ (a.re # b.re \/ (a.x /\ b.x))
Bool(p) == IF p THEN IntV(1) ELSE IntV(0)
Gt(a, b) == IF CmpReal(a, b) THEN Bool(QLt(b.re, a.re)) ELSE U
Lt(a, b) == IF CmpReal(a, b) THEN Bool(QLt(a.re, b.re)) ELSE U
Ge(a, b) == IF CmpReal(a, b) THEN Bool(~QLt(a.re, b.re)) ELSE U
Le(a, b) == IF CmpReal(a, b) THEN Bool(~QLt(b.re, a.re)) ELSE U
EqV(a, b) == IF NoPi(a) /\ NoPi(b) /\ (~Same(a, b) \/ (a.x /\ b.x)) THEN Bool(Same(a, b)) ELSE U
CanTruth(a) == NoPi(a) /\ (a.re # Z \/ a.x)
Truth(a) == a.re # Z
AndV(a, b) == IF CanTruth(a) /\ CanTruth(b) THEN Bool(Truth(a) /\ Truth(b)) ELSE U
OrV(a, b) == IF CanTruth(a) /\ CanTruth(b) THEN Bool(Truth(a) \/ Truth(b)) ELSE U
TernV(c, a, b) == IF CanTruth(c) THEN (IF Truth(c) THEN a ELSE b) ELSE U
\* truncated remainder of exact reals
FmodV(a, b) == IF NoPi(a) /\ NoPi(b) /\ a.x /\ b.x /\ b.re # Z THEN
                  LET n == a.re[1] * b.re[2] d == a.re[2] * b.re[1]
                      s == IF (n < 0) = (d < 0) THEN 1 ELSE -1
                      t == s * (Abs(n) \div Abs(d))
                      m == QAdd(a.re, QNeg(QMul(<<t, 1>>, b.re)))
                  IN IF Abs(t) > Cap THEN U ELSE G(m, Z, TRUE) ELSE U
Conj(a) == IF IsV(a) THEN V(a.re, QNeg(a.im), a.pr, QNeg(a.pi), a.x) ELSE U
RealV(a) == IF IsV(a) THEN V(a.re, Z, a.pr, Z, a.x) ELSE U
ImagV(a) == IF IsV(a) THEN V(a.im, Z, a.pi, Z, a.x) ELSE U
NormV(a) == IF NoPi(a) /\ SmallC(a) THEN InexactV(G(QAdd(QMul(a.re, a.re), QMul(a.im, a.im)), Z, FALSE)) ELSE U
AbsV(a) == IF IsReal(a) /\ NoPi(a) THEN V(<<Abs(a.re[1]), a.re[2]>>, Z, Z, Z, a.x) ELSE IF IsReal(a) /\ OnlyPi(a) THEN V(Z, Z, <<Abs(a.pr[1]), a.pr[2]>>, Z, FALSE) ELSE LET n == NormV(a) IN IF IsV(n) THEN SqrtV(n) ELSE U
\* elementary functions at the points where their values are in the domain
Turn(q) == Q(q[1] % (2 * q[2]), q[2])            \* multiple of pi reduced to [0, 2)
SinT(q) == LET t == Turn(q) IN CASE t = <<0, 1>> -> Z [] t = <<1, 6>> -> <<1, 2>> [] t = <<1, 2>> -> <<1, 1>> [] t = <<5, 6>> -> <<1, 2>> [] t = <<1, 1>> -> Z
             [] t = <<7, 6>> -> <<-1, 2>> [] t = <<3, 2>> -> <<-1, 1>> [] t = <<11, 6>> -> <<-1, 2>> [] OTHER -> <<>>
SinV(a) == IF IsReal(a) /\ OnlyPi(a) /\ SinT(a.pr) # <<>> THEN G(SinT(a.pr), Z, FALSE) ELSE U
CosV(a) == IF IsReal(a) /\ OnlyPi(a) /\ OK(QAdd(a.pr, <<1, 2>>)) /\ SinT(QAdd(a.pr, <<1, 2>>)) # <<>> THEN G(SinT(QAdd(a.pr, <<1, 2>>)), Z, FALSE) ELSE U
TanV(a) == IF IsReal(a) /\ OnlyPi(a) THEN LET t == Q(a.pr[1] % a.pr[2], a.pr[2]) IN CASE t = Z -> G(Z, Z, FALSE) [] t = <<1, 4>> -> InexactV(IntV(1)) [] t = <<3, 4>> -> InexactV(IntV(-1)) [] OTHER -> U ELSE U
ASinT(q) == CASE q = Z -> Z [] q = <<1, 2>> -> <<1, 6>> [] q = <<1, 1>> -> <<1, 2>> [] q = <<-1, 2>> -> <<-1, 6>> [] q = <<-1, 1>> -> <<-1, 2>> [] OTHER -> <<>>
Unit(a) == a.re \notin {<<1, 1>>, <<-1, 1>>} \/ a.x     \* at the end points the argument must be exact
PiQ(q) == V(Z, Z, q, Z, FALSE)
ASinV(a) == IF NoPi(a) /\ IsReal(a) /\ Unit(a) /\ ASinT(a.re) # <<>> THEN PiQ(ASinT(a.re)) ELSE U
ACosV(a) == IF NoPi(a) /\ IsReal(a) /\ Unit(a) /\ ASinT(a.re) # <<>> THEN PiQ(QAdd(<<1, 2>>, QNeg(ASinT(a.re)))) ELSE U
ATanV(a) == IF NoPi(a) /\ IsReal(a) THEN CASE a.re = Z -> G(Z, Z, FALSE) [] a.re = <<1, 1>> -> PiQ(<<1, 4>>) [] a.re = <<-1, 1>> -> PiQ(<<-1, 4>>) [] OTHER -> U ELSE U
ATan2V(y, x) == IF NoPi(y) /\ NoPi(x) /\ y.x /\ x.x /\ ~(y.re = Z /\ QLt(x.re, Z)) THEN
                   CASE y.re = Z /\ x.re = Z -> U
                     [] y.re = Z /\ x.re # Z -> G(Z, Z, FALSE)
                     [] x.re = Z /\ y.re # Z -> PiQ(IF QLt(Z, y.re) THEN <<1, 2>> ELSE <<-1, 2>>)
                     [] y.re = x.re /\ x.re # Z -> PiQ(IF QLt(Z, y.re) THEN <<1, 4>> ELSE <<-3, 4>>)
                     [] y.re = QNeg(x.re) /\ x.re # Z -> PiQ(IF QLt(Z, y.re) THEN <<3, 4>> ELSE <<-1, 4>>)
                     [] OTHER -> U ELSE U
ExpV(a) == IF ~IsV(a) \/ ~OnlyPi(a) \/ a.pr # Z THEN (IF IsV(a) /\ NoPi(a) /\ a.im = Z /\ a.re = <<1, 1>> THEN EV ELSE U)
           ELSE LET t == Turn(a.pi) IN CASE t = Z -> InexactV(IntV(1)) [] t = <<1, 2>> -> InexactV(IV) [] t = <<1, 1>> -> InexactV(IntV(-1)) [] t = <<3, 2>> -> InexactV(Neg(IV)) [] OTHER -> U
LogV(a) == IF a.k = "e" THEN InexactV(IntV(1)) ELSE IF NoPi(a) /\ a.re = <<1, 1>> /\ a.im = Z THEN InexactV(IntV(0)) ELSE IF NoPi(a) /\ a.re = Z /\ a.im = <<1, 1>> THEN V(Z, Z, Z, <<1, 2>>, FALSE) ELSE U
\* reading and showing values
Show1(q, p) == IF p = Z THEN IF q[2] = 1 THEN ToString(q[1]) ELSE ToString(q[1]) \o "/" \o ToString(q[2])
              ELSE IF q = Z THEN (IF p[2] = 1 THEN ToString(p[1]) ELSE ToString(p[1]) \o "/" \o ToString(p[2])) \o "pi" ELSE "?"
Shown(v) == IsV(v) /\ (v.re = Z \/ v.pr = Z) /\ (v.im = Z \/ v.pi = Z)
Show(v) == <<Show1(v.re, v.pr), Show1(v.im, v.pi)>>
=============================================================================
