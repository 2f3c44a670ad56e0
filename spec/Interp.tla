------------------------------- MODULE Interp -------------------------------
(* Numerical helpers.                                                        *)
(* Splines: natural cubic splines over equally spaced knots.  With u the     *)
(* position inside an interval and m_i = h^2 y''_i / 6,                      *)
(*   S(u) = (1-u) y_i + u y_{i+1} + m_i ((1-u)^3 - (1-u)) + m_{i+1} (u^3-u)  *)
(* where m_{i-1} + 4 m_i + m_{i+1} = y_{i+1} - 2 y_i + y_{i-1}, m = 0 at the *)
(* ends; past the last knot its value continues.  The value at knots and the *)
(* slope are those of both intervals.  A compiled function sees the knot     *)
(* values of its last preparation.                                           *)
(* Sums: a number is b 2^60 + s (or b 2^116 + m 2^58 + s); a compensated sum *)
(* of any series delivers the exact sum rounded once.                        *)
(* Barriers: B_L(z) = D_L(1) z^L / D_L(z) with D_L(z) = z^(L+1) |h_L|^2 from *)
(* the spherical Hankel functions, and the running width built from them.    *)
EXTENDS Integers, Sequences, TLC
\* rationals <<n, d>>; <<>> when 31 bits do not hold them
MaxI == 2147483647
IAbs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE IGcd(_, _)
IGcd(a, b) == IF b = 0 THEN a ELSE IGcd(b, a % b)
Fits(a, b) == a = 0 \/ b = 0 \/ IAbs(a) <= MaxI \div IAbs(b)
FitsSum(a, b) == IAbs(a) <= MaxI - IAbs(b)
F(n, d) == LET g == IGcd(IAbs(n), IAbs(d)) s == IF d < 0 THEN -1 ELSE 1 IN <<(s * n) \div g, (s * d) \div g>>
FMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE
   LET x == F(a[1], b[2]) y == F(b[1], a[2]) IN IF Fits(x[1], y[1]) /\ Fits(x[2], y[2]) THEN F(x[1] * y[1], x[2] * y[2]) ELSE <<>>
FAdd(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE
   LET g == IGcd(a[2], b[2]) p == b[2] \div g q == a[2] \div g IN
   IF Fits(a[1], p) /\ Fits(b[1], q) /\ Fits(a[2], p) /\ FitsSum(a[1] * p, b[1] * q) THEN F(a[1] * p + b[1] * q, a[2] * p) ELSE <<>>
FNeg(a) == IF a = <<>> THEN <<>> ELSE <<-a[1], a[2]>>
FSub(a, b) == FAdd(a, FNeg(b))
FInv(a) == IF a = <<>> \/ a[1] = 0 THEN <<>> ELSE F(a[2], a[1])
FDiv(a, b) == FMul(a, FInv(b))
RECURSIVE FPow(_, _)
FPow(a, n) == IF n = 0 THEN <<1, 1>> ELSE FMul(a, FPow(a, n - 1))
FI(n) == <<n, 1>>
FLe(a, b) == FSub(b, a)[1] >= 0
\* what the driver can read back
FShow(a) == IF a = <<>> \/ a[2] > 60000 \/ IAbs(a[1]) \div a[2] > 1000 THEN "?" ELSE IF a[2] = 1 THEN ToString(a[1]) ELSE ToString(a[1]) \o "/" \o ToString(a[2])
\* the splines of the driver: knots, first and last position
Sp == << <<3, FI(0), FI(2)>>, <<4, FI(0), FI(3)>>, <<6, FI(0), <<1, 2>>>>, <<5, FI(-1), FI(1)>>, <<7, <<3, 10>>, <<27, 10>>>>, <<4, <<1, 2>>, FI(2)>>, <<4, <<1, 2>>, FI(2)>> >>
\* curvatures: elimination on the tridiagonal system; e[i] = <<c, r>>: m_i = r - c m_{i+1}
RECURSIVE Elim(_, _)
Elim(y, i) == IF i = 0 THEN <<<<FI(0), FI(0)>>>>
              ELSE LET e == Elim(y, i - 1)
                       p == e[i]
                       den == FSub(FI(4), p[1])
                       rhs == FI(y[i + 2] - 2 * y[i + 1] + y[i])
                   IN Append(e, <<FInv(den), FDiv(FSub(rhs, p[2]), den)>>)
RECURSIVE Back(_, _, _)
Back(e, i, m) == IF i = 0 THEN <<FI(0)>> \o m ELSE Back(e, i - 1, <<FSub(e[i + 1][2], FMul(e[i + 1][1], m[1]))>> \o m)
Curv(y) == Back(TLCEval(Elim(y, Len(y) - 2)), Len(y) - 2, <<FI(0)>>)
Cube(u) == FSub(FPow(u, 3), u)
EvalM(k, y, m, x) ==
   LET n == Sp[k][1] h == FDiv(FSub(Sp[k][3], Sp[k][2]), FI(n - 1)) IN
   IF FLe(Sp[k][3], x) THEN FI(y[n])
   ELSE LET p == TLCEval(FDiv(FSub(x, Sp[k][2]), h)) i == p[1] \div p[2] u == FSub(p, FI(i)) w == FSub(FI(1), u) IN
        FAdd(FAdd(FMul(w, FI(y[i + 1])), FMul(u, FI(y[i + 2]))), FAdd(FMul(m[i + 1], Cube(w)), FMul(m[i + 2], Cube(u))))
Eval(k, y, x) == EvalM(k, y, TLCEval(Curv(y)), x)
\* barrier factors
RECURSIVE Fac(_)
Fac(n) == IF n = 0 THEN 1 ELSE n * Fac(n - 1)
Coef(L, k) == FDiv(FDiv(FMul(FI(Fac(2 * L - k)), FI(Fac(2 * L - 2 * k))), FMul(FI(Fac(k)), FMul(FI(Fac(L - k)), FI(Fac(L - k))))), FPow(FI(4), L - k))
RECURSIVE DSum(_, _, _)
DSum(L, z, k) == IF k > L THEN FI(0) ELSE FAdd(FMul(Coef(L, k), FPow(z, k)), DSum(L, z, k + 1))
D(L, z) == DSum(L, z, 0)
Barrier(L, z) == FDiv(FMul(FDiv(FPow(z, L), D(L, z)), D(L, FI(1))), FI(1))
Ratio(L, z, z0) == FDiv(D(L, z0), D(L, z))
QQ(s, a, b) == FDiv(FAdd(FSub(s, FMul(FI(2), FAdd(a, b))), FDiv(FMul(FSub(a, b), FSub(a, b)), s)), FI(4))
FAbs(a) == IF a = <<>> THEN <<>> ELSE <<IAbs(a[1]), a[2]>>
\* running width squared over width squared
Width2(o) == LET q == QQ(o.s, o.a, o.b) q2 == IF q # <<>> /\ q[1] < 0 THEN FI(0) ELSE q q0 == FAbs(QQ(FMul(o.m, o.m), o.a, o.b)) rr == FMul(o.r, o.r)
                 w == TLCEval(FDiv(q2, q0)) x == TLCEval(FMul(Ratio(o.L, FMul(q2, rr), FMul(q0, rr)), FMul(o.m, FPow(w, o.L)))) IN FMul(FMul(x, x), FDiv(w, o.s))
BL2(o) == LET rr == FMul(o.r, o.r) IN FDiv(Barrier(o.L, FMul(FAbs(QQ(o.s, o.a, o.b)), rr)), Barrier(o.L, FMul(FAbs(QQ(FMul(o.m, o.m), o.a, o.b)), rr)))
RECURSIVE Poly(_, _)
Poly(c, x) == IF c = <<>> THEN FI(0) ELSE FAdd(FI(c[1]), FMul(x, Poly(Tail(c), x)))
\* sums
ShowB(v) == IF v[1] # 0 THEN ToString(v[1]) \o "B" ELSE IF Len(v) = 3 /\ v[2] # 0 THEN ToString(v[2]) \o "M" ELSE ToString(v[Len(v)])
Plus(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
RECURSIVE SumUp(_)
SumUp(q) == IF q = <<>> THEN <<0, 0, 0>> ELSE Plus(Head(q), SumUp(Tail(q)))
Lanes(k) == [i \in 1..4 |-> ShowB(k[i])]
Start == [k |-> [i \in 1..4 |-> <<0, 0>>], y |-> [j \in 1..7 |-> [i \in 1..Sp[j][1] |-> 0]], p |-> [j \in 1..7 |-> [i \in 1..Sp[j][1] |-> 0]]]
Open(q) == \E i \in 1..Len(q) : q[i] = "?"
Apply(s, o) ==
   CASE o.f = "add" -> LET n == [i \in 1..4 |-> Plus(s.k[i], o.v[i])] IN [s |-> [s EXCEPT !.k = n], o |-> <<Lanes(n), Lanes(n)>>]
     [] o.f = "plus" -> LET n == [i \in 1..4 |-> Plus(s.k[i], o.v[i])] IN [s |-> [s EXCEPT !.k = n], o |-> <<Lanes(n), Lanes(n)>>]
     [] o.f = "klein" -> [s |-> s, o |-> ShowB(SumUp(o.q))]
     [] o.f = "knot" -> [s |-> [s EXCEPT !.y[o.k] = [@ EXCEPT ![o.i] = o.v]], o |-> "ok"]
     [] o.f = "prep" -> [s |-> [s EXCEPT !.p[o.k] = s.y[o.k]], o |-> "ok"]
     [] o.f = "eval" -> LET m == TLCEval(Curv(s.p[o.k])) r == TLCEval([i \in 1..Len(o.x) |-> FShow(EvalM(o.k, s.p[o.k], m, o.x[i]))]) IN [s |-> s, o |-> IF Open(r) THEN "?" ELSE <<r, r>>]
     \* two splines as real and imaginary part of one function, prepared before the call
     [] o.f = "pair" -> LET r == TLCEval([i \in 1..Len(o.x) |-> <<FShow(Eval(6, s.y[6], o.x[i])), FShow(Eval(7, s.y[7], o.x[i]))>>]) IN [s |-> s, o |-> IF \E i \in 1..Len(r) : "?" \in {r[i][1], r[i][2]} THEN "?" ELSE r]
     [] o.f = "bw" -> [s |-> s, o |-> FShow(Barrier(o.L, o.z))]
     [] o.f = "bwn" -> [s |-> s, o |-> FShow(Ratio(o.L, o.z, o.z0))]
     [] o.f = "q2" -> [s |-> s, o |-> FShow(QQ(o.s, o.a, o.b))]
     [] o.f = "bl" -> [s |-> s, o |-> FShow(BL2(o))]
     [] o.f = "width" -> [s |-> s, o |-> FShow(Width2(o))]
     [] o.f = "pol" -> [s |-> s, o |-> FShow(Poly(o.c, o.x))]
=============================================================================
