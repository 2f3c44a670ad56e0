-------------------------------- MODULE Hel --------------------------------
(* Squared amplitudes in the canonical formalism, for decays to scalars.  A   *)
(* recoupled product of rotation functions is the product of unit vectors, of *)
(* which each is the direction of a daughter in the rest frame of its mother, *)
(* carried to the frame above by the pure boost between the two rest frames.  *)
(* All masses are integers, so squares of amplitudes are rational numbers.    *)
EXTENDS AmpSets
W(a, b) == -RDot(a, b)                 \* the product of vectors at rest in a common frame
RECURSIVE GcdI(_, _, _)
GcdI(q, k, x) == IF k > 4 \/ x = 1 THEN x ELSE GcdI(q, k + 1, Gcd2(x, Abs(q[k])))
Prim(v) == LET x == GcdI(v, 1, 0) IN IF x = 0 THEN v ELSE TLCEval([i \in I4 |-> v[i] \div x])
Real(v) == TLCEval([i \in I4 |-> v[i][1]])
Dir(p, q) == Prim(Real(LL(p, RDot(p, p), q)))
\* from the rest frame of p1 to that of p
Carry(v, p1, p) == LET m1 == Mass(p1) M == Mass(p) dd == (m1 * M + RDot(p1, p)) * M x == RDot(v, p) IN Prim(TLCEval([i \in I4 |-> dd * v[i] - x * (M * p1[i] + m1 * p[i])]))
Rat(n, d) == LET x == Gcd2(Abs(n), Abs(d)) sg == IF d < 0 THEN -1 ELSE 1 IN <<(sg * n) \div x, (sg * d) \div x>>
RMul(a, b) == LET x == Rat(a[1], b[2]) y == Rat(b[1], a[2]) IN Rat(x[1] * y[1], x[2] * y[2])
\* the square of the cosine between two vectors
Cos2(a, b) == LET x == W(a, b) IN RMul(Rat(x, W(a, a)), Rat(x, W(b, b)))
Q2(t, ev) == LET a == PofT(t.d[1], ev) b == PofT(t.d[2], ev) IN TLCEval([i \in I4 |-> a[i] - b[i]])
\* a vector meson: a direction in its rest frame and the square of its length
RECURSIVE HV(_, _)
HV(t, ev) ==
  LET p == PofT(t, ev) n == Dir(p, Q2(t, ev)) IN
  IF t.v = "V_SS_P" THEN <<n, <<1, 1>>>>
  ELSE LET c == HV(t.d[1], ev) w == Carry(c[1], PofT(t.d[1], ev), p) c2 == Cos2(n, w) IN
       CASE t.v = "V_VS_S" -> <<w, RMul(c[2], <<1, 3>>)>>
         [] t.v = "V_VS_D" -> <<Prim([i \in I4 |-> 3 * W(n, w) * n[i] - W(n, n) * w[i]]), RMul(c[2], Rat(3 * c2[1] + c2[2], 6 * c2[2]))>>
         [] t.v = "V_VS_P" -> <<Prim(Real(Eps3(RVec(p), RVec(n), RVec(w)))), RMul(c[2], Rat(c2[2] - c2[1], -2 * c2[2]))>>
SqS(t, ev) ==
  LET p == PofT(t, ev) n == Dir(p, Q2(t, ev)) IN
  IF t.v = "S_VS_P" THEN LET c == HV(t.d[1], ev) w == Carry(c[1], PofT(t.d[1], ev), p) IN RMul(c[2], Cos2(w, n))
  ELSE IF t.v = "S_TS_D" THEN LET p1 == PofT(t.d[1], ev) w == Carry(Dir(p1, Q2(t.d[1], ev)), p1, p) c2 == Cos2(w, n) x == Rat(3 * c2[1] - c2[2], 2 * c2[2]) IN RMul(x, x)
  ELSE LET a == HV(t.d[1], ev) b == HV(t.d[2], ev) u == Carry(a[1], PofT(t.d[1], ev), p) w == Carry(b[1], PofT(t.d[2], ev), p) r == RMul(a[2], b[2]) IN
       CASE t.v = "S_VV_S" -> RMul(RMul(r, <<1, 3>>), Cos2(u, w))
         [] t.v = "S_VV_P" -> LET x == Eps4(RVec(p), RVec(n), RVec(u), RVec(w))[1] \div Mass(p) IN RMul(RMul(RMul(r, <<-1, 2>>), Rat(x, W(n, n))), RMul(Rat(x, W(u, u)), Rat(1, W(w, w))))
         \* helicity couplings given by the user: both longitudinal, or the even combination of the transverse ones
         [] t.v = "S_VV_00" -> RMul(r, RMul(Cos2(u, n), Cos2(w, n)))
         [] t.v = "S_VV_par" -> LET x == Rat(W(u, n) * W(w, n) - W(u, w) * W(n, n), W(n, n)) IN RMul(RMul(r, RMul(x, Rat(1, W(u, u)))), RMul(x, Rat(1, W(w, w))))
         [] t.v = "S_VV_D" -> LET x == Rat(3 * W(u, n) * W(w, n) - W(u, w) * W(n, n), W(n, n)) IN RMul(RMul(RMul(r, <<1, 6>>), RMul(x, Rat(1, W(u, u)))), RMul(x, Rat(1, W(w, w))))
\* the head is a vector at rest: the component of spin m along z, squared: ((x -+ i y)/sqrt(2))^2 or z^2
SqV(t, ev, m) == LET c == HV(t, ev) v == c[1] n == W(v, v)
                     z == IF m = 0 THEN <<v[3] * v[3], 0>> ELSE <<v[1] * v[1] - v[2] * v[2], -2 * m * v[1] * v[2]>>
                     d == IF m = 0 THEN n ELSE 2 * n
                     re == RMul(c[2], Rat(z[1], d)) im == RMul(c[2], Rat(z[2], d))
                 IN <<re, im>>
Square(t, ev, m) == LET q == IF Kind(t.n) = "S" THEN <<SqS(t, ev), <<0, 1>>>> ELSE SqV(t, ev, m)
                        x == Gcd2(q[1][2], q[2][2]) dd == (q[1][2] \div x) * q[2][2]
                    IN <<q[1][1] * (dd \div q[1][2]), q[2][1] * (dd \div q[2][2]), dd>>
\* every step has an integer mass and moves or is the head; daughters differ in direction
RECURSIVE HGood1(_, _)
HGood1(t, ev) == IsLeaf(t) \/ (LET p == PofT(t, ev) IN IsMass(p) /\ p[4] > 0 /\ Dir(p, Q2(t, ev)) # <<0, 0, 0, 0>> /\ \A k \in DOMAIN t.d : HGood1(t.d[k], ev))
HGood(t, ev) == HGood1(t, ev) /\ LET p == PofT(t, ev) IN p[1] = 0 /\ p[2] = 0 /\ p[3] = 0
\* summed over the polarisations of a baryon at rest and of the proton: the cosine is that of the decay angle of the resonance
Angle2(t, ev) == LET p == PofT(t, ev) IN Cos2(Dir(p, Q2(t, ev)), Dir(p, <<0, 0, 0, 1>>))
SumW(x, ev) == LET r == CHOOSE k \in {1, 2} : ~IsLeaf(x.t.d[k]) c2 == Angle2(x.t.d[r], ev) v == x.t.v IN
  CASE v = "f_fS" -> <<1, 2>>
    [] v = "f_rS" -> Rat(c2[2] + 3 * c2[1], 8 * c2[2])
    [] v = "f_Vf_1" -> <<1, 3>>
    \* a resonance and a photon or a vector: Vg, VV with the orbital momentum
    [] v = "Vg_S" -> Rat(c2[2] - c2[1], 3 * c2[2]) [] v = "Vg_P" -> Rat(c2[2] - c2[1], 2 * c2[2]) [] v = "Vg_D" -> Rat(c2[2] - c2[1], 6 * c2[2])
    [] v = "VV_S" -> <<1, 3>> [] v = "VV_P" -> Rat(c2[2] - c2[1], 2 * c2[2]) [] v = "VV_D" -> Rat(c2[2] + 3 * c2[1], 6 * c2[2])
    [] v = "f_Vf_3" -> Rat(c2[2] + 3 * c2[1], 6 * c2[2])
\* ---- the decays
Ru(a, b) == [Rho(a, b) EXCEPT !.ls = "VU"]
Phi(a, b) == Step2("phi(1020)0", "VU", 1, "V_SS_P", L_("K+", a), L_("K-", b))
Ku(a, b) == [Kst(a, b) EXCEPT !.ls = "VU"]
RuT == "rho(770)0[VU]{pi+,pi-}"
PhiT == "phi(1020)0[VU]{K+,K-}"
KuT == "K*(892)bar0[VU]{K-,pi+}"
K1u(x, a, b, c) == Step2("K(1)(1270)bar-", "VU", x[2], "V_VS_" \o x[3], Ku(a, b), L_("pi-", c))
K1T(x) == "K(1)(1270)bar-[VU" \o x[1] \o "]{" \o KuT \o ",pi-}"
SD == {<<"", 0, "S">>, <<";D", 2, "D">>}
HelDecays ==
  { Dk("D0[VU]{" \o RuT \o ",pi0}", P3, Step2("D0", "VU", 1, "S_VS_P", Ru(1, 2), L_("pi0", 3)), S0, Plain),
    Dk("D0[VU]{f(2)(1270)0[VU]{pi+,pi-},pi0}", P3, Step2("D0", "VU", 2, "S_TS_D", [F2(1, 2) EXCEPT !.ls = "VU"], L_("pi0", 3)), S0, Plain),
    Dk("J/psi0[VU]{K+,K-}", <<"K+", "K-">>, Step2("J/psi0", "VU", 1, "V_SS_P", L_("K+", 1), L_("K-", 2)), {-1, 0, 1}, Plain),
    Dk("J/psi0[VU]{" \o RuT \o ",pi0}", P3, Step2("J/psi0", "VU", 1, "V_VS_P", Ru(1, 2), L_("pi0", 3)), {-1, 0, 1}, Plain) }
  \cup {Dk("D0[VU" \o x[1] \o "]{" \o PhiT \o "," \o RuT \o "}", <<"K+", "K-", "pi+", "pi-">>, Step2("D0", "VU", x[2], "S_VV_" \o x[3], Phi(1, 2), Ru(3, 4)), S0, Plain) : x \in {<<"", 0, "S">>, <<";P", 1, "P">>, <<";D", 2, "D">>}}
  \cup {Dk("D0[VU]{" \o K1T(x) \o ",K+}", <<"K-", "pi+", "pi-", "K+">>, Step2("D0", "VU", 1, "S_VS_P", K1u(x, 1, 2, 3), L_("K+", 4)), S0, Plain) : x \in SD}
  \cup {Dk(K1T(x), <<"K-", "pi+", "pi-">>, K1u(x, 1, 2, 3), {-1, 0, 1}, Plain) : x \in SD}
  \cup {Dk("D0[VU;helAmp=" \o x \o "]{" \o PhiT \o "," \o RuT \o "}", <<"K+", "K-", "pi+", "pi-">>, Step2("D0", "VU", 0, "S_VV_" \o x, Phi(1, 2), Ru(3, 4)), S0, Plain) : x \in {"00", "par"}}
Bd(n, v, a, b) == Step2(n, "VU", 0, v, a, b)
SumDecays ==
  { Dk("Lambda(c)+[VU]{Lambda(1520)0[VU]{p+,K-},pi+}", <<"p+", "K-", "pi+">>, Bd("Lambda(c)+", "f_rS", Bd("Lambda(1520)0", "", L_("p+", 1), L_("K-", 2)), L_("pi+", 3)), {-1, 1}, Plain),
    Dk("Lambda(c)+[VU;D]{Lambda(1520)0[VU]{p+,K-},pi+}", <<"p+", "K-", "pi+">>, Bd("Lambda(c)+", "f_rS", Bd("Lambda(1520)0", "", L_("p+", 1), L_("K-", 2)), L_("pi+", 3)), {-1, 1}, Plain),
    Dk("Lambda(c)+[VU]{Lambda(1405)0[VU]{p+,K-},pi+}", <<"p+", "K-", "pi+">>, Bd("Lambda(c)+", "f_fS", Bd("Lambda(1405)0", "", L_("p+", 1), L_("K-", 2)), L_("pi+", 3)), {-1, 1}, Plain),
    Dk("Lambda(c)+[VU;P]{Lambda(1405)0[VU]{p+,K-},pi+}", <<"p+", "K-", "pi+">>, Bd("Lambda(c)+", "f_fS", Bd("Lambda(1405)0", "", L_("p+", 1), L_("K-", 2)), L_("pi+", 3)), {-1, 1}, Plain),
    Dk("Lambda(c)+[VU]{" \o KuT \o ",p+}", <<"p+", "K-", "pi+">>, Bd("Lambda(c)+", "f_Vf_1", Bd("K*(892)bar0", "", L_("K-", 2), L_("pi+", 3)), L_("p+", 1)), {-1, 1}, Plain) }
  \cup {Dk("Lambda(c)+[VU;" \o x \o "]{" \o KuT \o ",p+}", <<"p+", "K-", "pi+">>, Bd("Lambda(c)+", "f_Vf_3", Bd("K*(892)bar0", "", L_("K-", 2), L_("pi+", 3)), L_("p+", 1)), {-1, 1}, Plain) : x \in {"P3", "D3"}}
  \cup UNION {{Dk("D0[VU" \o x[1] \o "]{" \o RuT \o "," \o y[1] \o "}", <<"pi+", "pi-", y[1]>>, Bd("D0", y[2] \o x[2], Bd("rho(770)0", "", L_("pi+", 1), L_("pi-", 2)), L_(y[1], 3)), {0}, Plain) : x \in {<<"", "S">>, <<";P", "P">>, <<";D", "D">>}} : y \in {<<"gamma0", "Vg_">>, <<"phi(1020)0", "VV_">>}}
=============================================================================
