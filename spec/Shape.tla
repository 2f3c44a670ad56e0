------------------------------- MODULE Shape -------------------------------
(* Line shapes: the amplitude of a resonance as a function of the invariant   *)
(* mass squared s of its decay products and of theirs (s1, s2), of orbital    *)
(* angular momentum and of parameters.  Values are not rational, so the       *)
(* specification gives each of them as a term; the conformance driver         *)
(* evaluates the term and compares the compiled line shape with it.           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
F(n, d) == <<"q", n, d>>
C(n) == F(n, 1)
S == <<"s">>
S1 == <<"s1">>
S2 == <<"s2">>
I == <<"i">>
Pi == <<"pi">>
Ad(a, b) == <<"+", a, b>>
Su(a, b) == <<"-", a, b>>
Mu(a, b) == <<"*", a, b>>
Di(a, b) == <<"/", a, b>>
Root(x) == <<"sqrt", x>>      \* i times a positive number for a negative x
Abs(x) == <<"abs", x>>
Pos(x) == <<"pos", x>>        \* zero for a negative x
Ln(x) == <<"log", x>>
Ex(x) == <<"exp", x>>
Co(x) == <<"cos", x>>
Si(x) == <<"sin", x>>
If(c, a, b) == <<"if", c, a, b>> \* c > 0
Prop(p, x) == <<"prop", p, x>>
Par(name) == <<"par", name>>
RECURSIVE Pw(_, _)
Pw(x, n) == IF n = 0 THEN C(1) ELSE IF n = 1 THEN x ELSE Mu(x, Pw(x, n - 1))
RECURSIVE Poly(_, _)
Poly(x, c) == IF Len(c) = 1 THEN c[1] ELSE Ad(c[1], Mu(x, Poly(x, Tail(c))))
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN C(0) ELSE IF Len(q) = 1 THEN q[1] ELSE Ad(q[1], Total(Tail(q)))
\* ---- two-body kinematics, barriers, widths
Q2(s, a, b) == Di(Ad(Su(s, Mu(C(2), Ad(a, b))), Di(Pw(Su(a, b), 2), s)), C(4))
\* squared magnitude of the spherical Hankel polynomial of order L
Hankel(z, L) == CASE L = 0 -> C(1) [] L = 1 -> Ad(C(1), z) [] L = 2 -> Poly(z, <<C(9), C(3), C(1)>>)
                  [] L = 3 -> Poly(z, <<C(225), C(45), C(6), C(1)>>) [] L = 4 -> Poly(z, <<C(11025), C(1575), C(135), C(10), C(1)>>)
Between(z, z0, L) == Di(Hankel(z0, L), Hankel(z, L))
Barrier(z, L) == Di(Mu(Hankel(C(1), L), Pw(z, L)), Hankel(z, L))
KFactor(m, g) == LET h == Mu(m, Root(Ad(Mu(m, m), Mu(g, g)))) IN Root(Di(Mu(Di(Mu(C(2), Root(C(2))), Pi), Mu(m, Mu(g, h))), Root(Ad(Mu(m, m), h))))
Width(s, m, g, r, L) == LET q == Pos(Q2(s, S1, S2)) q0 == Abs(Q2(Mu(m, m), S1, S2)) x == Di(q, q0) rr == Mu(r, r)
                        IN Mu(g, Mu(Between(Mu(q, rr), Mu(q0, rr), L), Mu(Di(m, Root(s)), Mu(Root(x), Pw(x, L)))))
Resonance(m2, m, w, s) == Su(Su(m2, s), Mu(I, Mu(m, w)))
\* ---- parameters of a particle: name, default, two values
PMass(p) == <<p \o "_mass", Prop(p, "mass"), <<7, 5>>, <<11, 10>>>>
PWidth(p) == <<p \o "_width", Prop(p, "width"), <<1, 5>>, <<3, 8>>>>
PRad(p) == <<p \o "_radius", Prop(p, "radius"), <<3, 2>>, <<2, 1>>>>
M(p) == Par(p \o "_mass")
G(p) == Par(p \o "_width")
R(p) == Par(p \o "_radius")
MM(p) == Mu(M(p), M(p))
None == <<"none">>
\* ---- the shapes.  [kind, name, p, L, opts, pars, pts, t]; the kind "event" gives p as a
\* decay whose final state has the momenta of a point, "phsp" a phase space, of which only
\* the real part is determined by a formula
Shp(n, p, L, pars, pts, t) == [kind |-> "shape", name |-> n, p |-> p, L |-> L, opts |-> <<>>, pars |-> pars, pts |-> pts, t |-> t]
With(x, o) == [x EXCEPT !.opts = o]
ZZ(p) == Mu(Abs(Q2(S, S1, S2)), Mu(R(p), R(p)))
Z(p) == Mu(Q2(S, S1, S2), Mu(R(p), R(p)))
Z0(p) == Mu(Abs(Q2(MM(p), S1, S2)), Mu(R(p), R(p)))
BWigner(p, L, mod) == LET d == Resonance(MM(p), M(p), Width(S, M(p), G(p), R(p), L), S) k == KFactor(M(p), G(p))
   ff == CASE mod = "" -> Root(Between(ZZ(p), C(0), L)) [] mod = ".BL" -> Root(Barrier(ZZ(p), L)) [] mod = ".BELLE2018" -> Root(Between(ZZ(p), Z0(p), L)) [] mod = ".NFF" -> C(1)
   IN Shp("BW" \o mod, p, L, <<PMass(p), PWidth(p), PRad(p)>>, "all", IF mod = ".BELLE2018" THEN Di(ff, d) ELSE Di(Mu(k, ff), d))
Fixed(p) == Shp("SBW", p, 0, <<PMass(p), PWidth(p)>>, "all", Di(KFactor(M(p), G(p)), Resonance(MM(p), M(p), G(p), S)))
NonRel(p) == Shp("NonRelBW", p, 0, <<PMass(p), PWidth(p)>>, "all", Di(Root(Di(G(p), Mu(C(2), Pi))), Su(Su(Root(S), M(p)), Mu(I, Di(G(p), C(2))))))
FormF(p, L, mod) == LET n == CASE mod = ".L0" -> 0 [] mod = ".L1" -> 1 [] mod = ".L2" -> 2 [] mod = ".L3" -> 3 [] OTHER -> L
   IN Shp("FormFactor" \o mod, p, L, <<PMass(p), PRad(p)>>, "above",
        CASE mod = ".BL" -> Root(Barrier(Z(p), n)) [] mod = ".NFF" -> C(1) [] mod = ".BELLE2018" -> Root(Between(Z(p), Mu(Q2(MM(p), S1, S2), Mu(R(p), R(p))), n)) [] OTHER -> Root(Between(Z(p), C(0), n)))
ExpF(p) == Shp("ExpFF", p, 1, <<PRad(p)>>, "all", Ex(Di(Su(C(0), Z(p)), C(2))))
Flat(p) == Shp("None", p, 1, <<>>, "all", C(1))
Photon(p) == Shp("Photon", p, 1, <<PMass(p)>>, "all", Di(C(1), Su(S, MM(p))))
Gauss == Shp("Gaussian.gs", "eta0", 0, <<<<"gs_mean", None, <<1, 1>>, <<6, 5>>>>, <<"gs_sigma", None, <<1, 2>>, <<4, 5>>>>>>, "all",
             Ex(Di(Su(C(0), Pw(Su(S, Par("gs_mean")), 2)), Mu(C(2), Pw(Par("gs_sigma"), 2)))))
Polyn(n) == LET nm(k) == "pl_c" \o ToString(k) IN With(Shp("Poly.pl", "eta0", 0, [k \in 1..n + 1 |-> <<nm(k - 1), None, <<k, 3>>, <<2 - k, 2>>>>], "all", Poly(S, [k \in 1..n + 1 |-> Par(nm(k - 1))])), <<"pl::Degree " \o ToString(n)>>)
\* Gounaris and Sakurai: the mass runs, and is the parameter at the pole
GSak(p, L, mod, rad, bl) == LET mp == Prop("pi+", "mass") k2(s) == Su(s, Mu(C(4), Mu(mp, mp))) k(s) == Root(Pos(k2(s)))
     lg(s) == Ln(Di(Ad(Root(s), k(s)), Mu(C(2), mp))) s0 == MM(p)
     t1 == Di(Mu(C(2), Mu(s0, Mu(k2(S), Mu(k(S), lg(S))))), Mu(Root(S), Pw(k(s0), 3)))
     t2 == Di(Mu(lg(s0), Ad(Mu(k2(S), Su(S, Mu(C(3), s0))), Mu(S, Su(s0, S)))), Mu(M(p), k2(s0)))
     t3 == Di(Su(s0, S), k(s0))
     run == Ad(s0, Mu(Di(G(p), Pi), Ad(t1, Ad(t2, t3))))
     ff == IF bl THEN Root(Barrier(ZZ(p), L)) ELSE Root(Between(ZZ(p), C(0), L))
   IN Shp("GounarisSakurai" \o mod, p, L, <<PMass(p), PWidth(p), PRad(p)>>, "above", Di(Mu(KFactor(M(p), G(p)), ff), Resonance(run, M(p), Width(S, M(p), G(p), IF rad THEN R(p) ELSE C(0), L), S)))
\* S wave with a resonant and an effective-range part
Lass(p, mod) == LET a == Par("LASS::a") r == Par("LASS::r") q2 == Q2(S, S1, S2) q == Root(Pos(q2)) q0 == Root(Q2(MM(p), S1, S2)) rho0 == Di(q0, M(p))
     w == Di(Mu(G(p), Di(q, Root(S))), rho0) base == Ad(C(2), Mu(a, Mu(r, q2))) im == Mu(I, Mu(C(2), Mu(a, q)))
     bw == Di(Mu(M(p), G(p)), Mu(rho0, Resonance(MM(p), M(p), w, S)))
     res == Mu(Di(Ad(base, im), Su(base, im)), bw) nr == Di(Mu(C(2), Mu(a, Root(S))), Su(base, im))
   IN Shp("LASS" \o mod, p, 0, <<PMass(p), PWidth(p), <<"LASS::a", F(207, 100), <<3, 2>>, <<5, 2>>>>, <<"LASS::r", F(332, 100), <<4, 1>>, <<2, 1>>>>>>, "above", CASE mod = ".BW" -> res [] mod = ".NR" -> nr [] OTHER -> Ad(nr, res))
Glass(p) == LET x(n) == Par(p \o "::GLASS::" \o n) q2 == Q2(S, S1, S2) q == Root(Pos(q2)) q0 == Root(Q2(MM(p), S1, S2))
     w == Mu(G(p), Mu(Di(M(p), Root(S)), Di(q, q0))) rbw == Di(Mu(MM(p), G(p)), Mu(q0, Resonance(MM(p), M(p), w, S)))
     c == Ad(C(1), Di(Mu(x("r"), Mu(x("a"), q2)), C(2))) d == Mu(x("a"), q)
     res == Mu(x("R"), Mu(Ex(Mu(I, Ad(x("phiR"), Mu(C(2), x("phiF"))))), Mu(rbw, Ad(c, Mu(I, d)))))
     nr == Mu(x("F"), Mu(Ex(Mu(I, x("phiF"))), Mu(Ad(Mu(d, Co(x("phiF"))), Mu(c, Si(x("phiF")))), Di(Root(S), q))))
     pr(n, d0, v, u) == <<p \o "::GLASS::" \o n, d0, v, u>>
   IN Shp("GLASS", p, 0, <<PMass(p), PWidth(p), pr("a", F(207, 100), <<3, 2>>, <<5, 2>>), pr("r", F(332, 100), <<4, 1>>, <<2, 1>>), pr("phiR", C(0), <<1, 2>>, <<-3, 4>>), pr("phiF", C(0), <<1, 3>>, <<5, 4>>), pr("R", C(1), <<2, 1>>, <<1, 2>>), pr("F", C(1), <<3, 2>>, <<2, 5>>)>>, "above", Di(Ad(nr, res), Su(c, Mu(I, d))))
\* coupled channels near threshold
Speed(m) == Root(Su(C(1), Di(Mu(C(4), Mu(m, m)), S)))
Cut(m) == Root(Pos(Su(C(1), Di(Mu(C(4), Mu(m, m)), S))))
FlatteF(mod) == LET p == "f(0)(980)0" pi(k) == Prop(k, "mass") third == F(1, 3)
     pipi == Ad(Mu(third, Speed(pi("pi0"))), Mu(F(2, 3), Speed(pi("pi+"))))
     kk == IF mod = ".CutKK" THEN Mu(F(1, 2), Ad(Cut(pi("K0")), Cut(pi("K+")))) ELSE Mu(F(1, 2), Ad(Speed(pi("K0")), Speed(pi("K+"))))
     w == Mu(Par("Flatte::gPi"), Ad(pipi, Mu(Par("Flatte::gK_by_gPi"), kk)))
   IN Shp("Flatte" \o mod, p, 0, <<PMass(p), <<"Flatte::gPi", F(165, 1000), <<1, 4>>, <<1, 8>>>>, <<"Flatte::gK_by_gPi", F(421, 100), <<3, 1>>, <<9, 2>>>>>>, "all", Di(C(1), Resonance(MM(p), M(p), w, S)))
FlatteA == LET p == "a(0)(980)0" a == Prop("pi+", "mass") b == Prop("eta0", "mass")
     pe == Root(Mu(Su(C(1), Di(Pw(Su(a, b), 2), S)), Su(C(1), Di(Pw(Ad(a, b), 2), S))))
     w == Mu(Par("Flatte::g2pieta"), Ad(pe, Mu(Par("Flatte::g2KK_by_g2pieta"), Speed(Prop("K+", "mass")))))
   IN Shp("Flatte", p, 0, <<PMass(p), <<"Flatte::g2pieta", F(175, 1000), <<1, 4>>, <<1, 8>>>>, <<"Flatte::g2KK_by_g2pieta", F(120, 100), <<3, 2>>, <<1, 1>>>>>>, "above", Di(C(1), Resonance(MM(p), M(p), w, S)))
Chan(ds, g) == ds \o " " \o g
\* two-body phase space of a channel with orbital angular momentum L and its barrier
Phsp(s, a, b, r, L) == LET x == Mu(a, a) y == Mu(b, b) IN Mu(Di(Mu(C(2), Root(Di(Q2(s, x, y), s))), Mu(C(16), Pi)), Barrier(Mu(Pos(Q2(s, x, y)), Mu(r, r)), L))
Bare(s, a, b) == Mu(C(2), Root(Di(Q2(s, Mu(a, a), Mu(b, b)), s)))
Coupled(p, L, mod, as) == LET ma(k) == Prop(k, "mass") ch == IF as THEN "[phsp=arXiv.0707.3596]" ELSE ""
     one(s) == IF as THEN Bare(s, ma("pi+"), ma("pi-")) ELSE Phsp(s, ma("pi+"), ma("pi-"), R(p), L)
     two(s) == IF as THEN Bare(s, ma("K+"), ma("K-")) ELSE Phsp(s, ma("K+"), ma("K-"), R(p), L)
     sum(s) == Ad(Mu(Par("cc::g1"), one(s)), Mu(Par("cc::g2"), two(s)))
     w == IF mod = ".norm" THEN Di(Mu(G(p), sum(S)), sum(MM(p))) ELSE sum(S)
     ff == IF mod = ".BL" THEN Root(Barrier(ZZ(p), L)) ELSE Root(Between(ZZ(p), C(0), L))
   IN With(Shp("CoupledChannel" \o mod, p, L, <<PMass(p), PWidth(p), PRad(p), <<"cc::g1", None, <<7, 2>>, <<9, 1>>>>, <<"cc::g2", None, <<4, 1>>, <<1, 2>>>>>>, IF L = 0 THEN "all" ELSE "above", Di(Mu(KFactor(M(p), G(p)), ff), Resonance(MM(p), M(p), w, S))),
           <<p \o "_channels " \o p \o ch \o "{pi+,pi-} cc::g1 " \o p \o ch \o "{K+,K-} cc::g2">>)
\* I = 2 scattering
IsoT == LET q == Root(Su(Di(S, C(4)), Pw(F(13957, 100000), 2))) ph == Di(Mu(Mu(C(-2), Mu(Par("Isotensor::a"), Di(Pi, C(180)))), q), Poly(S, <<C(1), Par("Isotensor::b"), Par("Isotensor::c"), Par("Isotensor::d")>>))
   IN Shp("Isotensor", "f(0)(980)0", 0, <<<<"Isotensor::a", F(5521, 100), <<50, 1>>, <<60, 1>>>>, <<"Isotensor::b", F(853, 1000), <<1, 1>>, <<1, 2>>>>, <<"Isotensor::c", F(-959, 1000), <<-1, 4>>, <<1, 4>>>>, <<"Isotensor::d", F(314, 1000), <<1, 3>>, <<1, 5>>>>>>, "above", Di(Su(Ex(Mu(I, ph)), C(1)), Mu(C(2), I)))
\* ---- K matrices: entry (i, j) of (1 - i K rho)^-1 is El(Propagator, i, j)
Prp(K, rho) == LET n == Len(rho) IN <<"inv", [i \in 1..n |-> [j \in 1..n |-> Su(C(IF i = j THEN 1 ELSE 0), Mu(I, Mu(K[i][j], rho[j])))]]>>
El(m, i, j) == <<"el", m, i, j>>
Thr(s, a, b) == Root(Su(C(1), Di(Pw(Ad(a, b), 2), s)))
Thr2(a, b) == Root(Mu(Su(C(1), Di(Pw(Ad(a, b), 2), S)), Su(C(1), Di(Pw(Su(a, b), 2), S))))
Dec(n) == F(n, 100000)
\* two channels K pi and K eta(') with one or two poles, polynomial background and an Adler zero
TwoChannel(name, p, mod, z12, z32, rho, poles, X, c11, c12, c22, c32) ==
  LET pl(i, j) == Total([k \in 1..Len(poles) |-> Di(Mu(poles[k][i + 1], poles[k][j + 1]), Su(poles[k][1], S))])
      k(i, j) == Mu(z12, Ad(pl(i, j), Poly(X, IF i = j THEN (IF i = 1 THEN c11 ELSE c22) ELSE c12)))
      K == <<<<k(1, 1), k(1, 2)>>, <<k(2, 1), k(2, 2)>>>> pr == Prp(K, rho)
      T(j) == Ad(Mu(El(pr, 1, 1), K[1][j]), Mu(El(pr, 1, 2), K[2][j]))
  IN Shp(name \o mod, p, 0, <<>>, "above", CASE mod = ".Kpi" -> T(1) [] mod = ".KEta" -> T(2) [] mod = ".I32" -> Di(C(1), Su(C(1), Mu(I, Mu(rho[1], Mu(z32, Poly(X, c32)))))))
mK == Prop("K+", "mass")
mPi == Prop("pi+", "mass")
sNorm == Ad(Mu(mK, mK), Mu(mPi, mPi))
Focus(mod) == TwoChannel("FOCUS", "K(0)*(1430)0", mod, Di(Su(S, F(23, 100)), sNorm), Di(Su(S, F(27, 100)), sNorm), <<Thr2(mK, mPi), Thr2(mK, Prop("eta'(958)0", "mass"))>>,
   <<<<Dec(179190), Dec(31072), Dec(-2323)>>>>, Su(Di(S, sNorm), C(1)), <<Dec(79299), Dec(-15099), Dec(811)>>, <<Dec(15040), F(-38266, 1000000), F(22596, 10000000)>>, <<Dec(17054), Dec(-2190), F(85655, 100000000)>>, <<Dec(-22147), F(26637, 1000000), F(-92057, 100000000)>>)
Palano(mod) == TwoChannel("PALANO", "K(0)*(1430)0", mod, Su(Di(S, sNorm), Dec(87753)), Su(Di(S, sNorm), Dec(102090)), <<Thr(S, mK, mPi), Thr(S, mK, Prop("eta0", "mass"))>>,
   <<<<Dec(179910), Dec(31390), Dec(-775)>>, <<Dec(836270), Dec(118040), Dec(-22335)>>>>, Di(Su(Su(Mu(C(2), S), F(5832, 1000)), F(360, 1000)), Su(F(5832, 1000), F(360, 1000))),
   <<Dec(-15530), Dec(9090), Dec(86180), Dec(6290)>>, <<Dec(7380), Dec(38660), Dec(121950), Dec(83900)>>, <<Dec(-360), Dec(25900), Dec(169500), Dec(223000)>>, <<Dec(-4046), Dec(8143), Dec(-8849)>>)
\* poles and widths given by the user
Simple(p, k) == LET ch == <<<<"pi+", "pi-">>, <<"K+", "K0">>>> ms(c, w) == Prop(ch[c][w], "mass")
     nm(x) == "kMatrix::pole::" \o ToString(x) mass(x) == Par(nm(x) \o "::mass") rho(c, s) == Thr(s, ms(c, 1), ms(c, 2))
     g(x, c) == Root(Di(Mu(mass(x), Par(nm(x) \o "::width::" \o ToString(c - 1))), rho(c, Mu(mass(x), mass(x)))))
     den(x) == Su(Mu(mass(x), mass(x)), S)
     K == [i \in 1..2 |-> [j \in 1..2 |-> Ad(Di(Mu(g(1, i), g(1, j)), den(1)), Di(Mu(g(2, i), g(2, j)), den(2)))]]
     pr == Prp(K, <<rho(1, S), rho(2, S)>>)
   IN With(Shp("kMatrixSimple." \o ToString(k), p, 0, <<<<"kMatrix::pole::1::mass", None, <<6, 5>>, <<13, 10>>>>, <<"kMatrix::pole::1::width::0", None, <<1, 5>>, <<1, 10>>>>, <<"kMatrix::pole::1::width::1", None, <<1, 4>>, <<1, 20>>>>,
             <<"kMatrix::pole::2::mass", None, <<8, 5>>, <<2, 1>>>>, <<"kMatrix::pole::2::width::0", None, <<1, 8>>, <<2, 5>>>>, <<"kMatrix::pole::2::width::1", None, <<3, 10>>, <<1, 3>>>>>>, "above",
             Di(Ad(Mu(El(pr, 1, 1), g(k + 1, 1)), Mu(El(pr, 1, 2), g(k + 1, 2))), den(k + 1))), <<"kMatrix::nPoles 2", "kMatrix::nChannels 2", "kMatrix::Channel::1 pi+ pi-", "kMatrix::Channel::2 K+ K0">>)
\* five channels, five poles, slowly varying part in the first row and column, Adler zero
Five == <<"pipi", "KK", "4pi", "EtaEta", "EtapEta">>
KM(p, mod) ==
  LET mp == Dec(13957) mk == F(493677, 1000000) me == F(547862, 1000000) mx == F(967780, 1000000)
      ps(k) == "IS_p" \o ToString(k) \o "_" pm(k) == Par(ps(k) \o "mass") s(k) == Ad(Mu(pm(k), pm(k)), Mu(I, F(1, 1000000))) g(k, i) == Par(ps(k) \o Five[i])
      fs(i) == Par("f_scatt" \o ToString(i - 1)) bg(i) == Di(Mu(fs(i), Su(C(1), Par("s0_scatt"))), Su(S, Par("s0_scatt")))
      ad == Di(Mu(Su(C(1), Par("sA0")), Su(S, Di(Mu(Par("sA"), Mu(mp, mp)), C(2)))), Su(S, Par("sA0")))
      k0(i, j) == Ad(Total([k \in 1..5 |-> Di(Mu(g(k, i), g(k, j)), Su(s(k), S))]), IF i = 1 THEN bg(j) ELSE IF j = 1 THEN bg(i) ELSE C(0))
      K == [i \in 1..5 |-> [j \in 1..5 |-> Mu(ad, k0(i, j))]]
      four == If(Su(S, C(1)), Thr(S, Mu(C(2), mp), Mu(C(2), mp)), Poly(S, <<Dec(51), Dec(-1933), Dec(13851), Dec(-20840), Dec(-29744), Dec(13655), Dec(107885)>>))
      rho == <<Thr(S, mp, mp), Thr(S, mk, mk), four, Thr(S, me, me), Thr(S, me, mx)>>
      pr == Prp(K, rho) prod == Di(Su(C(1), Par(p \o "_s0_prod")), Su(S, Par(p \o "_s0_prod")))
      pars == [k \in 1..5 |-> <<ps(k) \o "mass", None, <<6 + 2 * k, 10>>, <<5 + 3 * k, 11>>>>] \o [k \in 1..25 |-> <<ps(((k - 1) \div 5) + 1) \o Five[((k - 1) % 5) + 1], None, <<((k * 7) % 11) - 5, 10>>, <<((k * 5) % 13) - 6, 9>>>>]
              \o [k \in 1..5 |-> <<"f_scatt" \o ToString(k - 1), None, <<3 - k, 8>>, <<k, 7>>>>] \o <<<<"sA0", F(-15, 100), <<-1, 5>>, <<-1, 10>>>>, <<"sA", C(1), <<1, 1>>, <<3, 2>>>>, <<"s0_scatt", F(-392637, 100000), <<-3, 1>>, <<-5, 1>>>>, <<p \o "_s0_prod", F(-7, 100), <<-1, 8>>, <<-2, 1>>>>>>
  IN Shp("kMatrix." \o mod[1], p, 0, pars, "above",
       CASE mod[2] = "scatt" -> Total([x \in 1..5 |-> Mu(K[x][mod[3]], El(pr, mod[4], x))])
         [] mod[2] = "pole" -> Di(Total([x \in 1..5 |-> Mu(El(pr, mod[4], x), g(mod[3], x))]), Su(s(mod[3]), S))
         [] mod[2] = "prod" -> Mu(El(pr, mod[4], mod[3]), prod))
\* ---- shapes given by splines, at the knots 1, 2, 3, 4 of five
Knots(p, a, v) == [k \in 1..5 |-> <<p \o "::Spline::" \o a \o "::" \o ToString(k - 1), None, <<((k * v) % 7) + 1, 4>>, <<((k * (v + 2)) % 5) + 2, 3>>>>]
AtKnot(p, a) == <<"knot", [k \in 1..5 |-> Par(p \o "::Spline::" \o a \o "::" \o ToString(k - 1))]>>
Spl(x, p) == With(x, <<p \o "::Spline::N 5", p \o "::Spline::Min 1", p \o "::Spline::Max 5">>)
Mipwa(p, mod) == Spl(Shp("MIPWA" \o mod, p, 0, Knots(p, "Re", 3) \o Knots(p, "Im", 2), "knots", LET a == AtKnot(p, "Re") b == AtKnot(p, "Im") IN IF mod = ".Polar" THEN Mu(a, Ex(Mu(I, b))) ELSE Ad(a, Mu(I, b))), p)
Inelastic(p) == Spl(Shp("InelasticSpline", p, 0, Knots(p, "Eta", 3) \o Knots(p, "Delta", 2), "knots", Di(Su(Mu(AtKnot(p, "Eta"), Ex(Mu(C(2), Mu(I, AtKnot(p, "Delta"))))), C(1)), Mu(C(2), I))), p)
FFSpline(p, L) == Spl(Shp("FormFactorSpline", p, L, Knots(p, "FF", 3) \o <<PMass(p), PWidth(p), PRad(p)>>, "knots", Di(AtKnot(p, "FF"), Resonance(MM(p), M(p), Width(S, M(p), G(p), R(p), L), S))), p)
\* a running width from a spline, normalised at the pole, which lies on the knot 2
GSplineS(p, L, mod) == LET pole(a) == Par(p \o "::Spline::" \o a \o "::1") w == Di(Mu(G(p), AtKnot(p, "Gamma")), pole("Gamma")) m2 == IF mod \in {".Dis", ".BL.Dis"} THEN Ad(MM(p), Su(AtKnot(p, "dm2"), pole("dm2"))) ELSE MM(p)
     ff == CASE mod \in {".BL", ".BL.Dis"} -> Root(Barrier(ZZ(p), L)) [] mod = ".EFF" -> Ex(Di(Su(C(0), ZZ(p)), C(2))) [] OTHER -> Root(Between(ZZ(p), C(0), L))
   IN Spl(Shp("GSpline" \o mod, p, L, Knots(p, "Gamma", 3) \o Knots(p, "dm2", 2) \o <<<<p \o "_mass", None, <<2, -2>>, <<2, -2>>>>, PWidth(p), PRad(p)>>, "knots", Di(Mu(KFactor(M(p), G(p)), ff), Resonance(m2, M(p), w, S))), p)
\* D. V. Bugg, J. Phys. G34:151, 2007
Bugg(mod) == LET x(n) == Par("Bugg::" \o n) mp == F(139570, 1000000) mk == F(493677, 1000000) me == F(547863, 1000000) m2 == Mu(x("M"), x("M"))
     sA == Mu(x("sA"), Mu(mp, mp)) rho(m) == Root(Su(C(1), Di(Mu(C(4), Mu(m, m)), S)))
     jr(s) == Root(Pos(Su(C(1), Di(Mu(C(4), Mu(mp, mp)), s))))
     j1(s) == Di(Ad(C(2), If(jr(s), Mu(jr(s), Ln(Di(Su(C(1), jr(s)), Ad(C(1), jr(s))))), C(0))), Pi)
     g1 == Mu(x("M"), Mu(Ad(x("b1"), Mu(x("b2"), S)), Ex(Di(Su(m2, S), x("A")))))
     ad == Di(Su(S, sA), Su(m2, sA)) damp(m) == Ex(Su(C(0), Mu(x("alpha"), Abs(Su(S, Mu(C(4), Mu(m, m)))))))
     two(g, m) == Mu(x(g), Mu(g1, Mu(Di(S, m2), Mu(damp(m), rho(m)))))
     four(s) == Di(C(1), Ad(C(1), Ex(Mu(x("lambda_4pi"), Su(x("s0_4pi"), s)))))
     w4 == Mu(x("M"), If(Su(S, Mu(C(16), Mu(mp, mp))), Di(Mu(x("g_4pi"), four(S)), four(m2)), C(0)))
     w == Ad(Ad(Mu(g1, Mu(ad, rho(mp))), two("g_2K", mk)), Ad(two("g_2eta", me), w4))
     bw == Di(C(1), Su(Su(Su(m2, S), Mu(Mu(g1, ad), Su(j1(S), j1(m2)))), Mu(I, w)))
     pr(n, d0, v, u) == <<"Bugg::" \o n, d0, v, u>>
   IN Shp("Bugg" \o mod, "f(0)(980)0", 0, <<pr("M", F(935, 1000), <<9, 10>>, <<1, 1>>), pr("b1", F(1302, 1000), <<6, 5>>, <<3, 2>>), pr("b2", F(340, 1000), <<1, 3>>, <<1, 2>>), pr("A", F(2426, 1000), <<5, 2>>, <<2, 1>>),
          pr("g_4pi", F(11, 1000), <<1, 50>>, <<1, 5>>), pr("g_2K", F(6, 10), <<1, 2>>, <<4, 5>>), pr("g_2eta", F(2, 10), <<1, 4>>, <<2, 5>>), pr("alpha", F(13, 10), <<3, 2>>, <<1, 1>>), pr("sA", F(41, 100), <<1, 2>>, <<2, 5>>),
          pr("s0_4pi", Di(F(7082, 1000), F(2845, 1000)), <<5, 2>>, <<3, 2>>), pr("lambda_4pi", F(2845, 1000), <<3, 1>>, <<2, 1>>)>>, "all", IF mod = ".Az" THEN Mu(bw, Mu(Su(S, sA), g1)) ELSE bw)
\* ---- shapes of a decay in an event
Dot(i, j) == <<"dot", i, j>>   \* of the momenta of the final state, numbered from zero
Inv(A) == LET a == SetToSortSeq(A, LAMBDA x, y : x < y) n == Len(a) IN Total([k \in 1..n * n |-> Dot(a[((k - 1) \div n) + 1], a[((k - 1) % n) + 1])])
Evt(n, d, opts, pars, pts, t) == [kind |-> "event", name |-> n, p |-> d, L |-> 0, opts |-> opts, pars |-> pars, pts |-> pts, t |-> t]
\* the propagator of a two-body decay takes its invariants from the event: masses of stable decay products are theirs
BWOf(d, p, L, s, s1, s2) == LET sub == BWigner(p, L, "") IN Evt("BW", d, <<>>, sub.pars, "three", <<"at", sub.t, s, s1, s2>>)
EtaD(mod) == LET ma(k) == Prop(k, "mass") T(i, k) == Su(Total(<<Dot(i, 0), Dot(i, 1), Dot(i, 2)>>), Mu(ma("eta0"), ma(k)))
     y == Su(Di(Mu(C(3), T(2, "pi0")), Ad(Ad(T(0, "pi+"), T(1, "pi-")), T(2, "pi0"))), C(1)) z == Su(C(1), Mu(F(107, 100), y))
     a == If(z, Root(z), C(1)) sb == Fixed("eta0")
   IN Evt("EtaDalitz" \o mod, "eta0{pi+,pi-,pi0}", <<>>, IF mod = "" THEN <<>> ELSE sb.pars, "three", IF mod = "" THEN a ELSE Mu(a, <<"at", sb.t, Inv({0, 1, 2}), C(0), C(0)>>))
PolyD(n) == LET nm(i, j) == "nr_" \o ToString(i) \o "_" \o ToString(j) N == (n + 1) * (n + 1) i(k) == (k - 1) \div (n + 1) j(k) == (k - 1) % (n + 1)
   IN Evt("PolyNR.nr", "D0{K-,pi+,pi0}", <<"nr::Degree " \o ToString(n)>>, [k \in 1..N |-> <<nm(i(k), j(k)), C(0), <<k, 3>>, <<3 - k, 2>>>>], "three",
          Total([k \in 1..N |-> Mu(Par(nm(i(k), j(k))), Mu(Pw(Inv({0, 1}), i(k)), Pw(Inv({0, 2}), j(k))))]))
\* poles, polynomial or pole-like background, any channels; three ways of production
GenericK(type, mod, N, nr) ==
  LET p == "f(0)(980)0" ma(k) == Prop(k, "mass") s == Inv({0, 1}) nc == 2
      rho == <<<<"at", Phsp(S, ma("pi+"), ma("pi-"), R(p), 0), s, C(0), C(0)>>, <<"at", Phsp(S, ma("K+"), ma("K-"), R(p), 0), s, C(0), C(0)>>>>
      st(k) == p \o "::pole::" \o ToString(k) pm(k) == Par(st(k) \o "::mass") g(k, c) == Par(st(k) \o "::g::" \o ToString(c)) den(k) == Su(Mu(pm(k), pm(k)), s)
      lo(i, j) == IF i < j THEN i ELSE j hi(i, j) == IF i < j THEN j ELSE i ij(i, j) == ToString(lo(i, j)) \o "::" \o ToString(hi(i, j))
      b(i, j) == LET f1 == Par(p \o "::f1::" \o ij(i, j)) IN IF nr = ij(i, j) THEN Di(Ad(f1, Mu(Par(p \o "::f2::" \o ij(i, j)), Root(s))), Su(s, Par(p \o "::s0::" \o ij(i, j)))) ELSE f1
      K == [i \in 1..2 |-> [j \in 1..2 |-> Ad(Total([k \in 1..N |-> Di(Mu(g(k, i), g(k, j)), den(k))]), b(i, j))]]
      pr == Prp(K, rho) a(c) == Par(p \o "::a::" \o ToString(c)) s0 == Par(p \o "::s0")
      P(c) == Ad(Total([k \in 1..N |-> Di(Mu(Total([q \in 1..nc |-> Mu(a(q), g(k, q))]), g(k, c)), den(k))]), Mu(Total([q \in 1..nc |-> Mu(a(q), b(c, q))]), Di(Ad(C(1), s0), Su(s, s0))))
      t == CASE type = "PVec" -> Total([c \in 1..nc |-> Mu(El(pr, 1, c), P(c))]) [] type = "QVec" -> Total([c \in 1..nc |-> Mu(K[c][1], El(pr, 1, c))])
             [] type = "ZVec" -> Di(Total([c \in 1..nc |-> Mu(El(pr, mod[3], c), g(mod[2], c))]), den(mod[2]))
      X(n, v, u) == <<p \o n, None, v, u>>
  IN Evt("GenericKmatrix" \o (IF type = "ZVec" THEN mod[1] ELSE ""), p \o (IF type = "ZVec" /\ mod[4] = "KK" THEN "{K+,K-}" ELSE "{pi+,pi-}"),
         <<p \o "::kMatrix::nPoles " \o ToString(N), p \o "::kMatrix::channels " \o p \o "{pi+,pi-} " \o p \o "{K+,K-}", p \o "::kMatrix::production_amplitude " \o type>> \o (IF nr = "" THEN <<>> ELSE <<p \o "::" \o nr \o "::nrShape pole">>),
         <<PRad(p), X("::s0", <<-3, 1>>, <<-2, 1>>), X("::a::1", <<3, 4>>, <<1, 2>>), X("::a::2", <<-1, 2>>, <<5, 4>>)>>
         \o [k \in 1..N |-> X("::pole::" \o ToString(k) \o "::mass", <<4 + 3 * k, 5>>, <<5 + 2 * k, 7>>)] \o [k \in 1..2 * N |-> X("::pole::" \o ToString((k + 1) \div 2) \o "::g::" \o ToString(2 - (k % 2)), <<2 + k, 2>>, <<7 - 2 * k, 3>>)]
         \o [k \in 1..3 |-> X("::f1::" \o (<<"1::1", "1::2", "2::2">>)[k], <<k, 2>>, <<2 - k, 3>>)] \o (IF nr = "" THEN <<>> ELSE <<X("::f2::" \o nr, <<3, 5>>, <<-2, 3>>), X("::s0::" \o nr, <<-1, 1>>, <<-5, 2>>)>>), "two", t)
\* dispersive phase space: its real part is the two-body phase space with the barrier; without barrier all of it is known
Chew(d, a, b, L) == LET ma(k) == Prop(k, "mass") x == Mu(ma(a), ma(a)) y == Mu(ma(b), ma(b)) f == "f(2)(1270)0" r == Prop(f, "radius")
   IN [kind |-> "phsp", name |-> "real", p |-> f \o "[phsp=CM]" \o d, L |-> L, opts |-> <<>>, pars |-> <<>>, pts |-> "above",
       t |-> Mu(Mu(C(2), Root(Di(Q2(S, x, y), S))), Barrier(Mu(Q2(S, x, y), Mu(r, r)), L))]
Chew0(d, a, b) == LET ma(k) == Prop(k, "mass") x == Mu(ma(a), ma(a)) y == Mu(ma(b), ma(b)) q == Root(Q2(S, x, y)) sT == Pw(Ad(ma(a), ma(b)), 2)
     arg == Di(Ad(Su(Ad(x, y), S), Mu(C(2), Mu(Root(S), q))), Mu(C(2), Mu(ma(a), ma(b))))
   IN [kind |-> "phsp", name |-> "", p |-> "f(0)(980)0[phsp=CM]" \o d, L |-> 0, opts |-> <<>>, pars |-> <<>>, pts |-> "all",
       t |-> Di(Su(Di(Mu(C(2), Mu(q, Ln(arg))), Root(S)), Mu(Su(x, y), Mu(Su(Di(C(1), S), Di(C(1), sT)), Ln(Di(ma(a), ma(b)))))), Mu(I, Mu(C(16), Mu(Pi, Pi))))]
Rho == "rho(770)0"
Kst == "K(0)*(1430)0"
Shapes == <<Fixed(Rho), NonRel(Rho), NonRel("K*(892)+"), ExpF(Rho), Flat(Rho), Photon("omega(782)0"), Gauss, Polyn(0), Polyn(3)>>
  \o [k \in 1..20 |-> LET m == <<"", ".BL", ".BELLE2018", ".NFF">> IN BWigner(IF k % 3 = 0 THEN "K*(892)bar0" ELSE Rho, (k - 1) % 5, m[((k - 1) \div 5) + 1])]
  \o [k \in 1..15 |-> LET m == <<"", ".BL", ".BELLE2018">> IN FormF(Rho, (k - 1) % 5, m[((k - 1) \div 5) + 1])] \o [k \in 1..5 |-> LET m == <<".L0", ".L1", ".L2", ".L3", ".NFF">> IN FormF(Rho, 1 + (k % 2), m[k])]
  \o <<GSak(Rho, 1, "", FALSE, FALSE), GSak(Rho, 1, ".BL", FALSE, TRUE), GSak(Rho, 1, ".IncludeRadiusInWidth", TRUE, FALSE), GSak("rho(1450)0", 1, "", FALSE, FALSE), GSak(Rho, 0, "", FALSE, FALSE)>>
  \o <<Lass(Kst, ""), Lass(Kst, ".BW"), Lass(Kst, ".NR"), Glass(Kst), FlatteF(""), FlatteF(".CutKK"), FlatteA, IsoT>>
  \o <<Coupled("f(0)(980)0", 0, "", FALSE), Coupled("f(0)(980)0", 0, ".norm", FALSE), Coupled("f(0)(980)0", 0, "", TRUE), Coupled(Rho, 1, "", FALSE), Coupled(Rho, 1, ".BL", FALSE), Coupled(Rho, 1, ".norm", FALSE)>>
  \o <<Focus(".Kpi"), Focus(".KEta"), Focus(".I32"), Palano(".Kpi"), Palano(".KEta"), Palano(".I32"), Simple("f(0)(980)0", 0), Simple("f(0)(980)0", 1)>>
  \o [k \in 1..9 |-> KM("PiPi00", (<< <<"scatt.0.0", "scatt", 1, 1>>, <<"scatt.0.1", "scatt", 1, 2>>, <<"scatt.3.2", "scatt", 4, 3>>, <<"pole.0", "pole", 1, 1>>, <<"pole.3", "pole", 4, 1>>, <<"poleKK.1", "pole", 2, 2>>, <<"prod.0", "prod", 1, 1>>, <<"prod.2", "prod", 3, 1>>, <<"prodKK.4", "prod", 5, 2>> >>)[k])]
  \o <<Mipwa(Rho, ""), Mipwa(Kst, ".Polar"), Inelastic(Kst), FFSpline(Rho, 1), GSplineS(Rho, 1, ""), GSplineS(Rho, 2, ".BL"), GSplineS(Rho, 1, ".EFF"), GSplineS(Rho, 1, ".Dis")>>
  \o <<Bugg(""), Bugg(".Az"), EtaD(""), EtaD(".SBW"), PolyD(0), PolyD(2), BWOf("rho(770)0{pi+,pi-}", Rho, 1, Inv({0, 1}), Mu(mPi, mPi), Mu(mPi, mPi)), BWOf("K(1)(1270)+{rho(770)0{pi+,pi-},K+}", "K(1)(1270)+", 0, Inv({0, 1, 2}), Inv({0, 1}), Mu(mK, mK))>>
  \o <<GenericK("PVec", <<>>, 1, ""), GenericK("PVec", <<>>, 2, "1::2"), GenericK("QVec", <<>>, 2, ""), GenericK("QVec", <<>>, 1, "1::1"), GenericK("ZVec", <<".pole.1.2", 1, 2, "pipi">>, 2, ""), GenericK("ZVec", <<".pole.2.1", 2, 1, "pipi">>, 2, "2::2"), GenericK("ZVec", <<".pole.2", 2, 2, "KK">>, 2, ""), GenericK("ZVec", <<".pole.1", 1, 1, "pipi">>, 2, "")>>
  \o <<Chew("{pi+,pi-}", "pi+", "pi-", 1), Chew("{pi+,pi-}", "pi+", "pi-", 2), Chew("{pi+,pi-}", "pi+", "pi-", 3), Chew("{pi0,eta0}", "pi0", "eta0", 2), Chew0("{pi+,pi-}", "pi+", "pi-"), Chew0("{K+,pi-}", "K+", "pi-"), Chew0("{pi0,eta0}", "pi0", "eta0")>>
\* masses squared: of the pair, and of its members
Points(kind) == CASE kind = "all" -> << <<1, 10, 2, 100, 2, 100>>, <<1, 2, 2, 100, 2, 100>>, <<9, 10, 25, 100, 2, 100>>, <<6, 5, 2, 100, 30, 100>>, <<19, 10, 2, 100, 2, 100>>, <<2, 1, 10, 100, 0, 1>>, <<1, 25, 2, 100, 2, 100>>, <<3, 10, 25, 100, 2, 100>> >>
  [] kind = "above" -> << <<1, 1, 2, 100, 2, 100>>, <<9, 10, 25, 100, 2, 100>>, <<6, 5, 2, 100, 30, 100>>, <<19, 10, 2, 100, 2, 100>>, <<2, 1, 10, 100, 0, 1>>, <<3, 1, 25, 100, 2, 100>>, <<7, 10, 2, 100, 2, 100>>, <<21, 20, 2, 100, 2, 100>> >>
  \* momenta x, y, z, E of the final state, in hundredths
  [] kind = "two" -> << <<10, 20, 30, 55, -20, 10, 5, 60>>, <<0, 0, 40, 70, 10, 0, -30, 80>>, <<25, -30, 10, 90, 5, 40, 20, 75>> >>
  [] kind = "three" -> << <<10, 20, 30, 45, -20, 10, 5, 30, 5, -15, -10, 40>>, <<0, 0, 10, 20, 10, 0, -10, 25, -5, 10, 5, 22>>, <<25, -30, 10, 60, 5, 40, 20, 75, -10, 0, 30, 50>>, <<0, 0, 5, 15, 0, 0, -5, 15, 60, 50, 40, 95>> >>
  [] kind = "knots" -> << <<1, 1, 2, 100, 2, 100>>, <<2, 1, 25, 100, 2, 100>>, <<3, 1, 2, 100, 30, 100>>, <<4, 1, 10, 100, 0, 1>> >>
=============================================================================
