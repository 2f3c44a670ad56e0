------------------------------ MODULE AmpSets ------------------------------
(* Decays: descriptor, final state in the order of the event, tree in the     *)
(* order the decay is stored in.                                              *)
EXTENDS Amp
L_(n, i) == Leaf(n, i)
Plain == [nosym |-> FALSE, inco |-> FALSE, spin0 |-> FALSE]
Rho(a, b) == Step2("rho(770)0", "VA", 1, "V_SS_P", L_("pi+", a), L_("pi-", b))
Kst(a, b) == Step2("K*(892)bar0", "VB", 1, "V_SS_P", L_("K-", a), L_("pi+", b))
F0(a, b) == Step2("f(0)(980)0", "VB", 0, "S_SS_S", L_("pi+", a), L_("pi-", b))
F2(a, b) == Step2("f(2)(1270)0", "VA", 2, "T_SS_D", L_("pi+", a), L_("pi-", b))
RhoT == "rho(770)0[VA]{pi+,pi-}"
KstT == "K*(892)bar0[VB]{K-,pi+}"
F0T == "f(0)(980)0[VB]{pi+,pi-}"
F2T == "f(2)(1270)0[VA]{pi+,pi-}"
PP(n, a, b) == Step2(n, "VB", 0, "V_fF_S", L_("p+", a), L_("pbar-", b))
Dk(d, fs, t, hs, md) == [d |-> d, fs |-> fs, t |-> t, heads |-> hs, md |-> md]
S0 == {0}
K3 == <<"K-", "pi+", "pi0">>
P3 == <<"pi+", "pi-", "pi0">>
P4 == <<"pi+", "pi-", "pi+", "pi-">>
K4 == <<"K-", "pi+", "pi-", "pi+">>
D(md, ls, x) == "D0[" \o ls \o md \o "]{" \o x \o "}"
Mesons ==
  { Dk(D("", "VA", KstT \o ",pi0"), K3, Step2("D0", "VA", 1, "S_VS_P", Kst(1, 2), L_("pi0", 3)), S0, Plain),
    Dk(D("", "VB", RhoT \o ",pi0"), P3, Step2("D0", "VB", 1, "S_VS_P", Rho(1, 2), L_("pi0", 3)), S0, Plain),
    Dk(D("", "VB", F0T \o ",pi0"), P3, Step2("D0", "VB", 0, "S_SS_S", F0(1, 2), L_("pi0", 3)), S0, Plain),
    Dk(D("", "VA", "pi0,K(0)*(1430)bar0[VA]{pi+,K-}"), K3, Step2("D0", "VA", 0, "S_SS_S", Step2("K(0)*(1430)bar0", "VA", 0, "S_SS_S", L_("K-", 1), L_("pi+", 2)), L_("pi0", 3)), S0, Plain),
    Dk(D("", "VA", F2T \o ",pi0"), P3, Step2("D0", "VA", 2, "S_TS_D", F2(1, 2), L_("pi0", 3)), S0, Plain),
    Dk(D("", "VC", "K-,pi+,pi0"), K3, Step3("D0", "VC", L_("K-", 1), L_("pi+", 2), L_("pi0", 3)), S0, Plain),
    Dk(D(";BgSpin0", "VA", KstT \o ",pi0"), K3, Step2("D0", "VA", 1, "S_VS_P", Kst(1, 2), L_("pi0", 3)), S0, [Plain EXCEPT !.spin0 = TRUE]),
    Dk(D("", "VA", "K0S0[VC]{K0},eta0"), <<"K0", "eta0">>, Step2("D0", "VA", 0, "S_SS_S", Step1("K0S0", "VC", L_("K0", 1)), L_("eta0", 2)), S0, Plain),
    Dk(D("", "VA", "omega(782)0[VC]{pi+,pi-,pi0},eta0"), <<"pi-", "pi+", "eta0", "pi0">>, Step2("D0", "VA", 1, "S_VS_P", Step3("omega(782)0", "VC", L_("pi+", 2), L_("pi0", 4), L_("pi-", 1)), L_("eta0", 3)), S0, Plain) }
  \cup {Dk(D(x[1], "VA" \o x[2], KstT \o "," \o RhoT), K4, Step2("D0", "VA", x[3], "S_VV_" \o x[4], Kst(1, 2), Rho(4, 3)), S0, x[5])
        : x \in {<<"", "", 0, "S", Plain>>, <<"", ";P", 1, "P", Plain>>, <<"", ";D", 2, "D", Plain>>, <<";NoSym", "", 0, "S", [Plain EXCEPT !.nosym = TRUE]>>, <<";Inco", ";P", 1, "P", [Plain EXCEPT !.inco = TRUE]>>,
                 <<";BgSpin0", "", 0, "S", [Plain EXCEPT !.spin0 = TRUE]>>, <<";BgSpin0;Inco", "", 0, "S", [Plain EXCEPT !.inco = TRUE, !.spin0 = TRUE]>>, <<";Inco;NoSym", "", 0, "S", [Plain EXCEPT !.inco = TRUE, !.nosym = TRUE]>>}}
  \cup {Dk(D("", "VB" \o x[1], RhoT \o "," \o RhoT), P4, Step2("D0", "VB", x[2], "S_VV_" \o x[3], Rho(1, 2), Rho(3, 4)), S0, Plain) : x \in {<<"", 0, "S">>, <<";P", 1, "P">>, <<";D", 2, "D">>}}
  \cup {Dk(D("", "VA", "K(1)(1270)bar-[VA" \o x[1] \o "]{" \o KstT \o ",pi-},pi+"), K4, Step2("D0", "VA", 1, "S_VS_P", Step2("K(1)(1270)bar-", "VA", x[2], "V_VS_" \o x[3], Kst(1, 2), L_("pi-", 3)), L_("pi+", 4)), S0, Plain) : x \in {<<"", 0, "S">>, <<";D", 2, "D">>}}
  \cup {Dk(D("", "VB", "a(1)(1260)+[VB" \o x[1] \o "]{" \o RhoT \o ",pi+},K-"), K4, Step2("D0", "VB", 1, "S_VS_P", Step2("a(1)(1260)+", "VB", x[2], "V_VS_" \o x[3], Rho(2, 3), L_("pi+", 4)), L_("K-", 1)), S0, Plain) : x \in {<<"", 0, "S">>, <<";D", 2, "D">>}}
  \cup {Dk(D("", "VB", "a(1)(1260)+[VA]{" \o F0T \o ",pi+},K-"), K4, Step2("D0", "VB", 1, "S_VS_P", Step2("a(1)(1260)+", "VA", 1, "V_SS_P", F0(2, 3), L_("pi+", 4)), L_("K-", 1)), S0, Plain),
        Dk(D("", "VB", F0T \o "," \o RhoT), P4, Step2("D0", "VB", 1, "S_VS_P", Rho(3, 4), F0(1, 2)), S0, Plain)}
Threes ==
  {Dk(D(x[1], "VB", RhoT \o ",pi+"), <<"pi+", "pi-", "pi+">>, Step2("D0", "VB", 1, "S_VS_P", Rho(1, 2), L_("pi+", 3)), S0, x[2])
     : x \in {<<"", Plain>>, <<";Inco", [Plain EXCEPT !.inco = TRUE]>>, <<";NoSym", [Plain EXCEPT !.nosym = TRUE]>>, <<";Inco;NoSym", [Plain EXCEPT !.inco = TRUE, !.nosym = TRUE]>>, <<";Inco;BgSpin0", [Plain EXCEPT !.inco = TRUE, !.spin0 = TRUE]>>}}
Vectors ==
  { Dk("J/psi0[VA]{" \o RhoT \o ",pi0}", P3, Step2("J/psi0", "VA", 1, "V_VS_P", Rho(1, 2), L_("pi0", 3)), {-1, 0, 1}, Plain),
    Dk("J/psi0[VB]{K+,K-}", <<"K+", "K-">>, Step2("J/psi0", "VB", 1, "V_SS_P", L_("K+", 1), L_("K-", 2)), {-1, 0, 1}, Plain),
    Dk("J/psi0[VC]{pi+,pi-,pi0}", P3, Step3("J/psi0", "VC", L_("pi+", 1), L_("pi0", 3), L_("pi-", 2)), {-1, 0, 1}, Plain) }
Baryons ==
  { Dk("Lambda(c)+[VA]{Lambda(1520)0[VB]{p+,K-},pi+}", <<"p+", "K-", "pi+">>, Step2("Lambda(c)+", "VA", 1, "f_rS_P", Step2("Lambda(1520)0", "VB", 2, "r_fS_D", L_("p+", 1), L_("K-", 2)), L_("pi+", 3)), {-1, 1}, Plain),
    Dk("Lambda(c)+[VA]{Delta(1232)++[VB]{p+,pi+},K-}", <<"K-", "p+", "pi+">>, Step2("Lambda(c)+", "VA", 1, "f_rS_P", Step2("Delta(1232)++", "VB", 1, "r_fS_P", L_("p+", 2), L_("pi+", 3)), L_("K-", 1)), {-1, 1}, Plain),
    Dk("Lambda(c)+[VA]{Lambda(1405)0[VB]{p+,K-},pi+}", <<"p+", "K-", "pi+">>, Step2("Lambda(c)+", "VA", 0, "f_fS_S", Step2("Lambda(1405)0", "VB", 0, "f_fS_S", L_("p+", 1), L_("K-", 2)), L_("pi+", 3)), {-1, 1}, Plain),
    Dk("Lambda(c)+[VA]{" \o KstT \o ",p+}", <<"p+", "K-", "pi+">>, Step2("Lambda(c)+", "VA", 0, "f_Vf_S", Kst(2, 3), L_("p+", 1)), {-1, 1}, Plain) }
\* two pairs of identical fermions
Fours ==
  { Dk("B0[VA" \o x[1] \o "]{J/psi0[VB]{p+,pbar-},phi(1020)0[VB]{p+,pbar-}}", <<"p+", "pbar-", "p+", "pbar-">>, Step2("B0", "VA", x[2], "S_VV_" \o x[3], PP("J/psi0", 1, 2), PP("phi(1020)0", 3, 4)), S0, Plain) : x \in {<<"", 0, "S">>, <<";P", 1, "P">>}}
=============================================================================
