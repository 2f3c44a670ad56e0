-------------------------------- MODULE Spin --------------------------------
(* Covariant spin couplings.  Four-vectors are <<x, y, z, E>> with complex    *)
(* integer components <<re, im>>, spinors have four components in the Dirac   *)
(* basis, matrices are sequences of rows.  The momentum P of the decaying     *)
(* particle has an integer mass m, so every projector is an integer object    *)
(* divided by a known integer: LL = m^2 L, SS = m^2 S, DD = 3 m^6 L2, ...     *)
EXTENDS Integers, Sequences, TLC
I4 == 1 .. 4
C(n) == <<n, 0>>
CZ == <<0, 0>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CScl(n, x) == <<n * x[1], n * x[2]>>
CConj(x) == <<x[1], -x[2]>>
Sum4(q) == <<q[1][1] + q[2][1] + q[3][1] + q[4][1], q[1][2] + q[2][2] + q[3][2] + q[4][2]>>
g(i) == IF i = 4 THEN 1 ELSE -1
gg(i, j) == IF i = j THEN g(i) ELSE 0
RVec(p) == TLCEval([i \in I4 |-> C(p[i])])
Dot(a, b) == Sum4([i \in I4 |-> CScl(g(i), CMul(a[i], b[i]))])
RDot(a, b) == a[4] * b[4] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]
VScl(n, v) == TLCEval([i \in I4 |-> CScl(n, v[i])])
VMul(x, v) == TLCEval([i \in I4 |-> CMul(x, v[i])])
VAdd(a, b) == TLCEval([i \in I4 |-> CAdd(a[i], b[i])])
MScl(n, m) == TLCEval([i \in I4 |-> VScl(n, m[i])])
MAdd(a, b) == TLCEval([i \in I4 |-> VAdd(a[i], b[i])])
MVec(m, v) == TLCEval([i \in I4 |-> Sum4([j \in I4 |-> CMul(m[i][j], v[j])])])
MMul(a, b) == TLCEval([i \in I4 |-> [j \in I4 |-> Sum4([k \in I4 |-> CMul(a[i][k], b[k][j])])]])
One == [i \in I4 |-> [j \in I4 |-> IF i = j THEN <<1, 0>> ELSE CZ]]
\* the contraction with the metric of the second index of a tensor with a vector, and of both
TVec(t, v) == TLCEval([i \in I4 |-> Sum4([j \in I4 |-> CScl(g(j), CMul(t[i][j], v[j]))])])
TT(a, b) == Sum4([i \in I4 |-> CScl(g(i), Dot(a[i], b[i]))])
Out(a, b) == TLCEval([i \in I4 |-> [j \in I4 |-> CMul(a[i], b[j])]])
Trn(t) == TLCEval([i \in I4 |-> [j \in I4 |-> t[j][i]]])
TMul(a, b) == TLCEval([i \in I4 |-> [j \in I4 |-> Sum4([k \in I4 |-> CScl(g(k), CMul(a[i][k], b[k][j]))])]])
\* the antisymmetric symbol with upper indices, 1 for x y z E in order
Inv(c) == (IF c[1] > c[2] THEN 1 ELSE 0) + (IF c[1] > c[3] THEN 1 ELSE 0) + (IF c[1] > c[4] THEN 1 ELSE 0) + (IF c[2] > c[3] THEN 1 ELSE 0) + (IF c[2] > c[4] THEN 1 ELSE 0) + (IF c[3] > c[4] THEN 1 ELSE 0)
Perms == {c \in I4 \X I4 \X I4 \X I4 : c[1] # c[2] /\ c[1] # c[3] /\ c[1] # c[4] /\ c[2] # c[3] /\ c[2] # c[4] /\ c[3] # c[4]}
PermSeq == LET RECURSIVE go(_, _) go(S, q) == IF S = {} THEN q ELSE LET x == CHOOSE y \in S : TRUE IN go(S \ {x}, Append(q, <<x, IF Inv(x) % 2 = 0 THEN 1 ELSE -1>>)) IN go(Perms, <<>>)
RECURSIVE SumQ(_, _)
SumQ(q, k) == IF k > Len(q) THEN CZ ELSE CAdd(q[k], SumQ(q, k + 1))
\* eps^{mu nu alpha beta} a_nu b_alpha c_beta
Eps3(a, b, c) == TLCEval([i \in I4 |-> LET q == SelectSeq(PermSeq, LAMBDA x : x[1][1] = i)
                    IN SumQ([k \in DOMAIN q |-> LET x == q[k][1] IN CScl(q[k][2] * g(x[2]) * g(x[3]) * g(x[4]), CMul(a[x[2]], CMul(b[x[3]], c[x[4]])))], 1)])
Eps4(a, b, c, d) == Dot(a, Eps3(b, c, d))
Eps2(a, b) == TLCEval([i \in I4 |-> [j \in I4 |-> LET q == SelectSeq(PermSeq, LAMBDA x : x[1][1] = i /\ x[1][2] = j)
                    IN SumQ([k \in DOMAIN q |-> LET x == q[k][1] IN CScl(q[k][2] * g(x[3]) * g(x[4]), CMul(a[x[3]], b[x[4]]))], 1)]])

\* ---- Dirac matrices (Dirac basis), gamma(i) with i = 4 the time component
iC == <<0, 1>>
Pauli == << <<<<CZ, C(1)>>, <<C(1), CZ>>>>, <<<<CZ, <<0, -1>>>>, <<iC, CZ>>>>, <<<<C(1), CZ>>, <<CZ, C(-1)>>>> >>
Blocks(a, b, c, d) == [i \in I4 |-> [j \in I4 |-> IF i <= 2 /\ j <= 2 THEN a[i][j] ELSE IF i <= 2 THEN b[i][j - 2] ELSE IF j <= 2 THEN c[i - 2][j] ELSE d[i - 2][j - 2]]]
One2 == <<<<C(1), CZ>>, <<CZ, C(1)>>>>
Zero2 == <<<<CZ, CZ>>, <<CZ, CZ>>>>
Neg2(m) == [i \in 1..2 |-> [j \in 1..2 |-> CScl(-1, m[i][j])]]
Gam == TLCEval([k \in I4 |-> IF k = 4 THEN Blocks(One2, Zero2, Zero2, Neg2(One2)) ELSE Blocks(Zero2, Pauli[k], Neg2(Pauli[k]), Zero2)])
Gam5 == Blocks(Zero2, One2, One2, Zero2)
Slash(v) == TLCEval([i \in I4 |-> [j \in I4 |-> Sum4([k \in I4 |-> CScl(g(k), CMul(Gam[k][i][j], v[k]))])]])
Bar(s) == TLCEval([j \in I4 |-> Sum4([i \in I4 |-> CMul(CConj(s[i]), Gam[4][i][j])])])
Row(b, s) == Sum4([i \in I4 |-> CMul(b[i], s[i])])
RowM(b, m) == TLCEval([j \in I4 |-> Sum4([i \in I4 |-> CMul(b[i], m[i][j])])])

\* ---- scaled projectors of the momentum p with mass m
LL(p, m2, q) == LET pq == RDot(p, q) IN TLCEval([i \in I4 |-> C(m2 * q[i] - p[i] * pq)])
SS(p, m2) == TLCEval([i \in I4 |-> [j \in I4 |-> C(m2 * gg(i, j) - p[i] * p[j])]])
DD(p, m2, q) == LET l == LL(p, m2, q) l2 == Dot(l, l)[1] s == SS(p, m2) IN MAdd(MScl(3 * m2, Out(l, l)), MScl(-l2, s))           \* 3 m^6
S2(p, m2, t) == LET s == SS(p, m2) tr == TT(s, t)                                                                                    \* 6 m^4
                   u == TMul(TMul(s, MAdd(t, Trn(t))), s)
               IN MAdd(MScl(3, u), TLCEval([i \in I4 |-> VMul(CScl(-2, tr), s[i])]))
FF(p, m, sg) == MAdd(MScl(m, One), MScl(sg, Slash(RVec(p))))                                                                       \* 2 m
GT(p, m2) == LET ps == Slash(RVec(p)) IN TLCEval([k \in I4 |-> MAdd(MScl(m2, Gam[k]), MScl(-p[k], ps))])                       \* m^2
\* matrix sum over a Lorentz index, with the metric
GDot(gm, v) == TLCEval([i \in I4 |-> [j \in I4 |-> Sum4([k \in I4 |-> CScl(g(k), CMul(gm[k][i][j], v[k]))])]])
Cross(a, b) == << CAdd(CMul(a[2], b[3]), CScl(-1, CMul(a[3], b[2]))), CAdd(CMul(a[3], b[1]), CScl(-1, CMul(a[1], b[3]))), CAdd(CMul(a[1], b[2]), CScl(-1, CMul(a[2], b[1]))), CZ>>
RECURSIVE ISqrt(_, _)
ISqrt(n, k) == IF k * k >= n THEN k ELSE ISqrt(n, k + 1)
Mass(p) == ISqrt(RDot(p, p), 0)
IsMass(p) == RDot(p, p) > 0 /\ Mass(p) * Mass(p) = RDot(p, p)

\* ---- the couplings.  a and b are the spin tensors of the daughters; the outcome is <<components, denominator>>
Sc(x, n) == <<<<x>>, n>>
Vc(v, n) == <<v, n>>
RECURSIVE Flat(_)
Flat(t) == IF t = <<>> THEN <<>> ELSE Head(t) \o Flat(Tail(t))
Tn(t, n) == <<Flat(<<t[1], t[2], t[3], t[4]>>), n>>
Mom(p, q, sg) == [i \in I4 |-> C(p[i] + sg * q[i])]            \* twice the momentum of a daughter
AntiNames == {"F_FS_S", "F_FS_S1", "F_FS_P", "F_FS_P1", "F_FS_SL", "F_FS_SR", "F_VF_S", "F_VF_S1", "F_VF_SL", "F_VF_SR", "F_VF_P", "F_VF_P1", "F_VF_P2", "F_VF_P3", "F_VF_D", "F_VF_D1", "F_TF_P", "R_FS_P", "R_FS_D", "F_RS_P", "F_RS_P1", "F_RS_D"}
\* twice the size of the photon momentum
Photon2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) + (p[3] - q[3]) * (p[3] - q[3])
PhotonP(p, q) == ISqrt(Photon2(p, q), 0)
Vertex(n, p, q, a, b) ==
  LET m == Mass(p) m2 == RDot(p, p)            \* couplings of bosons need the squared mass only
      P == RVec(p)
      l == LL(p, m2, q) s == SS(p, m2)
      b0 == b[1]
      anti == n \in AntiNames
      F == FF(p, m, IF anti THEN -1 ELSE 1)
      gt == GT(p, m2)
      d == DD(p, m2, q)
  IN
  CASE n = "S_SS_S"  -> Sc(CMul(a[1], b0), 1)
    [] n = "S_VV_S"  -> Sc(Dot(a, b), 1)
    [] n = "S_VV_S1" -> Sc(Dot(a, TVec(s, b)), m2)
    [] n = "S_VV_P"  -> Sc(Eps4(a, b, l, P), m2)
    [] n = "S_VV_D"  -> Sc(Dot(a, TVec(d, b)), 3 * m2 * m2 * m2)
    [] n = "S_VS_P"  -> Sc(CMul(Dot(a, l), b0), m2)
    [] n = "S_TV_P"  -> Sc(Dot(TVec(Trn(a), l), b), m2)
    [] n = "S_TV_D"  -> Sc(TT(TMul(a, d), Eps2(P, b)), 3 * m2 * m2 * m2)
    [] n = "S_TS_D"  -> Sc(CMul(TT(a, d), b0), 3 * m2 * m2 * m2)
    [] n = "S_TT_S"  -> Sc(TT(a, b), 1)
    [] n = "V_SS_P"  -> Vc(VMul(CMul(a[1], b0), l), m2)
    [] n = "V_VS_P"  -> Vc(VMul(b0, Eps3(a, l, P)), m2)
    [] n = "V_VS_S"  -> Vc(VMul(b0, TVec(s, a)), m2)
    [] n = "V_VS_D"  -> Vc(VMul(b0, TVec(d, a)), 3 * m2 * m2 * m2)
    [] n = "V_TS_P"  -> Vc(VMul(b0, TVec(s, TVec(a, l))), m2 * m2)
    [] n = "V_TS_D"  -> Vc(VMul(b0, VScl(-1, Eps3(P, RVec(q), TVec(a, l)))), m2)
    [] n = "V_VV_P"  -> Vc(VMul(Dot(a, b), l), m2)
    [] n = "V_VV_P1" -> LET t == TVec(s, Eps3(P, a, b)) IN Vc(VScl(-1, Eps3(P, l, t)), m2 * m2)
    [] n = "V_VV_P2" -> Vc(TVec(Trn(S2(p, m2, Out(a, b))), l), 6 * m2 * m2 * m2)
    [] n = "V_VV_S"  -> Vc(TVec(s, Eps3(P, a, b)), m2)
    [] n = "T_VS_D"  -> LET G == Eps3(P, l, a) IN Tn(MScl(-1, TLCEval([i \in I4 |-> VMul(b0, MAdd(Out(G, l), Out(l, G))[i])])), 2 * m2 * m2)
    [] n = "T_VS_P"  -> LET v == TVec(s, a) IN Tn(TLCEval([i \in I4 |-> VMul(b0, MAdd(MScl(3, MAdd(Out(l, v), Out(v, l))), [k \in I4 |-> VMul(CScl(-2, Dot(l, a)), s[k])])[i])]), 6 * m2 * m2)
    [] n = "T_SS_D"  -> Tn(TLCEval([i \in I4 |-> VMul(CMul(a[1], b0), d[i])]), 3 * m2 * m2 * m2)
    [] n = "T_TS_S"  -> Tn(TLCEval([i \in I4 |-> VMul(b0, MAdd(MScl(3, TMul(TMul(s, a), s)), [k \in I4 |-> VMul(CScl(-1, TT(a, s)), s[k])])[i])]), 3 * m2 * m2)
    \* a fermion and a boson
    [] n \in {"f_fS_S", "F_FS_S"}   -> Vc(VMul(b0, MVec(F, a)), 2 * m)
    [] n \in {"f_fS_S1", "F_FS_S1"} -> Vc(VMul(b0, MVec(F, MVec(Gam5, a))), 2 * m)
    [] n \in {"f_fS_P", "F_FS_P"}   -> Vc(VMul(b0, MVec(F, MVec(Gam5, MVec(Slash(l), a)))), 2 * m * m2)
    [] n \in {"f_fS_P1", "F_FS_P1"} -> Vc(VMul(b0, MVec(F, MVec(Slash(l), a))), 2 * m * m2)
    [] n \in {"f_fS_SL", "F_FS_SL"} -> Vc(VMul(b0, MVec(F, MVec(MAdd(One, MScl(-1, Gam5)), a))), 2 * m)
    [] n \in {"f_fS_SR", "F_FS_SR"} -> Vc(VMul(b0, MVec(F, MVec(MAdd(One, Gam5), a))), 2 * m)
    [] n \in {"f_Vf_S", "F_VF_S"}   -> Vc(MVec(F, MVec(Gam5, MVec(GDot(gt, a), b))), 2 * m * m2)
    [] n \in {"f_Vf_S1", "F_VF_S1"} -> Vc(MVec(F, MVec(GDot(gt, a), b)), 2 * m * m2)
    [] n \in {"f_Vf_SL", "F_VF_SL"} -> Vc(MVec(F, MVec(Slash(a), MVec(MAdd(One, MScl(-1, Gam5)), b))), 2 * m)
    [] n \in {"f_Vf_SR", "F_VF_SR"} -> Vc(MVec(F, MVec(Slash(a), MVec(MAdd(One, Gam5), b))), 2 * m)
    [] n \in {"f_Vf_P", "F_VF_P"}   -> Vc(VMul(Dot(a, l), MVec(F, b)), 2 * m * m2)
    [] n \in {"f_Vf_P2", "F_VF_P2"} -> Vc(VMul(Dot(a, l), MVec(F, MVec(Gam5, b))), 2 * m * m2)
    [] n \in {"f_Vf_P1", "F_VF_P1"} -> Vc(MVec(F, MVec(Gam5, MVec(GDot(gt, Eps3(a, l, P)), b))), 2 * m * m2 * m2)
    [] n \in {"f_Vf_P3", "F_VF_P3"} -> Vc(MVec(F, MVec(GDot(gt, Eps3(l, a, P)), b)), 2 * m * m2 * m2)
    [] n \in {"f_Vf_D", "F_VF_D"}   -> Vc(MVec(F, MVec(Gam5, MVec(GDot(gt, TVec(d, a)), b))), 6 * m * m2 * m2 * m2 * m2)
    [] n \in {"f_Vf_D1", "F_VF_D1"} -> Vc(MVec(F, MVec(GDot(gt, TVec(d, a)), b)), 6 * m * m2 * m2 * m2 * m2)
    [] n \in {"f_Tf_P", "F_TF_P"}   -> Vc(MVec(F, MVec(GDot(gt, TVec(a, l)), b)), 2 * m * m2 * m2)
    \* spin 3/2: index pairs (vector, spinor)
    [] n \in {"r_fS_P", "R_FS_P"}   -> LET x == MVec(F, a) y == MVec(Slash(l), a)
                                       IN Tn(TLCEval([k \in I4 |-> VMul(b0, VAdd(VScl(-3 * m2, VMul(l[k], x)), MVec(F, MVec(gt[k], y))))]), 6 * m * m2 * m2)
    [] n \in {"r_fS_D", "R_FS_D"}   -> LET x == MVec(Gam5, a) y == MVec(F, MVec(Slash(l), x)) l2 == Dot(l, l)
                                       IN Tn(TLCEval([k \in I4 |-> VMul(b0, VAdd(VScl(3 * m2, VMul(l[k], y)), VMul(CScl(-1, l2), MVec(F, MVec(gt[k], x)))))]), 6 * m * m2 * m2 * m2)
    [] n \in {"f_rS_P", "F_RS_P"}   -> Vc(VMul(b0, MVec(F, TVec(Trn(a), l))), 2 * m * m2)
    [] n \in {"f_rS_P1", "F_RS_P1"} -> Vc(VMul(b0, MVec(F, MVec(Gam5, TVec(Trn(a), l)))), 2 * m * m2)
    [] n \in {"f_rS_D", "F_RS_D"}   -> LET da == TMul(d, a)          \* (vector, spinor) with the vector index contracted with the D wave
                                           x == VAdd(VAdd(VScl(g(1), MVec(gt[1], da[1])), VScl(g(2), MVec(gt[2], da[2]))), VAdd(VScl(g(3), MVec(gt[3], da[3])), VScl(g(4), MVec(gt[4], da[4]))))
                                       IN Vc(VMul(b0, MVec(F, MVec(Gam5, x))), 6 * m * m2 * m2 * m2 * m2)
    \* a pair of fermions
    [] n = "S_fF_S"  -> Sc(Row(Bar(b), a), 1)
    [] n = "S_fF_S1" -> Sc(Row(Bar(b), MVec(Gam5, a)), 1)
    [] n = "V_fF_S"  -> Vc(TLCEval([k \in I4 |-> Row(Bar(b), MVec(gt[k], a))]), m2)
    [] n = "V_fF_S1" -> Vc(TLCEval([k \in I4 |-> Row(Bar(b), MVec(Gam5, MVec(Gam[k], a)))]), 1)
    [] n = "V_fF_PL" -> Vc(TVec(s, TLCEval([k \in I4 |-> Row(Bar(a), MVec(Gam[k], MVec(MAdd(One, MScl(-1, Gam5)), b)))])), m2)
    [] n = "V_fF_PR" -> Vc(TVec(s, TLCEval([k \in I4 |-> Row(Bar(a), MVec(Gam[k], MVec(MAdd(One, Gam5), b)))])), m2)
    \* radiative decays: twice the momenta of the resonance and the photon; the helicity operator is i times the cross product with its direction
    [] n \in {"S_VV_rp", "S_VV_rm"} -> LET x == Mom(p, q, 1) y == Mom(p, q, -1) w == PhotonP(p, q)
                                           h == VMul(iC, Cross(y, b))                 \* times w
                                           u == IF n = "S_VV_rp" THEN VScl(w, b) ELSE h
                                           v == IF n = "S_VV_rp" THEN h ELSE VScl(w, b)
                                           e == CMul(<<0, -1>>, Eps4(v, a, x, y))
                                           z == CAdd(CMul(Dot(u, a), Dot(x, y)), CScl(-1, CMul(Dot(u, x), Dot(a, y))))
                                       IN Sc(CAdd(e, z), 4 * w)
    [] n \in {"S_TV_rp", "S_TV_rm"} -> LET x == Mom(p, q, 1) y == Mom(p, q, -1) w == PhotonP(p, q)
                                           h == VMul(iC, Cross(y, b))
                                           u == IF n = "S_TV_rm" THEN VScl(w, b) ELSE h
                                           v == IF n = "S_TV_rm" THEN h ELSE VScl(w, b)
                                           r == TVec(a, x)
                                           e == CMul(<<0, -1>>, Eps4(v, r, x, y))
                                           z == CAdd(CMul(Dot(u, TVec(a, y)), Dot(x, y)), CScl(-1, CMul(Dot(u, x), Dot(r, y))))
                                       IN Sc(CAdd(e, z), 8 * w)

\* ---- the couplings that exist: name, kinds of the result and of the daughters
Bosons == {<<"S_SS_S", "S", "S", "S">>, <<"S_VV_S", "S", "V", "V">>, <<"S_VV_S1", "S", "V", "V">>, <<"S_VV_P", "S", "V", "V">>, <<"S_VV_D", "S", "V", "V">>, <<"S_VS_P", "S", "V", "S">>,
           <<"S_TV_P", "S", "T", "V">>, <<"S_TV_D", "S", "T", "V">>, <<"S_TS_D", "S", "T", "S">>, <<"S_TT_S", "S", "T", "T">>, <<"V_SS_P", "V", "S", "S">>, <<"V_VS_P", "V", "V", "S">>,
           <<"V_VS_S", "V", "V", "S">>, <<"V_VS_D", "V", "V", "S">>, <<"V_TS_P", "V", "T", "S">>, <<"V_TS_D", "V", "T", "S">>, <<"V_VV_P", "V", "V", "V">>, <<"V_VV_P1", "V", "V", "V">>,
           <<"V_VV_P2", "V", "V", "V">>, <<"V_VV_S", "V", "V", "V">>, <<"T_VS_D", "T", "V", "S">>, <<"T_VS_P", "T", "V", "S">>, <<"T_SS_D", "T", "S", "S">>, <<"T_TS_S", "T", "T", "S">>}
Pairs == {<<"S_fF_S", "S", "f", "f">>, <<"S_fF_S1", "S", "f", "f">>, <<"V_fF_S", "V", "f", "f">>, <<"V_fF_S1", "A", "f", "f">>, <<"V_fF_PL", "V", "f", "f">>, <<"V_fF_PR", "V", "f", "f">>}
Radiative == {<<"S_VV_rp", "S", "V", "V">>, <<"S_VV_rm", "S", "V", "V">>, <<"S_TV_rp", "S", "T", "V">>, <<"S_TV_rm", "S", "T", "V">>}
FermionS == {<<"f_fS_S", "F_FS_S">>, <<"f_fS_S1", "F_FS_S1">>, <<"f_fS_P", "F_FS_P">>, <<"f_fS_P1", "F_FS_P1">>, <<"f_fS_SL", "F_FS_SL">>, <<"f_fS_SR", "F_FS_SR">>}
FermionV == {<<"f_Vf_S", "F_VF_S">>, <<"f_Vf_S1", "F_VF_S1">>, <<"f_Vf_SL", "F_VF_SL">>, <<"f_Vf_SR", "F_VF_SR">>, <<"f_Vf_P", "F_VF_P">>, <<"f_Vf_P1", "F_VF_P1">>, <<"f_Vf_P2", "F_VF_P2">>, <<"f_Vf_P3", "F_VF_P3">>, <<"f_Vf_D", "F_VF_D">>, <<"f_Vf_D1", "F_VF_D1">>}
Raritas == {<<"r_fS_P", "R_FS_P">>, <<"r_fS_D", "R_FS_D">>}
FromR == {<<"f_rS_P", "F_RS_P">>, <<"f_rS_P1", "F_RS_P1">>, <<"f_rS_D", "F_RS_D">>}
Fermions == {<<x[k], IF k = 1 THEN "f" ELSE "F", "f", "S">> : x \in FermionS, k \in 1..2} \cup {<<x[k], IF k = 1 THEN "f" ELSE "F", "V", "f">> : x \in FermionV, k \in 1..2}
            \cup {<<x[k], IF k = 1 THEN "f" ELSE "F", "T", "f">> : x \in {<<"f_Tf_P", "F_TF_P">>}, k \in 1..2}
            \cup {<<x[k], IF k = 1 THEN "r" ELSE "R", "f", "S">> : x \in Raritas, k \in 1..2} \cup {<<x[k], IF k = 1 THEN "f" ELSE "F", "r", "S">> : x \in FromR, k \in 1..2}
Names == Bosons \cup Pairs \cup Radiative \cup Fermions
\* spin tensors are passed as flat sequences
Rows(v) == TLCEval([i \in I4 |-> [j \in I4 |-> v[4 * (i - 1) + j]]])
Shape(k, v) == IF k \in {"T", "r"} THEN Rows(v) ELSE v
Eval(x, p, q, a, b) == Vertex(x[1], p, q, Shape(x[3], a), Shape(x[4], b))
Allowed(x, p, q) == IsMass(p) /\ (x \in Radiative => Photon2(p, q) > 0 /\ PhotonP(p, q) * PhotonP(p, q) = Photon2(p, q))

\* ---- laws of the specification
Transverse(v, p) == Dot(v, RVec(p)) = CZ
OnShell(s, p, sg) == MVec(Slash(RVec(p)), s) = VScl(sg * Mass(p), s)
Lawful(x, p, r) ==
  CASE x[2] \in {"S", "A"} -> TRUE
    [] x[2] = "V" -> Transverse(r[1], p)
    [] x[2] = "T" -> LET t == Rows(r[1]) IN t = Trn(t) /\ (\A i \in I4 : Transverse(t[i], p)) /\ CAdd(t[4][4], CScl(-1, CAdd(t[1][1], CAdd(t[2][2], t[3][3])))) = CZ
    [] x[2] = "f" -> OnShell(r[1], p, 1)
    [] x[2] = "F" -> OnShell(r[1], p, -1)
    [] x[2] \in {"r", "R"} -> LET t == Rows(r[1]) IN (\A i \in I4 : OnShell(t[i], p, IF x[2] = "r" THEN 1 ELSE -1)) /\ (\A j \in I4 : Transverse([i \in I4 |-> t[i][j]], p))
                              /\ VAdd(VAdd(VScl(-1, MVec(Gam[1], t[1])), VScl(-1, MVec(Gam[2], t[2]))), VAdd(VScl(-1, MVec(Gam[3], t[3])), MVec(Gam[4], t[4]))) = [i \in I4 |-> CZ]
\* the reflection in the vector u = (1,1,1;1) with u^2 = -2, and what it does to each kind of object (spinors: gamma5 u-slash)
uv == <<1, 1, 1, 1>>
Ref4(v) == LET d == Dot(v, RVec(uv)) IN TLCEval([i \in I4 |-> CAdd(v[i], d)])
RefP(p) == LET d == RDot(p, uv) IN [i \in I4 |-> p[i] + d]
RefS(s) == MVec(Gam5, MVec(Slash(RVec(uv)), s))
RefK(k, v) == CASE k = "S" -> v
                [] k \in {"V", "A"} -> Ref4(v)
                [] k = "T" -> LET t == Rows(v) a == [i \in I4 |-> Ref4(t[i])] IN Flat([i \in 1..4 |-> Trn([j \in I4 |-> Ref4(Trn(a)[j])])[i]])
                [] k \in {"f", "F"} -> RefS(v)
                [] k \in {"r", "R"} -> LET t == Rows(v) a == TLCEval([i \in I4 |-> RefS(t[i])]) b == TLCEval([j \in I4 |-> Ref4(Trn(a)[j])]) IN Flat([i \in 1..4 |-> Trn(b)[i]])
Odd == {"S_VV_P", "S_TV_D", "V_VS_P", "V_TS_D", "V_VV_S", "T_VS_D", "f_fS_S1", "F_FS_S1", "f_fS_P", "F_FS_P", "f_Vf_S", "F_VF_S", "f_Vf_P2", "F_VF_P2", "f_Vf_D", "F_VF_D", "r_fS_D", "R_FS_D", "f_rS_P1", "F_RS_P1", "f_rS_D", "F_RS_D", "S_fF_S1", "V_fF_S1", "f_Vf_P3", "F_VF_P3"}
NoReflection == {x[1] : x \in Radiative} \cup {"f_fS_SL", "F_FS_SL", "f_fS_SR", "F_FS_SR", "f_Vf_SL", "F_VF_SL", "f_Vf_SR", "F_VF_SR", "V_fF_PL", "V_fF_PR"}
Covariant(x, p, q, a, b) ==
  x[1] \in NoReflection \/
  LET r == Eval(x, p, q, a, b)
      w == Eval(x, RefP(p), RefP(q), RefK(x[3], a), RefK(x[4], b))
      sg == (IF x[1] \in Odd THEN -1 ELSE 1) * (IF x \in Pairs THEN 2 ELSE 1)
      z == RefK(x[2], r[1])
  IN w[2] = r[2] /\ [k \in DOMAIN z |-> CScl(sg, z[k])] = [k \in DOMAIN z |-> w[1][k]]

\* ---- single objects
Ix(k, v) == (((k - 1) \div v) % 4) + 1
S2El(s, i, j, c, d) == C(3 * (s[i][c][1] * s[j][d][1] + s[i][d][1] * s[j][c][1]) - 2 * s[i][j][1] * s[c][d][1])
S2All(s) == [k \in 1..256 |-> S2El(s, Ix(k, 64), Ix(k, 16), Ix(k, 4), Ix(k, 1))]
\* indices mu, nu, a, b
RAll(p, m, f) == LET s == SS(p, m * m) gt == GT(p, m * m)
                     x == TLCEval([i \in I4 |-> [j \in I4 |-> MAdd(MScl(-3 * m * m * s[i][j][1], f), MMul(f, MMul(gt[i], gt[j])))]])
                 IN Flat([k \in 1..64 |-> x[Ix(k, 16)][Ix(k, 4)][Ix(k, 1)]])
Object(o) ==
  LET p == o.p m == Mass(p) m2 == m * m q == o.q
  IN CASE o.n = "L1" -> Vc(LL(p, m2, q), m2)
       [] o.n = "L2" -> Tn(DD(p, m2, q), 3 * m2 * m2 * m2)
       [] o.n = "S1" -> Tn(SS(p, m2), m2)
       [] o.n = "S2" -> <<S2All(SS(p, m2)), 6 * m2 * m2>>
       [] o.n = "F"  -> Tn(FF(p, m, 1), 2 * m)
       [] o.n = "Fb" -> Tn(FF(p, m, -1), 2 * m)
       [] o.n \in {"R", "Rb"} -> <<RAll(p, m, FF(p, m, IF o.n = "R" THEN 1 ELSE -1)), 6 * m * m2 * m2>>
       [] o.n = "slash" -> Tn(Slash(RVec(q)), 1)
       [] o.n = "bar" -> Vc(Bar([i \in I4 |-> <<p[i], q[i]>>]), 1)
       [] o.n = "gt" -> LET gt == GT(p, m2) IN <<Flat([k \in 1..16 |-> gt[(k - 1) \div 4 + 1][((k - 1) % 4) + 1]]), m2>>
       [] o.n = "gamma" -> <<Flat([k \in 1..16 |-> Gam[(k - 1) \div 4 + 1][((k - 1) % 4) + 1]]) \o Flat([k \in 1..4 |-> Gam5[k]]), 1>>
       [] o.n = "three" -> Vc(Eps3(RVec(p), RVec(q), RVec(o.r)), 1)
       [] o.n = "three0" -> <<<<C(1)>>, 1>>
\* ---- external states.  A state is known up to a phase, so what is observed is the matrix u ubar (fermions) or e e* (vectors).
Size(p) == ISqrt(p[1] * p[1] + p[2] * p[2] + p[3] * p[3], 0)
IsSize(p) == Size(p) * Size(p) = p[1] * p[1] + p[2] * p[2] + p[3] * p[3]
Dl(i, j) == IF i = j THEN 1 ELSE 0
\* the spin vector <<S, W>> with s = S/W: along the momentum (helicity basis) or along z in the rest frame
SpinVec(p, basis) == LET m == Mass(p) k == Size(p) E == p[4]
                     IN IF basis = "Weyl" THEN (IF k = 0 THEN <<<<0, 0, 1, 0>>, 1>> ELSE <<<<E * p[1], E * p[2], E * p[3], k * k>>, k * m>>)
                        ELSE LET w == m * (E + m) IN <<<<p[1] * p[3], p[2] * p[3], w + p[3] * p[3], p[3] * (E + m)>>, w>>
FermionState(p, basis, pol, anti) ==
  LET m == Mass(p) sv == SpinVec(p, basis) h == IF anti THEN -pol ELSE pol
      a == MAdd(Slash(RVec(p)), MScl(IF anti THEN -m ELSE m, One))
      b == MAdd(MScl(sv[2], One), MScl(h, MMul(Gam5, Slash(RVec(sv[1])))))
  IN Tn(MMul(a, b), 4 * m * sv[2])
Lc(i, j, k) == IF <<i, j, k>> \in {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>} THEN 1 ELSE IF <<i, j, k>> \in {<<2, 1, 3>>, <<3, 2, 1>>, <<1, 3, 2>>} THEN -1 ELSE 0
VectorState(p, basis, pol, m) ==
  LET k == IF Size(p) = 0 THEN 1 ELSE Size(p)
      d == IF Size(p) = 0 THEN <<0, 0, 1>> ELSE <<p[1], p[2], p[3]>>
      w == m * (p[4] + m)
      z == <<p[1], pol * p[2]>>
      e == [i \in I4 |-> IF i = 4 THEN CScl(p[4] + m, z) ELSE CAdd(CScl(p[i], z), IF i = 1 THEN <<w, 0>> ELSE IF i = 2 THEN <<0, pol * w>> ELSE CZ)]
  IN IF basis = "Weyl" /\ pol # 0 THEN Tn([i \in I4 |-> [j \in I4 |-> IF i = 4 \/ j = 4 THEN CZ ELSE <<k * k * Dl(i, j) - d[i] * d[j], -pol * k * (Lc(i, j, 1) * d[1] + Lc(i, j, 2) * d[2] + Lc(i, j, 3) * d[3])>>]], 2 * k * k)
     ELSE IF pol = 0 THEN LET sv == SpinVec(p, basis) IN Tn(Out(RVec(sv[1]), RVec(sv[1])), sv[2] * sv[2])
     ELSE Tn(Out(e, [i \in I4 |-> CConj(e[i])]), 2 * w * w)
Polarisation(s, o) == LET r == IF o.k = "v" THEN VectorState(o.p, o.basis, o.pol, Mass(o.p)) ELSE IF o.k = "g" THEN VectorState(o.p, o.basis, o.pol, 0) ELSE FermionState(o.p, o.basis, o.pol, o.k = "F")
                      IN [s |-> [last |-> <<o.n, o.p>>], o |-> <<r[2], r[1]>>]
Spin0 == [last |-> <<>>]
Step(s, o) == CASE o.f = "vertex" -> LET r == Eval(o.x, o.p, o.q, o.a, o.b) IN [s |-> [last |-> <<o.x, o.p, o.q, o.a, o.b>>], o |-> <<r[2], [k \in 1 .. Len(r[1]) |-> r[1][k]]>>]
                [] o.f = "object" -> LET r == Object(o) IN [s |-> [last |-> <<o.n, o.p, o.q>>], o |-> <<r[2], r[1]>>]
                [] OTHER -> Polarisation(s, o)
Laws(s) == Len(s.last) = 5 => Lawful(s.last[1], s.last[2], Eval(s.last[1], s.last[2], s.last[3], s.last[4], s.last[5])) /\ Covariant(s.last[1], s.last[2], s.last[3], s.last[4], s.last[5])
=============================================================================
