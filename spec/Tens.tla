-------------------------------- MODULE Tens --------------------------------
(* Tensor calculus in index notation.  A tensor is its dimensions and its     *)
(* components (complex integers <<re, im>>) in row-major order; an indexed    *)
(* expression is a tensor together with a label for each index, and a label   *)
(* with a minus sign is the same index at the other height.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
TAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Vol(_)
Vol(d) == IF d = <<>> THEN 1 ELSE d[1] * Vol(Tail(d))
\* coordinates (from 0) of element k (from 1) and back
Coord(k, d) == [i \in DOMAIN d |-> ((k - 1) \div Vol(SubSeq(d, i + 1, Len(d)))) % d[i]]
RECURSIVE Pos0(_, _)
Pos0(c, d) == IF d = <<>> THEN 0 ELSE c[1] * Vol(Tail(d)) + Pos0(Tail(c), Tail(d))
At(c, d) == Pos0(c, d) + 1
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CZ == <<0, 0>>
CScale(n, x) == <<n * x[1], n * x[2]>>
T(d, v) == [d |-> d, v |-> v]
Make(d, g(_)) == T(d, [k \in 1 .. Vol(d) |-> g(Coord(k, d))])
Elem(t, c) == t.v[At(c, t.d)]

\* ---- labels
Label(x) == x[1]
Up(x) == x[2]
PosOf(q, l) == CHOOSE k \in DOMAIN q : Label(q[k]) = l
Labels(q) == {Label(q[k]) : k \in DOMAIN q}
Metric(i) == IF i = 3 THEN 1 ELSE -1
RECURSIVE CSum(_, _)
CSum(S, g) == IF S = {} THEN CZ ELSE LET x == CHOOSE y \in S : TRUE IN CAdd(g[x], CSum(S \ {x}, g))
RECURSIVE Sgn(_, _)
Sgn(c, q) == IF c = <<>> THEN 1 ELSE (IF q[1] THEN Metric(c[1]) ELSE 1) * Sgn(Tail(c), Tail(q))

\* ---- expressions: [t |-> tensor, ix |-> labels]
Prod(a, b) ==
  LET free1 == SelectSeq([k \in DOMAIN a.ix |-> k], LAMBDA k : Label(a.ix[k]) \notin Labels(b.ix))
      free2 == SelectSeq([k \in DOMAIN b.ix |-> k], LAMBDA k : Label(b.ix[k]) \notin Labels(a.ix))
      both  == SelectSeq([k \in DOMAIN b.ix |-> k], LAMBDA k : Label(b.ix[k]) \in Labels(a.ix))      \* positions in b
      inA   == [k \in DOMAIN both |-> PosOf(a.ix, Label(b.ix[both[k]]))]
      other == [k \in DOMAIN both |-> Up(b.ix[both[k]]) # Up(a.ix[inA[k]])]
      d == [k \in DOMAIN free1 |-> a.t.d[free1[k]]] \o [k \in DOMAIN free2 |-> b.t.d[free2[k]]]
      sd == [k \in DOMAIN both |-> b.t.d[both[k]]]
      ca(c, s) == [k \in DOMAIN a.ix |-> IF \E j \in DOMAIN inA : inA[j] = k THEN s[CHOOSE j \in DOMAIN inA : inA[j] = k] ELSE c[CHOOSE j \in DOMAIN free1 : free1[j] = k]]
      cb(c, s) == [k \in DOMAIN b.ix |-> IF \E j \in DOMAIN both : both[j] = k THEN s[CHOOSE j \in DOMAIN both : both[j] = k] ELSE c[Len(free1) + (CHOOSE j \in DOMAIN free2 : free2[j] = k)]]
      el(c) == CSum(1 .. Vol(sd), [m \in 1 .. Vol(sd) |-> LET s == Coord(m, sd) IN CScale(Sgn(s, other), CMul(Elem(a.t, ca(c, s)), Elem(b.t, cb(c, s))))])
  IN [t |-> Make(d, el), ix |-> [k \in DOMAIN free1 |-> a.ix[free1[k]]] \o [k \in DOMAIN free2 |-> b.ix[free2[k]]]]
\* b's components brought into a's order of labels
Along(b, ix) == LET at(c) == Elem(b.t, [k \in DOMAIN b.ix |-> c[PosOf(ix, Label(b.ix[k]))]])
                IN Make([k \in DOMAIN ix |-> b.t.d[PosOf(b.ix, Label(ix[k]))]], at)
Plus(a, b, sg) == LET u == Along(b, a.ix) IN [t |-> T(a.t.d, [k \in DOMAIN a.t.v |-> CAdd(a.t.v[k], CScale(sg, u.v[k]))]), ix |-> a.ix]
Scaled(n, a) == [a EXCEPT !.t.v = [k \in DOMAIN @ |-> CMul(n, @[k])]]
RECURSIVE Ev(_, _)
Ev(e, ts) ==
  CASE e[1] = "T" -> [t |-> T(ts[e[2]].d, ts[e[2]].v), ix |-> e[3]]
    [] e[1] = "*" -> Prod(Ev(e[2], ts), Ev(e[3], ts))
    [] e[1] = "+" -> Plus(Ev(e[2], ts), Ev(e[3], ts), 1)
    [] e[1] = "-" -> Plus(Ev(e[2], ts), Ev(e[3], ts), -1)
    [] e[1] = "s" -> Scaled(e[2], Ev(e[3], ts))
    [] e[1] = "r" -> LET x == Ev(e[3], ts) IN [t |-> Along(x, e[2]), ix |-> e[2]]      \* reordered
\* ---- whole tensors
Unary(o) == CASE o.u = "neg"  -> [k \in DOMAIN o.t.v |-> CScale(-1, o.t.v[k])]
              [] o.u = "conj" -> [k \in DOMAIN o.t.v |-> <<o.t.v[k][1], -o.t.v[k][2]>>]
              [] o.u = "get"  -> o.t.v
Dot(a, b) == CSum(DOMAIN a.v, [k \in DOMAIN a.v |-> CScale(IF Vol(a.d) = 1 THEN 1 ELSE Sgn(Coord(k, a.d), [j \in DOMAIN a.d |-> TRUE]), CMul(a.v[k], b.v[k]))])
Inversions(c) == Cardinality({p \in (DOMAIN c) \X (DOMAIN c) : p[1] < p[2] /\ c[p[1]] > c[p[2]]})
Eps(n) == LET e(c) == IF \E i, j \in DOMAIN c : i # j /\ c[i] = c[j] THEN CZ ELSE <<IF Inversions(c) % 2 = 0 THEN 1 ELSE -1, 0>> IN Make([k \in 1..n |-> n], e)
\* inverse of a matrix times its determinant, and the determinant
Minor(m, r, c) == [i \in 1 .. (Len(m) - 1) |-> [j \in 1 .. (Len(m) - 1) |-> m[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]]]
RECURSIVE Det(_)
Det(m) == IF Len(m) = 0 THEN <<1, 0>> ELSE CSum(DOMAIN m, [j \in DOMAIN m |-> CScale(IF j % 2 = 1 THEN 1 ELSE -1, CMul(m[1][j], Det(Minor(m, 1, j))))])
Mat(t) == [i \in 1 .. t.d[1] |-> [j \in 1 .. t.d[1] |-> Elem(t, <<i - 1, j - 1>>)]]
Lead(m, k) == [i \in 1..k |-> [j \in 1..k |-> m[i][j]]]
Invertible(t) == \A k \in 1 .. t.d[1] : Det(Lead(Mat(t), k)) # CZ
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(n, d) == LET g == Gcd(TAbs(n), TAbs(d)) IN IF TAbs(d) = g THEN ToString(n \div d) ELSE ToString(n \div g) \o "/" \o ToString(d \div g)
Show(x, n) == <<Frac(x[1], n), Frac(x[2], n)>>
Inverse(t) == LET m == Mat(t) D == Det(m) n == D[1] * D[1] + D[2] * D[2]
              IN IF TAbs(D[1]) > 140 \/ TAbs(D[2]) > 140 \/ n > 20000 THEN "?" ELSE [i \in 1 .. t.d[1] |-> [j \in 1 .. t.d[1] |-> Show(CMul(CScale(IF (i + j) % 2 = 0 THEN 1 ELSE -1, Det(Minor(m, j, i))), <<D[1], -D[2]>>), n)]]
Plain(v) == [k \in DOMAIN v |-> Show(v[k], 1)]

\* ---- one tensor with symmetric storage: state [d, cls, v], cls the sets of positions whose order does not matter
Sort0(q) == LET RECURSIVE go(_, _)
                go(S, acc) == IF S = {} THEN acc ELSE LET k == CHOOSE x \in S : \A y \in S : q[x] < q[y] \/ (q[x] = q[y] /\ x <= y) IN go(S \ {k}, Append(acc, q[k]))
            IN go(DOMAIN q, <<>>)
\* the coordinates with every class of positions brought into order
Canon(c, cls) == [i \in DOMAIN c |-> IF \E S \in cls : i \in S THEN LET S == CHOOSE X \in cls : i \in X
                     q == SelectSeq([k \in DOMAIN c |-> k], LAMBDA k : k \in S)
                     vals == Sort0([k \in DOMAIN q |-> c[q[k]]])
                 IN vals[CHOOSE k \in DOMAIN q : q[k] = i] ELSE c[i]]
Merge(cls, S) == LET hit == {X \in cls : X \cap S # {}} IN (cls \ hit) \cup {S \cup UNION hit}
Seen(s) == <<[k \in 1 .. Vol(s.d) |-> Show(s.v[At(Canon(Coord(k, s.d), s.cls), s.d)], 1)], Cardinality({Canon(Coord(k, s.d), s.cls) : k \in 1 .. Vol(s.d)})>>
Sym0 == [d |-> <<>>, cls |-> {}, v |-> <<CZ>>]
Step(s, o) ==
  CASE o.f = "new" -> LET n == [d |-> o.d, cls |-> {}, v |-> [k \in 1 .. Vol(o.d) |-> CZ]] IN [s |-> n, o |-> Seen(n)]
    [] o.f = "sym" -> LET n == [s EXCEPT !.cls = Merge(@, {o.at[k] + 1 : k \in DOMAIN o.at})] IN [s |-> n, o |-> Seen(n)]
    [] o.f = "set" -> LET n == [s EXCEPT !.v = [@ EXCEPT ![At(Canon(o.c, s.cls), s.d)] = o.x]] IN [s |-> n, o |-> Seen(n)]
    \* the sum of the stored tensor and another one, both orders of writing, with the other's indices permuted by o.p
    [] o.f = "plus" -> LET full == T(s.d, [k \in 1 .. Vol(s.d) |-> s.v[At(Canon(Coord(k, s.d), s.cls), s.d)]])
                           ix == [k \in DOMAIN s.d |-> <<ToString(k), FALSE>>]
                           a == [t |-> full, ix |-> ix]
                           b == [t |-> T(s.d, o.v), ix |-> [k \in DOMAIN s.d |-> ix[o.p[k]]]]
                       IN [s |-> s, o |-> <<Plain(Plus(a, b, 1).t.v), Plain(Plus(b, a, -1).t.v)>>]
    [] o.f = "inv" -> LET full == T(s.d, [k \in 1 .. Vol(s.d) |-> s.v[At(Canon(Coord(k, s.d), s.cls), s.d)]]) IN [s |-> s, o |-> IF Invertible(full) THEN Inverse(full) ELSE "?"]
    \* ---- operations without state
    [] o.f = "calc" -> LET r == Ev(o.e, o.ts) IN [s |-> s, o |-> <<[k \in DOMAIN r.ix |-> r.ix[k][1]], r.t.d, Plain(r.t.v)>>]
    [] o.f = "unary" -> [s |-> s, o |-> Plain(Unary(o))]
    [] o.f = "dot"  -> [s |-> s, o |-> Show(Dot(o.a, o.b), 1)]
    [] o.f = "eps"  -> [s |-> s, o |-> Plain(Eps(o.n).v)]
    [] o.f = "one"  -> [s |-> s, o |-> LET id(c) == IF c[1] = c[2] THEN <<1, 0>> ELSE CZ IN Plain(Make(<<o.n, o.n>>, id).v)]
    [] o.f = "at"   -> [s |-> s, o |-> [k \in 1 .. Vol(o.d) |-> <<Coord(k, o.d), k - 1>>]]
    \* multiples and plain sums; both ways of writing each of them (whole tensors, indexed tensors) agree: the last entry
    [] o.f = "lin"  -> LET x(t) == Plain([k \in DOMAIN t.v |-> CMul(o.x, t.v[k])])
                           y(sg) == Plain([k \in DOMAIN o.a.v |-> CAdd(o.a.v[k], CScale(sg, o.b.v[k]))])
                       IN [s |-> s, o |-> <<x(o.a), x(o.a), Plain(o.a.v), y(1), y(-1), y(1), y(-1), TRUE>>]
    [] o.f = "match" -> [s |-> s, o |-> o.a.d = o.b.d]
    [] o.f = "matinv" -> [s |-> s, o |-> IF Invertible(o.t) THEN Inverse(o.t) ELSE "?"]
=============================================================================
