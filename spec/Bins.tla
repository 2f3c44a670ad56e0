-------------------------------- MODULE Bins --------------------------------
(* Adaptive binning of a sample: the sample is halved along one coordinate    *)
(* after another until a bin would be left with fewer than the required       *)
(* number of events.  Coordinates are integers; positions are kept times six. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
AbsB(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GcdB(_, _)
GcdB(a, b) == IF b = 0 THEN AbsB(a) ELSE GcdB(AbsB(b), AbsB(a) % AbsB(b))
Rat(n, d) == LET x == GcdB(n, d) IN <<n \div x, d \div x>>
RAdd(a, b) == LET x == GcdB(a[2], b[2]) IN Rat(a[1] * (b[2] \div x) + b[1] * (a[2] \div x), a[2] * (b[2] \div x))
RMul(a, b) == LET x == Rat(a[1], b[2]) y == Rat(b[1], a[2]) IN Rat(x[1] * y[1], x[2] * y[2])
\* insertion sort of a sequence of points by coordinate c
RECURSIVE Into(_, _, _)
Into(q, p, c) == IF q = <<>> THEN <<p>> ELSE IF p[c] < q[1][c] THEN <<p>> \o q ELSE <<q[1]>> \o Into(Tail(q), p, c)
RECURSIVE SortBy(_, _)
SortBy(q, c) == IF q = <<>> THEN <<>> ELSE Into(SortBy(SubSeq(q, 1, Len(q) - 1), c), q[Len(q)], c)
\* ---- the next coordinates to split: in turn while there are many events, by spread when there are few
Min2(a, b) == IF a < b THEN a ELSE b
\* times n^2: the variance of the distance to the nearest neighbour
Spread(q, c) == LET s == TLCEval(SortBy(q, c)) n == Len(s)
                    d == TLCEval([k \in 1..n |-> IF k = 1 THEN s[2][c] - s[1][c] ELSE IF k = n THEN s[n][c] - s[n - 1][c] ELSE Min2(s[k][c] - s[k - 1][c], s[k + 1][c] - s[k][c])])
                    RECURSIVE Su(_, _) Su(k, w) == IF k = 0 THEN 0 ELSE (IF w = 1 THEN d[k] ELSE d[k] * d[k]) + Su(k - 1, w)
                IN n * Su(n, 2) - Su(n, 1) * Su(n, 1)
RECURSIVE ByValue(_, _)
ByValue(S, v) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : v[x] >= v[y] IN <<m>> \o ByValue(S \ {m}, v)
Pow2(n) == IF n = 1 THEN 2 ELSE IF n = 2 THEN 4 ELSE IF n = 3 THEN 8 ELSE 32
\* c: dim, min, max (depth), order (a sequence or <<>>)
Many(c, q, depth) == Len(q) > c.min * Pow2(c.dim) /\ depth + c.dim < c.max
Queue(c, q, depth) == IF Many(c, q, depth) THEN (IF c.order = <<>> THEN [k \in 1..c.dim |-> k] ELSE c.order)
                      ELSE LET v == TLCEval([k \in 1..c.dim |-> Spread(q, k)]) IN ByValue(1..c.dim, v)
TiedQueue(c, q, depth) == ~Many(c, q, depth) /\ \E a, b \in 1..c.dim : a < b /\ Spread(q, a) = Spread(q, b)
\* ---- a split: the position (times six) and the number of events below it
Split(s, x) == LET n == Len(s) m == n \div 2 pos == IF n % 2 = 0 THEN 3 * (s[m][x] + s[m + 1][x]) ELSE 2 * (s[m][x] + s[m + 1][x] + s[m + 2][x])
                   k == IF pos > 6 * s[m + 1][x] THEN m + 1 ELSE m IN <<pos, k>>
Leaf(n) == [leaf |-> TRUE, n |-> n]
\* <<tree, number of leaves after it, whether an order was left to chance>>
RECURSIVE Grow(_, _, _, _, _)
Grow(c, q, iq, depth, n) ==
  IF Len(q) < 2 * c.min \/ depth > c.max THEN <<Leaf(n), n + 1, FALSE>>
  ELSE LET x == iq[1] s == TLCEval(SortBy(q, x)) sp == TLCEval(Split(s, x)) lo == SubSeq(s, 1, sp[2]) hi == SubSeq(s, sp[2] + 1, Len(s))
           again == Len(iq) = 1
           nq == TLCEval(IF again THEN Queue(c, q, depth + 1) ELSE Tail(iq))
           l == TLCEval(Grow(c, lo, nq, depth + 1, n)) r == TLCEval(Grow(c, hi, nq, depth + 1, l[2]))
           tie == s[sp[2]][x] = s[sp[2] + 1][x]
       IN <<[leaf |-> FALSE, x |-> x, pos |-> sp[1], lo |-> l[1], hi |-> r[1]], r[2], l[3] \/ r[3] \/ tie \/ (again /\ TiedQueue(c, q, depth + 1))>>
Tree(c, q) == LET g == Grow(c, q, Queue(c, q, 0), 0, 0) IN <<g[1], g[2], g[3] \/ TiedQueue(c, q, 0)>>
RECURSIVE BinOf(_, _)
BinOf(t, p) == IF t.leaf THEN t.n ELSE IF 6 * p[t.x] < t.pos THEN BinOf(t.lo, p) ELSE BinOf(t.hi, p)
\* ---- laws: no bin is empty or too small; bins are not divisible unless the depth is exhausted
Held(c, q) == LET t == Tree(c, q) IN t[3] \/ \A b \in 0..t[2] - 1 : LET n == Cardinality({k \in DOMAIN q : BinOf(t[1], q[k]) = b}) IN Min2(c.min, Len(q)) <= n /\ (c.max < 90 \/ n < 2 * c.min)
\* ---- coordinates of three-body events with momenta (x, y, z, E)
Sq(p) == p[4] * p[4] - p[1] * p[1] - p[2] * p[2] - p[3] * p[3]
Plus(a, b) == [i \in 1..4 |-> a[i] + b[i]]
Dalitz(e) == <<Sq(Plus(e[1], e[2])), Sq(Plus(e[2], e[3]))>>
Five(e) == <<Sq(Plus(Plus(e[2], e[3]), e[4])), Sq(Plus(e[1], e[2])), Sq(Plus(e[1], e[3])), Sq(Plus(e[3], e[4])), Sq(Plus(Plus(e[1], e[2]), e[3]))>>
Coordinates(c, e) == CASE c.kind = "xy" -> e [] c.kind = "dalitz" -> Dalitz(e) [] c.kind = "five" -> Five(e)
\* ---- the machine: a binning, the labels of its bins, and the file it was written to
B0 == [t |-> <<>>, n |-> 0, lab |-> <<>>, file |-> <<>>]
None == 999
BStep(s, o) ==
  CASE o.f = "build" -> LET q == TLCEval([k \in DOMAIN o.evs |-> Coordinates(o.c, o.evs[k])]) t == TLCEval(Tree(o.c, q)) IN
         IF t[3] THEN [s |-> B0, o |-> "?"] ELSE [s |-> [s EXCEPT !.t = t[1], !.n = t[2], !.lab = [k \in 1..t[2] |-> None]], o |-> <<t[2], [k \in DOMAIN q |-> BinOf(t[1], q[k])]>>]
    [] o.f = "label" -> [s |-> [s EXCEPT !.lab = [k \in DOMAIN @ |-> (k * o.k) % 3]], o |-> 1]
    [] o.f = "save" -> [s |-> [s EXCEPT !.file = <<s.t, s.n, s.lab>>], o |-> 1]
    [] o.f \in {"load", "reload"} -> [s |-> [s EXCEPT !.t = s.file[1], !.n = s.file[2], !.lab = s.file[3]], o |-> s.file[2]]
    [] o.f = "find" -> [s |-> s, o |-> [k \in DOMAIN o.evs |-> LET b == BinOf(s.t, Coordinates(o.c, o.evs[k])) IN <<b, s.lab[b + 1]>>]]
\* ---- chi-squared between a sample of weighted events and a weighted simulation, both in the bins of the sample
RECURSIVE SumW(_, _, _)
SumW(w, S, p) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN (IF p = 1 THEN w[k] ELSE w[k] * w[k]) + SumW(w, S \ {k}, p)
\* f * weight / genPdf of the simulation as integers
\* the simulation is scaled to the sample
Scale(wd, wm) == Rat(SumW(wd, DOMAIN wd, 1), SumW(wm, DOMAIN wm, 1))
Chi2(t, n, pd, wd, pm, wm) ==
  LET R == Scale(wd, wm) D == R[1] M == R[2]
      In(p, b) == {k \in DOMAIN p : BinOf(t, p[k]) = b}
      Term(b) == LET d == SumW(wd, In(pd, b), 1) d2 == SumW(wd, In(pd, b), 2) m == SumW(wm, In(pm, b), 1) m2 == SumW(wm, In(pm, b), 2) x == d * M - m * D IN RMul(Rat(x, 1), Rat(x, d2 * M * M + m2 * D * D))
      RECURSIVE All(_) All(b) == IF b < 0 THEN <<0, 1>> ELSE RAdd(Term(b), All(b - 1))
  IN All(n - 1)
=============================================================================
