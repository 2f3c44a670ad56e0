-------------------------------- MODULE Expr --------------------------------
(* Meaning of expression trees: what ordinary complex arithmetic gives.      *)
(* A tree is a sequence whose head names the node:                           *)
(*   <<"c", n, d, n', d'>> constant n/d + i n'/d'   <<"p", k>> parameter k    *)
(*   <<"pi">>, <<"e">>     <<op, t...>>            operator applied to trees *)
(*   <<"v", k>> event variable k    <<"z">> the complex parameter (p8, p9)   *)
(* env[k] is the current value of parameter k.                               *)
EXTENDS Num
Un(f, a) ==
   CASE f = "neg" -> Neg(a) [] f = "sqrt" -> SqrtV(a) [] f = "isqrt" -> Div(IntV(1), SqrtV(a)) [] f = "abs" -> AbsV(a) [] f = "norm" -> NormV(a)
     [] f = "conj" -> Conj(a) [] f = "real" -> RealV(a) [] f = "imag" -> ImagV(a) [] f = "exp" -> ExpV(a) [] f = "log" -> LogV(a)
     [] f = "sin" -> SinV(a) [] f = "cos" -> CosV(a) [] f = "tan" -> TanV(a) [] f = "asin" -> ASinV(a) [] f = "acos" -> ACosV(a) [] f = "atan" -> ATanV(a)
     [] f = "cse" -> a [] f = "csens" -> a [] f = "simp" -> a [] f = "simpx" -> a
     [] f = "safe_sqrt" -> (IF CmpReal(a, IntV(0)) /\ IsReal(a) THEN IF QLt(Z, a.re) THEN SqrtV(a) ELSE IntV(0) ELSE U)
     [] f = "complex_sqrt" -> (IF CmpReal(a, IntV(0)) /\ IsReal(a) /\ a.x /\ a.re # Z THEN IF QLt(Z, a.re) THEN SqrtV(a) ELSE Mul(IV, SqrtV(Neg(a))) ELSE U)
     [] OTHER -> U
Bin(f, a, b) ==
   CASE f = "+" -> Add(a, b) [] f = "-" -> SubV(a, b) [] f = "*" -> Mul(a, b) [] f = "/" -> Div(a, b) [] f = "^" -> PowV(a, b)
     [] f = "+=" -> Add(a, b) [] f = "-=" -> SubV(a, b) [] f = "*=" -> Mul(a, b) [] f = "/=" -> Div(a, b)
     [] f = ">" -> Gt(a, b) [] f = "<" -> Lt(a, b) [] f = ">=" -> Ge(a, b) [] f = "<=" -> Le(a, b) [] f = "==" -> EqV(a, b)
     [] f = "&&" -> AndV(a, b) [] f = "||" -> OrV(a, b) [] f = "fmod" -> FmodV(a, b) [] f = "atan2" -> ATan2V(a, b) [] OTHER -> U
\* derivative of the elementary function f at a
Deriv(f, a) ==
   CASE f = "log" -> Div(IntV(1), a) [] f = "sqrt" -> Div(IntV(1), Mul(IntV(2), SqrtV(a))) [] f = "exp" -> ExpV(a) [] f = "sin" -> CosV(a) [] f = "cos" -> Neg(SinV(a))
     [] f = "tan" -> LET c == CosV(a) IN IF IsReal(a) /\ OnlyPi(a) /\ Q(a.pr[1] % a.pr[2], a.pr[2]) \in {<<1, 4>>, <<3, 4>>} THEN IntV(2) ELSE IF IsV(c) /\ ~IsZero(c) THEN Div(IntV(1), Mul(c, c)) ELSE U
     [] f = "asin" -> Div(IntV(1), SqrtV(SubV(IntV(1), Mul(a, a)))) [] f = "acos" -> Div(IntV(-1), SqrtV(SubV(IntV(1), Mul(a, a))))
     [] f = "atan" -> Div(IntV(1), Add(IntV(1), Mul(a, a))) [] f = "isqrt" -> LET s == SqrtV(a) IN Div(IntV(-1), Mul(IntV(2), Mul(s, a))) [] OTHER -> U
RECURSIVE Ev(_, _)
Ev(t, env) ==
   CASE t[1] = "c" -> G(Q(t[2], t[3]), Q(t[4], t[5]), Dyadic(Q(t[2], t[3])) /\ Dyadic(Q(t[4], t[5])))
     [] t[1] = "p" -> env[t[2]]
     [] t[1] = "v" -> env[9 + t[2]]
     [] t[1] = "z" -> (LET a == env[8] b == env[9] IN IF IsV(a) /\ IsV(b) THEN G(a.re, b.re, a.x /\ b.x) ELSE U)
     [] t[1] = "pi" -> PiV
     [] t[1] = "e" -> EV
     [] t[1] = "?" -> TernV(Ev(t[2], env), Ev(t[3], env), Ev(t[4], env))
     [] t[1] = "fpow" -> (LET a == Ev(t[2], env) IN IF ~IsV(a) THEN U ELSE IF t[3] >= 0 THEN InexactV(PowN(a, t[3])) ELSE InexactV(Div(IntV(1), PowN(a, -t[3]))))
     [] t[1] = "d" -> Deriv(t[2], Ev(t[3], env))
     [] Len(t) = 2 -> Un(t[1], Ev(t[2], env))
     [] Len(t) = 3 -> Bin(t[1], Ev(t[2], env), Ev(t[3], env))
EnvOf(ns) == [k \in DOMAIN ns |-> R(ns[k][1], ns[k][2])]
=============================================================================
