------------------------------ MODULE Options ------------------------------
(* The run-time options: option files (with comments, brace blocks, quoting  *)
(* and nested imports), command lines and single arguments are folded into a *)
(* table key -> tokens plus the order of first definition; typed named       *)
(* parameters are views of that table with defaults.                         *)
EXTENDS Strings, FiniteSets

NoOpts == [keys |-> <<>>, val |-> <<>>, help |-> FALSE, np |-> <<>>]

(* -------------------------------------------------------- tokenising a line *)
\* a: tokens so far, cur: the open token ("" if none), q: inside quotes, d: brace depth, stop
Blank(c) == c = " " \/ c = "\t"
Push(a) == IF a.cur = "" THEN a ELSE [a EXCEPT !.toks = Append(@, a.cur), !.cur = ""]
RECURSIVE Scan(_, _, _)
Scan(s, i, a) ==
  IF i > Len(s) THEN IF a.q THEN a ELSE Push(a)
  ELSE LET c == Ch(s, i) IN
       IF ~a.q /\ c = "#" THEN Push(a)                       \* the rest is a comment
       ELSE LET b == IF (~a.q /\ Blank(c)) \/ c = "\"" THEN Push(a) ELSE [a EXCEPT !.cur = @ \o c]
            IN Scan(s, i + 1,
                 [b EXCEPT !.q = IF c = "\"" THEN ~@ ELSE @,
                           !.d = IF c = "{" /\ ~a.q THEN @ + 1 ELSE IF c = "}" /\ ~a.q THEN @ - 1 ELSE @])
Tokens(line, d) == LET r == Scan(line, 1, [toks |-> <<>>, cur |-> "", q |-> FALSE, d |-> d]) IN [toks |-> r.toks, d |-> r.d]

(* ----------------------------------------------------------- the key table *)
KeyPos(s, k) == IF \E n \in DOMAIN s.keys : s.keys[n] = k THEN CHOOSE n \in DOMAIN s.keys : s.keys[n] = k ELSE 0
Define(s, toks) == LET n == KeyPos(s, toks[1]) IN
                   IF n = 0 THEN [s EXCEPT !.keys = Append(@, toks[1]), !.val = Append(@, toks)]
                   ELSE [s EXCEPT !.val[n] = toks]

NoBraces(t) == SelectSeq(t, LAMBDA x : x # "{" /\ x # "}")
FileLines(fs, name) == IF \E k \in DOMAIN fs : fs[k][1] = name THEN fs[CHOOSE k \in DOMAIN fs : fs[k][1] = name][2] ELSE <<>>
Skipped(l) == l = "" \/ Ch(l, 1) \in {"#", "*"}

RECURSIVE ImportLines(_, _, _, _, _, _), AddTokens(_, _, _)
\* one complete definition
AddTokens(s, toks, fs) ==
   IF toks = <<>> THEN s
   ELSE IF toks[1] = "Import"
        THEN IF Len(toks) = 2 THEN ImportLines(s, fs, FileLines(fs, toks[2]), 1, <<>>, 0) ELSE s
        ELSE Define(s, toks)
\* cur/d: tokens of the definition being collected and its open braces
ImportLines(s, fs, lines, i, cur, d) ==
   IF i > Len(lines) THEN s
   ELSE IF Skipped(lines[i]) THEN ImportLines(s, fs, lines, i + 1, cur, d)
   ELSE LET t == Tokens(lines[i], d) all == cur \o t.toks IN
        IF t.toks = <<>> THEN ImportLines(s, fs, lines, i + 1, all, t.d)
        ELSE IF t.d # 0 THEN ImportLines(s, fs, lines, i + 1, all, t.d)
        ELSE ImportLines(AddTokens(s, NoBraces(all), fs), fs, lines, i + 1, <<>>, 0)
Import(s, fs, name) == ImportLines(s, fs, FileLines(fs, name), 1, <<>>, 0)
AddArg(s, text, fs) == AddTokens(s, Tokens(text, 0).toks, fs)

RECURSIVE CommandLine(_, _, _, _)
CommandLine(s, fs, av, i) ==
   IF i > Len(av) THEN s
   ELSE LET t == av[i] IN
        IF ~Contains(t, "--") THEN CommandLine(Import(s, fs, t), fs, av, i + 1)
        ELSE LET eq == IF Contains(t, "=") THEN First(t, "=") ELSE 0
                 takes == eq = 0 /\ i < Len(av) /\ ~Contains(av[i + 1], "--")
                 key == IF eq > 0 THEN Sub(t, 3, eq - 1) ELSE Rest(t, 3)
                 val == IF eq > 0 THEN Rest(t, eq + 1) ELSE IF takes THEN av[i + 1] ELSE "1"
                 s1 == AddArg(s, key \o " " \o val, fs)
             IN CommandLine([s1 EXCEPT !.help = @ \/ key = "help"], fs, av, IF takes THEN i + 2 ELSE i + 1)

(* ------------------------------------------------------------ typed look-up *)
\* numbers that are not plain integers, as the driver prints them; anything else does not parse
Reals == ("2.5" :> "2.5") @@ ("1e3" :> 1000) @@ (".5" :> "0.5") @@ ("-1.25" :> "-1.25") @@ ("1E-1" :> "0.1")
Flags == <<"Free", "Hide", "Fix", "CompileTimeConstant", "Blind">>
Zero(ty) == CASE ty = "string" -> "" [] ty = "bool" -> FALSE [] ty = "flag" -> "Free" [] OTHER -> 0
\* <<parses, value>>
Convert(ty, w) ==
  CASE ty = "string" -> <<TRUE, w>>
    [] ty = "bool"   -> <<w \in {"0", "1", "true", "false"}, w \in {"1", "true"}>>
    [] ty = "flag"   -> IF IsInt(w) THEN <<TRUE, IF IntVal(w) \in 0..4 THEN Flags[IntVal(w) + 1] ELSE "Invalid">>
                        ELSE <<TRUE, IF \E k \in 1..5 : Flags[k] = w THEN w ELSE "Invalid">>
    [] ty = "double" -> IF IsInt(w) THEN <<TRUE, IntVal(w)>> ELSE IF w \in DOMAIN Reals THEN <<TRUE, Reals[w]>> ELSE <<FALSE, 0>>
    [] ty \in {"int", "uint", "size"} -> IF IsInt(w) THEN <<TRUE, IntVal(w)>> ELSE <<FALSE, 0>>
\* an option without values keeps the default; a value that does not parse leaves the type's zero
Typed(s, ty, key, def) ==
  LET n == KeyPos(s, key) IN
  IF n = 0 \/ Len(s.val[n]) < 2 THEN def
  ELSE [k \in 1..(Len(s.val[n]) - 1) |-> LET c == Convert(ty, s.val[n][k + 1]) IN IF c[1] THEN c[2] ELSE Zero(ty)]
\* consecutively numbered options key0, key1, ... until one is missing (or equals the default)
RECURSIVE Numbered(_, _, _, _, _)
Numbered(s, ty, key, k, acc) ==
  LET v == Typed(s, ty, key \o ToString(k), <<Zero(ty)>>)[1] IN
  IF v = Zero(ty) THEN acc ELSE Numbered(s, ty, key, k + 1, Append(acc, v))

(* a named parameter object of the caller: its own value list *)
SetAt(q, i, v, z) == [k \in 1..(IF i + 1 > Len(q) THEN i + 1 ELSE Len(q)) |-> IF k = i + 1 THEN v ELSE IF k <= Len(q) THEN q[k] ELSE z]

Res(s, r) == [s |-> s, r |-> r]
Do(s, o) == CASE o.f = "import" -> Res(Import(s, o.files, o.name), TRUE)
              [] o.f = "cli"    -> Res(CommandLine(s, o.files, o.argv, 1), TRUE)
              [] o.f = "arg"    -> Res(AddArg(s, o.text, o.files), TRUE)
              [] o.f = "get"    -> Res(s, Typed(s, o.ty, o.key, o.def))
              [] o.f = "numbered" -> Res(s, Numbered(s, o.ty, o.key, 0, <<>>))
              [] o.f = "np"     -> LET v == Typed(s, "int", o.key, o.def) IN Res([s EXCEPT !.np = v], v)
              [] o.f = "npset"  -> LET v == SetAt(s.np, o.i, o.x, 0) IN Res([s EXCEPT !.np = v], v)
              [] o.f = "npall"  -> Res([s EXCEPT !.np = o.xs], o.xs)
              [] o.f = "npget"  -> Res(s, IF o.i >= 0 /\ o.i < Len(s.np) THEN s.np[o.i + 1] ELSE "throws")

(* result; ordered listing; number of keys; look-up of the pool; help requested *)
Observe(s, r, pool) == <<r, s.val, Len(s.keys),
                         [k \in DOMAIN pool |-> IF KeyPos(s, pool[k]) = 0 THEN <<>> ELSE s.val[KeyPos(s, pool[k])]], s.help>>

TableOK(s) == /\ Len(s.keys) = Len(s.val)
              /\ \A k \in DOMAIN s.keys : s.val[k] # <<>> /\ s.val[k][1] = s.keys[k]
              /\ \A j, k \in DOMAIN s.keys : j # k => s.keys[j] # s.keys[k]
=============================================================================
