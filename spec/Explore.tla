------------------------------ MODULE Explore ------------------------------
(* Generic exploration frame.  A system module supplies the initial state    *)
(* Init0, the operations Ops(s) enabled in a state, and the transition       *)
(* Step(s, o) = [s |-> successor state, o |-> observable outcome].           *)
(* TLC explores the complete state graph up to Depth (h is hidden by View,   *)
(* so states merge) and Emit prints, for EVERY transition of that graph, one *)
(* behaviour from the initial state ending in that transition together with  *)
(* the outcomes the specification demands; the conformance driver replays    *)
(* each of them against the real code.                                       *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Init0, Ops(_), Step(_, _), Depth
VARIABLES st, h

Init == st = Init0 /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E o \in Ops(st) :
             LET r == Step(st, o) IN
               /\ st' = r.s
               /\ h'  = Append(h, <<o, r.o>>)
View == st
Emit == PrintT("@B " \o ToJson(h'))
=============================================================================
