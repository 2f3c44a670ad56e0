------------------------------- MODULE Params -------------------------------
(* The fit-parameter store: parameter objects (named, flagged values with    *)
(* start value, step, limits, current value and errors; or aliases, i.e.     *)
(* live linear functions of another parameter), the ordered set they are     *)
(* registered in, and the minimiser's index mapping.                         *)
(*                                                                           *)
(* state  s.objs : sequence of every parameter object ever created           *)
(*        s.list : the set's members, as object numbers in list order        *)
(*        s.map  : minimiser index -> list position                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [objs |-> <<>>, list |-> <<>>, map |-> <<>>]

Range(q) == {q[k] : k \in DOMAIN q}
None == 0
\* the member with a given name (names of members are unique: see UniqueNames)
Lookup(s, n) == IF \E i \in Range(s.list) : s.objs[i].name = n
                THEN CHOOSE i \in Range(s.list) : s.objs[i].name = n ELSE None

NewObj(o) == [name |-> o.n, flag |-> o.flag, m0 |-> o.m, s0 |-> o.s, lo |-> o.lo, hi |-> o.hi,
              v |-> o.m, e |-> o.s, ep |-> -9999, en |-> -9999, mi |-> -1, t |-> 0, k |-> 0, c |-> 0]
NewAlias(o) == [name |-> o.n, flag |-> "Hide", m0 |-> 0, s0 |-> 0, lo |-> 0, hi |-> 0,
                v |-> 0, e |-> 0, ep |-> 0, en |-> 0, mi |-> -1, t |-> o.t, k |-> o.k, c |-> o.c]

RECURSIVE Mean(_, _)
Mean(s, i) == LET p == s.objs[i] IN IF p.t = 0 THEN p.v ELSE p.k * Mean(s, p.t) + p.c

Res(s, r) == [s |-> s, r |-> r]
Put(s, i, p) == [s EXCEPT !.objs[i] = p]

(* ---------------------------------------------------------------- actions *)
Create(s, p) == [s EXCEPT !.objs = Append(@, p)]
\* registering an object: refused, without effect, when its name is taken
Register(s, i) == IF Lookup(s, s.objs[i].name) # None THEN Res(s, FALSE)
                  ELSE Res([s EXCEPT !.list = Append(@, i)], TRUE)
\* add by name returns the member carrying that name afterwards.  The object is only
\* numbered when it is registered (a refused one is never seen by the caller).
AddNamed(s, o) == IF Lookup(s, o.n) # None THEN Res(s, Lookup(s, o.n))
                  ELSE LET c == Create(s, NewObj(o)) IN Res([c EXCEPT !.list = Append(@, Len(c.objs))], Len(c.objs))
AddPtr(s, o)   == LET c == Create(s, NewObj(o)) IN Register(c, Len(c.objs))
AddAlias(s, o) == LET c == Create(s, NewAlias(o)) IN Register(c, Len(c.objs))
AddAgain(s, o) == Register(s, o.i)
Unregister(s, o) == IF o.i \in Range(s.list)
                    THEN Res([s EXCEPT !.list = SelectSeq(@, LAMBDA x : x # o.i), !.map = <<>>], TRUE)
                    ELSE Res(s, FALSE)
Rename(s, o) == LET i == Lookup(s, o.n) IN
                IF i = None \/ o.n = o.to \/ Lookup(s, o.to) # None THEN Res(s, FALSE)
                ELSE Res([s EXCEPT !.objs[i].name = o.to], TRUE)
SetVal(s, o)  == Res([s EXCEPT !.objs[o.i].v = o.x], TRUE)
SetInit(s, o) == Res([s EXCEPT !.objs[o.i].m0 = o.x, !.objs[o.i].v = o.x,
                               !.objs[o.i].s0 = IF o.s = -1 THEN @ ELSE o.s], TRUE)
SetStep(s, o) == Res([s EXCEPT !.objs[o.i].s0 = o.x], TRUE)
ScaleStep(s, o) == Res([s EXCEPT !.objs[o.i].s0 = @ * o.x, !.objs[o.i].e = @ * o.x], TRUE)
SetLimits(s, o) == Res([s EXCEPT !.objs[o.i].lo = o.lo, !.objs[o.i].hi = o.hi], TRUE)
SetResult(s, o) == Res([s EXCEPT !.objs[o.i].v = o.x, !.objs[o.i].e = o.e, !.objs[o.i].en = o.en, !.objs[o.i].ep = o.ep], TRUE)
FixIt(s, o)  == Res([s EXCEPT !.objs[o.i].flag = "Fix"], TRUE)
FreeIt(s, o) == Res([s EXCEPT !.objs[o.i].flag = "Free"], TRUE)
ResetObj(p) == [p EXCEPT !.v = p.m0, !.e = p.s0, !.ep = -9999, !.en = -9999]
ResetOne(s, o) == Res(Put(s, o.i, ResetObj(s.objs[o.i])), TRUE)
ResetAll(s) == Res([s EXCEPT !.objs = [i \in DOMAIN @ |-> IF i \in Range(s.list) THEN ResetObj(@[i]) ELSE @[i]]], TRUE)
\* o.names / o.xs : another parameter set; members take the values of their namesakes there
SetFrom(s, o) == Res([s EXCEPT !.objs = [i \in DOMAIN @ |->
                       IF i \in Range(s.list) /\ \E k \in DOMAIN o.names : o.names[k] = @[i].name
                       THEN [@[i] EXCEPT !.v = o.xs[CHOOSE k \in DOMAIN o.names : o.names[k] = s.objs[i].name]] ELSE @[i]]], TRUE)
\* o.pos[k] (0-based position) is steered by minimiser variable k-1
SetMapping(s, o) == Res([s EXCEPT !.map = o.pos,
                       !.objs = [i \in DOMAIN @ |->
                         IF \E k \in DOMAIN o.pos : s.list[o.pos[k] + 1] = i
                         THEN [@[i] EXCEPT !.mi = (CHOOSE k \in DOMAIN o.pos : s.list[o.pos[k] + 1] = i) - 1] ELSE @[i]]], TRUE)
FromMinuit(s, o) == Res([s EXCEPT !.objs = [i \in DOMAIN @ |->
                         IF \E k \in DOMAIN s.map : s.list[s.map[k] + 1] = i
                         THEN [@[i] EXCEPT !.v = o.xs[CHOOSE k \in DOMAIN s.map : s.list[s.map[k] + 1] = i]] ELSE @[i]]], TRUE)
\* every object takes the variable it was mapped to, if any
FromState(s, o) == Res([s EXCEPT !.objs = [i \in DOMAIN @ |-> IF @[i].mi # -1 /\ @[i].mi + 1 \in DOMAIN o.xs
                                                             THEN [@[i] EXCEPT !.v = o.xs[s.objs[i].mi + 1]] ELSE @[i]]], TRUE)
IndexSet(s, o) == Res([s EXCEPT !.objs[s.list[o.pos + 1]].v = o.x], TRUE)

(* Printing: a blind parameter's printed form does not depend on its value,  *)
(* any other's does; hidden ones are left out of the short listing.          *)
Shown(s) == [k \in DOMAIN s.list |-> LET p == s.objs[s.list[k]] IN
               <<p.flag # "Blind" /\ p.t = 0, p.flag # "Hide">>]

Do(s, o) == CASE o.f = "add"      -> AddNamed(s, o)
              [] o.f = "addget"   -> AddNamed(s, o)
              [] o.f = "addptr"   -> AddPtr(s, o)
              [] o.f = "alias"    -> AddAlias(s, o)
              [] o.f = "readd"    -> AddAgain(s, o)
              [] o.f = "unreg"    -> Unregister(s, o)
              [] o.f = "rename"   -> Rename(s, o)
              [] o.f = "setval"   -> SetVal(s, o)
              [] o.f = "setinit"  -> SetInit(s, o)
              [] o.f = "setstep"  -> SetStep(s, o)
              [] o.f = "scale"    -> ScaleStep(s, o)
              [] o.f = "limits"   -> SetLimits(s, o)
              [] o.f = "result"   -> SetResult(s, o)
              [] o.f = "fix"      -> FixIt(s, o)
              [] o.f = "free"     -> FreeIt(s, o)
              [] o.f = "reset1"   -> ResetOne(s, o)
              [] o.f = "reset"    -> ResetAll(s)
              [] o.f = "setfrom"  -> SetFrom(s, o)
              [] o.f = "mapping"  -> SetMapping(s, o)
              [] o.f = "minuit"   -> FromMinuit(s, o)
              [] o.f = "state"    -> FromState(s, o)
              [] o.f = "index"    -> IndexSet(s, o)
              [] o.f = "print"    -> Res(s, Shown(s))

(* ------------------------------------------------------------ observation *)
(* result; list (number, name); what every name of the pool resolves to, by  *)
(* each lookup route; size; every object's accessors.                        *)
B(x) == IF x THEN 1 ELSE 0
ObsObj(s, i) == LET p == s.objs[i] IN
   <<p.name, p.flag, Mean(s, i), p.m0, p.s0, p.lo, p.hi, p.e, p.ep, p.en, p.mi,
     B(p.flag \in {"Fix", "CompileTimeConstant"}), B(p.flag = "Free"), B(p.flag = "Blind")>>
Observe(s, r, names) ==
   <<r, [k \in DOMAIN s.list |-> <<s.list[k], s.objs[s.list[k]].name>>], Len(s.list),
     [k \in DOMAIN names |-> LET i == Lookup(s, names[k]) IN <<i, i, i, i>>],
     [i \in DOMAIN s.objs |-> ObsObj(s, i)]>>

(* ------------------------------------------------- invariants of the store *)
UniqueNames(s) == \A j, k \in DOMAIN s.list : j # k => s.objs[s.list[j]].name # s.objs[s.list[k]].name
ListedOnce(s) == \A j, k \in DOMAIN s.list : j # k => s.list[j] # s.list[k]
LookupTotal(s) == \A k \in DOMAIN s.list : Lookup(s, s.objs[s.list[k]].name) = s.list[k]
MapValid(s) == \A k \in DOMAIN s.map : s.map[k] < Len(s.list)
MappedOnce(s) == \A j, k \in DOMAIN s.map : j # k => s.map[j] # s.map[k]
StoreOK(s) == UniqueNames(s) /\ ListedOnce(s) /\ LookupTotal(s) /\ MapValid(s) /\ MappedOnce(s)
=============================================================================
