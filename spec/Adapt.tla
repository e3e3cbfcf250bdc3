------------------------------- MODULE Adapt -------------------------------
(***************************************************************************)
(* Which functions fit as hook, condition or origin of a target, and which *)
(* arguments they get.  Parameter types are tags: "a" and "b" two          *)
(* different types (bound to types that are easily confused), "s" a slice, *)
(* which may be variadic in the last place, "i" mockey's GenericInfo.      *)
(* Every target with up to N parameters is combined with every function of *)
(* up to N + 2 parameters; the driver tries all of them on real functions. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N

VARIABLES t, phase

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>}
                  ELSE LET P == SeqsUpTo(S, n - 1) IN P \cup {Append(q, e) : q \in {p \in P : Len(p) = n - 1}, e \in S}
Sig(ins, v) == [ins |-> ins, v |-> v]
Sigs(S, n) == {Sig(q, FALSE) : q \in SeqsUpTo(S, n)} \cup {Sig(q, TRUE) : q \in {p \in SeqsUpTo(S, n) : p # <<>> /\ p[Len(p)] = "s"}}

Targets == {[ins |-> g.ins, v |-> g.v, g |-> b] : g \in Sigs({"a", "b", "s"}, N), b \in BOOLEAN}
Users == Sigs({"a", "b", "s", "i"}, N + 2)
Roles == {"to", "when", "origin"}

\* The forms a user function may have: its parameters, and which argument of the call each one gets (0: GenericInfo)
Full(x) == [ins |-> x.ins, map |-> [i \in DOMAIN x.ins |-> i]]
NoReceiver(x) == [ins |-> Tail(x.ins), map |-> [i \in 1..Len(x.ins)-1 |-> i + 1]]
Info(fo) == [ins |-> <<"i">> \o fo.ins, map |-> <<0>> \o fo.map]
Forms(x, role) ==
    LET plain == {Full(x)} \cup (IF x.ins = <<>> THEN {} ELSE {NoReceiver(x)}) IN
    plain \cup (IF x.g /\ role # "origin" THEN {Info(fo) : fo \in plain} ELSE {})
Fitting(x, u, role) == IF u.v # x.v THEN {} ELSE {fo \in Forms(x, role) : fo.ins = u.ins}

Users2(x) == {u \in Users : Len(u.ins) <= Len(x.ins) + 2}
Verdict(x, u, role) ==
    LET F == Fitting(x, u, role) IN
    [role |-> role, ins |-> u.ins, v |-> u.v, acc |-> F # {},
     map |-> IF F = {} THEN <<>> ELSE (CHOOSE fo \in F : TRUE).map, outs |-> "same"]
\* results that do not fit: a condition is rejected, a hook never yields anything
Outs(x) == {[role |-> "when", ins |-> x.ins, v |-> x.v, acc |-> o \in {"bool", "mybool"}, map |-> Full(x).map, outs |-> o]
               : o \in {"bool", "mybool", "int", "none", "two", "string"}}
           \cup {[role |-> "to", ins |-> x.ins, v |-> x.v, acc |-> FALSE, map |-> Full(x).map, outs |-> o]
               : o \in {"none", "fewer", "more", "other", "swapped"}}
           \cup {[role |-> r, ins |-> <<>>, v |-> FALSE, acc |-> FALSE, map |-> <<>>, outs |-> o]
               : r \in Roles, o \in {"nil", "value", "pointer"}}
Cases(x) == {Verdict(x, u, r) : u \in Users2(x), r \in Roles} \cup Outs(x)

Init == t \in Targets /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ t' = t

\* a function fits in at most one way, so the arguments it gets are determined
OneWay == \A u \in Users2(t), r \in Roles : Cardinality(Fitting(t, u, r)) <= 1
\* the full form and the form without receiver always fit; nothing else without GenericInfo does
FormsFit == \A r \in Roles : /\ Fitting(t, Sig(t.ins, t.v), r) # {}
                             /\ t.ins # <<>> /\ (t.v => Len(t.ins) > 1) => Fitting(t, Sig(Tail(t.ins), t.v), r) # {}
NonGeneric == ~t.g => \A u \in Users2(t), r \in Roles : (\E i \in DOMAIN u.ins : u.ins[i] = "i") => Fitting(t, u, r) = {}
\* every parameter that is passed on keeps its type
TypesKept == \A u \in Users2(t), r \in Roles : \A fo \in Fitting(t, u, r) :
                \A i \in DOMAIN u.ins : fo.map[i] # 0 => u.ins[i] = t.ins[fo.map[i]]
Emit == phase = 1 => PrintT(ToJson([t |-> t, us |-> Cases(t)]))
=============================================================================
