------------------------------ MODULE Returns ------------------------------
(***************************************************************************)
(* What Return delivers: for every list of result types and every list of  *)
(* given values, either the values converted to the result types, or a     *)
(* panic.  A type is described by what Go's conversion rules look at.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth   \* 1: lists of two only over Few; 2: over Some

VARIABLES outs, phase

\* named; class; the underlying type (struct tags left out); elem and len of composites; direction of channels; methods
B(named, cls, under, ms) == [named |-> named, cls |-> cls, under |-> under, elem |-> "", n |-> 0, dir |-> "", base |-> "", ms |-> ms]
Slice(named, elem) == [B(named, "slice", "[]" \o elem, {}) EXCEPT !.elem = elem]
Array(n, elem) == [B(FALSE, "array", "[" \o ToString(n) \o "]" \o elem, {}) EXCEPT !.elem = elem, !.n = n]
\* base: the underlying type of the element
Ptr(elem, base, ms) == [B(FALSE, "ptr", "*" \o elem, ms) EXCEPT !.elem = elem, !.base = base]
PArray(n, elem) == [Ptr("[" \o ToString(n) \o "]" \o elem, "[" \o ToString(n) \o "]" \o elem, {}) EXCEPT !.n = n, !.base = elem, !.cls = "parray"]
Chan(named, dir, elem) == [B(named, "chan", dir \o " " \o elem, {}) EXCEPT !.dir = dir, !.elem = elem]
Iface(ms, named) == B(named, "iface", "interface", ms)

Types ==
  [ int |-> B(TRUE, "int", "int", {}), MyInt |-> B(TRUE, "int", "int", {"String"}), int8 |-> B(TRUE, "int", "int8", {}),
    uint64 |-> B(TRUE, "int", "uint64", {}), uintptr |-> B(TRUE, "int", "uintptr", {}), rune |-> B(TRUE, "int", "int32", {}),
    float64 |-> B(TRUE, "float", "float64", {}), float32 |-> B(TRUE, "float", "float32", {}),
    complex128 |-> B(TRUE, "complex", "complex128", {}), complex64 |-> B(TRUE, "complex", "complex64", {}),
    bool |-> B(TRUE, "bool", "bool", {}), adBool |-> B(TRUE, "bool", "bool", {}),
    string |-> B(TRUE, "string", "string", {}), MyStr |-> B(TRUE, "string", "string", {"String", "GoString"}),
    bytes |-> Slice(FALSE, "byte"), runes |-> Slice(FALSE, "rune"), rtBytes |-> Slice(TRUE, "byte"),
    ints |-> Slice(FALSE, "int"), adSlice |-> Slice(TRUE, "int"), myints |-> Slice(FALSE, "MyInt"),
    arr2 |-> Array(2, "int"), arr1 |-> Array(1, "int"), parr1 |-> PArray(1, "int"), barr |-> Array(1, "byte"),
    xErr |-> Ptr("xErr", "struct{x int}", {"Error", "M"}), Small |-> Ptr("Small", "struct{A int; B string}", {"String"}),
    rtSmall |-> Ptr("rtSmall", "struct{A int; B string}", {}), nearT |-> B(TRUE, "struct", "struct{A, B int}", {}),
    near2T |-> B(TRUE, "struct", "struct{A, B int}", {}), anonT |-> B(FALSE, "struct", "struct{A, B int}", {}),
    tag1 |-> B(TRUE, "struct", "struct{A int}", {}), tag2 |-> B(FALSE, "struct", "struct{A int}", {}),
    fn |-> B(FALSE, "func", "func(int) int", {}), adFunc |-> B(TRUE, "func", "func(int) int", {}), fn2 |-> B(FALSE, "func", "func(MyInt) int", {}),
    chanb |-> Chan(FALSE, "both", "int"), chanr |-> Chan(FALSE, "recv", "int"), rtChan |-> Chan(TRUE, "both", "int"), rtChanR |-> Chan(TRUE, "recv", "int"),
    map |-> B(FALSE, "map", "map[string]int", {}), rtMap |-> B(TRUE, "map", "map[string]int", {}), map2 |-> B(FALSE, "map", "map[string]MyInt", {}),
    any |-> Iface({}, FALSE), error |-> Iface({"Error"}, TRUE), stringer |-> Iface({"String"}, TRUE), nearI |-> Iface({"Error"}, TRUE),
    both |-> Iface({"Error", "M"}, FALSE) ]
Names == DOMAIN Types
Concrete == {t \in Names : Types[t].cls # "iface"}

Identical(v, t) == v = t
Assignable(v, t) ==
    LET V == Types[v]  T == Types[t] IN
    \/ Identical(v, t)
    \/ V.cls # "iface" /\ T.cls # "iface" /\ V.under = T.under /\ (~V.named \/ ~T.named) /\ ~(V.cls = "struct" /\ {v, t} = {"tag1", "tag2"})
    \/ T.cls = "iface" /\ T.ms \subseteq V.ms
    \/ V.cls = "chan" /\ T.cls = "chan" /\ V.dir = "both" /\ V.elem = T.elem /\ (~V.named \/ ~T.named)
Numeric == {"int", "float"}
Convertible(v, t) ==
    LET V == Types[v]  T == Types[t] IN
    \/ Assignable(v, t)
    \/ V.cls # "iface" /\ T.cls # "iface" /\ V.under = T.under
    \/ V.cls = "ptr" /\ T.cls = "ptr" /\ V.base = T.base
    \/ V.cls \in Numeric /\ T.cls \in Numeric
    \/ V.cls = "complex" /\ T.cls = "complex"
    \/ V.cls = "int" /\ T.cls = "string"
    \/ V.cls = "slice" /\ T.cls = "string" /\ V.elem \in {"byte", "rune"}
    \/ V.cls = "string" /\ T.cls = "slice" /\ T.elem \in {"byte", "rune"}
    \/ V.cls = "slice" /\ T.cls = "array" /\ V.elem = T.elem   \* needs T.n elements
    \/ V.cls = "slice" /\ T.cls = "parray" /\ V.elem = T.base

Few == {"int", "MyStr", "error", "Small", "any"}
Some == Few \cup {"bytes", "float32", "stringer", "chanr", "nearT", "parr1"}
FewValues == {"int", "string", "xErr", "rtSmall", "nil"}
SomeValues == FewValues \cup {"ints", "near2T", "chanb", "MyInt"}
Lists == {<<>>} \cup {<<t>> : t \in Names}
         \cup (IF Depth = 1 THEN {<<a, b>> : a, b \in Few} ELSE {<<a, b>> : a, b \in Some}) \cup {<<"int", "error", "any">>}
Values(o) == CASE Len(o) = 0 -> {<<>>, <<"int">>, <<"nil">>}
               [] Len(o) = 1 -> {<<>>} \cup {<<v>> : v \in Concrete \cup {"nil"}} \cup {<<v, "nil">> : v \in {o[1], "nil"} \ (Names \ Concrete)} \cup {<<"int", "int">>}
               [] Len(o) = 2 -> LET V == IF Depth = 1 THEN FewValues ELSE SomeValues IN
                                {<<>>} \cup {<<v>> : v \in V} \cup {<<v, w>> : v, w \in V \cup {"seq"}} \cup {<<v, v, v>> : v \in V}
               [] OTHER -> {<<a, b, c>> : a, b, c \in FewValues} \cup {<<a, b>> : a, b \in FewValues} \cup {<<a, a, a, a>> : a \in FewValues}

Fits(v, t) == v = "nil" \/ (v = "seq" /\ t = "any") \/ (v \in Names /\ Convertible(v, t))
Ok(vs, o) == Len(vs) = Len(o) /\ \A i \in DOMAIN o : Fits(vs[i], o[i])
Cases(o) == {[vs |-> vs, ok |-> Ok(vs, o)] : vs \in Values(o)}

Init == outs \in Lists /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ outs' = outs

\* sanity of the rules: conversion extends assignment, is reflexive; assignment to interfaces needs the methods;
\* whatever has the same underlying type converts both ways
Reflexive == \A t \in Names : Assignable(t, t) /\ Convertible(t, t)
Symmetric == \A v, t \in Concrete : Types[v].under = Types[t].under => Convertible(v, t) /\ Convertible(t, v)
Methods == \A v \in Concrete, t \in Names \ Concrete : Convertible(v, t) <=> Types[t].ms \subseteq Types[v].ms
Numbers == \A v, t \in Concrete : Types[v].cls = "int" /\ Types[t].cls = "bool" => ~Convertible(v, t)
NilFits == \A t \in Names : Fits("nil", t)
Emit == phase = 1 => PrintT(ToJson([outs |-> outs, cs |-> Cases(outs), conv |-> IF Len(outs) = 1 THEN {v \in Concrete : Convertible(v, outs[1])} ELSE {}]))
=============================================================================
