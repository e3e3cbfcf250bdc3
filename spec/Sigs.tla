-------------------------------- MODULE Sigs --------------------------------
(***************************************************************************)
(* Signatures of functions and methods, drawn with -simulate.  The driver  *)
(* gets real functions with these signatures (four of each), on which the  *)
(* behaviours of Gen are replayed.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Styles == {"fn", "ptr", "val", "gen", "genm", "lit", "gmp", "gmv", "gmpriv"}
\* words that a value takes, by register class; 0 words: does not matter to the calling convention
Ints == {"int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "uintptr", "bool", "MyInt", "*Small", "*int", "map[string]int",
         "chan int", "<-chan string", "func(int) int", "func(...string) error", "unsafe.Pointer"}
TwoInts == {"string", "error", "interface{}", "MyStr", "MyErr", "Small2", "interface{ M(int) string; Error() string }"}
ThreeInts == {"[]byte", "[]string", "[]Small", "Small"}
Floats == {"float32", "float64", "complex64", "complex128"}
Mixed == {"struct{ A float32; B int8 }", "[1]struct{ A string; B float64 }", "struct{ A [1]int; B struct{} }", "struct{ A bool; B int }", "struct{ A, B, C, D int16; E *int }"}
Memory == {"Big", "Big2", "[2]int16", "[3]float64", "[2]string", "struct{ A [2]int; B string }"}
Empty == {"struct{}", "[0]int"}
Classes == <<Ints, TwoInts, ThreeInts, Floats, Mixed, Memory, Empty>>
Elems == {"int", "string", "interface{}", "error", "*Small", "Big", "float64", "[]int", "func(int) int", "struct{}"}
Receivers == {"Small", "Big2", "int", "string", "[]int", "float64", "func(int) int", "map[string]int", "[2]string", "struct{}", "Big"}
TArgs == {"int", "string", "*Small", "float64", "Big", "error", "[]string", "struct{ A float32; B int8 }", "MyInt", "func(int) int"}

VARIABLES sig, nin, nout
Init == /\ sig \in [style : Styles, recv : Receivers, targ : TArgs, ins : {<<>>}, outs : {<<>>}, variadic : {"", "y", "n", "m"}, done : {FALSE}]
        /\ nin \in {0, 1, 2, 3, 4, 6, 11} /\ nout \in {1, 2, 3, 5, 10}
AnyType == UNION {Classes[i] : i \in DOMAIN Classes}
Generic == sig.style \in {"gen", "genm"}
Pick(all, mine) == IF Generic THEN all \cup mine ELSE all
Next == \/ /\ Len(sig.ins) < nin
           /\ \E k \in DOMAIN Classes : \E t \in Classes[k] : sig' = [sig EXCEPT !.ins = Append(@, t)]
           /\ UNCHANGED <<nin, nout>>
        \/ /\ Len(sig.ins) < nin /\ Generic
           /\ sig' = [sig EXCEPT !.ins = Append(@, "T")]
           /\ UNCHANGED <<nin, nout>>
        \/ /\ Len(sig.ins) = nin /\ Len(sig.outs) < nout
           /\ \E t \in Pick(AnyType, {"T"}) : sig' = [sig EXCEPT !.outs = Append(@, t)]
           /\ UNCHANGED <<nin, nout>>
        \/ /\ Len(sig.outs) = nout /\ ~sig.done
           /\ \E e \in Elems : sig' = [sig EXCEPT !.done = TRUE, !.ins = IF sig.variadic = "y" THEN Append(@, "..." \o e) ELSE @]
           /\ UNCHANGED <<nin, nout>>
Emit == sig.done => PrintT(ToJson(sig))
=============================================================================
