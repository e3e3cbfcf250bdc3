------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Which instantiations of a generic function or method a mock of one of   *)
(* them is in effect for: those that the compiler gives the same code.     *)
(* Type arguments are replaced by shapes: the underlying type, where all   *)
(* pointers are one if the constraint consists of methods only.  Inside    *)
(* generic code the arguments are already shapes when the arguments of a   *)
(* further instantiation are computed, so F[[]T] there, with T = int, is   *)
(* other code than F[[]int].                                               *)
(*                                                                         *)
(* A site is a call: of item `it` with real type arguments `ts`, directly  *)
(* or from generic code ("outer": from a function with the same type       *)
(* parameters, "elem": from a function with parameter T that instantiates  *)
(* with []T).  Every direct site can be mocked; Hits gives the sites that  *)
(* the mock is in effect for.  TLC prints one line per mockable site.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Big     \* the whole universe of types, or a part

\* ---- types
Bas(n) == [k |-> "basic", n |-> n]
Nam(n) == [k |-> "named", n |-> n]
Ptr(e) == [k |-> "ptr", e |-> e]
Sl(e) == [k |-> "slice", e |-> e]
Arr(n, e) == [k |-> "array", n |-> n, e |-> e]
Map(a, e) == [k |-> "map", a |-> a, e |-> e]
Chan(d, e) == [k |-> "chan", n |-> d, e |-> e]
Fun(i, o, v) == [k |-> "func", i |-> i, o |-> o, v |-> v]
Fld(n, e, tag, emb) == [n |-> n, e |-> e, tag |-> tag, emb |-> emb]
Str(f) == [k |-> "struct", f |-> f]
Ifc(m) == [k |-> "iface", m |-> m]       \* a set of methods
Ins(n, a) == [k |-> "inst", n |-> n, a |-> a]
Shp(e) == [k |-> "shape", e |-> e]

int == Bas("int")
string == Bas("string")

Under0(n) ==
    CASE n = "MyInt"   -> int
      [] n = "shInt"   -> int                                    \* type shInt MyInt
      [] n = "MyStr"   -> string
      [] n = "shS1"    -> Str(<<Fld("A", int, "", FALSE), Fld("B", string, "", FALSE)>>)
      [] n = "shS2"    -> Str(<<Fld("A", int, "", FALSE), Fld("B", string, "", FALSE)>>)
      [] n = "shS3"    -> Str(<<Fld("A", int, "x", FALSE), Fld("B", string, "", FALSE)>>)
      [] n = "shS4"    -> Str(<<Fld("C", int, "", FALSE), Fld("B", string, "", FALSE)>>)
      [] n = "shE1"    -> Str(<<Fld("MyInt", Nam("MyInt"), "", TRUE)>>)
      [] n = "shE2"    -> Str(<<Fld("MyInt", Nam("MyInt"), "", FALSE)>>)
      [] n = "shP"     -> Ptr(int)
      [] n = "shSl"    -> Sl(int)
      [] n = "shFn"    -> Fun(<<int>>, <<int>>, FALSE)
      [] n = "shErr"   -> Ifc({"Error() string"})
      [] n = "error"   -> Ifc({"Error() string"})
      [] n = "near1.U" -> Str(<<Fld("near1.u", int, "", FALSE)>>)
      [] n = "near2.U" -> Str(<<Fld("near2.u", int, "", FALSE)>>)
      [] n = "near1.T" -> Str(<<Fld("A", int, "", FALSE), Fld("B", int, "", FALSE)>>)
      [] n = "near2.T" -> Str(<<Fld("A", int, "", FALSE), Fld("B", int, "", FALSE)>>)
      [] n = "shRec1"  -> Str(<<Fld("N", Ptr(Nam("shRec1")), "", FALSE)>>)
      [] n = "shRec2"  -> Str(<<Fld("N", Ptr(Nam("shRec2")), "", FALSE)>>)
      [] n = "shSt1"   -> int                                    \* these two have a String method
      [] n = "shSt2"   -> int
      [] n = "shSp1"   -> Str(<<Fld("A", int, "", FALSE)>>)      \* pointers to these have a String method
      [] n = "shSp2"   -> Str(<<Fld("A", string, "", FALSE)>>)
UnderInst(n, a) ==
    CASE n = "shG" -> Str(<<Fld("A", a[1], "", FALSE)>>)
      [] n = "shL" -> Sl(a[1])
      [] n = "shN" -> int                                        \* type shN[T any] int
Under(t) == CASE t.k = "named" -> Under0(t.n)
              [] t.k = "inst"  -> UnderInst(t.n, t.a)
              [] t.k = "shape" -> t.e
              [] OTHER         -> t

Shape(t, basic) == Shp(IF basic /\ Under(t).k = "ptr" THEN Ptr(Bas("uint8")) ELSE Under(t))

\* ---- the universe
Small == << int, Nam("MyInt"), Nam("shInt"), string, Nam("MyStr"), Bas("int64"), Bas("uint8"), Bas("uintptr"),
            Nam("shS1"), Nam("shS2"), Nam("shS3"), Nam("shS4"), Under0("shS1"),
            Ptr(int), Ptr(Nam("MyInt")), Ptr(Ptr(int)), Ptr(Bas("uint8")), Nam("shP"), Bas("unsafe.Pointer"),
            Nam("error"), Nam("shErr"), Ifc({}), Nam("near1.T"), Nam("near2.T"), Nam("near1.U"), Nam("near2.U") >>
More == << Nam("shE1"), Nam("shE2"), Nam("shRec1"), Nam("shRec2"), Ptr(Nam("shRec1")), Ins("shG", <<int>>), Ins("shG", <<Nam("MyInt")>>), Under(Ins("shG", <<int>>)),
           Ins("shN", <<int>>), Ins("shN", <<string>>), Chan("both", int), Chan("recv", int), Bas("float64"), Bas("bool"), Bas("int8"), Bas("complex128"),
           Arr("2", int), Arr("2", Nam("MyInt")), Arr("3", int), Ptr(Under0("shS1")), Str(<<>>),
           Arr("16", int), Arr("7", Nam("MyInt")), Arr("9", string), Arr("40", Nam("MyStr")), Arr("40", string), Arr("1000", Bas("uint8")), Arr("60", Ptr(int)) >>
Incomparable == << Sl(int), Nam("shSl"), Sl(Nam("MyInt")), Ins("shL", <<int>>), Map(string, int), Map(Nam("MyStr"), int), Fun(<<int>>, <<int>>, FALSE), Nam("shFn"),
                   Fun(<<Sl(int)>>, <<>>, FALSE), Fun(<<Sl(int)>>, <<>>, TRUE) >>
\* around the bounds of the ways in which the compiler copies and clears them
Sized == << Arr("10", int), Arr("126", int), Arr("128", int), Arr("64", string), Arr("128", Nam("MyInt")), Arr("130", int), Arr("1024", Bas("uint8")) >>
Stringers == << Nam("shSt1"), Nam("shSt2"), Ptr(Nam("shSp1")), Ptr(Nam("shSp2")), Nam("MyInt"), Nam("MyStr") >>
Numbers == << int, Nam("MyInt"), Nam("shInt"), Bas("int64"), Nam("shSt1"), Bas("float64") >>
Few == << int, Nam("MyInt"), Ptr(int), Ptr(string), Nam("shS1"), Nam("shS2"), Nam("error") >>
Pairs2(a, b) == [i \in 1..Len(a) * Len(b) |-> << a[((i - 1) \div Len(b)) + 1], b[((i - 1) % Len(b)) + 1] >>]
Singles(q) == [i \in DOMAIN q |-> <<q[i]>>]
Comparable == IF Big THEN Small \o More ELSE Small
AllTypes == Comparable \o (IF Big THEN Incomparable ELSE SubSeq(Incomparable, 1, 4))

\* item: constraints (basic or not) and instantiations
Items == << [it |-> "fany",  basic |-> <<TRUE>>, over |-> Singles(AllTypes \o Sized)],
            [it |-> "fcmp",  basic |-> <<FALSE>>, over |-> Singles(Comparable)],
            [it |-> "fstr",  basic |-> <<TRUE>>, over |-> Singles(Stringers)],
            [it |-> "fnum",  basic |-> <<FALSE>>, over |-> Singles(Numbers)],
            [it |-> "fres",  basic |-> <<TRUE>>, over |-> Singles(SubSeq(AllTypes, 1, 22) \o SubSeq(Sized, 2, 4))],      \* T only in the result
            [it |-> "fnone", basic |-> <<TRUE>>, over |-> Singles(SubSeq(AllTypes, 1, 22) \o SubSeq(Sized, 3, 3))],      \* T only in the body
            [it |-> "fvar",  basic |-> <<TRUE>>, over |-> Singles(SubSeq(AllTypes, 1, 15))],
            [it |-> "ftwo",  basic |-> <<TRUE, FALSE>>, over |-> Pairs2(Few, Few)],
            [it |-> "mptr",  basic |-> <<TRUE>>, over |-> Singles(SubSeq(AllTypes, 1, 22) \o SubSeq(Sized, 2, 4))],
            [it |-> "mval",  basic |-> <<TRUE>>, over |-> Singles(SubSeq(AllTypes, 1, 22) \o SubSeq(Sized, 2, 4))],
            [it |-> "mmap",  basic |-> <<FALSE, TRUE>>, over |-> Pairs2(SubSeq(Few, 1, 6), Few)] >>
Composite == {"fany", "fvar", "mptr", "mval"}      \* items that are also called with []T from generic code

\* ---- sites
Site(it, basic, ts, path) == [it |-> it, basic |-> basic, ts |-> ts, path |-> path]
Of(item, paths) == [i \in 1..Len(item.over) * Len(paths) |->
                      Site(item.it, item.basic, item.over[((i - 1) \div Len(paths)) + 1], paths[((i - 1) % Len(paths)) + 1])]
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Join(Tail(q))
Sites == Join([i \in DOMAIN Items |-> Of(Items[i], <<"direct", "outer">> \o (IF Items[i].it \in Composite THEN <<"elem">> ELSE <<>>))])

\* the type arguments with which the call instantiates, the code it runs, the instantiation it is
Args(s) == CASE s.path = "direct" -> s.ts
             [] s.path = "outer"  -> [i \in DOMAIN s.ts |-> Shape(s.ts[i], s.basic[i])]
             [] s.path = "elem"   -> << Sl(Shape(s.ts[1], s.basic[1])) >>
Code(s) == << s.it, [i \in DOMAIN s.basic |-> Shape(Args(s)[i], s.basic[i])] >>
Real(s) == << s.it, IF s.path = "elem" THEN << Sl(s.ts[1]) >> ELSE s.ts >>

Mockable == {i \in DOMAIN Sites : Sites[i].path = "direct"}
Codes == [i \in DOMAIN Sites |-> Code(Sites[i])]
Hits(i) == {j \in DOMAIN Sites : Codes[j] = Codes[i]}

VARIABLES at
Init == at = 0
Next == at < Len(Sites) /\ at' = at + 1
Here == at \in DOMAIN Sites

\* ---- what is to be expected of the relation
OwnCalls == Here /\ Sites[at].path = "direct" => at \in Hits(at)
\* an instantiation is mocked no matter where it is called from, unless generic code has made up its arguments
Everywhere == Here /\ Sites[at].path = "outer" => \A j \in Mockable : Real(Sites[j]) = Real(Sites[at]) => at \in Hits(j)
SameItem == Here => \A j \in Hits(at) : Sites[j].it = Sites[at].it
\* types that share code have the same underlying type, or are pointers
SameLayout == Here /\ at \in Mockable => \A j \in Hits(at) \cap Mockable : \A p \in DOMAIN Sites[at].ts :
    LET a == Under(Sites[at].ts[p]) b == Under(Sites[j].ts[p]) IN a = b \/ (Sites[at].basic[p] /\ a.k = "ptr" /\ b.k = "ptr")
\* and the other way around
Coarsest == Here /\ at \in Mockable => \A j \in Mockable :
    Sites[j].it = Sites[at].it /\ (\A p \in DOMAIN Sites[at].ts : Under(Sites[at].ts[p]) = Under(Sites[j].ts[p])) => j \in Hits(at)

RECURSIVE SetToSortedSeq(_)
SetToSortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SetToSortedSeq(S \ {m})
Same(i) == {j \in DOMAIN Sites : Real(Sites[j]) = Real(Sites[i])}
Emit == Here => PrintT(ToJson([n |-> at, it |-> Sites[at].it, path |-> Sites[at].path, ts |-> Sites[at].ts,
                               hits |-> SetToSortedSeq(Hits(at)), same |-> SetToSortedSeq(Same(at))]))
=============================================================================
