------------------------------ MODULE Resolve ------------------------------
(***************************************************************************)
(* Which implementation GetMethod (and the older GetNestedMethod and       *)
(* GetPrivateMethod) name, for instances of all shapes: types with         *)
(* anonymous fields of struct, pointer and interface kind, nil or not.     *)
(*                                                                         *)
(* A family of types is built node by node, the root last.  A node has a   *)
(* member "M" and a member "u" (unexported), each of which is absent, a    *)
(* method with value or pointer receiver, a field of function type (nil or *)
(* not) or a field of another type; and links (fields) to earlier nodes:   *)
(*   s   anonymous, struct             p/pn  anonymous pointer / nil       *)
(*   iv/ip/in   anonymous, interface that holds a value / a pointer / nil  *)
(*   nv  a field with a name                                               *)
(* An anonymous interface has the method M itself, or none.                *)
(*                                                                         *)
(* With Emit, every complete family is printed with the answers to all     *)
(* questions about its root.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NN,        \* nodes
          MaxLinks,
          Us,        \* members "u" to choose from
          EmitOn
VARIABLES nodes, ph, want
vars == <<nodes, ph, want>>

Members == {"none", "val", "ptr", "func", "nilfunc", "data"}
IsMethod(a) == a \in {"val", "ptr"}
IsField(a) == a \in {"func", "nilfunc", "data"}
Anon == {"s", "p", "pn", "iv", "ip", "in"}
Named(nm, n) == IF nm = "M" THEN n.m ELSE n.u

\* ---- what Go's rules for selectors give
\* the anonymous fields of type i one level down: types, or an interface with method M
Down(e) == LET ls == nodes[e.n].links IN
    [j \in DOMAIN ls |->
        CASE ls[j].k = "s" -> [t |-> "node", n |-> ls[j].c, ind |-> e.ind, nil |-> e.nil]
          [] ls[j].k \in {"p", "pn"} -> [t |-> "node", n |-> ls[j].c, ind |-> TRUE, nil |-> e.nil \/ ls[j].k = "pn"]
          [] ls[j].k \in {"iv", "ip", "in"} /\ ls[j].meth -> [t |-> "iface", n |-> ls[j].c, ind |-> TRUE, nil |-> e.nil]
          [] OTHER -> [t |-> "nothing", n |-> 0, ind |-> FALSE, nil |-> FALSE]]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
None == [t |-> "none", n |-> 0, a |-> "none", ind |-> FALSE, nil |-> FALSE]
\* level by level: the only one at the first level that has one
RECURSIVE Sel(_, _, _, _)
Sel(level, seen, nm, fieldsOnly) ==
    LET has(e) == \/ e.t = "node" /\ LET a == Named(nm, nodes[e.n]) IN IF fieldsOnly THEN IsField(a) ELSE a # "none"
                  \/ e.t = "iface" /\ nm = "M" /\ ~fieldsOnly
        hit == {j \in DOMAIN level : has(level[j])}
        here == {level[j].n : j \in {x \in DOMAIN level : level[x].t = "node"}}
        below == Flat([j \in DOMAIN level |-> IF level[j].t = "node" THEN Down(level[j]) ELSE <<>>])
        next == SelectSeq(below, LAMBDA e : e.t = "iface" \/ (e.t = "node" /\ e.n \notin seen \cup here))
    IN IF Cardinality(hit) > 1 THEN None
       ELSE IF hit # {} THEN LET e == level[CHOOSE j \in hit : TRUE] IN
            [t |-> e.t, n |-> e.n, a |-> IF e.t = "iface" THEN "val" ELSE Named(nm, nodes[e.n]), ind |-> e.ind, nil |-> e.nil]
       ELSE IF next = <<>> THEN None
       ELSE Sel(next, seen \cup here, nm, fieldsOnly)
Top(i) == <<[t |-> "node", n |-> i, ind |-> FALSE, nil |-> FALSE]>>
Selected(i, nm) == Sel(Top(i), {}, nm, FALSE)
FieldOf(i, nm) == Sel(Top(i), {}, nm, TRUE)
InSet(i, ptr, nm) == LET s == Selected(i, nm) IN s.t # "none" /\ IsMethod(s.a) /\ (ptr \/ s.a = "val" \/ s.ind)

\* ---- answers: the method nm of type i (or *i), as it is declared ("impl") or generated ("wrap")
Answer(i, ptr, nm) ==
    LET s == Selected(i, nm) IN
    IF s.t = "node" /\ s.n = i /\ s.a = (IF ptr THEN "ptr" ELSE "val") THEN [k |-> "impl", n |-> i, ptr |-> ptr]
    ELSE [k |-> "wrap", n |-> i, ptr |-> ptr]
Nothing == [k |-> "none", n |-> 0, ptr |-> FALSE]
Panic == [k |-> "panic", n |-> 0, ptr |-> FALSE]
Own(i) == IF InSet(i, FALSE, "M") THEN Answer(i, FALSE, "M")
          ELSE IF InSet(i, TRUE, "M") THEN Answer(i, TRUE, "M")
          ELSE Nothing
\* depth first through the anonymous fields, before the own methods
RECURSIVE Nested(_)
Nested(i) ==
    LET ls == nodes[i].links
        sub(l) == CASE l.k \in {"s", "p", "iv"} -> Nested(l.c)
                    [] l.k = "ip" -> IF InSet(l.c, TRUE, "M") THEN Answer(l.c, TRUE, "M") ELSE Nothing
                    [] OTHER -> Nothing
        found == {j \in DOMAIN ls : sub(ls[j]) # Nothing}
    IN IF found # {} THEN sub(ls[CHOOSE j \in found : \A x \in found : j <= x]) ELSE Own(i)

\* inst: a value, a pointer, or a nil pointer. "open": no claim about what is found, if anything is
Unexported(i, inst) ==
    IF ~InSet(i, TRUE, "u") THEN Panic
    ELSE IF nodes[i].base # "struct" /\ nodes[i].u = "val" THEN [k |-> "open", n |-> i, ptr |-> TRUE]
    ELSE IF ~IsMethod(nodes[i].u) THEN [k |-> "open", n |-> i, ptr |-> TRUE]    \* the method of a field
    ELSE IF inst = "val" /\ nodes[i].u = "ptr" THEN [k |-> "open", n |-> i, ptr |-> TRUE]    \* not in the method set of the instance
    ELSE Answer(i, nodes[i].u = "ptr", "u")
Or(a, b) == IF a = Nothing THEN b ELSE a
GetField(i, inst, nm) ==
    LET s == FieldOf(i, nm) IN
    IF inst = "nilptr" \/ s.t = "none" THEN Nothing
    ELSE IF s.nil THEN IF nm = "M" THEN Panic ELSE [k |-> "open", n |-> i, ptr |-> TRUE] \* behind a nil pointer: reflection panics
    ELSE IF s.a = "data" THEN Nothing
    ELSE IF s.a = "nilfunc" THEN Nothing
    ELSE [k |-> "field", n |-> s.n, ptr |-> FALSE]
Exported(i, inst) == IF inst = "nilptr" THEN (IF InSet(i, TRUE, "M") THEN Answer(i, TRUE, "M") ELSE Nothing) ELSE Nested(i)
GetMethod(i, inst, nm) ==
    IF nm = "M" THEN Or(Exported(i, inst), Or(GetField(i, inst, nm), Panic))
    ELSE Or(GetField(i, inst, nm), Unexported(i, inst))
GetNested(i, inst) == IF inst = "nilptr" THEN Panic ELSE Or(Nested(i), Panic)
GetPrivate(i, inst) == IF InSet(i, inst # "val", "M") THEN Answer(i, inst # "val", "M") ELSE Panic

Insts == {"val", "ptr", "nilptr"}
Questions(i) ==
    {[api |-> "get", inst |-> t, nm |-> nm, r |-> GetMethod(i, t, nm)] : t \in Insts, nm \in {"M", "u"}}
    \cup {[api |-> "nested", inst |-> t, nm |-> "M", r |-> GetNested(i, t)] : t \in Insts}
    \cup {[api |-> "private", inst |-> t, nm |-> "M", r |-> GetPrivate(i, t)] : t \in Insts}

\* ---- building families
Cur == nodes[Len(nodes)]
SetCur(n) == nodes' = [nodes EXCEPT ![Len(nodes)] = n]
Init == nodes = <<>> /\ ph = "node" /\ want = 0
NewNode == /\ ph = "node" /\ Len(nodes) < NN
           /\ \E m \in Members : nodes' = Append(nodes, [m |-> m, u |-> "none", sig |-> 1, base |-> "struct", links |-> <<>>])
           /\ ph' = "u" /\ UNCHANGED want
SetU == /\ ph = "u" /\ \E u \in Us : SetCur([Cur EXCEPT !.u = u])
        /\ ph' = "sig" /\ UNCHANGED want
SetSig == /\ ph = "sig"
          /\ \E s \in IF EmitOn THEN 1..3 ELSE {1} : SetCur([Cur EXCEPT !.sig = s])
          /\ ph' = "links"
          /\ UNCHANGED want
\* a node without fields may be of another kind
CountLinks == /\ ph = "links"
              /\ \/ /\ EmitOn /\ ~IsField(Cur.m) /\ ~IsField(Cur.u)
                    /\ SetCur([Cur EXCEPT !.base = "int"]) /\ want' = 0
                 \/ \E n \in 0..(IF Len(nodes) = 1 THEN 0 ELSE MaxLinks) : want' = n /\ UNCHANGED nodes
              /\ ph' = "link"
Direct == {"s", "p", "pn"}
Link == /\ ph = "link" /\ Len(Cur.links) < want
        /\ \E k \in Anon \cup {"nv"}, c \in 1..(Len(nodes) - 1), meth \in BOOLEAN :
             /\ k \in Direct => \A j \in DOMAIN Cur.links : Cur.links[j].k \in Direct => Cur.links[j].c # c
             /\ meth => k = "in" \/ (k \in {"iv", "ip"} /\ InSet(c, k = "ip", "M"))
             /\ SetCur([Cur EXCEPT !.links = Append(@, [k |-> k, c |-> c, meth |-> meth])])
        /\ UNCHANGED <<ph, want>>
\* no further link possible, or enough of them
Linked == /\ ph = "link" /\ Len(Cur.links) = want
          /\ ph' = IF Len(nodes) = NN THEN "done" ELSE "node"
          /\ UNCHANGED <<nodes, want>>
Next == NewNode \/ SetU \/ SetSig \/ CountLinks \/ Link \/ Linked

\* ---- the rules make sense
Built == ph \in {"done", "node"} /\ nodes # <<>>
Root == Len(nodes)
\* the order of the search, written down as a sequence of types
RECURSIVE Order(_)
Order(i) == LET ls == nodes[i].links IN
    Flat([j \in DOMAIN ls |-> CASE ls[j].k \in {"s", "p", "iv"} -> Order(ls[j].c)
                                [] ls[j].k = "ip" -> <<[n |-> ls[j].c, ptr |-> TRUE]>>
                                [] OTHER -> <<>>])
    \o <<[n |-> i, ptr |-> FALSE], [n |-> i, ptr |-> TRUE]>>
FirstInOrder == Built =>
    LET o == Order(Root)  hit == {j \in DOMAIN o : InSet(o[j].n, o[j].ptr, "M")}
    IN Nested(Root) = IF hit = {} THEN Nothing ELSE LET e == o[CHOOSE j \in hit : \A x \in hit : j <= x] IN Answer(e.n, e.ptr, "M")
\* the only declaration that can be reached is what is found
RECURSIVE Reach(_)
Reach(i) == {i} \cup UNION {LET l == nodes[i].links[j] IN IF l.k \in {"s", "p", "iv"} THEN Reach(l.c) ELSE {} : j \in DOMAIN nodes[i].links}
OnlyOne == Built =>
    LET R == Reach(Root)  D == {i \in R : IsMethod(nodes[i].m)}
        odd == \E i \in R, j \in 1..MaxLinks : j <= Len(nodes[i].links) /\ nodes[i].links[j].k \in {"ip", "pn", "in"}
    IN Cardinality(D) = 1 /\ ~odd => LET d == CHOOSE i \in D : TRUE IN Nested(Root) = [k |-> "impl", n |-> d, ptr |-> nodes[d].m = "ptr"]
\* what the compiler can call on the instance can be found, and a value and a pointer give the same
Callable == Built => /\ InSet(Root, TRUE, "M") => Nested(Root) # Nothing
                     /\ \A nm \in {"M", "u"} : LET v == GetMethod(Root, "val", nm) IN v.k \in {"impl", "field"} => GetMethod(Root, "ptr", nm) = v
\* leaf: nothing but its own members
OwnMembers == Built /\ nodes[Root].links = <<>> =>
    \A t \in {"val", "ptr"} :
      LET r == GetMethod(Root, t, "M") IN
        CASE IsMethod(nodes[Root].m) -> r = [k |-> "impl", n |-> Root, ptr |-> nodes[Root].m = "ptr"]
          [] nodes[Root].m = "func" -> r = [k |-> "field", n |-> Root, ptr |-> FALSE]
          [] OTHER -> r = Panic
Emit == ph = "done" /\ EmitOn => PrintT(ToJson([nodes |-> nodes, qs |-> Questions(Root)]))
=============================================================================
