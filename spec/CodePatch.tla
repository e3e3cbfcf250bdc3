----------------------------- MODULE CodePatch -----------------------------
(***************************************************************************)
(* Patching at the level of memory: bytes, pages and their protection.     *)
(* Two functions lie next to each other, with a page boundary somewhere    *)
(* among their bytes.  A byte is <<whose, n, len>>: the n-th byte of       *)
(* function A or B (-1, -2; -3: what surrounds them), or of the jump to    *)
(* the hook of a patch (1, 2, ...); len is the length of the instruction that starts   *)
(* there, or 0.  A patch saves whole instructions in a proxy and writes    *)
(* its jump, page by page, each write in three steps.  What a call does    *)
(* follows from the bytes; that it is what the stack of mocks says is an   *)
(* invariant.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS J,         \* length of a jump
          Lens,      \* lengths of instructions
          L,         \* number of operations
          MaxP, MaxS,\* patches, nested contexts
          Edges,     \* where the page boundary may be: bytes after the begin of A; 999: far away
          Shape,     \* "layouts": all layouts of A, one patch; "histories": few layouts, all histories
          EmitOn

VARIABLES lay,    \* [A, B: sequences of lengths; ra, rb: lengths of their RETs; unsafe, edge]
          mem, prot, patch, on, scopes, todo, hist
vars == <<lay, mem, prot, patch, on, scopes, todo, hist>>

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
\* sequences of instructions that reach J for the first time with the last one
RECURSIVE Reach(_)
Reach(n) == IF n <= 0 THEN {<<>>} ELSE UNION {{<<l>> \o q : q \in Reach(n - l)} : l \in Lens}
\* and those that end before
RECURSIVE Short(_)
Short(n) == {<<>>} \cup UNION {{<<l>> \o q : q \in Short(n - l)} : l \in {k \in Lens : k < n}}
Longest == CHOOSE l \in Lens : \A k \in Lens : k <= l
Plain == CHOOSE q \in Reach(J) : TRUE
Rets == {1, 2, 3}
Layouts ==
    CASE Shape = "layouts" ->
           [A : Reach(J), B : {Plain}, ra : {1}, rb : {1}, unsafe : {FALSE}, edge : Edges]
           \cup {y \in [A : {q \in Short(J) : Len(q) <= 4}, B : {Plain}, ra : Rets, rb : {1}, unsafe : BOOLEAN, edge : Edges] : Sum(y.A) + y.ra < J}
      [] OTHER ->
           [A : {<<1>> \o Plain, <<Longest, Longest>>}, B : {Plain}, ra : {1}, rb : {3}, unsafe : {FALSE}, edge : Edges]

\* ---- bytes
Whole(who, lens) ==  \* the bytes of instructions with these lengths
    LET RECURSIVE F(_, _)
        F(q, n) == IF q = <<>> THEN <<>> ELSE [i \in 1..Head(q) |-> <<who, n + i, IF i = 1 THEN Head(q) ELSE 0>>] \o F(Tail(q), n + Head(q))
    IN F(lens, 0)
\* in the byte that starts the RET, the length is negative
Code(who, lens, r) == Whole(who, lens) \o [i \in 1..r |-> <<who, Sum(lens) + i, IF i = 1 THEN 0 - r ELSE 0>>]
Jump(p) == [i \in 1..J |-> <<p, i, IF i = 1 THEN J ELSE 0>>]
Around == [i \in 1..3 |-> <<-3, i, 1>>]
Orig(y) == Around \o Code(-1, y.A, y.ra) \o Code(-2, y.B, y.rb) \o Around
Base(y, f) == IF f = "A" THEN 4 ELSE 4 + Sum(y.A) + y.ra
Size(y, f) == IF f = "A" THEN Sum(y.A) + y.ra ELSE Sum(y.B) + y.rb
Page(y, a) == IF a < 4 + y.edge THEN 0 ELSE 1

\* where whole instructions from base cover n bytes; 0 if a RET comes first and that matters
RECURSIVE Cut(_, _, _, _)
Cut(m, base, pos, safe) ==
    IF pos >= J THEN pos
    ELSE LET l == m[base + pos][3] IN
         IF l < 0 /\ safe THEN 0 ELSE Cut(m, base, pos + (IF l < 0 THEN 0 - l ELSE l), safe)

\* ---- writing: [a, data] is split at the page boundary; each part: writable, copy, executable
Parts(y, a, d) == LET k == 4 + y.edge - a IN
    IF k > 0 /\ k < Len(d) THEN << <<a, SubSeq(d, 1, k)>>, <<a + k, SubSeq(d, k + 1, Len(d))>> >> ELSE << <<a, d>> >>
Writes(y, a, d) == LET ps == Parts(y, a, d)
                       One(w) == << [k |-> "prot", p |-> Page(y, w[1]), to |-> "rw"], [k |-> "copy", a |-> w[1], d |-> w[2]], [k |-> "prot", p |-> Page(y, w[1]), to |-> "rx"] >>
                   IN IF Len(ps) = 1 THEN One(ps[1]) ELSE One(ps[1]) \o One(ps[2])

Stack(f) == SelectSeq(on, LAMBDA p : patch[p].f = f)
InScope(f) == \E p \in scopes[Len(scopes)] : patch[p].f = f
Log(o) == hist' = Append(hist, o)

Enter == /\ Len(scopes) <= MaxS
         /\ scopes' = Append(scopes, {})
         /\ Log([op |-> "enter", f |-> "", p |-> 0])
         /\ UNCHANGED <<lay, mem, prot, patch, on, todo>>
DoPatch(f) ==
    LET base == Base(lay, f)  cut == Cut(mem, base, 0, ~lay.unsafe)  p == Len(patch) + 1 IN
    /\ Len(patch) < MaxP /\ ~InScope(f)
    /\ IF cut = 0 THEN /\ Log([op |-> "reject", f |-> f, p |-> 0])
                       /\ UNCHANGED <<mem, prot, patch, on, scopes, todo>>
       ELSE /\ patch' = Append(patch, [f |-> f, cut |-> cut, save |-> SubSeq(mem, base, base + cut - 1)])
            /\ todo' = Writes(lay, base, Jump(p))
            /\ on' = Append(on, p)
            /\ scopes' = [scopes EXCEPT ![Len(scopes)] = @ \cup {p}]
            /\ Log([op |-> "patch", f |-> f, p |-> p])
            /\ UNCHANGED <<mem, prot>>
    /\ UNCHANGED lay
\* removal: the last patch of a function restores what it saved, another one hands it to the next
After(p) == LET st == Stack(patch[p].f)  i == CHOOSE i \in DOMAIN st : st[i] = p IN IF i = Len(st) THEN 0 ELSE st[i + 1]
Drop(p) == SelectSeq(on, LAMBDA q : q # p)
Unpatch(p) ==
    /\ p \in {on[i] : i \in DOMAIN on}
    /\ on' = Drop(p)
    /\ scopes' = [i \in DOMAIN scopes |-> scopes[i] \ {p}]
    /\ IF After(p) = 0 THEN /\ todo' = Writes(lay, Base(lay, patch[p].f), patch[p].save)
                            /\ UNCHANGED patch
                       ELSE /\ patch' = [patch EXCEPT ![After(p)].save = patch[p].save, ![After(p)].cut = patch[p].cut]
                            /\ UNCHANGED todo
    /\ UNCHANGED <<lay, mem, prot>>
DoUnpatch == \E p \in DOMAIN patch : Unpatch(p) /\ Log([op |-> "unpatch", f |-> patch[p].f, p |-> p])
\* the end of a context removes what is left of it, one by one, in any order
Exit == /\ Len(scopes) > 1
        /\ IF scopes[Len(scopes)] = {}
           THEN /\ scopes' = SubSeq(scopes, 1, Len(scopes) - 1)
                /\ Log([op |-> "exit", f |-> "", p |-> 0])
                /\ UNCHANGED <<lay, mem, prot, patch, on, todo>>
           ELSE \E p \in scopes[Len(scopes)] : Unpatch(p) /\ hist' = hist \o <<[op |-> "leaving", f |-> "", p |-> p]>>
Leaving == hist # <<>> /\ hist[Len(hist)].op = "leaving"
Step == /\ todo # <<>>
        /\ LET w == Head(todo) IN
             CASE w.k = "prot" -> prot' = [prot EXCEPT ![w.p] = w.to] /\ UNCHANGED mem
               [] w.k = "copy" -> /\ mem' = [i \in DOMAIN mem |-> IF i >= w.a /\ i < w.a + Len(w.d) THEN w.d[i - w.a + 1] ELSE mem[i]]
                                  /\ UNCHANGED prot
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<lay, patch, on, scopes, hist>>

Init == /\ lay \in Layouts
        /\ mem = Orig(lay) /\ prot = [p \in {0, 1} |-> "rx"]
        /\ patch = <<>> /\ on = <<>> /\ scopes = <<{}>> /\ todo = <<>> /\ hist = <<>>
Ops == SelectSeq(hist, LAMBDA o : o.op # "leaving")
Next == \/ Step
        \/ todo = <<>> /\ Leaving /\ Exit
        \/ todo = <<>> /\ ~Leaving /\ Len(Ops) < L
           /\ (Exit \/ Enter \/ DoUnpatch \/ DoPatch("A") \/ (Shape = "histories" /\ DoPatch("B")))

\* ---- what a call does, from the bytes
Rest(f, k) == \A i \in k+1..Size(lay, f) : mem[Base(lay, f) + i - 1] = Orig(lay)[Base(lay, f) + i - 1]
RECURSIVE Via(_, _)
Broken == <<-1>>
Via(c, f) ==  \* c: the bytes at which execution begins, of the function or saved in a proxy
    IF c[1][1] \in DOMAIN patch THEN (IF SubSeq(c, 1, J) = Jump(c[1][1]) THEN <<c[1][1]>> \o Via(patch[c[1][1]].save, f) ELSE Broken)
    ELSE IF c = SubSeq(Orig(lay), Base(lay, f), Base(lay, f) + Len(c) - 1) /\ Rest(f, Len(c)) THEN <<>> ELSE Broken
Chain(f) == Via(SubSeq(mem, Base(lay, f), Base(lay, f) + (IF Size(lay, f) > J THEN Size(lay, f) ELSE J) - 1), f)
Reverse(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
TooShort == Sum(lay.A) < J
Funs == IF TooShort THEN {"A"} ELSE {"A", "B"}

Idle == todo = <<>>
CallsFollowStack == Idle /\ ~(TooShort /\ lay.unsafe) => \A f \in Funs : Chain(f) = Reverse(Stack(f))
NothingElse == \A i \in DOMAIN mem : mem[i] # Orig(lay)[i] =>
                  \E p \in DOMAIN patch : LET b == Base(lay, patch[p].f) IN b <= i /\ i < b + patch[p].cut
Restored == Idle /\ on = <<>> => mem = Orig(lay)
Executable == Idle => prot = [p \in {0, 1} |-> "rx"]
OneWritable == Cardinality({p \in {0, 1} : prot[p] = "rw"}) <= 1
CopyIsAllowed == todo # <<>> /\ Head(todo).k = "copy" =>
                  \A i \in DOMAIN Head(todo).d : prot[Page(lay, Head(todo).a + i - 1)] = "rw"
WholeInstructions == \A p \in DOMAIN patch : patch[p].save[1][1] < 0 => LET e == Base(lay, patch[p].f) + patch[p].cut IN patch[p].cut >= J /\ Orig(lay)[e][3] # 0
RejectedUntouched == TooShort /\ ~lay.unsafe => mem = Orig(lay)
OneByOne == \A p \in DOMAIN patch : patch[p].cut - J < Longest + 3

View(f) == [f |-> f, chain |-> Stack(f), cut |-> LET st == Stack(f) IN IF st = <<>> THEN 0 ELSE patch[st[1]].cut]
Emit == EmitOn /\ Idle /\ ~Leaving /\ Len(Ops) = L =>
          PrintT(ToJson([a |-> lay.A, b |-> lay.B, ra |-> lay.ra, rb |-> lay.rb, unsafe |-> lay.unsafe, edge |-> lay.edge, ops |-> Ops]))
=============================================================================
