------------------------------- MODULE Convey -------------------------------
(***************************************************************************)
(* Trees of nested PatchConvey (and plain Convey) contexts on one          *)
(* goroutine, as goconvey runs them: the root is executed again and again, *)
(* each time along another path, until every leaf has been executed; a     *)
(* context whose function panics or fails an assertion is left there and   *)
(* its parent goes on; Goexit and goconvey's own panics leave all of them. *)
(* A PatchConvey context's mocks end with the context's function, however  *)
(* it ends, and before its Reset actions run, which belong to the          *)
(* surrounding context.                                                    *)
(*                                                                         *)
(* The program is not given beforehand: when control reaches the end of    *)
(* what is known of a context's body, the next item of it is chosen, so    *)
(* that it fits the state; the next pass through the body executes the     *)
(* same items again, in whatever state it finds then.                      *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Exh,       \* all programs over a small alphabet instead of random ones
          MaxItems,  \* items of the program, all contexts together
          MaxNodes,  \* contexts
          MaxRoots,  \* roots, one after the other
          MaxLen     \* steps of a behaviour

VARIABLES prog,      \* the contexts: kind, failure mode, the items of its body known so far
          st,        \* the contexts being executed, outermost first
          cx,        \* goconvey's state: cx.done: contexts that are complete, cx.go: another one may be entered in this pass
          born, cur, \* mocks: born[k] the first one that the build item of mock k has built, cur[b] the last one
          vborn, vcur,
          runs,      \* how often the body of a context has been started
          roots, fin
cvars == <<s, hist, prog, st, cx, born, cur, vborn, vcur, runs, roots, fin>>

Node(kind, mode, up) == [kind |-> kind, mode |-> mode, up |-> up, items |-> <<>>]
\* ph: "run" its body, "out" the body has ended with `out`, "reset" its Reset actions follow
Frame(n) == [n |-> n, i |-> 1, ph |-> "run", out |-> "ret", rs |-> <<>>]
NItems == LET F[i \in 0..Len(prog)] == IF i = 0 THEN 0 ELSE F[i-1] + Len(prog[i].items) IN F[Len(prog)]
Kids(n) == {k \in 1..Len(prog) : prog[k].up = n}
RECURSIVE Halts(_)
Halts(n) == CASE prog[n].mode = "halt" -> TRUE [] prog[n].mode = "cont" -> FALSE
              [] OTHER -> IF prog[n].up = 0 THEN TRUE ELSE Halts(prog[n].up)

\* a step that is no operation of mockey
Mark(t, name, n, x, how) == Entry(t, [op |-> name, g |-> 1, f |-> n, x |-> x, how |-> how], Done(t))

(***************************************************************************)
(* Choice of the next item of a body (or of an operation outside, up = 0). *)
(***************************************************************************)
Item(k) == [k |-> k, op |-> Skip, b |-> 0, n |-> 0, how |-> "ret"]
Child(kind, mode) == [Item("child") EXCEPT !.how = kind, !.op = [op |-> mode]]
OpItem(op) == [Item("op") EXCEPT !.op = IF "m" \notin DOMAIN op THEN op
                                        ELSE IF op.op \in {"vto", "vpatch", "vunpatch", "vbad"} THEN [op EXCEPT !.m = vborn[@]]
                                        ELSE [op EXCEPT !.m = born[@]]]
End(how) == [Item("end") EXCEPT !.how = how]

RandItem(depth, up) ==
    LET r == Rnd(100)
        full == NItems >= MaxItems \/ Len(hist) > MaxLen \div 3
        long == up # 0 /\ Len(prog[up].items) >= 6 IN
    CASE full \/ long \/ r > 92 -> End(Pick(<<"ret", "ret", "ret", "ret", "ret", "ret", "ret", "panic", "panic", "goexit", "err">>))
      [] r > 87 -> Item("so")
      [] r > 80 -> IF Chance(15) THEN [Item("reset") EXCEPT !.how = "panic"] ELSE [OpItem(MkOp(s, Pick(P.ops))) EXCEPT !.k = "reset"]
      [] r > 56 -> IF depth >= 4 \/ Len(prog) >= MaxNodes THEN OpItem(MkOp(s, Pick(P.ops)))
                   ELSE Child(Pick(<<"patch", "patch", "patch", "patch", "patch", "plain", "plain", "nil">>),
                              Pick(<<"inherit", "inherit", "inherit", "inherit", "cont", "halt">>))
      [] OTHER -> OpItem(MkOp(s, Pick(P.ops)))

ARet(v) == [op |-> "build", g |-> 1, f |-> 1, o |-> FALSE, calls |-> << [c |-> "hook", a |-> [t |-> "ret", p |-> v]] >>,
            fl |-> [t |-> "off", g |-> 0, cur |-> FALSE]]
AllItems(depth, up) ==
    IF NItems >= MaxItems THEN {End("ret"), End("panic"), End("goexit")}
    ELSE {End("ret"), End("panic")} \cup {OpItem(ARet(601)), OpItem([op |-> "unpatchall", g |-> 1])}
         \cup (IF s.vmk = <<>> THEN {} ELSE {OpItem([op |-> "vto", g |-> 1, m |-> 1, x |-> 7])})
         \cup (IF s.mk = <<>> THEN {} ELSE {OpItem([op |-> "rehook", g |-> 1, m |-> Len(s.mk), a |-> [t |-> "ret", p |-> 602]])})
         \cup {[OpItem(ARet(603)) EXCEPT !.k = "reset"]}
         \cup (IF Len(prog) >= MaxNodes \/ depth >= 3 THEN {} ELSE {Child("patch", "inherit")})
         \cup (IF Len(prog) >= MaxNodes \/ depth # 1 THEN {} ELSE {Child("plain", "inherit")})
NextItems(depth, up) == IF Exh THEN AllItems(depth, up) ELSE {RandItem(depth, up)}

(***************************************************************************)
(* Execution.                                                              *)
(***************************************************************************)
Now(op) == IF "m" \notin DOMAIN op THEN op
           ELSE IF op.op \in {"vto", "vpatch", "vunpatch", "vbad"} THEN [op EXCEPT !.m = vcur[@]] ELSE [op EXCEPT !.m = cur[@]]
Possible(op) == op.op = "vpatch" => s.vmk[op.m].hs

\* operation op of item it (of context n, 0: outside) takes place; it.b: the first mock that it built, 0: none yet
Operate(op0, it, upd(_)) ==
    LET op == Now(op0)
        e == Do(s, op) IN
    IF ~Possible(op) \/ ~Good(s, op, e) THEN UNCHANGED <<s, hist, born, cur, vborn, vcur>> /\ upd(it)
    ELSE /\ s' = e.s
         /\ hist' = Append(hist, Entry(s, op, e))
         /\ IF Len(e.s.mk) > Len(s.mk)
            THEN LET k == Len(e.s.mk)
                     b == IF it.b = 0 THEN k ELSE it.b IN
                 born' = Append(born, b) /\ cur' = [Append(cur, k) EXCEPT ![b] = k] /\ UNCHANGED <<vborn, vcur>> /\ upd([it EXCEPT !.b = b])
            ELSE IF Len(e.s.vmk) > Len(s.vmk)
            THEN LET k == Len(e.s.vmk)
                     b == IF it.b = 0 THEN k ELSE it.b IN
                 vborn' = Append(vborn, b) /\ vcur' = [Append(vcur, k) EXCEPT ![b] = k] /\ UNCHANGED <<born, cur>> /\ upd([it EXCEPT !.b = b])
            ELSE UNCHANGED <<born, cur, vborn, vcur>> /\ upd(it)

Top1 == Last(st)
SetTop(f) == [st EXCEPT ![Len(st)] = f]
Known(n, i) == i <= Len(prog[n].items)

\* a context's function begins
Begin(n, stack, c) ==
    /\ s' = IF prog'[n].kind = "patch" THEN DoEnter(s).s ELSE s
    /\ hist' = Append(c, Mark(s', "cvin", n, 0, ""))
    /\ st' = Append(stack, Frame(n))
    /\ runs' = [i \in 1..Len(prog') |-> (IF i <= Len(runs) THEN runs[i] ELSE 0) + (IF i = n THEN 1 ELSE 0)]

Step(it, at) ==   \* item `it`, which is number `at` of the context on top
    LET f == Top1
        n == f.n
        Put(i) == prog' = [prog EXCEPT ![n].items = IF at > Len(@) THEN Append(@, i) ELSE [@ EXCEPT ![at] = i]]
        on == [f EXCEPT !.i = at + 1] IN
    CASE it.k = "op" -> /\ Operate(it.op, it, Put)
                        /\ st' = SetTop(on)
                        /\ UNCHANGED <<cx, runs, roots, fin>>
      [] it.k = "reset" -> /\ Put(it)
                           /\ st' = SetTop([on EXCEPT !.rs = Append(@, at)])
                           /\ hist' = Append(hist, Mark(s, "cvreset", n, at, ""))
                           /\ UNCHANGED <<s, born, cur, vborn, vcur, cx, runs, roots, fin>>
      [] it.k = "so" -> /\ Put(it)
                        /\ st' = SetTop(IF Halts(n) THEN [on EXCEPT !.ph = "out", !.out = "panic"] ELSE on)
                        /\ hist' = Append(hist, Mark(s, "cvso", n, 0, ""))
                        /\ UNCHANGED <<s, born, cur, vborn, vcur, cx, runs, roots, fin>>
      [] it.k = "end" -> /\ Put(it)
                         /\ st' = SetTop([on EXCEPT !.ph = "out", !.out = it.how])
                         /\ hist' = Append(hist, Mark(s, "cvend", n, 0, it.how))
                         /\ UNCHANGED <<s, born, cur, vborn, vcur, cx, runs, roots, fin>>
      [] it.k = "child" ->
            LET new == it.n = 0
                c == IF new THEN Len(prog) + 1 ELSE it.n
                i2 == [it EXCEPT !.n = c]
                p1 == [prog EXCEPT ![n].items = IF at > Len(@) THEN Append(@, i2) ELSE [@ EXCEPT ![at] = i2]]
                node == IF new THEN Node(it.how, it.op.op, n) ELSE prog[c]
                call == Append(hist, Mark(s, "cvcall", c, 0, node.kind \o " " \o node.mode)) IN
            /\ prog' = IF new THEN Append(p1, node) ELSE p1
            /\ UNCHANGED <<born, cur, vborn, vcur, roots, fin>>
            /\ IF c \notin cx.done /\ cx.go /\ node.kind # "nil"
               THEN Begin(c, SetTop(on), call) /\ UNCHANGED cx
               ELSE /\ UNCHANGED s
                    /\ hist' = Append(call, Mark(s, "cvback", c, 0, ""))
                    /\ st' = SetTop(on)
                    /\ cx' = IF c \notin cx.done /\ cx.go THEN [done |-> cx.done \cup {c}, go |-> FALSE] ELSE cx
                    /\ runs' = [i \in 1..Len(prog') |-> IF i <= Len(runs) THEN runs[i] ELSE 0]

Body == /\ st # <<>> /\ Top1.ph = "run"
        /\ IF Known(Top1.n, Top1.i) THEN Step(prog[Top1.n].items[Top1.i], Top1.i)
           ELSE \E it \in NextItems(Len(st), Top1.n) : Step(it, Top1.i)

\* the function of the context on top has ended
Out == /\ st # <<>> /\ Top1.ph = "out"
       /\ s' = IF prog[Top1.n].kind = "patch" THEN DoExit(s).s ELSE s
       /\ hist' = Append(hist, Mark(s', "cvout", Top1.n, 0, Top1.out))
       /\ st' = SetTop([Top1 EXCEPT !.ph = "reset"])
       /\ UNCHANGED <<prog, cx, born, cur, vborn, vcur, runs, roots, fin>>

\* the next of its Reset actions: an operation, or a panic, after which the others are not run
ResetStep == /\ st # <<>> /\ Top1.ph = "reset" /\ Top1.rs # <<>>
             /\ LET f == Top1
                    at == Head(f.rs)
                    it == prog[f.n].items[at]
                    Put(i) == prog' = [prog EXCEPT ![f.n].items[at] = i] IN
                IF it.how = "panic"
                THEN /\ st' = SetTop([f EXCEPT !.rs = <<>>, !.out = IF @ = "goexit" THEN @ ELSE "panic"])
                     /\ hist' = hist \o <<Mark(s, "cvrun", f.n, at, ""), Mark(s, "cvend", f.n, at, "panic")>>
                     /\ UNCHANGED <<s, prog, born, cur, vborn, vcur, cx, runs, roots, fin>>
                ELSE LET op == Now(it.op)
                         e == Do(s, op)
                         k == Len(e.s.mk)
                         w == Len(e.s.vmk)
                         done == Possible(op) /\ Good(s, op, e)
                         bf == IF it.b = 0 THEN k ELSE it.b
                         bv == IF it.b = 0 THEN w ELSE it.b
                         run == Append(hist, Mark(s, "cvrun", f.n, at, ""))
                         t == IF done THEN e.s ELSE s IN
                     /\ s' = t
                     /\ hist' = (IF done THEN Append(run, Entry(s, op, e)) ELSE run) \o <<Mark(t, "cvend", f.n, at, "ret")>>
                     /\ IF Len(t.mk) > Len(s.mk)
                        THEN born' = Append(born, bf) /\ cur' = [Append(cur, k) EXCEPT ![bf] = k] /\ UNCHANGED <<vborn, vcur>> /\ Put([it EXCEPT !.b = bf])
                        ELSE IF Len(t.vmk) > Len(s.vmk)
                        THEN vborn' = Append(vborn, bv) /\ vcur' = [Append(vcur, w) EXCEPT ![bv] = w] /\ UNCHANGED <<born, cur>> /\ Put([it EXCEPT !.b = bv])
                        ELSE UNCHANGED <<born, cur, vborn, vcur, prog>>
                     /\ st' = SetTop([f EXCEPT !.rs = Tail(@)])
                     /\ UNCHANGED <<cx, runs, roots, fin>>

\* goconvey leaves the context
Leave ==
    /\ st # <<>> /\ Top1.ph = "reset" /\ Top1.rs = <<>>
    /\ LET f == Top1
           n == f.n
           through == f.out \in {"goexit", "err"}
           done == f.out = "panic" \/ Kids(n) \subseteq cx.done
           c == [done |-> IF done THEN cx.done \cup {n} ELSE cx.done, go |-> FALSE]
           rest == Front(st) IN
       /\ UNCHANGED <<born, cur, vborn, vcur, fin, prog>>
       /\ IF rest # <<>>
          THEN /\ cx' = c
               /\ IF through
                  THEN /\ st' = [rest EXCEPT ![Len(rest)].ph = "out", ![Len(rest)].out = f.out]
                       /\ UNCHANGED hist
                  ELSE /\ st' = rest
                       /\ hist' = Append(hist, Mark(s, "cvback", n, 0, ""))
               /\ UNCHANGED <<s, runs, roots>>
          ELSE IF through \/ done
          THEN /\ st' = <<>> /\ cx' = c
               /\ hist' = Append(hist, Mark(s, "cvdone", n, 0, IF through THEN f.out ELSE "ret"))
               /\ roots' = roots + 1
               /\ UNCHANGED <<s, runs>>
          ELSE \* another pass
               /\ cx' = [c EXCEPT !.go = TRUE]
               /\ UNCHANGED roots
               /\ s' = IF prog[n].kind = "patch" THEN DoEnter(s).s ELSE s
               /\ hist' = Append(hist, Mark(s', "cvin", n, 0, ""))
               /\ st' = <<Frame(n)>>
               /\ runs' = [runs EXCEPT ![n] = @ + 1]

\* outside of all contexts: an operation, the next root, or the end
Outside ==
    /\ st = <<>> /\ ~fin /\ roots < MaxRoots
    /\ IF Exh THEN roots = 0 /\ hist = <<>> ELSE Chance(40)
    /\ \E it \in {OpItem(IF Exh THEN (IF s.vmk = <<>> THEN [op |-> "vnew", g |-> 1, v |-> 1] ELSE ARet(600)) ELSE MkOp(s, Pick(P.ops)))} :
         Operate(it.op, it, LAMBDA i : UNCHANGED prog)
    /\ UNCHANGED <<st, cx, runs, roots, fin>>
Root ==
    /\ st = <<>> /\ ~fin /\ roots < MaxRoots /\ (Exh \/ Len(hist) < MaxLen \div 3)
    /\ \E kind \in IF Exh THEN {"patch"} ELSE {Pick(<<"patch", "patch", "patch", "patch", "plain">>)} :
       \E mode \in IF Exh THEN {"inherit"} ELSE {Pick(<<"inherit", "inherit", "inherit", "cont">>)} :
         /\ prog' = Append(prog, Node(kind, mode, 0))
         /\ cx' = [cx EXCEPT !.go = TRUE]
         /\ Begin(Len(prog'), <<>>, Append(hist, Mark(s, "cvroot", Len(prog'), 0, kind \o " " \o mode)))
    /\ UNCHANGED <<born, cur, vborn, vcur, roots, fin>>

RECURSIVE RunOps(_, _)
RunOps(t, ops) == IF ops = <<>> THEN <<>>
                  ELSE LET e == Do(t, Head(ops)) IN
                       IF e.r.k = "stuck" THEN RunOps(t, Tail(ops)) ELSE <<Entry(t, Head(ops), e)>> \o RunOps(e.s, Tail(ops))
AllCalls == [i \in 1..NF |-> [op |-> "call", g |-> 1, f |-> i, x |-> 1]]
Finish == /\ st = <<>> /\ ~fin /\ roots > 0 /\ (roots = MaxRoots \/ Len(hist) >= MaxLen \div 3)
          /\ hist' = hist \o RunOps(s, AllCalls \o << [op |-> "unpatchall", g |-> 1] >> \o AllCalls)
          /\ fin' = TRUE
          /\ UNCHANGED <<s, prog, st, cx, born, cur, vborn, vcur, runs, roots>>

CInit == /\ Init /\ prog = <<>> /\ st = <<>> /\ cx = [done |-> {}, go |-> TRUE]
         /\ born = <<>> /\ cur = <<>> /\ vborn = <<>> /\ vcur = <<>> /\ runs = <<>> /\ roots = 0 /\ fin = FALSE
CNext == Len(hist) < MaxLen /\ (Body \/ Out \/ ResetStep \/ Leave \/ Outside \/ Root \/ Finish)

(***************************************************************************)
(* Properties of the model.                                                *)
(***************************************************************************)
\* a context is open exactly while the function of a PatchConvey runs
Nested == Len(s.scopes) = 1 + Cardinality({i \in DOMAIN st : prog[st[i].n].kind = "patch" /\ st[i].ph \in {"run", "out"}})
\* every mock in effect belongs to an open context
Owned == \A m \in 1..Len(s.mk) : s.mk[m].on <=> \E i \in DOMAIN s.scopes : Has(s.scopes[i], <<"f", m>>)
\* every path to a leaf is executed once, unless a panic, Goexit or a failed assertion cuts something off
Clean == \A n \in 1..Len(prog) : \A i \in DOMAIN prog[n].items :
             LET it == prog[n].items[i] IN ~(it.k = "end" /\ it.how # "ret") /\ it.k # "so" /\ ~(it.k = "reset" /\ it.how = "panic")
RECURSIVE Leaves(_)
Leaves(n) == IF Kids(n) = {} THEN 1 ELSE LET F[S \in SUBSET Kids(n)] == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN Leaves(k) + F[S \ {k}]
                                         IN F[Kids(n)]
Executed == fin /\ Clean => \A n \in 1..Len(prog) : prog[n].kind # "nil" => runs[n] = Leaves(n)
\* outside of all contexts, what is in effect was put into effect there
Restored == st = <<>> => Len(s.scopes) = 1
CEmit == fin => PrintT(ToJson(hist))
=============================================================================
