----------------------------- MODULE MockeyCore -----------------------------
(***************************************************************************)
(* The state of a process that uses mockey, and one transition per public  *)
(* operation.  The state is one record `s`; every operation is a function  *)
(* Do(s, op) that yields the next state and everything a user can observe  *)
(* of the operation: its outcome (result or panic), and the sequence of    *)
(* user functions (conditions, hooks, originals) it ran with which         *)
(* arguments.  MC.tla explores Do exhaustively against the properties,     *)
(* Gen.tla samples and enumerates behaviours that the driver replays into  *)
(* the real code, Trace.tla checks traces recorded from the real code.     *)
(*                                                                         *)
(* Mockable functions are 1..NF.  Their original code is                   *)
(*   f1(x) = 1000 + x         f2(x) = 2000 + x, panics from 4 on           *)
(*   f3(x) = 3000 + f1(x)     (calls another mockable function)            *)
(*   f4(x) = IF x <= 0 THEN 4000 ELSE 1 + f4(x - 1)       (recursive)      *)
(* Instantiations of one generic function may share their code: Code(f) is  *)
(* the first function that f shares code with.  A mock of one is then in   *)
(* effect for calls of the others, too; what it replaced is the original   *)
(* of the function that was called.                                        *)
(* A mock's configuration is a list of conditions [w, h], `w` a When and   *)
(* `h` a Return / To, either of which may be absent ("none").              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NF,      \* number of mockable functions
          NV,      \* number of mockable variables
          NG,      \* number of goroutines
          Sharing  \* which functions share code: "none", "pair" (1 and 2), "pairs" (1 and 2, 3 and 4), "trio" (1, 2 and 4)

Funs == 1..NF
Vars == 1..NV
\* with four variables, the last one is a part (a field, an element) of the one before
Whole == 3
Part == 4
Overlap(v, w) == NV = 4 /\ {v, w} = {Whole, Part}
Gors == 1..NG
Code(f) == CASE Sharing = "pair"  -> IF f = 2 THEN 1 ELSE f
             [] Sharing = "pairs" -> IF f \in {1, 2} THEN 1 ELSE 3
             [] Sharing = "trio"  -> IF f \in {2, 4} THEN 1 ELSE f
             [] OTHER             -> f
MaxDepth == 14     \* nesting of calls within one operation

None == [t |-> "none", p |-> 0]
NotHeld == [m |-> 0, f |-> 0, x |-> 0]
NoFilter == [t |-> "off", g |-> 0]

Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
Range(q) == {q[i] : i \in DOMAIN q}
Without(q, e) == SelectSeq(q, LAMBDA y : y # e)
IndexOf(q, e) == CHOOSE i \in DOMAIN q : q[i] = e
Has(q, e) == \E i \in DOMAIN q : q[i] = e

(***************************************************************************)
(* State.                                                                  *)
(*   scopes  the open PatchConvey contexts, outermost (outside of all)     *)
(*           first: each the mocks in effect that were installed while it  *)
(*           was the innermost one, in order of installation;              *)
(*           <<"f", m>> is function mock m, <<"v", m>> variable mock m     *)
(*   chain   per code (Code(f)) the mocks in effect on it, in the order    *)
(*           they were applied: the last one gets the calls, its origin is *)
(*           the one before, or the original code                          *)
(*   mk      all function mocks ever built                                 *)
(*   sq      all sequences: values with repetition count, position         *)
(*   val     values of the variables;  vmk  variable mocks                 *)
(*   gid     identity of the goroutine behind each worker                  *)
(*   held    per goroutine the mock whose hook is under way on it, with    *)
(*           the function called and the argument (m = 0: none)            *)
(* Of a mock:                                                              *)
(*   f function, cs conditions, o whether it has an origin, fl filter,     *)
(*   on in effect, n and k counters, dead released, b the first mock that  *)
(*   the same builder made;                                                *)
(*   ov  its origin variable: the least mock that has the same one;        *)
(*   lf  the function whose calls the variable is set for, 0 if none       *)
(*   fw  for a mock that was removed, what takes the place of what it      *)
(*       replaced: n > 0 what mock n replaces, 0 the function itself, -1   *)
(*       nothing (no claim: the function has been mocked anew)             *)
(***************************************************************************)
Init0 == [ scopes |-> << <<>> >>,
           chain  |-> [f \in Funs |-> <<>>],
           mk     |-> <<>>,
           sq     |-> <<>>,
           val    |-> [v \in Vars |-> v],
           vmk    |-> <<>>,
           gid    |-> [g \in Gors |-> g],
           held   |-> [g \in Gors |-> NotHeld] ]

Top(s) == Last(s.scopes)

(***************************************************************************)
(* Installing and removing.                                                *)
(***************************************************************************)
Refused(s, m) ==   \* the mocks of the same function that the current context already has
    {k \in 1..Len(s.mk) : k # m /\ Has(Top(s), <<"f", k>>) /\ s.mk[k].f = s.mk[m].f}
RefusedBuild(s, f) ==
    {k \in 1..Len(s.mk) : Has(Top(s), <<"f", k>>) /\ s.mk[k].f = f}
RefusedVar(s, m) ==
    {k \in 1..Len(s.vmk) : k # m /\ Has(Top(s), <<"v", k>>) /\ s.vmk[k].v = s.vmk[m].v}

AddTop(s, ref) == [s EXCEPT !.scopes[Len(s.scopes)] = Append(@, ref)]
DropRef(s, ref) == [s EXCEPT !.scopes = [i \in DOMAIN @ |-> Without(@[i], ref)]]

Install(s, m) ==
    IF s.mk[m].on THEN s
    ELSE AddTop([s EXCEPT !.chain[Code(s.mk[m].f)] = Append(@, m),
                          !.mk = TLCEval([k \in DOMAIN @ |-> IF k = m THEN [@[k] EXCEPT !.on = TRUE, !.fw = 0]
                                                     ELSE IF ~@[k].on /\ @[k].fw = 0 /\ Code(@[k].f) = Code(s.mk[m].f)
                                                          THEN [@[k] EXCEPT !.fw = 0 - 1] ELSE @[k]])], <<"f", m>>)

Remove(s, m) ==
    IF ~s.mk[m].on THEN s
    ELSE LET c == s.chain[Code(s.mk[m].f)]
             i == IndexOf(c, m)
             to == IF i = Len(c) THEN 0 ELSE c[i+1] IN    \* the next mock takes over what m replaced
         DropRef([s EXCEPT !.chain[Code(s.mk[m].f)] = Without(@, m),
                           !.mk = TLCEval([k \in DOMAIN @ |-> IF k = m THEN [@[k] EXCEPT !.on = FALSE, !.n = 0, !.k = 0, !.fw = to]
                                                      ELSE IF ~@[k].on /\ @[k].fw = m THEN [@[k] EXCEPT !.fw = to] ELSE @[k]])], <<"f", m>>)

\* variable mocks in effect on v, in order of application
VChain(s, v) ==
    LET F[i \in 0..Len(s.scopes)] ==
          IF i = 0 THEN <<>>
          ELSE F[i-1] \o SelectSeq(s.scopes[i], LAMBDA r : r[1] = "v" /\ s.vmk[r[2]].v = v)
    IN F[Len(s.scopes)]

\* val with variable v set to x; if it has a part, that to y
VPut(val, v, x, y) == IF NV = 4 /\ v = Whole THEN [val EXCEPT ![v] = x, ![Part] = y] ELSE [val EXCEPT ![v] = x]

VInstall(s, m) ==
    IF s.vmk[m].on THEN s
    ELSE AddTop([s EXCEPT !.val = VPut(@, s.vmk[m].v, s.vmk[m].h, s.vmk[m].h), !.vmk[m].on = TRUE], <<"v", m>>)

VRemove(s, m) ==
    IF ~s.vmk[m].on THEN s
    ELSE LET v == s.vmk[m].v
             c == VChain(s, v)
             i == IndexOf(c, <<"v", m>>)
             t == DropRef([s EXCEPT !.vmk[m].on = FALSE], <<"v", m>>)
         IN IF i = Len(c) THEN [t EXCEPT !.val = VPut(@, v, s.vmk[m].og, s.vmk[m].pg)]
            ELSE [t EXCEPT !.vmk[c[i+1][2]].og = s.vmk[m].og, !.vmk[c[i+1][2]].pg = s.vmk[m].pg]   \* the later one restores it

\* m is in effect, and a variable that overlaps with its own was mocked later: no claim about the removal of m before that
Covered(s, m) ==
    LET F[i \in 0..Len(s.scopes)] == IF i = 0 THEN <<>> ELSE F[i-1] \o SelectSeq(s.scopes[i], LAMBDA r : r[1] = "v")
        q == F[Len(s.scopes)]
    IN s.vmk[m].on /\ \E j \in DOMAIN q : Overlap(s.vmk[q[j][2]].v, s.vmk[m].v) /\ j > IndexOf(q, <<"v", m>>)

RemoveRef(s, ref) == IF ref[1] = "f" THEN Remove(s, ref[2]) ELSE VRemove(s, ref[2])

RECURSIVE RemoveAll(_, _)
RemoveAll(s, refs) ==    \* latest first
    IF refs = <<>> THEN s ELSE RemoveAll(RemoveRef(s, Last(refs)), Front(refs))

(***************************************************************************)
(* Sequences: the position is (i, c): value i has been given c times.      *)
(***************************************************************************)
SeqNext(q) ==
    LET c1 == q.c + 1 IN
    IF c1 < q.vs[q.i][2] THEN [q EXCEPT !.c = c1]
    ELSE [q EXCEPT !.c = 0, !.i = IF q.i = Len(q.vs) THEN 1 ELSE q.i + 1]

(***************************************************************************)
(* Calls.  An evaluation yields [s, ev, r]: r.k is "ok" with the result,   *)
(* "panic" with the panicking mock's user panic (0: that of an original),  *)
(* "goexit" if runtime.Goexit ended the goroutine, "bad" for a panic       *)
(* raised by mockey about a Return that does not fit, "held" if a hook      *)
(* waits (v is its mock) for the goroutine to be resumed, "stuck" for evaluations *)
(* that have no defined outcome (unbounded recursion, origin of a mock     *)
(* that has been removed); drivers never perform those.                    *)
(* Events: <<"w", m, c, x>> condition c of mock m evaluated on x,          *)
(* <<"h", m, c, x>> its hook ran, <<"o", f, 0, x>> original code of f ran. *)
(***************************************************************************)
Ok(v) == [k |-> "ok", v |-> v]
Panic(m) == [k |-> "panic", v |-> m]
Goexit == [k |-> "goexit", v |-> 0]
Bad == [k |-> "bad", v |-> 0]
Stuck == [k |-> "stuck", v |-> 0]
R(s, ev, r) == [s |-> s, ev |-> ev, r |-> r]

RECURSIVE CallF(_, _, _, _, _), RunMock(_, _, _, _, _, _), Below(_, _, _, _, _, _),
          Orig(_, _, _, _, _), Origin(_, _, _, _, _, _), Conds(_, _, _, _, _, _, _), EvalW(_, _, _, _, _, _, _),
          EvalH(_, _, _, _, _, _, _)
\* f: the function that is called, m: the mock that runs

\* continue with k(state, value) if e went well
Then(e, k(_, _)) ==
    CASE e.r.k = "ok" -> LET n == k(e.s, e.r.v) IN [n EXCEPT !.ev = e.ev \o n.ev]
      [] e.r.k = "held" -> [e EXCEPT !.r = Stuck]      \* only a call that ends with what the hook gives can wait
      [] OTHER -> e

CallF(s, f, x, g, d) ==
    IF d = 0 THEN R(s, <<>>, Stuck)
    ELSE IF s.chain[Code(f)] = <<>> THEN Orig(s, f, x, g, d)
    ELSE RunMock(s, f, Last(s.chain[Code(f)]), x, g, d - 1)

Orig(s, f, x, g, d) ==
    LET e0 == <<"o", f, 0, x>>
        Log(e) == [e EXCEPT !.ev = <<e0>> \o e.ev] IN
    CASE f = 3 -> Log(Then(CallF(s, 1, x, g, d - 1), LAMBDA t, v : R(t, <<>>, Ok(3000 + v))))
      [] f = 4 /\ x > 0 -> Log(Then(CallF(s, 4, x - 1, g, d - 1), LAMBDA t, v : R(t, <<>>, Ok(1 + v))))
      [] f = 4 /\ x <= 0 -> R(s, <<e0>>, Ok(4000))
      [] f = 2 /\ x >= 4 -> R(s, <<e0>>, Panic(0))
      [] OTHER -> R(s, <<e0>>, Ok(1000 * f + x))

\* what mock m replaced
Below(s, f, m, x, g, d) ==
    IF d = 0 THEN R(s, <<>>, Stuck)
    ELSE IF ~s.mk[m].on THEN
         CASE s.mk[m].fw > 0 -> Below(s, f, s.mk[m].fw, x, g, d - 1)
           [] s.mk[m].fw = 0 -> CallF(s, f, x, g, d - 1)
           [] OTHER -> R(s, <<>>, Stuck)
    ELSE LET c == s.chain[Code(f)]
             i == IndexOf(c, m)
         IN IF i = 1 THEN Orig(s, f, x, g, d) ELSE RunMock(s, f, c[i-1], x, g, d - 1)

Applies(s, m, g) ==
    CASE s.mk[m].fl.t = "off" -> TRUE
      [] s.mk[m].fl.t = "inc" -> s.mk[m].fl.g = s.gid[g]
      [] s.mk[m].fl.t = "exc" -> s.mk[m].fl.g # s.gid[g]

RunMock(s, f, m, x, g, d) ==
    LET own == {k \in DOMAIN s.mk : k # m /\ s.mk[k].ov = s.mk[m].ov /\ s.mk[m].o}
        s1 == [s EXCEPT !.mk = TLCEval([k \in DOMAIN @ |-> IF k = m THEN [@[k] EXCEPT !.n = @ + 1, !.lf = f]
                                                   ELSE IF k \in own THEN [@[k] EXCEPT !.lf = 0] ELSE @[k]])] IN
    IF Applies(s, m, g) THEN Conds(s1, f, m, 1, x, g, d) ELSE Below(s1, f, m, x, g, d)

Conds(s, f, m, c, x, g, d) ==
    IF c > Len(s.mk[m].cs) THEN Below(s, f, m, x, g, d)
    ELSE Then(EvalW(s, f, m, c, x, g, d),
              LAMBDA t, b : IF b = 1 THEN EvalH(t, f, m, c, x, g, d) ELSE Conds(t, f, m, c + 1, x, g, d))

\* The origin function of m, called by a condition or hook of m.  It is one variable for all calls: once another function
\* that shares the code has been called in between, it belongs to that (see known-findings.txt, origin-other-instance).
Origin(s, f, m, x, g, d) == IF s.mk[m].lf # f THEN R(s, <<>>, Stuck) ELSE Below(s, f, m, x, g, d)

B(b) == Ok(IF b THEN 1 ELSE 0)
EvalW(s, f, m, c, x, g, d) ==
    LET w == s.mk[m].cs[c].w
        e == << <<"w", s.mk[m].b, c, x>> >> IN
    CASE w.t = "none" -> R(s, <<>>, Ok(1))
      [] w.t = "T"    -> R(s, e, Ok(1))
      [] w.t = "F"    -> R(s, e, Ok(0))
      [] w.t = "lt"   -> R(s, e, B(x < w.p))
      [] w.t = "eq"   -> R(s, e, B(x = w.p))
      [] w.t = "odd"  -> R(s, e, B(x % 2 = 1))
      [] w.t = "pan"  -> R(s, e, Panic(s.mk[m].b))
      [] w.t = "gox"  -> R(s, e, Goexit)
      [] w.t = "off"  -> R(Remove(s, m), e, Ok(0))
      [] w.t = "org"  -> [Then(Origin(s, f, m, x, g, d), LAMBDA t, v : R(t, <<>>, B(v % 2 = 1)))
                            EXCEPT !.ev = e \o @]

EvalH(s, f, m, c, x, g, d) ==
    LET h == s.mk[m].cs[c].h
        e == << <<"h", s.mk[m].b, c, x>> >>
        t1 == [s EXCEPT !.mk[m].k = @ + 1]
        Log(o) == [o EXCEPT !.ev = e \o o.ev] IN
    IF h.t = "none" THEN Below(s, f, m, x, g, d)
    ELSE IF ~s.mk[m].on THEN R(s, <<>>, Stuck)     \* no claim about its counters
    ELSE
    CASE h.t = "ret"  -> R(t1, <<>>, Ok(h.p))
      [] h.t = "bad"  -> R(t1, <<>>, Bad)
      [] h.t = "seq"  -> R([t1 EXCEPT !.sq[h.p] = SeqNext(@)], <<>>, Ok(t1.sq[h.p].vs[t1.sq[h.p].i][1]))
      [] h.t = "to"   -> R(t1, e, Ok(100 * h.p + x))
      [] h.t = "pan"  -> R(t1, e, Panic(s.mk[m].b))
      [] h.t = "gox"  -> R(t1, e, Goexit)
      [] h.t = "org"  -> Log(Then(Origin(t1, f, m, x, g, d), LAMBDA t, v : R(t, <<>>, Ok(v + 5))))
      [] h.t = "org1" -> Log(Then(Origin(t1, f, m, x + 1, g, d), LAMBDA t, v : R(t, <<>>, Ok(v + 6))))
      [] h.t = "org2" -> Log(Then(Origin(t1, f, m, x, g, d), LAMBDA t, v :
                              Then(Origin(t, f, m, x + 1, g, d), LAMBDA u, w : R(u, <<>>, Ok(v + w)))))
      [] h.t = "rec"  -> IF x <= 0 THEN R(t1, e, Ok(70))
                         ELSE Log(Then(CallF(t1, s.mk[m].f, x - 1, g, d), LAMBDA t, v : R(t, <<>>, Ok(v + 7))))
      [] h.t = "ror"  -> \* recursion through the mock, then the origin
                         IF x <= 0 THEN R(t1, e, Ok(80))
                         ELSE Log(Then(CallF(t1, s.mk[m].f, x - 1, g, d), LAMBDA t, v :
                                    Then(Origin(t, f, m, x, g, d), LAMBDA u, w : R(u, <<>>, Ok(v + w)))))
      [] h.t = "oth"  -> Log(Then(CallF(t1, h.p, x, g, d), LAMBDA t, v : R(t, <<>>, Ok(v + 9))))
      [] h.t = "once" -> R(Remove(t1, m), e, Ok(300 + h.p))
      \* removed, reconfigured or waiting, and then the origin
      [] h.t = "offo" -> Log(Then(Origin(Remove(t1, m), f, m, x, g, d), LAMBDA t, v : R(t, <<>>, Ok(v + 11))))
      [] h.t = "allo" -> Log(Then(Origin(RemoveAll(t1, Top(t1)), f, m, x, g, d), LAMBDA t, v : R(t, <<>>, Ok(v + 12))))
      [] h.t = "reo"  -> IF Refused(t1, m) # {} \/ Len(s.mk[m].cs) # 1 THEN R(s, <<>>, Stuck)
                         ELSE Log(Then(Origin(Install(Remove([t1 EXCEPT !.mk[m].cs[1].h = [t |-> "ret", p |-> 700 + h.p]], m), m), f, m, x, g, d),
                                       LAMBDA t, v : R(t, <<>>, Ok(v + 13))))
      [] h.t = "gate" -> IF s.held[g] # NotHeld THEN R(s, <<>>, Stuck)
                         ELSE R([t1 EXCEPT !.held[g] = [m |-> m, f |-> f, x |-> x]], e, [k |-> "held", v |-> m])

(***************************************************************************)
(* Builder: each When / To / Return call extends the last condition, or    *)
(* starts a new one if the last is complete.                               *)
(***************************************************************************)
EmptyCond == [w |-> None, h |-> None]
Complete(c) == c.w.t # "none" /\ c.h.t # "none"

RECURSIVE BuildConds(_, _, _)
\* calls: [c |-> "when" | "hook" | "badwhen" | "badhook", a |-> when or hook]
BuildConds(cs, calls, rej) ==
    IF calls = <<>> THEN [cs |-> cs, rej |-> rej]
    ELSE LET b == Head(calls)
             c1 == IF Complete(Last(cs)) THEN Append(cs, EmptyCond) ELSE cs
             i == Len(c1) IN
         CASE b.c = "when" /\ c1[i].w.t = "none" -> BuildConds([c1 EXCEPT ![i].w = b.a], Tail(calls), Append(rej, 0))
           [] b.c = "hook" /\ c1[i].h.t = "none" -> BuildConds([c1 EXCEPT ![i].h = b.a], Tail(calls), Append(rej, 0))
           [] OTHER -> BuildConds(cs, Tail(calls), Append(rej, 1))     \* rejected, no effect

(***************************************************************************)
(* Operations.  Outcome kinds besides those of calls: "done", "rej"        *)
(* (panic, no effect) and "remock" (panic naming mock v, no effect).       *)
(***************************************************************************)
Done(s) == R(s, <<>>, [k |-> "done", v |-> 0])
Rej(s) == R(s, <<>>, [k |-> "rej", v |-> 0])
ReMock(s, ms) == R(s, <<>>, [k |-> "remock", v |-> CHOOSE m \in ms : TRUE])

NewMock(s, f, cs, o, fl, ov) ==    \* ov: 0 or the mock whose origin variable it has, too
    LET m == Len(s.mk) + 1
        t == [s EXCEPT !.mk = Append(@, [f |-> f, cs |-> cs, o |-> o, fl |-> fl, on |-> FALSE,
                                         n |-> 0, k |-> 0, dead |-> FALSE, ov |-> IF ov = 0 THEN m ELSE ov, lf |-> 0, fw |-> 0, b |-> m])]
    IN Install(t, m)

RealFilter(s, fl) == IF fl.t = "off" THEN NoFilter ELSE [t |-> fl.t, g |-> IF fl.g = 0 THEN 0 ELSE s.gid[fl.g]]  \* 0: a goroutine that does not exist

Reconf(s, m, t) == IF Refused(s, m) # {} THEN ReMock(s, Refused(s, m)) ELSE Done(Install(Remove(t, m), m))

\* The functions that each user operation applies to the state
DoEnter(s) == Done([s EXCEPT !.scopes = Append(@, <<>>)])
DoExit(s)  == Done([RemoveAll(s, Top(s)) EXCEPT !.scopes = Front(@)])
DoUnPatchAll(s) == Done(RemoveAll(s, Top(s)))
DoBuild(s, f, calls, o, fl) ==
    LET b == BuildConds(<<EmptyCond>>, calls, <<>>)
        e == IF RefusedBuild(s, f) # {} THEN ReMock(s, RefusedBuild(s, f))
             ELSE Done(NewMock(s, f, b.cs, o, RealFilter(s, fl), 0))
    IN [e EXCEPT !.ev = b.rej]
DoPatch(s, m) ==
    IF ~s.mk[m].on /\ Refused(s, m) # {} THEN ReMock(s, Refused(s, m)) ELSE Done(Install(s, m))
DoUnPatch(s, m) == Done(Remove(s, m))
DoRelease(s, m) == Done([Remove(s, m) EXCEPT !.mk[m].dead = TRUE])
DoRebuild(s, m, calls) ==
    LET b == BuildConds(<<EmptyCond>>, calls, <<>>)
        f == s.mk[m].f
        e == IF RefusedBuild(s, f) # {} THEN ReMock(s, RefusedBuild(s, f))
             ELSE Done(NewMock(s, f, b.cs, s.mk[m].o, s.mk[m].fl, s.mk[m].ov))
    IN [e EXCEPT !.ev = b.rej]
\* The builder of m is built once more, with what m is configured to.  The conditions and hooks are those of m, and what
\* is changed by way of one of the two may or may not change the other: no claim about that, nor about hooks that change m.
SharedBuilder(s, m) == \E k \in DOMAIN s.mk : k # m /\ s.mk[k].b = s.mk[m].b
Plainly(s, m) == \A c \in DOMAIN s.mk[m].cs : /\ s.mk[m].cs[c].h.t \notin {"once", "offo", "allo", "reo", "gate"}
                                             /\ s.mk[m].cs[c].w.t \notin {"off"}
DoAgain(s, m) ==
    LET f == s.mk[m].f IN
    IF ~Plainly(s, m) THEN R(s, <<>>, Stuck)
    ELSE IF RefusedBuild(s, f) # {} THEN ReMock(s, RefusedBuild(s, f))
    ELSE Done([NewMock(s, f, s.mk[m].cs, s.mk[m].o, s.mk[m].fl, s.mk[m].ov) EXCEPT !.mk[Len(s.mk) + 1].b = s.mk[m].b])
DoReWhen(s, m, w) == IF Len(s.mk[m].cs) # 1 THEN Rej(s) ELSE Reconf(s, m, [s EXCEPT !.mk[m].cs[1].w = w])
DoReHook(s, m, h) == IF Len(s.mk[m].cs) # 1 THEN Rej(s) ELSE Reconf(s, m, [s EXCEPT !.mk[m].cs[1].h = h])
DoReFilter(s, m, fl) == Reconf(s, m, [s EXCEPT !.mk[m].fl = RealFilter(s, fl)])
\* m gets an origin variable of its own
OwnOrigin(s, m) ==
    LET P == {k \in DOMAIN s.mk : k # m /\ s.mk[k].ov = s.mk[m].ov} IN
    [s EXCEPT !.mk = TLCEval([k \in DOMAIN @ |-> IF k = m THEN [@[k] EXCEPT !.o = TRUE, !.ov = m, !.lf = 0]
                                         ELSE IF k \in P THEN [@[k] EXCEPT !.ov = CHOOSE i \in P : \A j \in P : i <= j] ELSE @[k]])]
DoReOrigin(s, m) == Reconf(s, m, OwnOrigin(s, m))
DoBadConf(s, m) == Rej(s)          \* reconfiguration with an unfit function
DoRespawn(s, g) ==     \* goroutine g ends, a new one takes its place
    LET top == CHOOSE n \in {s.gid[h] : h \in Gors} : \A h \in Gors : s.gid[h] <= n
    IN Done([s EXCEPT !.gid[g] = top + 1])
Settled(e, g) == CASE e.r.k = "goexit" -> [e EXCEPT !.s = DoRespawn(e.s, g).s]
                 [] e.r.k = "held" -> [e EXCEPT !.r = Stuck]
                 [] OTHER -> e
DoCall(s, g, f, x) == Settled(CallF(s, f, x, g, MaxDepth), g)
\* a call that stops in a hook, and its end
DoHCall(s, g, f, x) == LET e == CallF(s, f, x, g, MaxDepth) IN IF e.r.k = "held" THEN e ELSE R(s, <<>>, Stuck)
DoResume(s, g) == LET h == s.held[g] IN
    IF h = NotHeld THEN R(s, <<>>, Stuck)
    ELSE Settled(Then(Origin([s EXCEPT !.held[g] = NotHeld], h.f, h.m, h.x, g, MaxDepth), LAMBDA t, v : R(t, <<>>, Ok(v + 14))), g)
\* the origin function of m is called, not by m
DoOCall(s, g, m, x) == IF ~s.mk[m].o \/ s.mk[m].lf = 0 THEN R(s, <<>>, Stuck) ELSE Settled(Below(s, s.mk[m].lf, m, x, g, MaxDepth), g)
CallOf(s, q) == DoCall(s, q.g, q.f, q.x)
DoSeqNew(s, f, vs) == Done([s EXCEPT !.sq = Append(@, [f |-> f, vs |-> vs, i |-> 1, c |-> 0])])  \* f: the function it is meant for, 0: any
DoVNew(s, v) == Done([s EXCEPT !.vmk = Append(@, [v |-> v, h |-> 0, hs |-> FALSE, og |-> s.val[v], pg |-> IF NV = 4 /\ v = Whole THEN s.val[Part] ELSE 0, on |-> FALSE])])
DoVTo(s, m, x) ==
    IF RefusedVar(s, m) # {} THEN ReMock(s, RefusedVar(s, m))
    ELSE IF Covered(s, m) THEN R(s, <<>>, Stuck)
    ELSE LET t == VRemove(s, m) IN Done(VInstall([t EXCEPT !.vmk[m].h = x, !.vmk[m].hs = TRUE], m))
DoVPatch(s, m) ==
    IF ~s.vmk[m].on /\ RefusedVar(s, m) # {} THEN ReMock(s, RefusedVar(s, m)) ELSE Done(VInstall(s, m))
DoVUnPatch(s, m) == IF Covered(s, m) THEN R(s, <<>>, Stuck) ELSE Done(VRemove(s, m))
DoVSet(s, v, x) == Done([s EXCEPT !.val = VPut(@, v, x, x)])
DoVBad(s, m) == Rej(s)

\* Concurrent calls: qs is a list of [g, f, x, n]: goroutine g calls f(x) n times.  Only used where every order of
\* the calls has the same outcome up to the distribution of sequence values: see Commutes.
RECURSIVE Repeat(_, _, _, _, _, _)
Repeat(s, g, f, x, n, rs) ==
    IF n = 0 THEN [s |-> s, rs |-> rs, ok |-> TRUE]
    ELSE LET e == DoCall(s, g, f, x) IN
         IF e.r.k = "stuck" THEN [s |-> s, rs |-> rs, ok |-> FALSE]
         ELSE Repeat(e.s, g, f, x, n - 1, Append(rs, <<e.r.k, e.r.v>>))
RECURSIVE ConcEval(_, _, _)
ConcEval(s, qs, out) ==
    IF qs = <<>> THEN [s |-> s, out |-> out, ok |-> TRUE]
    ELSE LET q == Head(qs)
             e == Repeat(s, q.g, q.f, q.x, q.n, <<>>) IN
         IF ~e.ok THEN [s |-> s, out |-> out, ok |-> FALSE]
         ELSE ConcEval(e.s, Tail(qs), Append(out, e.rs))
\* no two mocks in effect share an origin variable: a call would set it for a call of the other that is under way
OriginsApart(s) == \A m, k \in 1..Len(s.mk) : m # k /\ s.mk[m].on /\ s.mk[k].on => s.mk[k].ov # s.mk[m].ov \/ ~s.mk[m].o
\* no mock removes itself or ends the goroutine during the calls
Commutes(s) == OriginsApart(s) /\ \A m \in 1..Len(s.mk) : s.mk[m].on => \A c \in DOMAIN s.mk[m].cs : s.mk[m].cs[c].h.t \notin {"once", "gox", "offo", "allo", "reo"} /\ s.mk[m].cs[c].w.t \notin {"gox", "off"}
DoConc(s, qs) == LET e == ConcEval(s, qs, <<>>) IN R(e.s, e.out, IF e.ok /\ OriginsApart(s) THEN [k |-> "done", v |-> 0] ELSE Stuck)

(***************************************************************************)
(* Heavy concurrency.  A call's effects on shared state are a list of      *)
(* atomic steps that depends only on who calls what, if no condition looks *)
(* at results and no mock removes itself: <<"n", m>> the call reached mock *)
(* m, <<"k", m>> it runs a hook of m, <<"d", q>> it takes the next value   *)
(* of sequence q.  Conc.tla interleaves these steps.                       *)
(***************************************************************************)
SimpleWhens == {"none", "T", "F", "lt", "eq", "odd"}
FlatHooks == {"none", "ret", "bad", "seq", "to", "pan", "org", "org1", "org2", "oth"}
Plannable(s) == \A m \in 1..Len(s.mk) : s.mk[m].on =>
    /\ \A c \in DOMAIN s.mk[m].cs : s.mk[m].cs[c].w.t \in SimpleWhens /\ s.mk[m].cs[c].h.t \in FlatHooks
    /\ OriginsApart(s)
WHolds(w, x) == CASE w.t \in {"none", "T"} -> TRUE [] w.t = "F" -> FALSE [] w.t = "lt" -> x < w.p
                 [] w.t = "eq" -> x = w.p [] w.t = "odd" -> x % 2 = 1
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j

RECURSIVE PlanCall(_, _, _, _, _), PlanMock(_, _, _, _, _, _), PlanBelow(_, _, _, _, _, _)
Pl(eff, ok) == [eff |-> eff, ok |-> ok]
Seq2(a, b) == IF a.ok THEN Pl(a.eff \o b.eff, b.ok) ELSE a     \* a panic ends it
PlanOrig(s, f, x, g, d) == CASE f = 3 -> PlanCall(s, 1, x, g, d)
                             [] f = 4 /\ x > 0 -> PlanCall(s, 4, x - 1, g, d)
                             [] f = 2 /\ x >= 4 -> Pl(<<>>, FALSE)
                             [] OTHER -> Pl(<<>>, TRUE)
PlanCall(s, f, x, g, d) == IF d = 0 THEN Pl(<<>>, FALSE)
                           ELSE IF s.chain[Code(f)] = <<>> THEN PlanOrig(s, f, x, g, d - 1)
                           ELSE PlanMock(s, f, Last(s.chain[Code(f)]), x, g, d - 1)
PlanBelow(s, f, m, x, g, d) == LET c == s.chain[Code(f)]
                                   i == IndexOf(c, m) IN
                               IF d = 0 THEN Pl(<<>>, FALSE)
                               ELSE IF i = 1 THEN PlanOrig(s, f, x, g, d - 1) ELSE PlanMock(s, f, c[i-1], x, g, d - 1)
PlanMock(s, f, m, x, g, d) ==
    LET n == Pl(<< <<"n", m>> >>, TRUE)
        k == Pl(<< <<"n", m>>, <<"k", m>> >>, TRUE)
        cs == s.mk[m].cs
        I == {i \in DOMAIN cs : WHolds(cs[i].w, x)}
        h == cs[MinOf(I)].h IN
    IF ~Applies(s, m, g) \/ I = {} THEN Seq2(n, PlanBelow(s, f, m, x, g, d))
    ELSE CASE h.t = "none" -> Seq2(n, PlanBelow(s, f, m, x, g, d))
           [] h.t \in {"ret", "to"} -> k
           [] h.t \in {"pan", "bad"} -> Pl(k.eff, FALSE)
           [] h.t = "seq" -> Pl(Append(k.eff, <<"d", h.p>>), TRUE)
           [] h.t = "org" -> Seq2(k, PlanBelow(s, f, m, x, g, d))
           [] h.t = "org1" -> Seq2(k, PlanBelow(s, f, m, x + 1, g, d))
           [] h.t = "org2" -> Seq2(k, Seq2(PlanBelow(s, f, m, x, g, d), PlanBelow(s, f, m, x + 1, g, d)))
           [] h.t = "oth" -> Seq2(k, PlanCall(s, h.p, x, g, d))
Plan(s, q) == PlanCall(s, q.f, q.x, q.g, MaxDepth).eff
EffCount(p, e) == Cardinality({i \in DOMAIN p : p[i] = e})

\* the positions of a sequence, in order
RECURSIVE Expand(_)
Expand(vs) == IF vs = <<>> THEN <<>> ELSE [j \in 1..Head(vs)[2] |-> Head(vs)[1]] \o Expand(Tail(vs))
Position(q) == LET F[i \in 0..Len(q.vs)] == IF i = 0 THEN 0 ELSE F[i-1] + q.vs[i][2] IN F[q.i - 1] + q.c
AtPosition(q, p) == \* the sequence at position p
    LET F[i \in 0..Len(q.vs)] == IF i = 0 THEN 0 ELSE F[i-1] + q.vs[i][2]
        i == CHOOSE j \in 1..Len(q.vs) : F[j-1] <= p /\ p < F[j]
    IN [q EXCEPT !.i = i, !.c = p - F[i-1]]
Advance(q, K) == AtPosition(q, (Position(q) + K) % Len(Expand(q.vs)))
\* how often each position is among the next K
DrawCounts(q, K) == LET all == Expand(q.vs)
                        L == Len(all) IN
                    [j \in 1..L |-> <<all[j], (K \div L) + (IF (j - 1 - Position(q) + L) % L < K % L THEN 1 ELSE 0)>>]

\* the outcome of one call of q; <<"draw", sequence, b>> is b plus the value taken
NoSeq(s) == [s EXCEPT !.sq = [i \in DOMAIN @ |-> [@[i] EXCEPT !.vs = << <<0, 1>> >>, !.i = 1, !.c = 0]]]
OutcomeOf(s, q) == LET e == CallOf(NoSeq(s), q)
                       p == SelectSeq(Plan(s, q), LAMBDA y : y[1] = "d") IN
                   IF p = <<>> \/ e.r.k # "ok" THEN <<e.r.k, e.r.v>> ELSE <<"draw", p[1][2], e.r.v>>
BulkOK(s, qs) == /\ Plannable(s)
                 /\ \A i \in DOMAIN qs : /\ Cardinality({j \in DOMAIN Plan(s, qs[i]) : Plan(s, qs[i])[j][1] = "d"}) <= 1
                                         /\ CallOf(NoSeq(s), qs[i]).r.k # "stuck"
RECURSIVE BSum(_, _, _)
BSum(s, qs, e) == IF qs = <<>> THEN 0 ELSE Head(qs).n * EffCount(Plan(s, Head(qs)), e) + BSum(s, Tail(qs), e)
BulkState(s, qs) == [s EXCEPT !.mk = [m \in DOMAIN @ |-> [@[m] EXCEPT !.n = @ + BSum(s, qs, <<"n", m>>), !.k = @ + BSum(s, qs, <<"k", m>>)]],
                              !.sq = [i \in DOMAIN @ |-> Advance(@[i], BSum(s, qs, <<"d", i>>))]]
BulkDraws(s, qs) == [i \in DOMAIN s.sq |-> DrawCounts(s.sq[i], BSum(s, qs, <<"d", i>>))]
DoBulk(s, qs) ==
    IF ~BulkOK(s, qs) THEN R(s, <<>>, Stuck)
    ELSE R(BulkState(s, qs),
           [outs |-> [i \in DOMAIN qs |-> OutcomeOf(s, qs[i])], draws |-> BulkDraws(s, qs),
            plans |-> [i \in DOMAIN qs |-> Plan(s, qs[i])], sq |-> s.sq,
            n |-> [m \in DOMAIN s.mk |-> s.mk[m].n], k |-> [m \in DOMAIN s.mk |-> s.mk[m].k]],
           [k |-> "done", v |-> 0])

Do(s, op) ==
    CASE op.op = "enter"    -> DoEnter(s)
      [] op.op = "exit"     -> DoExit(s)
      [] op.op = "build"    -> DoBuild(s, op.f, op.calls, op.o, op.fl)
      [] op.op \in {"patch", "cpatch"} -> DoPatch(s, op.m)         \* "c": on all goroutines at once, one of them does it
      [] op.op \in {"unpatch", "cunpatch"} -> DoUnPatch(s, op.m)
      [] op.op \in {"release", "rewhen", "rehook", "refilter", "reorigin", "rebuild"} /\ SharedBuilder(s, op.m) -> R(s, <<>>, Stuck)
      [] op.op = "again"    -> DoAgain(s, op.m)
      [] op.op = "release"  -> DoRelease(s, op.m)
      [] op.op = "rebuild"  -> DoRebuild(s, op.m, op.calls)
      [] op.op = "rewhen"   -> DoReWhen(s, op.m, op.a)
      [] op.op = "rehook"   -> DoReHook(s, op.m, op.a)
      [] op.op = "refilter" -> DoReFilter(s, op.m, op.fl)
      [] op.op = "reorigin" -> DoReOrigin(s, op.m)
      [] op.op = "badconf"  -> DoBadConf(s, op.m)
      [] op.op = "junk"     -> Rej(s)                    \* something that is no mock at all is asked for
      [] op.op = "unpatchall" -> DoUnPatchAll(s)
      [] op.op = "call"     -> DoCall(s, op.g, op.f, op.x)
      [] op.op = "seqnew"   -> DoSeqNew(s, op.f, op.vs)
      [] op.op = "vnew"     -> DoVNew(s, op.v)
      [] op.op = "vto"      -> DoVTo(s, op.m, op.x)
      [] op.op \in {"vpatch", "cvpatch"} -> DoVPatch(s, op.m)
      [] op.op \in {"vunpatch", "cvunpatch"} -> DoVUnPatch(s, op.m)
      [] op.op = "vset"     -> DoVSet(s, op.v, op.x)
      [] op.op = "vbad"     -> DoVBad(s, op.m)
      [] op.op = "respawn"  -> DoRespawn(s, op.g)
      [] op.op = "hcall"    -> DoHCall(s, op.g, op.f, op.x)
      [] op.op = "resume"   -> DoResume(s, op.g)
      [] op.op = "ocall"    -> DoOCall(s, op.g, op.m, op.x)
      [] op.op = "conc"     -> DoConc(s, op.qs)
      [] op.op \in {"bulk", "window"} -> DoBulk(s, op.qs)
      [] op.op \in {"gc", "gid"} -> Done(s)

(***************************************************************************)
(* What a user can observe of a state at any time.                         *)
(***************************************************************************)
View(s) == [ p  |-> [f \in Funs |-> IF s.chain[Code(f)] = <<>> THEN 0 ELSE 1],
             n  |-> [m \in 1..Len(s.mk) |-> s.mk[m].n],
             k  |-> [m \in 1..Len(s.mk) |-> s.mk[m].k],
             v  |-> s.val ]

(***************************************************************************)
(* One step of a behaviour as it is handed to the driver: operation,       *)
(* outcome, user functions run (or, for concurrent calls, the outcomes of  *)
(* each goroutine), whether a sequence was used, mocks in effect, view.    *)
(***************************************************************************)
\* a call may have taken a value from a sequence
UsedSeq(s, t) == \E m \in 1..Len(t.mk) :
    t.mk[m].k # (IF m <= Len(s.mk) THEN s.mk[m].k ELSE 0) /\ \E c \in DOMAIN t.mk[m].cs : t.mk[m].cs[c].h.t = "seq"
Entry(s, op, e) == [o |-> op, r |-> <<e.r.k, e.r.v>>, ev |-> e.ev, sq |-> IF UsedSeq(s, e.s) THEN 1 ELSE 0,
                    on |-> SelectSeq([m \in 1..Len(e.s.mk) |-> m], LAMBDA m : e.s.mk[m].on),
                    vn |-> SelectSeq([m \in 1..Len(e.s.vmk) |-> m], LAMBDA m : e.s.vmk[m].on), vw |-> View(e.s)]
=============================================================================
