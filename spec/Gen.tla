-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Random behaviours of MockeyCore for replay into the code.  Run with     *)
(* `tlc -simulate`: every step picks an operation kind from the profile's  *)
(* bag and random parameters for it; every finished behaviour is printed   *)
(* as JSON with, per step, the operation, its outcome, the user functions  *)
(* it ran, and the observable state after it.                              *)
(***************************************************************************)
EXTENDS MockeyCore, Profiles, Json

CONSTANTS D,        \* length of a behaviour
          Profile   \* which mix of operations

VARIABLES s, hist

P == ProfileOf[Profile]

\* random choices; they depend on the state so that TLC draws anew in every step
Rnd(n) == RandomElement(1..(IF Len(hist) >= 0 THEN n ELSE 0))
Pick(q) == q[Rnd(Len(q))]
PickSet(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})
Chance(pct) == Rnd(100) <= pct

Skip == [op |-> "gid", g |-> 1]

MocksAny(t) == {m \in 1..Len(t.mk) : ~t.mk[m].dead}
\* favour recent and live mocks
PickMock(t) == LET L == {m \in MocksAny(t) : t.mk[m].on} IN
               IF L # {} /\ Chance(60) THEN PickSet(L) ELSE PickSet(MocksAny(t))
VMocks(t) == 1..Len(t.vmk)

RandW(o) == LET w == Pick(P.whens) IN
            CASE w = "none" -> None
              [] w = "org" /\ ~o -> [t |-> "odd", p |-> 0]
              [] OTHER -> [t |-> w, p |-> Rnd(5) - 1]
RandHook(t, f, o) ==
    LET h == Pick(P.hooks) IN
    CASE h \in {"org", "org1", "org2", "ror", "offo", "allo", "reo", "gate"} /\ ~o -> [t |-> "to", p |-> Rnd(4)]
      [] h = "seq" -> LET L == {q \in 1..Len(t.sq) : t.sq[q].f \in {0, f}} IN
                      IF L = {} THEN [t |-> "ret", p |-> 600 + Rnd(9)] ELSE [t |-> "seq", p |-> PickSet(L)]
      [] h = "oth" -> [t |-> "oth", p |-> (f % NF) + 1]
      [] h = "ret" -> [t |-> "ret", p |-> 600 + Rnd(99)]
      [] OTHER -> [t |-> h, p |-> Rnd(4)]

C(c, a) == [c |-> c, a |-> a]
\* the builder calls for one condition (may be incomplete only if last)
Noise(w, h) == \* calls that have to be rejected at this point, given what is set
    IF ~Chance(P.noise) THEN <<>>
    ELSE CASE Rnd(4) = 1 -> << C("badwhen", None) >>
           [] Rnd(3) = 1 -> << C("badhook", None) >>
           [] w -> << C("when", [t |-> "T", p |-> 0]) >>
           [] h -> << C("hook", [t |-> "ret", p |-> 1]) >>
           [] OTHER -> <<>>
OneCond(t, f, o, last) ==
    LET k == IF last THEN Rnd(10) ELSE Rnd(6)
        w == C("when", RandW(o))
        wOK == w.a.t # "none"
        h == C("hook", RandHook(t, f, o)) IN
    CASE k <= 4 -> IF wOK THEN Noise(FALSE, FALSE) \o <<w>> \o Noise(TRUE, FALSE) \o <<h>>
                   ELSE IF last THEN <<h>> ELSE << C("when", [t |-> "lt", p |-> 2]), h>>
      [] k <= 6 -> << h >> \o Noise(FALSE, TRUE) \o << (IF wOK THEN w ELSE C("when", [t |-> "odd", p |-> 0])) >>
      [] k <= 8 -> Noise(FALSE, FALSE) \o << h >> \o Noise(FALSE, TRUE)
      [] k = 9  -> IF wOK THEN << w >> ELSE << h >>
      [] OTHER  -> IF Chance(30) THEN <<>> ELSE << h >>
RECURSIVE RandCalls(_, _, _, _)
RandCalls(t, f, o, n) ==
    IF n = 1 THEN OneCond(t, f, o, TRUE) ELSE OneCond(t, f, o, FALSE) \o RandCalls(t, f, o, n - 1)
NConds == LET r == Rnd(100) IN IF r <= P.multi THEN Pick(<<2, 2, 2, 3, 3, 3, 4, 5, 7>>) ELSE 1

RandFilter == IF ~Chance(P.filter) THEN [t |-> "off", g |-> 0, cur |-> FALSE]
              ELSE [t |-> Pick(<<"inc", "exc">>), g |-> Rnd(NG), cur |-> Chance(50)]
NobodyOr(fl) == IF fl.t # "off" /\ Chance(10) THEN [fl EXCEPT !.g = 0, !.cur = FALSE] ELSE fl
X == Rnd(6) - 2

MkOp(t, k) ==
    CASE k = "enter" -> IF Len(t.scopes) < P.depth THEN [op |-> "enter", g |-> 1] ELSE Skip
      [] k = "exit"  -> IF Len(t.scopes) > 1 THEN [op |-> "exit", g |-> 1, how |-> Pick(P.exits)] ELSE Skip
      [] k = "build" -> IF Len(t.mk) >= P.mocks THEN Skip
                        ELSE LET f == Pick(P.funs)
                                 o == Chance(P.origin) IN
                             [op |-> "build", g |-> Rnd(NG), f |-> f, o |-> o,
                              calls |-> RandCalls(t, f, o, NConds), fl |-> NobodyOr(RandFilter)]
      [] k = "call"  -> [op |-> "call", g |-> Rnd(NG), f |-> Pick(P.funs), x |-> X]
      [] k = "calls" -> LET L == {f \in Funs : t.chain[Code(f)] # <<>>} IN   \* call something that is mocked
                        [op |-> "call", g |-> Rnd(NG), f |-> IF L = {} THEN Pick(P.funs) ELSE PickSet(L), x |-> X]
      [] k = "hcall" -> LET L == {f \in Funs : t.chain[Code(f)] # <<>>} IN
                        [op |-> k, g |-> 1 + Rnd(NG - 1), f |-> IF L = {} THEN 1 ELSE PickSet(L), x |-> X]
      [] k = "resume" -> LET L == {g \in Gors : t.held[g] # NotHeld} IN IF L = {} THEN Skip ELSE [op |-> k, g |-> PickSet(L)]
      [] k = "ocall" -> LET L == {m \in 1..Len(t.mk) : t.mk[m].o /\ t.mk[m].lf # 0} IN
                        IF L = {} THEN Skip ELSE [op |-> k, g |-> Rnd(NG), m |-> PickSet(L), x |-> X]
      [] k \in {"patch", "unpatch", "cpatch", "cunpatch", "release", "reorigin", "badconf"} ->
                        IF MocksAny(t) = {} THEN Skip
                        ELSE [op |-> k, g |-> Rnd(NG), m |-> PickMock(t)]
      [] k = "rebuild" -> LET L == {m \in 1..Len(t.mk) : t.mk[m].dead /\
                                      ~\E h \in DOMAIN hist : hist[h].o.op = "rebuild" /\ hist[h].o.m = m} IN
                        IF L = {} \/ Len(t.mk) >= P.mocks THEN Skip
                        ELSE LET m == PickSet(L) IN
                             [op |-> "rebuild", g |-> Rnd(NG), m |-> m,
                              calls |-> RandCalls(t, t.mk[m].f, t.mk[m].o, NConds)]
      [] k = "again" -> LET L == {m \in MocksAny(t) : Plainly(t, m)} IN
                        IF L = {} \/ Len(t.mk) >= P.mocks THEN Skip ELSE [op |-> k, g |-> Rnd(NG), m |-> PickSet(L)]
      [] k = "rewhen" -> IF MocksAny(t) = {} THEN Skip
                         ELSE LET m == PickMock(t)
                                  w == RandW(t.mk[m].o) IN
                              IF w.t = "none" THEN Skip ELSE [op |-> k, g |-> Rnd(NG), m |-> m, a |-> w]
      [] k = "rehook" -> IF MocksAny(t) = {} THEN Skip
                         ELSE LET m == PickMock(t) IN
                              [op |-> k, g |-> Rnd(NG), m |-> m, a |-> RandHook(t, t.mk[m].f, t.mk[m].o)]
      [] k = "refilter" -> IF MocksAny(t) = {} THEN Skip
                         ELSE LET m == PickMock(t)
                                  fl == [t |-> Pick(<<"inc", "exc", "off">>), g |-> Rnd(NG), cur |-> FALSE] IN
                              [op |-> k, g |-> fl.g, m |-> m, fl |-> NobodyOr([fl EXCEPT !.cur = (fl.t # "off" /\ Chance(50))])]
      [] k = "unpatchall" -> [op |-> k, g |-> 1]
      [] k = "seqnew" -> IF Len(t.sq) >= 4 THEN Skip
                         ELSE LET V(i) == <<700 + 10 * Len(t.sq) + i, Pick(<<1, 1, 1, 2, 2, 3, 3, 6>>)>> IN
                              [op |-> k, g |-> 1, f |-> IF Chance(20) THEN 0 ELSE Pick(P.funs),
                               vs |-> SubSeq(<<V(0), V(1), V(2), V(3), V(4), V(5)>>, 1, Pick(<<1, 2, 2, 3, 3, 3, 6>>))]
      [] k = "vnew"  -> IF Len(t.vmk) >= P.mocks THEN Skip ELSE [op |-> k, g |-> Rnd(NG), v |-> IF NV = 4 /\ Chance(70) THEN Pick(<<Whole, Part>>) ELSE Rnd(NV)]
      [] k = "vto"   -> IF t.vmk = <<>> THEN Skip ELSE [op |-> k, g |-> Rnd(NG), m |-> Rnd(Len(t.vmk)), x |-> Rnd(8) - 1]
      [] k \in {"vpatch", "cvpatch"} -> LET L == {m \in VMocks(t) : t.vmk[m].hs} IN
                         IF L = {} THEN Skip ELSE [op |-> k, g |-> Rnd(NG), m |-> PickSet(L)]
      [] k \in {"vunpatch", "cvunpatch", "vbad"} -> IF t.vmk = <<>> THEN Skip ELSE [op |-> k, g |-> Rnd(NG), m |-> Rnd(Len(t.vmk))]
      [] k = "vset"  -> [op |-> k, g |-> Rnd(NG), v |-> Rnd(NV), x |-> Rnd(8) + 9]
      [] k = "respawn" -> [op |-> k, g |-> 1 + Rnd(NG - 1)]
      [] k = "gid"   -> [op |-> k, g |-> Rnd(NG)]
      [] k = "gc"    -> [op |-> k, g |-> 1]
      [] k = "junk"  -> [op |-> k, g |-> Rnd(NG), f |-> Pick(P.funs)]
      [] k = "conc"  -> IF ~Commutes(t) THEN Skip
                        ELSE [op |-> k, g |-> 1,
                              qs |-> [i \in 1..(1 + Rnd(NG - 1)) |->
                                        [g |-> i, f |-> Pick(P.funs), x |-> X, n |-> Pick(<<1, 3, 6>>)]]]

      [] k = "bulk"  -> \* a call in a tight loop on every goroutine
                        LET x == X IN
                        [op |-> k, g |-> 1,
                         qs |-> [i \in 1..NG |-> [g |-> i, f |-> Pick(P.funs), x |-> IF Chance(50) THEN x ELSE X, n |-> Pick(<<5000, 10000, 20000>>)]]]
      [] k = "window" -> \* a few calls on some goroutines, recorded for ConcTrace.tla
                        [op |-> k, g |-> 1,
                         qs |-> [i \in 1..(2 + Rnd(2)) |-> [g |-> i, f |-> Pick(P.funs), x |-> X, n |-> Pick(<<3, 5, 8>>)]]]

\* at the end of a behaviour everything is closed, so that it ends in the initial state (except for values of variables)
Closing(t) == IF Len(t.scopes) > 1 THEN [op |-> "exit", g |-> 1, how |-> Pick(P.exits)]
              ELSE IF Top(t) # <<>> THEN [op |-> "unpatchall", g |-> 1]
              ELSE IF \E g \in Gors : t.held[g] # NotHeld THEN MkOp(t, "resume")
              ELSE [op |-> "call", g |-> 1, f |-> (Len(hist) % NF) + 1, x |-> 1]

OrgWhen(t) == \E m \in 1..Len(t.mk) : \E c \in DOMAIN t.mk[m].cs : t.mk[m].cs[c].w.t = "org"
Busy(t) == {g \in Gors : t.held[g] # NotHeld}
Uses(op) == (IF op.op = "resume" THEN {} ELSE {op.g}) \cup (IF op.op \in {"build", "refilter"} /\ op.fl.cur THEN {op.fl.g} ELSE {})
            \cup (IF op.op \in {"conc", "bulk", "window"} THEN {op.qs[i].g : i \in DOMAIN op.qs} ELSE {})
            \cup (IF op.op \in {"cpatch", "cunpatch", "cvpatch", "cvunpatch"} THEN Gors ELSE {})
Good(t, op, e) ==
    /\ e.r.k # "stuck"
    /\ Uses(op) \cap Busy(t) = {}
    /\ op.op \notin {"bulk", "window"} => Len(e.ev) <= 40
    /\ op.op = "conc" => (~UsedSeq(t, e.s) \/ ~OrgWhen(t))

Next ==
    /\ Len(hist) < D
    /\ \E k \in {Pick(P.ops)} :
       \E op \in {IF Len(hist) >= D - P.depth - 3 THEN Closing(s) ELSE MkOp(s, k)} :
       \E e \in {Do(s, op)} :
          IF Good(s, op, e)
          THEN s' = e.s /\ hist' = Append(hist, Entry(s, op, e))
          ELSE s' = s /\ hist' = Append(hist, Entry(s, Skip, Done(s)))

Init == s = Init0 /\ hist = <<>>

Emit == Len(hist) = D => PrintT(ToJson(hist))
=============================================================================
