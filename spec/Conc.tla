-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Calls of mocked functions by several goroutines at once, step by step.  *)
(* Every interleaving of the atomic steps (see Plan in MockeyCore) leads   *)
(* to the counters and sequence positions of the same calls made one after *)
(* the other, hands out each position of a sequence once, in order, and    *)
(* the counters never lag behind calls that have been finished.            *)
(***************************************************************************)
EXTENDS MockeyCore

CONSTANTS MaxN    \* calls per goroutine

VARIABLES s0,     \* the state before, qs the calls: goroutine i performs qs[i]
          qs, st, \* st: counters and sequences change here
          pc,     \* per goroutine: finished calls, finished steps of the current one
          got     \* the values taken from the sequences: <<sequence, value>>, in order

Ret(v) == [t |-> "ret", p |-> v]
H(t) == [t |-> t, p |-> 1]
Off == [t |-> "off", g |-> 0, cur |-> FALSE]
Lt(p) == [t |-> "lt", p |-> p]
Bld(f, calls, fl) == [op |-> "build", g |-> 1, f |-> f, o |-> TRUE, calls |-> calls, fl |-> fl]
Hk(h) == [c |-> "hook", a |-> h]
Wh(w) == [c |-> "when", a |-> w]

Confs == {<<Hk(H("seq"))>>, <<Wh(Lt(1)), Hk(H("seq")), Hk(H("org"))>>, <<Wh(Lt(1)), Hk(H("pan"))>>, <<Hk(H("org2"))>>}
Filters == {Off, [t |-> "inc", g |-> 2, cur |-> FALSE]}
RECURSIVE Apply(_, _)
Apply(t, ops) == IF ops = <<>> THEN t ELSE Apply(Do(t, Head(ops)).s, Tail(ops))
SeqOp == [op |-> "seqnew", g |-> 1, f |-> 0, vs |-> << <<701, 2>>, <<702, 1>> >>]
Starts == {Apply(Init0, <<SeqOp, Bld(1, a, fl)>>) : a \in Confs, fl \in Filters}
          \cup {Apply(Init0, <<SeqOp, Bld(1, a, Off), [op |-> "enter", g |-> 1], Bld(1, b, fl), Bld(2, <<Hk(H("seq"))>>, Off)>>) : a, b \in Confs, fl \in Filters}

Calls == {[i \in 1..NG |-> [g |-> i, f |-> fs[i], x |-> i - 1, n |-> MaxN]] : fs \in [1..NG -> {1, 2}]}

Init == /\ s0 \in Starts /\ qs \in {q \in Calls : BulkOK(s0, q)}
        /\ st = s0 /\ pc = [i \in 1..NG |-> <<0, 0>>] /\ got = <<>>

PlanOf(i) == Plan(s0, qs[i])
Step(i) ==
    /\ pc[i][1] < qs[i].n
    /\ UNCHANGED <<s0, qs>>
    /\ IF pc[i][2] = Len(PlanOf(i))
       THEN pc' = [pc EXCEPT ![i] = <<@[1] + 1, 0>>] /\ UNCHANGED <<st, got>>
       ELSE LET e == PlanOf(i)[pc[i][2] + 1] IN
            /\ pc' = [pc EXCEPT ![i][2] = @ + 1]
            /\ CASE e[1] = "n" -> st' = [st EXCEPT !.mk[e[2]].n = @ + 1] /\ got' = got
                 [] e[1] = "k" -> st' = [st EXCEPT !.mk[e[2]].k = @ + 1] /\ got' = got
                 [] e[1] = "d" -> LET q == st.sq[e[2]] IN
                                  st' = [st EXCEPT !.sq[e[2]] = SeqNext(q)] /\ got' = Append(got, <<e[2], q.vs[q.i][1]>>)
Next == \E i \in 1..NG : Step(i)

Ended == \A i \in 1..NG : pc[i][1] = qs[i].n
NoLf(t) == [t EXCEPT !.mk = [m \in DOMAIN @ |-> [@[m] EXCEPT !.lf = 0]]]     \* whom the origin functions serve is left open
AsIfSequential == Ended => NoLf(st) = NoLf(DoConc(s0, qs).s)
AsBulk == Ended => NoLf(st) = NoLf(BulkState(s0, qs))
OutcomesAgree == \* the outcome of a call is that of its effects
    \A i \in 1..NG : LET e == CallOf(s0, qs[i])
                         b == BulkState(s0, <<[qs[i] EXCEPT !.n = 1]>>) IN NoLf(e.s) = NoLf(b)
Drawn(q) == LET r == SelectSeq(got, LAMBDA y : y[1] = q) IN [i \in DOMAIN r |-> r[i][2]]
InOrder == \A q \in DOMAIN s0.sq : \A i \in DOMAIN Drawn(q) :
              LET all == Expand(s0.sq[q].vs) IN Drawn(q)[i] = all[((Position(s0.sq[q]) + i - 1) % Len(all)) + 1]
AllDrawn == Ended => \A q \in DOMAIN s0.sq :
              LET c == BulkDraws(s0, qs)[q] IN
              \A v \in {701, 702} : Cardinality({i \in DOMAIN Drawn(q) : Drawn(q)[i] = v}) =
                  (LET F[j \in 0..Len(c)] == IF j = 0 THEN 0 ELSE F[j-1] + (IF c[j][1] = v THEN c[j][2] ELSE 0) IN F[Len(c)])
\* counters are never behind the calls that have ended, nor ahead of those that have begun
RECURSIVE SumF(_, _)
SumF(F, n) == IF n = 0 THEN 0 ELSE F[n] + SumF(F, n - 1)
Bounds == \A m \in DOMAIN st.mk : \A e \in {<<"n", m>>, <<"k", m>>} :
             LET per == [i \in 1..NG |-> EffCount(PlanOf(i), e)]
                 v == IF e[1] = "n" THEN st.mk[m].n ELSE st.mk[m].k IN
             /\ v >= SumF([i \in 1..NG |-> per[i] * pc[i][1]], NG)
             /\ v <= SumF([i \in 1..NG |-> per[i] * (pc[i][1] + (IF pc[i][2] > 0 THEN 1 ELSE 0))], NG)
CountedFirst == \A m \in DOMAIN st.mk : st.mk[m].k <= st.mk[m].n
=============================================================================
