----------------------------- MODULE ConcTrace -----------------------------
(***************************************************************************)
(* Checks windows of concurrent calls that were recorded from the real     *)
(* code: is each a behaviour of Conc?  A trace lists when calls began and  *)
(* ended (in the order of a global ticket) with the sequence value that    *)
(* each call got; one more goroutine reads a counter.  The steps of the    *)
(* calls in between are not recorded: TLC looks for some order of them     *)
(* that explains all values.                                               *)
(***************************************************************************)
EXTENDS MockeyCore, Json

CONSTANTS File

Traces == JsonDeserialize(File)

VARIABLES t,      \* the trace
          pos,    \* events explained
          st,     \* counters and sequences
          pc,     \* per thread: steps done of the current call, -1 between calls
          val     \* per thread: the value taken or read

T == Traces[t]
NQ == Len(T.plans)
Threads == 1..(NQ + 1)
SqOf(q) == [f |-> q.f, vs |-> q.vs, i |-> q.i, c |-> q.c]

Init == /\ t \in DOMAIN Traces /\ pos = 1
        /\ st = [n |-> T.n, k |-> T.k, sq |-> [i \in DOMAIN T.sq |-> SqOf(T.sq[i])]]
        /\ pc = [i \in Threads |-> -1] /\ val = [i \in Threads |-> 0]

Steps(i) == IF i <= NQ THEN Len(T.plans[i]) ELSE 1
Reading == LET F[p \in 0..pos] == IF p = 0 THEN <<0, 0>>
                                  ELSE IF p < pos /\ T.ev[p][1] = "b" /\ T.ev[p][2] = NQ + 1 THEN <<T.ev[p][3], T.ev[p][4]>> ELSE F[p-1]
           IN F[pos]

Begin(e) == e[1] = "b" /\ pc[e[2]] = -1 /\ pc' = [pc EXCEPT ![e[2]] = 0] /\ val' = [val EXCEPT ![e[2]] = 0]
End(e) == e[1] = "e" /\ pc[e[2]] = Steps(e[2]) /\ val[e[2]] = e[3] /\ pc' = [pc EXCEPT ![e[2]] = -1] /\ val' = [val EXCEPT ![e[2]] = 0]
Event == /\ pos <= Len(T.ev)
         /\ Begin(T.ev[pos]) \/ End(T.ev[pos])
         /\ pos' = pos + 1 /\ UNCHANGED <<t, st>>

Inner(i) ==
    /\ pc[i] >= 0 /\ pc[i] < Steps(i)
    /\ pc' = [pc EXCEPT ![i] = @ + 1] /\ UNCHANGED <<t, pos>>
    /\ IF i > NQ THEN LET r == Reading IN
                      val' = [val EXCEPT ![i] = IF r[2] = 0 THEN st.n[r[1]] ELSE st.k[r[1]]] /\ UNCHANGED st
       ELSE LET e == T.plans[i][pc[i] + 1] IN
            CASE e[1] = "n" -> st' = [st EXCEPT !.n[e[2]] = @ + 1] /\ UNCHANGED val
              [] e[1] = "k" -> st' = [st EXCEPT !.k[e[2]] = @ + 1] /\ UNCHANGED val
              [] e[1] = "d" -> LET q == st.sq[e[2]] IN
                               st' = [st EXCEPT !.sq[e[2]] = SeqNext(q)] /\ val' = [val EXCEPT ![i] = q.vs[q.i][1]]
\* a step is only worth taking before an event that may depend on it
Next == Event \/ (pos <= Len(T.ev) /\ T.ev[pos][1] = "e" /\ \E i \in Threads : Inner(i))

Accepted == pos > Len(T.ev) => PrintT(<<"accepted", t>>)
Progress == TLCSet(t, pos)
=============================================================================
