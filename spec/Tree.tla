-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* All behaviours of MockeyCore of a given length over a small alphabet,   *)
(* for replay into the code: TLC enumerates them breadth first with the    *)
(* history as part of the state and prints each one, followed by a tail of *)
(* calls, the end of all contexts, and calls again.                        *)
(***************************************************************************)
EXTENDS MockeyCore, Json

CONSTANTS L,          \* number of operations
          Focus, MaxMocks, MaxScopes

VARIABLES s, hist

Ret(v) == [t |-> "ret", p |-> v]
Call1(h) == << [c |-> "hook", a |-> h] >>
When1(w, h) == << [c |-> "when", a |-> w], [c |-> "hook", a |-> h] >>
H(t) == [t |-> t, p |-> 1]
Off == [t |-> "off", g |-> 0, cur |-> FALSE]
Lt(p) == [t |-> "lt", p |-> p]
Live(t) == {m \in 1..Len(t.mk) : ~t.mk[m].dead}
VM(t) == 1..Len(t.vmk)
OpM(k, t) == [op : {k}, g : {1}, m : Live(t)]
Hows == <<"ret", "panic", "goexit", "fail">>
ExitOp(n) == [op |-> "exit", g |-> 1, how |-> Hows[(n % 4) + 1]]
EnterOps(t) == IF Len(t.scopes) <= MaxScopes THEN {[op |-> "enter", g |-> 1]} ELSE {}
ExitOps(t) == IF Len(t.scopes) > 1 THEN {ExitOp(Len(hist))} ELSE {}
All == [op |-> "unpatchall", g |-> 1]
BuildOps(t, fs, confs) == IF Len(t.mk) >= MaxMocks THEN {}
                          ELSE [op : {"build"}, g : {1}, f : fs, o : {TRUE}, calls : confs, fl : {Off}]
CallOps(fs, xs) == [op : {"call"}, g : {1}, f : fs, x : xs]
Was(k) == hist # <<>> /\ Last(hist).o.op = k

\* an operation after which nothing can have changed is not repeated
Ops(t) ==
    CASE Focus = "stack" ->      \* C02, C05: stacks of mocks of one function, removed in any order
           EnterOps(t) \cup ExitOps(t) \cup BuildOps(t, {1}, {Call1(H("org"))}) \cup OpM("patch", t) \cup OpM("unpatch", t)
      [] Focus = "scopes" ->     \* C01, C11: contexts with mocks
           EnterOps(t) \cup ExitOps(t) \cup BuildOps(t, {1, 2}, {Call1(Ret(601))}) \cup OpM("unpatch", t)
           \cup (IF Was("unpatchall") THEN {} ELSE {All})
           \cup {o \in [op : {"rehook"}, g : {1}, m : Live(t), a : {Ret(602)}] : Len(t.scopes) > 1}
      [] Focus = "vars" ->       \* C08
           EnterOps(t) \cup ExitOps(t) \cup (IF Len(t.vmk) >= MaxMocks THEN {} ELSE [op : {"vnew"}, g : {1}, v : {1}])
           \cup [op : {"vto"}, g : {1}, m : VM(t), x : {7}] \cup [op : {"vunpatch"}, g : {1}, m : VM(t)]
           \cup [op : {"vpatch"}, g : {1}, m : {m \in VM(t) : t.vmk[m].hs}]
           \cup (IF Was("vset") THEN {} ELSE [op : {"vset"}, g : {1}, v : {1}, x : {9}])
      [] Focus = "parts" ->      \* C08, C11: a variable and a part of it
           EnterOps(t) \cup ExitOps(t) \cup (IF Len(t.vmk) >= MaxMocks THEN {} ELSE [op : {"vnew"}, g : {1}, v : {Whole, Part}])
           \cup [op : {"vto"}, g : {1}, m : VM(t), x : {7}] \cup [op : {"vunpatch"}, g : {1}, m : VM(t)]
           \cup [op : {"vpatch"}, g : {1}, m : {m \in VM(t) : t.vmk[m].hs}]
           \cup (IF Was("unpatchall") THEN {} ELSE {All})
      [] Focus = "remock" ->     \* C09: everything that can put a mock in effect, in the same and in nested contexts
           EnterOps(t) \cup ExitOps(t) \cup BuildOps(t, {1}, {Call1(Ret(601))}) \cup OpM("patch", t) \cup OpM("unpatch", t)
           \cup [op : {"rehook"}, g : {1}, m : Live(t), a : {Ret(602)}] \cup OpM("release", t)
           \cup (IF Len(t.mk) >= MaxMocks THEN {} ELSE OpM("again", t))
      [] Focus = "reconf" ->     \* C12, C10: changing a built mock
           BuildOps(t, {1}, {When1(Lt(2), H("org")), When1(Lt(1), H("to")) \o Call1(Ret(601))})
           \cup [op : {"rehook"}, g : {1}, m : Live(t), a : {Ret(602)}] \cup [op : {"rewhen"}, g : {1}, m : Live(t), a : {Lt(1)}]
           \cup OpM("unpatch", t) \cup OpM("release", t) \cup OpM("badconf", t)
           \cup (IF Was("junk") THEN {} ELSE [op : {"junk"}, g : {1}, f : {1}])
           \cup [op : {"refilter"}, g : {1}, m : Live(t), fl : {[t |-> "inc", g |-> 2, cur |-> FALSE], Off}]
           \cup [op : {"rebuild"}, g : {1}, m : {m \in 1..Len(t.mk) : t.mk[m].dead /\ m = Len(t.mk) /\ Len(t.mk) < MaxMocks + 1}, calls : {Call1(H("to"))}]
           \cup (IF Was("call") THEN {} ELSE CallOps({1}, {1}))
      [] Focus = "seq" ->        \* C07
           (IF t.sq = <<>> THEN {[op |-> "seqnew", g |-> 1, f |-> 0, vs |-> << <<701, 2>>, <<702, 1>> >>]}
            ELSE BuildOps(t, {1, 2}, {Call1(H("seq")), When1(Lt(1), H("seq"))}) \cup OpM("unpatch", t) \cup OpM("patch", t)
                 \cup CallOps({f \in {1, 2} : t.chain[Code(f)] # <<>>}, {0, 1}))
      [] Focus = "flight" ->     \* C05: calls under way, and origin functions of mocks that were removed or changed
           BuildOps(t, {1}, {Call1(H("gate")), When1(Lt(2), H("offo"))}) \cup {o \in EnterOps(t) : Len(t.mk) = 1} \cup ExitOps(t)
           \cup OpM("patch", t) \cup OpM("unpatch", t) \cup [op : {"rehook"}, g : {1}, m : Live(t), a : {H("org")}]
           \cup (IF t.held[2] = NotHeld THEN [op : {"hcall"}, g : {2}, f : {1}, x : {1}] ELSE {[op |-> "resume", g |-> 2]})
           \cup [op : {"ocall"}, g : {1}, m : {m \in 1..Len(t.mk) : t.mk[m].lf # 0}, x : {1}] \cup CallOps({1}, {1})
      [] Focus = "conds" ->      \* C03, C04, C06: calls through every pair of conditions
           IF t.mk = <<>> THEN BuildOps(t, {1}, {When1(w, h) \o r :
                  w \in {Lt(1), [t |-> "F", p |-> 0], [t |-> "org", p |-> 0]}, h \in {H("to"), H("org"), H("pan")},
                  r \in {<<>>, Call1(Ret(601)), When1(Lt(2), H("org1")), <<[c |-> "when", a |-> Lt(2)]>>}})
           ELSE CallOps({1}, {0, 1, 2}) \cup [op : {"refilter"}, g : {1}, m : Live(t), fl : {[t |-> "exc", g |-> 1, cur |-> TRUE], Off}]

RECURSIVE Run(_, _)
Run(t, ops) == IF ops = <<>> THEN <<>>
               ELSE LET e == Do(t, Head(ops)) IN
                    IF e.r.k = "stuck" \/ (Head(ops).op = "call" /\ t.held[Head(ops).g] # NotHeld) THEN Run(t, Tail(ops)) ELSE <<Entry(t, Head(ops), e)>> \o Run(e.s, Tail(ops))
Calls == << [op |-> "call", g |-> 1, f |-> 1, x |-> 0], [op |-> "call", g |-> 2, f |-> 2, x |-> 2] >>
TailOps(t) == (IF t.held[2] # NotHeld THEN << [op |-> "resume", g |-> 2] >> ELSE <<>>) \o Calls \o [i \in 1..Len(t.scopes)-1 |-> ExitOp(i)] \o Calls \o <<All>> \o Calls

Init == s = Init0 /\ hist = <<>>
Next == /\ Len(hist) < L
        /\ \E op \in Ops(s) : \E e \in {Do(s, op)} :
             /\ e.r.k # "stuck"
             /\ s' = e.s /\ hist' = Append(hist, Entry(s, op, e))
Emit == Len(hist) = L => PrintT(ToJson(hist \o Run(s, TailOps(s))))
=============================================================================
