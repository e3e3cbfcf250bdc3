--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Exhaustive check of MockeyCore within small constants: every sequence   *)
(* of operations from the alphabet of `Focus`, up to the bounds below.     *)
(* The listed properties are stated here independently of the way the      *)
(* transitions are defined: as invariants of every reachable state, as     *)
(* algebraic laws that hold in every reachable state, and as conditions on *)
(* every step (StepOK) with a ghost variable `snap` that remembers, for    *)
(* every open context, what was in effect when it was entered.             *)
(***************************************************************************)
EXTENDS MockeyCore

CONSTANTS Focus,      \* "scopes", "vars", "calls", "seq", "nest", ...
          MaxMocks, MaxScopes, MaxN

VARIABLES s, snap, ghost

Call1(h) == << [c |-> "hook", a |-> h] >>
When1(w, h) == << [c |-> "when", a |-> w], [c |-> "hook", a |-> h] >>
Ret(v) == [t |-> "ret", p |-> v]
H(t) == [t |-> t, p |-> 1]
NF0 == [t |-> "off", g |-> 0]
Lt(p) == [t |-> "lt", p |-> p]

Live(t) == {m \in 1..Len(t.mk) : ~t.mk[m].dead}
VM(t) == 1..Len(t.vmk)
OpM(k, t) == [op : {k}, g : {1}, m : Live(t)]

ScopeOps(t) ==
    {[op |-> "enter", g |-> 1]} \cup
    {[op |-> "exit", g |-> 1] : i \in {j \in {1} : Len(t.scopes) > 1}} \cup
    {[op |-> "unpatchall", g |-> 1]}
BuildOps(t, confs) == IF Len(t.mk) >= MaxMocks THEN {}
                      ELSE [op : {"build"}, g : {1}, f : Funs, o : {TRUE}, calls : confs, fl : {NF0}]

Ops(t) ==
    CASE Focus = "scopes" ->
           ScopeOps(t) \cup BuildOps(t, {Call1(Ret(601))}) \cup OpM("patch", t) \cup OpM("unpatch", t)
           \cup OpM("release", t) \cup OpM("badconf", t) \cup {[op |-> "junk", g |-> 1, f |-> 1]}
           \cup (IF Len(t.mk) >= MaxMocks THEN {} ELSE OpM("again", t))
           \cup [op : {"rehook"}, g : {1}, m : Live(t), a : {Ret(602)}]
      [] Focus = "vars" ->
           ScopeOps(t) \cup (IF Len(t.vmk) >= MaxMocks THEN {} ELSE [op : {"vnew"}, g : {1}, v : Vars])
           \cup [op : {"vto"}, g : {1}, m : VM(t), x : {7, 8}] \cup [op : {"vbad"}, g : {1}, m : VM(t)]
           \cup [op : {"vunpatch"}, g : {1}, m : VM(t)] \cup [op : {"vpatch"}, g : {1}, m : {m \in VM(t) : t.vmk[m].hs}]
           \cup [op : {"vset"}, g : {1}, v : Vars, x : {9}]
      [] Focus = "parts" ->
           ScopeOps(t) \cup (IF Len(t.vmk) >= MaxMocks THEN {} ELSE [op : {"vnew"}, g : {1}, v : {Whole, Part}])
           \cup [op : {"vto"}, g : {1}, m : VM(t), x : {7}] \cup [op : {"vunpatch"}, g : {1}, m : VM(t)]
           \cup [op : {"vpatch"}, g : {1}, m : {m \in VM(t) : t.vmk[m].hs}]
      [] Focus = "calls" ->
           {o \in ScopeOps(t) : o.op # "unpatchall"}
           \cup BuildOps(t, {Call1(Ret(601)), When1(Lt(1), H("org")), When1(Lt(1), H("pan")) \o When1([t |-> "org", p |-> 0], H("org2")),
                             <<[c |-> "when", a |-> Lt(1)]>>, When1(Lt(2), H("once")), Call1(H("oth")), Call1(H("bad"))})
           \cup OpM("unpatch", t)
           \cup [op : {"refilter"}, g : {1}, m : Live(t), fl : [t : {"inc", "exc"}, g : {1}]]
           \cup [op : {"call"}, g : Gors, f : Funs, x : {0, 1}]
      [] Focus = "nest" ->
           {[op |-> "enter", g |-> 1]}
           \cup BuildOps(t, {Call1(Ret(601)), When1(Lt(1), H("org")), When1(Lt(1), H("to")) \o <<[c |-> "when", a |-> Lt(2)]>>,
                             When1([t |-> "org", p |-> 0], H("org1"))})
           \cup OpM("unpatch", t)
           \cup [op : {"rehook"}, g : {1}, m : Live(t), a : {H("to")}]
           \cup [op : {"rewhen"}, g : {1}, m : Live(t), a : {Lt(2)}]
           \cup [op : {"refilter"}, g : {1}, m : Live(t), fl : [t : {"inc", "exc"}, g : {1}]]
           \cup [op : {"call"}, g : Gors, f : Funs, x : {0, 1}]
      [] Focus = "flight" ->
           {o \in ScopeOps(t) : o.op # "unpatchall"}
           \cup BuildOps(t, {Call1(H("org")), Call1(H("gate")), Call1(H("offo")), When1(Lt(1), H("reo")), <<[c |-> "when", a |-> [t |-> "off", p |-> 0]]>>})
           \cup OpM("unpatch", t) \cup OpM("patch", t)
           \cup [op : {"call"}, g : {1}, f : Funs, x : {0}]
           \cup [op : {"hcall", "resume"}, g : {2}, f : Funs, x : {1}]
           \cup [op : {"ocall"}, g : {1}, m : {m \in 1..Len(t.mk) : t.mk[m].o}, x : {0}]
      [] Focus = "seq" ->
           (IF Len(t.sq) >= 1 THEN {} ELSE {[op |-> "seqnew", g |-> 1, f |-> 0, vs |-> << <<701, 2>>, <<702, 1>>, <<703, 2>> >>]})
           \cup (IF t.sq = <<>> THEN {} ELSE BuildOps(t, {Call1(H("seq")), When1(Lt(1), H("seq")) \o Call1(Ret(601))}))
           \cup OpM("unpatch", t) \cup OpM("patch", t)
           \cup [op : {"call"}, g : {1}, f : Funs, x : {0, 1}]

Bound(t) == /\ Len(t.scopes) <= MaxScopes
            /\ \A m \in 1..Len(t.mk) : t.mk[m].n <= MaxN

(***************************************************************************)
(* Conditions on every step.                                               *)
(***************************************************************************)
Rejected(e) == e.r.k \in {"rej", "remock"}
Conf(t, m) == [cs |-> t.mk[m].cs, o |-> t.mk[m].o, fl |-> t.mk[m].fl, f |-> t.mk[m].f]
Delta(t, e, m) == [n |-> e.s.mk[m].n - t.mk[m].n, k |-> e.s.mk[m].k - t.mk[m].k]
Count(ev, P(_)) == Cardinality({i \in DOMAIN ev : P(ev[i])})
\* nothing a user can see of m differs
Same(t, u, m) == [t.mk[m] EXCEPT !.fw = 0] = [u.mk[m] EXCEPT !.fw = 0]
Touches(op) == op.op \in {"unpatch", "release", "rewhen", "rehook", "refilter", "reorigin"}
Explicit(op, e) == IF Touches(op) /\ ~Rejected(e) THEN {op.m} ELSE {}

\* the value with which a condition list decides a call without running anything else, declaratively
Simple(w) == w.t \in {"none", "T", "F", "lt", "eq", "odd"}
AllSimple(cs) == \A c \in DOMAIN cs : Simple(cs[c].w)
Holds(w, x) == CASE w.t \in {"none", "T"} -> TRUE [] w.t = "F" -> FALSE [] w.t = "lt" -> x < w.p [] w.t = "eq" -> x = w.p [] OTHER -> x % 2 = 1
FirstMatch(cs, x) == {i \in DOMAIN cs : Holds(cs[i].w, x) /\ \A j \in 1..i-1 : ~Holds(cs[j].w, x)}

StepOK(t, op, e) ==
    \* C09, C10: what is rejected has no effect at all
    /\ Rejected(e) => e.s = t
    \* C09: a refusal names a mock of the same function (variable) that the current context has
    /\ e.r.k = "remock" /\ op.op \in {"build", "patch", "rehook", "refilter"} =>
          Has(Top(t), <<"f", e.r.v>>) /\ t.mk[e.r.v].f = (IF op.op = "build" THEN op.f ELSE t.mk[op.m].f)
    /\ op.op = "build" /\ e.r.k = "done" => \A r \in Range(Top(t)) : r[1] = "f" => t.mk[r[2]].f # op.f
    \* C01: leaving a context brings back what was in effect when it was entered
    /\ op.op = "exit" =>
          /\ e.s.chain = Last(snap).chain
          /\ Last(snap).clean => e.s.val = Last(snap).val
          /\ e.s.scopes = Front(t.scopes)
          /\ \A m \in 1..Len(t.mk) : ~Has(Top(t), <<"f", m>>) => Same(e.s, t, m)
    \* C11: UnPatchAll empties the current context and leaves the others
    /\ op.op = "unpatchall" =>
          /\ Top(e.s) = <<>> /\ Front(e.s.scopes) = Front(t.scopes)
          /\ \A m \in 1..Len(t.mk) : e.s.mk[m].on = (t.mk[m].on /\ ~Has(Top(t), <<"f", m>>))
    \* C02: removing a mock does nothing else
    /\ op.op \in {"unpatch", "release"} =>
          /\ ~e.s.mk[op.m].on
          /\ \A f \in Funs : e.s.chain[f] = Without(t.chain[f], op.m)
          /\ \A m \in 1..Len(t.mk) : m # op.m => Same(e.s, t, m)
          /\ e.s.val = t.val
    \* C12: a reconfiguration replaces one part, restarts the counters, puts the mock in effect on top
    /\ op.op \in {"rehook", "refilter", "rewhen", "reorigin"} /\ e.r.k = "done" =>
          /\ e.s.mk[op.m].on /\ e.s.mk[op.m].n = 0 /\ e.s.mk[op.m].k = 0
          /\ Last(e.s.chain[Code(t.mk[op.m].f)]) = op.m
          /\ op.op = "rehook" => Conf(e.s, op.m) = [Conf(t, op.m) EXCEPT !.cs[1].h = op.a]
          /\ op.op = "rewhen" => Conf(e.s, op.m) = [Conf(t, op.m) EXCEPT !.cs[1].w = op.a]
          /\ op.op = "refilter" => Conf(e.s, op.m).cs = Conf(t, op.m).cs
    \* C03: the first condition that holds decides; C06: only if the filter applies; C05: else what was replaced runs
    /\ op.op = "call" /\ t.chain[Code(op.f)] # <<>> =>
          LET c0 == Code(op.f)
              m == Last(t.chain[c0])
              k == t.mk[m]
              below == IF Len(t.chain[c0]) = 1 THEN <<>> ELSE Front(t.chain[c0])
              under == DoCall([t EXCEPT !.chain[c0] = below], op.g, op.f, op.x)   \* a call if m was not there
              applies == k.fl.t = "off" \/ (k.fl.t = "inc") = (k.fl.g = t.gid[op.g])
              i == FirstMatch(k.cs, op.x)
          IN /\ ~applies => /\ e.r = under.r /\ e.ev = under.ev
                            /\ e.s.mk[m].n = t.mk[m].n + 1 /\ e.s.mk[m].k = t.mk[m].k
             /\ (applies /\ AllSimple(k.cs)) =>
                    /\ i = {} \/ (\E c \in i : k.cs[c].h.t = "none") => e.r = under.r
                    /\ \A c \in i : k.cs[c].h.t = "ret" => e.r = Ok(k.cs[c].h.p)
                    /\ \A c \in i : k.cs[c].h.t = "pan" => e.r = Panic(k.b)
                    /\ \A c \in i : k.cs[c].h.t = "org" /\ under.r.k = "ok" => e.r = Ok(under.r.v + 5)
                    \* no condition after the deciding one is evaluated
                    /\ \A j \in DOMAIN e.ev : e.ev[j][1] = "w" /\ e.ev[j][2] = m => \A c \in i : e.ev[j][3] <= c
    \* C04: executions of hooks that report them are counted one by one, except by a mock that removed itself
    /\ op.op = "call" =>
          \A m \in 1..Len(t.mk) : e.s.mk[m].on /\ Conf(e.s, m) = Conf(t, m) /\ ~SharedBuilder(t, m) =>
             /\ Delta(t, e, m).k <= Delta(t, e, m).n
             /\ (\A c \in DOMAIN t.mk[m].cs : t.mk[m].cs[c].h.t \in {"to", "pan", "org", "org1", "org2", "rec", "ror", "oth"}) =>
                   Delta(t, e, m).k = Count(e.ev, LAMBDA v : v[1] = "h" /\ v[2] = m)
    \* a call changes nothing but counters, sequences and mocks that remove themselves
    /\ op.op = "call" =>
          /\ e.s.val = t.val /\ e.s.vmk = t.vmk
          /\ \A m \in 1..Len(t.mk) : Conf(e.s, m) = Conf(t, m) \/ \E c \in DOMAIN t.mk[m].cs : t.mk[m].cs[c].h.t = "reo"
          /\ \A f \in Funs : \A m \in Range(t.chain[f]) \ Range(e.s.chain[f]) :
                \E c \in DOMAIN t.mk[m].cs : t.mk[m].cs[c].h.t \in {"once", "offo"} \/ t.mk[m].cs[c].w.t = "off"
    \* C05: the origin function runs what a call would run if m, and all that is above it, was not there; a hook under way
    \* gets that, too, whatever has happened to its mock since
    /\ op.op \in {"ocall", "resume"} =>
          LET m == IF op.op = "ocall" THEN op.m ELSE t.held[op.g].m
              f == IF op.op = "ocall" THEN t.mk[m].lf ELSE t.held[op.g].f
              x == IF op.op = "ocall" THEN op.x ELSE t.held[op.g].x
              c == t.chain[Code(f)]
              low == IF t.mk[m].on THEN SubSeq(c, 1, IndexOf(c, m) - 1) ELSE SelectSeq(c, LAMBDA i : i \in ghost[m])
              r == DoCall([t EXCEPT !.chain[Code(f)] = low, !.held[op.g] = NotHeld], op.g, f, x) IN
          f \in {1, 2} /\ Commutes(t) /\ r.r.k = "ok" => /\ e.ev = r.ev
                                         /\ e.r = Ok(IF op.op = "ocall" THEN r.r.v ELSE r.r.v + 14)
    \* C08
    /\ op.op = "vto" /\ e.r.k = "done" => e.s.val[t.vmk[op.m].v] = op.x
    /\ op.op = "vnew" => Last(e.s.vmk).og = t.val[op.v] /\ e.s.val = t.val
    /\ op.op = "vunpatch" /\ t.vmk[op.m].on /\ Last(VChain(t, t.vmk[op.m].v)) = <<"v", op.m>> =>
          e.s.val[t.vmk[op.m].v] = t.vmk[op.m].og
    /\ op.op = "vunpatch" /\ (~t.vmk[op.m].on \/ Last(VChain(t, t.vmk[op.m].v)) # <<"v", op.m>>) => e.s.val = t.val

(***************************************************************************)
(* The ghost: chains and values at the entry of each open context, without *)
(* the mocks that were explicitly operated on since.                       *)
(***************************************************************************)
Snap(t) == [chain |-> t.chain, val |-> t.val, clean |-> TRUE]
Forget(sn, ms) == [i \in DOMAIN sn |->
                     [sn[i] EXCEPT !.chain = [f \in Funs |-> SelectSeq(@[f], LAMBDA m : m \notin ms)]]]
\* clean: since context i+1 was entered, variables were only changed by mocks that were made when their variable had the value that
\* it had when they took effect, and none of an outer context was operated on
Clean(t, op, e, i) ==
    CASE op.op = "vset" -> FALSE
      [] op.op \in {"vto", "vpatch", "vunpatch"} /\ ~Rejected(e) ->
            LET m == op.m
                before == IF op.op = "vto" THEN VRemove(t, m).val ELSE t.val
                k == t.vmk[m] IN
            /\ \A j \in 1..i : ~Has(t.scopes[j], <<"v", m>>)
            /\ op.op = "vunpatch" \/ (op.op = "vpatch" /\ k.on) \/ (k.og = before[k.v] /\ (NV = 4 /\ k.v = Whole => k.pg = before[Part]))
      [] OTHER -> TRUE
Sullied(sn, t, op, e) == [i \in DOMAIN sn |-> [sn[i] EXCEPT !.clean = @ /\ Clean(t, op, e, i)]]
\* mocks that were removed or reconfigured during a call
Gone(t, e) == {m \in 1..Len(t.mk) : t.mk[m].on /\ (~e.s.mk[m].on \/ Conf(e.s, m) # Conf(t, m))}

\* what was below a mock when it was removed, and has been in effect ever since
Moved(t, u, i) == ~u.mk[i].on \/ \E c \in Funs : \E j \in Range(t.chain[c]) \cap Range(u.chain[c]) :
                     /\ i \in Range(t.chain[c]) \cap Range(u.chain[c])
                     /\ IndexOf(t.chain[c], i) < IndexOf(t.chain[c], j) /\ IndexOf(u.chain[c], i) > IndexOf(u.chain[c], j)
Under(t, m) == LET c == t.chain[Code(t.mk[m].f)] IN {c[i] : i \in 1..IndexOf(c, m) - 1}
Ghost(t, u) == [m \in 1..Len(u.mk) |->
                  IF u.mk[m].on \/ m > Len(t.mk) THEN {}
                  ELSE {i \in (IF t.mk[m].on THEN Under(t, m) ELSE ghost[m]) : ~Moved(t, u, i)}]

Init == s = Init0 /\ snap = <<>> /\ ghost = <<>>
Next == \E op \in Ops(s) : \E e \in {Do(s, op)} :
           /\ e.r.k # "stuck"
           /\ Assert(StepOK(s, op, e), <<"step", op, s, e>>)
           /\ s' = e.s
           /\ ghost' = IF Focus = "flight" THEN Ghost(s, e.s) ELSE ghost
           /\ snap' = CASE op.op = "enter" -> Append(snap, Snap(s))
                        [] op.op = "exit"  -> Front(snap)
                        [] op.op \in {"call", "hcall", "resume", "ocall"} -> Forget(snap, Gone(s, e))
                        [] OTHER -> Sullied(Forget(snap, Explicit(op, e)), s, op, e)
Constraint == Bound(s)

(***************************************************************************)
(* Invariants.                                                             *)
(***************************************************************************)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Mine(f) == LET r == SelectSeq(Flat(s.scopes), LAMBDA y : y[1] = "f" /\ Code(s.mk[y[2]].f) = f) IN [i \in DOMAIN r |-> r[i][2]]

\* what is in effect is what the contexts hold, in order of application; nothing is held twice
ChainsAreScopes == \A f \in Funs : s.chain[f] = Mine(f)
HeldOnce == /\ Cardinality(Range(Flat(s.scopes))) = Len(Flat(s.scopes))
            /\ \A m \in 1..Len(s.mk) : s.mk[m].on <=> Has(Flat(s.scopes), <<"f", m>>)
            /\ \A m \in VM(s) : s.vmk[m].on <=> Has(Flat(s.scopes), <<"v", m>>)
\* C09: one mock per function and context
OnePerContext == \A i \in DOMAIN s.scopes : \A a, b \in Range(s.scopes[i]) :
    a # b /\ a[1] = b[1] => IF a[1] = "f" THEN s.mk[a[2]].f # s.mk[b[2]].f ELSE s.vmk[a[2]].v # s.vmk[b[2]].v
\* C04
OffIsZero == \A m \in 1..Len(s.mk) : ~s.mk[m].on => s.mk[m].n = 0 /\ s.mk[m].k = 0
Counters == \A m \in 1..Len(s.mk) : 0 <= s.mk[m].k /\ s.mk[m].k <= s.mk[m].n
\* C02: laws
\* but for what the origin functions of removed mocks do after a mock was applied
NoFw(t) == [t EXCEPT !.mk = [m \in DOMAIN @ |-> [@[m] EXCEPT !.fw = 0]]]
RemoveUndoesInstall == \A m \in 1..Len(s.mk) : ~s.mk[m].on => NoFw(Remove(Install(s, m), m)) = NoFw(s)
RemovesCommute == \A a, b \in 1..Len(s.mk) : NoFw(Remove(Remove(s, a), b)) = NoFw(Remove(Remove(s, b), a))
Idempotent == \A m \in 1..Len(s.mk) : Remove(Remove(s, m), m) = Remove(s, m) /\ Install(Install(s, m), m) = Install(s, m)
\* removing every mock, in any order, leads back to the original functions
RECURSIVE Stripped(_, _)
Stripped(t, M) == IF M = {} THEN t ELSE LET m == CHOOSE x \in M : TRUE IN Stripped(Remove(t, m), M \ {m})
BackToOrigin == \A f \in Funs : Stripped(s, 1..Len(s.mk)).chain[f] = <<>>
\* C08: variable mocks are removed without a trace, in any order, if the values were not changed otherwise
VRemovesCommute == \A a, b \in VM(s) : Overlap(s.vmk[a].v, s.vmk[b].v) \/ VRemove(VRemove(s, a), b).val = VRemove(VRemove(s, b), a).val
VUndo == \A m \in VM(s) : ~s.vmk[m].on /\ s.vmk[m].og = s.val[s.vmk[m].v] /\ (NV = 4 /\ s.vmk[m].v = Whole => s.vmk[m].pg = s.val[Part]) => VRemove(VInstall(s, m), m).val = s.val
\* C07: a sequence is at the position that the number of executions of its hooks says
SeqPos(q) == LET F[i \in 0..Len(q.vs)] == IF i = 0 THEN 0 ELSE F[i-1] + q.vs[i][2] IN F[q.i - 1] + q.c
SeqValid == \A i \in DOMAIN s.sq : s.sq[i].i \in DOMAIN s.sq[i].vs /\ s.sq[i].c \in 0..(s.sq[i].vs[s.sq[i].i][2] - 1)
\* the values that the next draws give, in the order of the declaration, cyclically
SeqExpand(q) == Flat([i \in DOMAIN q.vs |-> [j \in 1..q.vs[i][2] |-> q.vs[i][1]]])
SeqCyclic == \A i \in DOMAIN s.sq :
    LET q == s.sq[i]
        all == SeqExpand(q)
        p == SeqPos(q)
    IN /\ q.vs[q.i][1] = all[p + 1]
       /\ SeqPos(SeqNext(q)) = (p + 1) % Len(all)
=============================================================================
