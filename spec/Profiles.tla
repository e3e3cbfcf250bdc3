------------------------------ MODULE Profiles ------------------------------
(* The mixes of operations that Gen draws behaviours from. *)
EXTENDS Integers, Sequences, TLC

Rep(x, n) == [i \in 1..n |-> x]

AllExits == <<"ret", "fail", "panic", "goexit">>
AllHooks == <<"ret", "ret", "to", "to", "org", "org1", "org2", "rec", "ror", "oth", "pan", "bad", "once", "seq", "gox">>
AllWhens == <<"none", "none", "T", "T", "F", "F", "lt", "lt", "lt", "lt", "eq", "eq", "eq", "eq", "odd", "odd", "org", "org", "pan", "pan", "gox">>

Base == [ ops |-> Rep("build", 8) \o Rep("calls", 10) \o Rep("call", 3) \o Rep("enter", 3) \o Rep("exit", 2)
                  \o Rep("patch", 2) \o Rep("unpatch", 2) \o <<"release", "rebuild", "rewhen", "rehook", "refilter",
                     "reorigin", "unpatchall", "seqnew", "vnew", "vto", "vto", "vunpatch", "vpatch", "vset", "gc", "conc", "badconf", "vbad", "junk", "again">>,
          hooks |-> AllHooks, whens |-> AllWhens, exits |-> AllExits,
          funs |-> <<1, 1, 2, 3, 4>>, depth |-> 4, mocks |-> 10, multi |-> 30, origin |-> 60, filter |-> 15, noise |-> 5 ]

ProfileOf ==
  [ C01 |-> [Base EXCEPT !.ops = Rep("again", 2) \o Rep("build", 6) \o Rep("calls", 6) \o Rep("enter", 6) \o Rep("exit", 6) \o Rep("vnew", 3)
                  \o Rep("vto", 4) \o <<"patch", "unpatch", "rehook", "refilter", "vpatch", "vunpatch", "call", "call", "release", "rebuild", "unpatchall", "vset">>,
                  !.hooks = <<"ret", "to", "org", "org2", "once">>, !.whens = <<"none", "lt", "odd">>, !.depth = 6, !.mocks = 14, !.noise = 0],
    C02 |-> [Base EXCEPT !.ops = Rep("again", 2) \o Rep("build", 5) \o Rep("patch", 6) \o Rep("unpatch", 8) \o Rep("calls", 6) \o Rep("enter", 3) \o Rep("cpatch", 3) \o Rep("cunpatch", 3) \o <<"exit", "call", "gc", "conc">>,
                  !.hooks = <<"ret", "to", "org", "org", "org2", "once">>, !.whens = <<"none", "none", "lt">>, !.depth = 5, !.mocks = 8,
                  !.funs = <<1, 1, 1, 2, 4>>, !.noise = 0, !.filter = 0],
    C03 |-> [Base EXCEPT !.ops = Rep("build", 5) \o Rep("calls", 20) \o <<"enter", "exit", "unpatch", "patch", "seqnew", "rewhen", "rehook", "release", "rebuild">>,
                  !.multi = 75, !.noise = 3],
    C04 |-> [Base EXCEPT !.ops = Rep("build", 5) \o Rep("calls", 14) \o Rep("conc", 4) \o <<"enter", "exit", "unpatch", "unpatch", "patch", "patch", "seqnew", "rewhen", "rehook", "refilter", "refilter", "respawn">>,
                  !.filter = 40, !.multi = 40, !.noise = 0],
    C05 |-> [Base EXCEPT !.ops = Rep("build", 6) \o Rep("calls", 12) \o Rep("conc", 2) \o Rep("enter", 3) \o <<"exit", "unpatch", "patch", "rehook", "reorigin", "refilter", "rewhen">>,
                  !.hooks = <<"org", "org1", "org2", "ror", "rec", "to", "pan", "oth", "ret">>, !.origin = 95, !.noise = 0,
                  !.funs = <<1, 2, 3, 3, 4, 4>>, !.whens = <<"none", "none", "lt", "odd", "org", "org">>],
    C06 |-> [Base EXCEPT !.ops = Rep("build", 5) \o Rep("calls", 14) \o Rep("refilter", 6) \o Rep("respawn", 4) \o Rep("gid", 3) \o Rep("conc", 2) \o <<"enter", "exit", "release", "rebuild", "unpatch", "patch">>,
                  !.filter = 85, !.noise = 0],
    C07 |-> [Base EXCEPT !.ops = Rep("again", 2) \o Rep("build", 5) \o Rep("seqnew", 3) \o Rep("calls", 22) \o Rep("conc", 2) \o <<"enter", "exit", "unpatch", "patch", "rehook", "rewhen">>,
                  !.hooks = <<"seq", "seq", "seq", "ret">>, !.noise = 0, !.multi = 40],
    C08 |-> [Base EXCEPT !.ops = Rep("vnew", 5) \o Rep("vto", 10) \o Rep("vunpatch", 4) \o Rep("vpatch", 4) \o Rep("enter", 4) \o Rep("exit", 2) \o <<"vset", "vset", "vbad", "vbad", "unpatchall", "gc", "cvpatch", "cvunpatch">>,
                  !.depth = 6, !.mocks = 9, !.noise = 0],
    C09 |-> [Base EXCEPT !.ops = Rep("again", 4) \o Rep("build", 10) \o Rep("patch", 4) \o Rep("calls", 6) \o Rep("enter", 3) \o Rep("exit", 2) \o Rep("vnew", 4) \o Rep("vto", 6) \o Rep("vpatch", 3) \o <<"unpatch", "rehook", "rehook", "rewhen", "refilter", "vunpatch", "release", "rebuild", "rebuild">>,
                  !.funs = <<1, 1, 1, 2>>, !.mocks = 14, !.hooks = <<"ret", "to", "org", "seq">>, !.noise = 0],
    C10 |-> [Base EXCEPT !.ops = Rep("build", 8) \o Rep("badconf", 6) \o Rep("junk", 5) \o Rep("calls", 8) \o Rep("vbad", 2) \o <<"enter", "exit", "vnew", "vto", "rewhen", "rewhen", "rehook", "rehook", "unpatch", "seqnew", "release", "rebuild">>,
                  !.noise = 45, !.multi = 50],
    C11 |-> [Base EXCEPT !.ops = Rep("build", 10) \o Rep("unpatchall", 6) \o Rep("calls", 8) \o Rep("enter", 3) \o Rep("exit", 2) \o Rep("vnew", 3) \o Rep("vto", 4) \o <<"patch", "patch", "unpatch", "rehook", "vpatch", "vunpatch", "call">>,
                  !.depth = 5, !.mocks = 14, !.hooks = <<"ret", "to", "org", "once">>, !.whens = <<"none", "lt">>, !.noise = 0],
    C12 |-> [Base EXCEPT !.ops = Rep("again", 4) \o Rep("build", 4) \o Rep("calls", 12) \o Rep("rewhen", 4) \o Rep("rehook", 4) \o Rep("refilter", 3) \o Rep("reorigin", 2) \o Rep("release", 3) \o Rep("rebuild", 4) \o <<"enter", "exit", "unpatch", "patch", "seqnew", "respawn">>,
                  !.noise = 0, !.filter = 30],
    C19 |-> [Base EXCEPT !.ops = Rep("again", 2) \o Rep("build", 6) \o Rep("calls", 10) \o Rep("gc", 6) \o Rep("seqnew", 2) \o Rep("enter", 2) \o <<"exit", "patch", "unpatch", "vnew", "vto", "vto", "vunpatch", "rehook", "release", "rebuild">>,
                  !.noise = 0],
    C13 |-> [Base EXCEPT !.ops = Rep("build", 8) \o Rep("calls", 14) \o Rep("enter", 2) \o <<"exit", "exit", "unpatch", "patch", "rehook", "rehook", "rewhen", "reorigin", "release", "rebuild", "conc", "seqnew", "gc">>,
                  !.hooks = <<"ret", "to", "to", "org", "org1", "org2", "rec", "ror", "oth", "pan", "pan", "gox", "seq">>, !.funs = <<1, 1, 2, 2, 3, 4>>, !.origin = 85, !.noise = 0],
    C16 |-> [Base EXCEPT !.ops = Rep("again", 2) \o Rep("build", 8) \o Rep("calls", 16) \o Rep("enter", 3) \o Rep("unpatch", 2) \o <<"exit", "exit", "patch", "rehook", "rehook", "rewhen", "refilter", "reorigin", "release", "rebuild", "seqnew", "unpatchall">>,
                  !.hooks = <<"ret", "to", "to", "org", "org", "org1", "org2", "rec", "oth", "pan", "seq", "once">>, !.funs = <<1, 2, 2, 3, 4>>, !.noise = 0],
    CONC |-> [Base EXCEPT !.ops = Rep("again", 2) \o Rep("build", 6) \o Rep("seqnew", 3) \o Rep("bulk", 5) \o Rep("window", 10) \o <<"enter", "exit", "unpatch", "patch", "rehook", "rewhen", "refilter", "call", "call">>,
                  !.hooks = <<"ret", "to", "seq", "seq", "seq", "org", "org1", "org2", "pan">>, !.whens = <<"none", "lt", "lt", "odd", "eq">>,
                  !.funs = <<1, 1, 2, 3>>, !.depth = 2, !.mocks = 6, !.filter = 35, !.multi = 40, !.noise = 0],
    PATCH |-> [Base EXCEPT !.ops = Rep("build", 2) \o Rep("cpatch", 4) \o Rep("cunpatch", 4) \o Rep("vnew", 2) \o Rep("vto", 3) \o Rep("cvpatch", 10)
                  \o Rep("cvunpatch", 10) \o <<"enter", "exit", "calls">>,
                  !.hooks = <<"ret", "to", "org">>, !.whens = <<"none">>, !.depth = 3, !.mocks = 4, !.noise = 0, !.filter = 0],
    FLIGHT |-> [Base EXCEPT !.ops = Rep("again", 2) \o Rep("build", 7) \o Rep("calls", 6) \o Rep("hcall", 8) \o Rep("resume", 5) \o Rep("ocall", 4) \o Rep("enter", 2)
                  \o <<"exit", "exit", "call", "patch", "patch", "unpatch", "unpatch", "unpatchall", "rehook", "rehook", "rewhen", "refilter", "reorigin", "release", "rebuild", "respawn">>,
                  !.hooks = <<"ret", "to", "org", "org2", "ror", "once", "offo", "offo", "allo", "reo", "gate", "gate", "gate", "gate">>,
                  !.whens = <<"none", "none", "none", "lt", "lt", "odd", "F", "off", "org">>, !.origin = 95, !.noise = 0, !.filter = 20],
    PARTS |-> [Base EXCEPT !.ops = Rep("vnew", 6) \o Rep("vto", 10) \o Rep("vunpatch", 3) \o Rep("vpatch", 3) \o Rep("enter", 4) \o Rep("exit", 2) \o <<"vset", "unpatchall", "unpatchall", "build", "calls", "gc">>,
                  !.hooks = <<"ret", "to", "org">>, !.whens = <<"none", "lt">>, !.depth = 5, !.mocks = 12, !.noise = 0, !.filter = 0],
    DEEP |-> [Base EXCEPT !.ops = Rep("build", 12) \o Rep("enter", 8) \o Rep("calls", 3) \o Rep("vnew", 2) \o Rep("vto", 3) \o <<"exit", "call", "unpatch", "patch", "rehook", "vpatch", "vunpatch", "gc">>,
                  !.hooks = <<"ret", "ret", "ret", "to", "to", "org", "once">>, !.whens = <<"none", "none", "lt", "odd">>, !.funs = <<1, 2, 3, 4>>, !.depth = 80, !.mocks = 300, !.noise = 0, !.filter = 10, !.multi = 10],
    CONVEY |-> [Base EXCEPT !.ops = Rep("build", 6) \o Rep("calls", 5) \o Rep("vnew", 2) \o Rep("vto", 3) \o Rep("unpatchall", 2)
                  \o <<"call", "patch", "patch", "unpatch", "unpatch", "rehook", "rehook", "rewhen", "refilter", "vpatch", "vunpatch", "vset">>,
                  !.hooks = <<"ret", "ret", "to", "org", "org", "org2", "once">>, !.whens = <<"none", "none", "lt", "odd">>, !.depth = 5, !.mocks = 40, !.noise = 0],
    ALL |-> Base ]
=============================================================================
