------------------------------ MODULE Startup ------------------------------
(***************************************************************************)
(* A program that uses mockey, from how it is built and started to its     *)
(* end: mockey warns at the start if calls may have been inlined, prints   *)
(* what it does in debug mode, and works in any case (the functions that   *)
(* the program mocks are never inlined).                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Check, Debug   \* the values of the environment variables tried

VARIABLES flags,   \* compiler flags
          stw,     \* built with tag mockey_stw?
          check,   \* MOCKEY_CHECK_GCFLAGS
          debug,   \* MOCKEY_DEBUG
          pc, warned, talked, on, res

vars == <<flags, stw, check, debug, pc, warned, talked, on, res>>

Init == /\ flags \in SUBSET {"-l", "-N"} /\ stw \in BOOLEAN /\ check \in Check /\ debug \in Debug
        /\ pc = "start" /\ warned = FALSE /\ talked = FALSE /\ on = FALSE /\ res = <<>>

Inlined == "-l" \notin flags        \* -N alone does not keep the compiler from inlining
Talk == talked' = (talked \/ debug = "true")
Env == UNCHANGED <<flags, stw, check, debug>>

Start == pc = "start" /\ pc' = "mock" /\ warned' = (Inlined /\ check # "false") /\ UNCHANGED <<talked, on, res>> /\ Env
Mock == pc = "mock" /\ pc' = "use" /\ on' = TRUE /\ Talk /\ UNCHANGED <<warned, res>> /\ Env
Use == pc = "use" /\ pc' = "remove" /\ res' = <<70, 70, 2, 30>> /\ UNCHANGED <<warned, talked, on>> /\ Env
Remove == pc = "remove" /\ pc' = "again" /\ on' = FALSE /\ Talk /\ UNCHANGED <<warned, res>> /\ Env
Again == pc = "again" /\ pc' = "end" /\ res' = res \o <<2, 3>> /\ UNCHANGED <<warned, talked, on>> /\ Env
Next == Start \/ Mock \/ Use \/ Remove \/ Again

\* the answer does not depend on the surroundings
SameResults == pc = "end" => res = <<70, 70, 2, 30, 2, 3>>
\* a program for which mocks can be lost to inlining does not start silently, unless it was asked to
NotSilent == pc # "start" /\ Inlined /\ check # "false" => warned
\* no warning without a reason
NoFalseWarning == warned => Inlined
Quiet == talked => debug = "true"
Said == pc = "end" /\ debug = "true" => talked
Emit == pc = "end" => PrintT(ToJson([flags |-> flags, stw |-> stw, check |-> check, debug |-> debug, warned |-> warned, talked |-> talked, res |-> res]))
=============================================================================
