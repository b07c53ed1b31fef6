----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Reading a trace recorded from the real code, and the bookkeeping that    *)
(* makes TLC accept it (every line matched by an action of the spec) or     *)
(* reject it at a given line with the name of the broken requirement.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, IOUtils, Json, NumReal, SequencesExt

Log == ndJsonDeserialize(IOEnv.TRACE)
\* The requirements this run decides (separated by blanks); "all" for every one.
Own == LET q == Split(IOEnv.OWN, " ") IN {q[k] : k \in 1..Len(q)}
Owned(label) == "all" \in Own \/ label \in Own

VARIABLE i   \* lines accepted so far
Line == Log[i + 1]
Has(ln, key) == key \in DOMAIN ln

\* A named requirement: evaluated only if this run owns it.
Chk(label, cond) ==
  IF ~Owned(label) THEN TRUE
  ELSE IF cond THEN TRUE
  ELSE PrintT(<<"FAIL", label, Line.line, Line.op, Line.ses>>) /\ FALSE
\* A crash, an abort, an uncaught exception or an exit of the code under test.
CrashFree == Chk("crash", FALSE)

Advance == i' = i + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
