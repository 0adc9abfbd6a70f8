------------------------------ MODULE SmtpTrace ------------------------------
(***************************************************************************)
(* Recorded executions of the real library, judged by the observer.        *)
(* File TRACES holds one execution per line: {"id": .., "ev": [events]}.   *)
(***************************************************************************)
EXTENDS SmtpObs, Reply, TLC, Json, IOUtils

CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i, o, bad
vars == <<t, i, o, bad>>
Evs == Traces[t].ev

Init == t \in 1..Len(Traces) /\ i = 1 /\ o = ObsInit /\ bad = {}
Next == /\ i <= Len(Evs)
        /\ o' = Step(o, Evs[i])
        /\ bad' = Viol(Prop, o, Evs[i])
        /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
\* The observer is a function of the execution read so far.
Position == <<t, i>>
NoViolation == bad = {}

\* The script of the server is what it claims to be, by the grammar of Reply.
High(s) == \E j \in 1..Len(s) : Ch(s, j) \notin Ascii
Sane(ev) ==
  IF ev.e /= "rx" THEN TRUE
  ELSE LET r == ev.r IN
       CASE r.k = "wf" -> Read(r.raw) = [ok |-> TRUE, code |-> r.code, lines |-> r.lines, used |-> Len(r.raw)]
         [] r.k = "mal" -> High(r.raw) \/ ~Read(r.raw).ok
         [] r.k = "eof" -> ~Read(r.raw).ok
         [] OTHER -> r.k = "silent"
ScriptSane == i <= Len(Evs) => Sane(Evs[i])
=============================================================================
