-------------------------------- MODULE Align --------------------------------
(***************************************************************************)
(* Client and server in step, without bounds: any number of operations,    *)
(* recipients, challenges, failures and abandoned operations.  Only counts *)
(* and beliefs are kept: how many units the server has not answered, how   *)
(* many replies the client has not read, how many it still expects, what   *)
(* the server takes the next octets for, and what the client believes it   *)
(* does.  Apalache proves Inv by induction over all of it; TLC checks that *)
(* the detailed model (SmtpMC) refines this one (AlignMC), and the library *)
(* is compared with the detailed model.                                    *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  \* @type: Bool;
  Drain,          \* every reply to a group is read, refusals or not
  \* @type: Bool;
  Poison,         \* a connection out of step is not used again
  \* @type: Bool;
  GiveUp           \* a challenge without an answer is answered by "*"
ConstFull == Drain = TRUE /\ Poison = TRUE /\ GiveUp = TRUE
ConstNoDrain == Drain = FALSE /\ Poison = TRUE /\ GiveUp = TRUE
ConstNoPoison == Drain = TRUE /\ Poison = FALSE /\ GiveUp = TRUE
ConstNoGiveUp == Drain = TRUE /\ Poison = TRUE /\ GiveUp = FALSE

VARIABLES
  \* @type: Str;
  st,             \* "fresh", "idle", "run", "gone"
  \* @type: Bool;
  bad,            \* the connection is known to be out of step
  \* @type: Int;
  expect,         \* replies the client still waits for
  \* @type: Int;
  unans,          \* units the server has not answered
  \* @type: Int;
  reps,           \* replies the client has not read
  \* @type: Str;
  kind,           \* the newest unanswered unit: "none", "cmd", "data", "auth", "sasl", "abort", "content"
  \* @type: Str;
  mode,           \* what the server waits for: "cmd", "data", "sasl"
  \* @type: Str;
  phase,          \* what the client believes it waits for
  \* @type: Bool;
  refused         \* something went wrong with this operation
vars == <<st, bad, expect, unans, reps, kind, mode, phase, refused>>
Kinds == {"none", "cmd", "data", "auth", "sasl", "abort", "content"}
Modes == {"cmd", "data", "sasl"}
N == {n \in Int : n >= 0}

\* A new connection, on which the server greets or does not.
Init == /\ st = "fresh" /\ bad = FALSE /\ expect = 0 /\ unans = 0 /\ reps \in {0, 1}
        /\ kind = "none" /\ mode = "cmd" /\ phase = "cmd" /\ refused = FALSE

\* The caller begins an operation; the first one reads the greeting, if there is one.
Start == /\ st \in {"fresh", "idle"} /\ st' = "run" /\ refused' = FALSE
         /\ expect' = (IF st = "fresh" THEN reps ELSE expect)
         /\ UNCHANGED <<bad, unans, reps, kind, mode, phase>>

\* A unit is on its way.  Only commands follow each other without waiting, DATA and AUTH end such a group.
Unit == /\ st = "run" /\ ~bad
        /\ kind' \in Kinds \ {"none"}
        /\ CASE kind' = "content" -> phase = "data" /\ expect = 0 /\ ~refused
             [] kind' = "sasl" -> phase = "sasl" /\ expect = 0 /\ ~refused
             [] kind' = "abort" -> phase = "sasl" /\ expect = 0
             [] OTHER -> phase = "cmd" /\ (expect = 0 \/ kind \in {"none", "cmd"}) /\ mode = "cmd"
        /\ unans' = unans + 1 /\ expect' = expect + 1 /\ phase' = "cmd"
        /\ UNCHANGED <<st, bad, reps, mode, refused>>

\* The server answers the oldest unit, as it likes; what it waits for next depends on the unit and the answer.
Answer == /\ unans > 0
          /\ unans' = unans - 1 /\ reps' = reps + 1
          /\ kind' = (IF unans = 1 THEN "none" ELSE kind)
          /\ mode' \in (IF unans > 1 THEN {"cmd"}
                        ELSE IF kind = "data" THEN {"cmd", "data"}
                        ELSE IF kind \in {"auth", "sasl"} THEN {"cmd", "sasl"} ELSE {"cmd"})
          /\ UNCHANGED <<st, bad, expect, phase, refused>>

\* The client reads a reply.  After the last one it knows what the server waits for; when that is content
\* which must not be sent, nothing can be sent any more.
Read == /\ st = "run" /\ ~bad /\ expect > 0 /\ reps > 0
        /\ expect' = expect - 1 /\ reps' = reps - 1
        /\ refused' \in (IF refused THEN {TRUE} ELSE BOOLEAN)
        /\ phase' = (IF expect' = 0 THEN mode ELSE "cmd")
        /\ bad' = (Poison /\ phase' = "data" /\ refused')
        /\ UNCHANGED <<st, unans, kind, mode>>

\* The stream or the message source fails, a reply is malformed, or the caller drops the operation: some of
\* what is on its way is lost, in the middle of it.
Break == /\ st = "run" /\ ~bad
         /\ bad' = Poison /\ expect' = 0 /\ phase' = "cmd"
         /\ unans' \in N /\ reps' \in N /\ unans' <= unans /\ reps' <= reps + unans + 1
         /\ kind' = (IF unans' = 0 THEN "none" ELSE kind) /\ mode' \in Modes
         /\ refused' \in BOOLEAN
         /\ st' \in {"run", "idle", "gone"}

\* What happens on a connection out of step does not matter, as long as nothing is sent.
Chaos == /\ bad /\ unans' \in N /\ reps' \in N /\ mode' \in Modes /\ kind' \in Kinds /\ refused' \in BOOLEAN
         /\ UNCHANGED <<st, bad, expect, phase>>

\* The operation ends: everything was read and the server waits for a command, or the connection is out of step.
Finish == /\ st = "run"
          /\ \/ bad
             \/ /\ (Drain => expect = 0) /\ (GiveUp => phase /= "sasl") /\ phase /= "data"
          /\ st' \in (IF bad THEN {"idle", "gone"} ELSE {"idle", "gone", "fresh"})
          /\ expect' = 0 /\ phase' = "cmd"
          /\ UNCHANGED <<bad, unans, reps, kind, mode, refused>>

Idle == UNCHANGED vars
Next == Start \/ Unit \/ Answer \/ Read \/ Break \/ Chaos \/ Finish \/ Idle
Spec == Init /\ [][Next]_vars

Types == /\ st \in {"fresh", "idle", "run", "gone"} /\ bad \in BOOLEAN
         /\ expect \in Int /\ unans \in Int /\ reps \in Int /\ expect >= 0 /\ unans >= 0 /\ reps >= 0
         /\ kind \in Kinds /\ mode \in Modes /\ phase \in Modes /\ refused \in BOOLEAN

\* In step: what the client waits for is what is unanswered or unread, and its belief is right.
InStep == /\ (st = "run") => /\ expect = unans + reps
                             /\ expect = 0 => (phase = mode)
                             /\ expect > 0 => phase = "cmd"
          /\ (st = "idle") => /\ expect = 0 /\ unans = 0 /\ reps = 0 /\ mode = "cmd" /\ phase = "cmd"
          /\ (st = "fresh") => /\ expect = 0 /\ unans = 0 /\ reps <= 1 /\ mode = "cmd" /\ phase = "cmd"
          /\ (kind = "none") <=> (unans = 0)
          /\ kind = "content" => (mode = "data" /\ unans = 1 /\ reps = 0 /\ ~refused)
          /\ kind \in {"sasl", "abort"} => (mode = "sasl" /\ unans = 1 /\ reps = 0)
          /\ kind \in {"cmd", "data", "auth"} => mode = "cmd"
          /\ (phase = "data" /\ st = "run") => ~refused
Inv == Types /\ (~bad => (st = "gone" \/ InStep)) /\ (st = "fresh" => ~bad)

\* What is promised: on a connection that is used again the server waits for a command and no reply is left
\* over (C03); content goes only to a server that waits for content, and only if nothing was refused (C04);
\* answers to challenges go only to a server that waits for them (C15).
Safe == /\ (st = "idle" /\ ~bad) => (reps = 0 /\ unans = 0 /\ mode = "cmd")
        /\ (st /= "gone" /\ ~bad /\ kind = "content") => (mode = "data" /\ ~refused)
        /\ (st /= "gone" /\ ~bad /\ kind \in {"sasl", "abort"}) => mode = "sasl"
        /\ (st /= "gone" /\ ~bad /\ kind \in {"cmd", "data", "auth"}) => mode = "cmd"
=============================================================================
