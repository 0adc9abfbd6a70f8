-------------------------------- MODULE Group --------------------------------
(***************************************************************************)
(* Pipelined groups without bounds: any number of recipients, commands of  *)
(* any length, any capacity of the connection from 4096 octets on.  TLC    *)
(* explores the dialogue for a few recipients (SmtpMC); here Apalache      *)
(* proves by induction, over all integers, what must hold for any number   *)
(* of them: the client never waits for room while the server waits for its *)
(* replies to be read, no reply is left behind, and message content        *)
(* follows only on positive replies to everything that was sent.           *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  \* @type: Int;
  W,              \* octets the connection holds towards the server
  \* @type: Int;
  Limit           \* octets of a group
Capacity == W >= Limit /\ Limit = 4096
Narrow == W >= 1 /\ W < Limit /\ Limit = 4096      \* a connection that holds less: must fail
ConstInit == W \in Int /\ Limit \in Int /\ Capacity
ConstNarrow == W \in Int /\ Limit \in Int /\ Narrow

VARIABLES
  \* @type: Str;
  phase,          \* "idle", "write", "drain", "content", "rset", "gone"
  \* @type: Int;
  left,           \* commands of this email not yet begun, DATA being the last
  \* @type: Int;
  pend,           \* octets of the current command not yet written
  \* @type: Int;
  cur,            \* octets of it that were written, 0 when it is complete
  \* @type: Int;
  glen,           \* octets of the group, the current command included
  \* @type: Int;
  c2s,            \* octets on their way to the server
  \* @type: Int;
  sent,           \* commands of the group whose replies were not read
  \* @type: Int;
  owed,           \* commands the server has not answered
  \* @type: Int;
  replies,        \* replies on their way to the client
  \* @type: Bool;
  bad,            \* a refusal was read
  \* @type: Bool;
  next            \* what follows when the group is drained: another group, or nothing (DATA was answered)
vars == <<phase, left, pend, cur, glen, c2s, sent, owed, replies, bad, next>>

Init == /\ phase = "idle" /\ left = 0 /\ pend = 0 /\ cur = 0 /\ glen = 0 /\ c2s = 0
        /\ sent = 0 /\ owed = 0 /\ replies = 0 /\ bad = FALSE /\ next = FALSE

\* An email with any number of recipients (so at least three commands), the sender of any length.
Send == /\ phase = "idle"
        /\ \E n \in Int, len \in Int : n >= 2 /\ len >= 1 /\ left' = n /\ pend' = len /\ glen' = len
        /\ phase' = "write" /\ bad' = FALSE /\ next' = FALSE
        /\ UNCHANGED <<cur, c2s, sent, owed, replies>>
\* Some octets of the command find room.
Write == /\ phase \in {"write", "rset"} /\ pend > 0
         /\ \E k \in Int : k >= 1 /\ k <= pend /\ c2s + k <= W /\ pend' = pend - k /\ c2s' = c2s + k /\ cur' = (IF pend = k THEN 0 ELSE cur + k)
         /\ sent' = (IF pend' = 0 THEN sent + 1 ELSE sent)
         /\ owed' = (IF pend' = 0 THEN owed + 1 ELSE owed)
         /\ UNCHANGED <<phase, left, glen, replies, bad, next>>
\* The next command, in this group if it fits, in the next one if not.
NextCommand ==
  /\ phase = "write" /\ pend = 0
  /\ IF left = 0 THEN phase' = "drain" /\ next' = FALSE /\ UNCHANGED <<left, pend, glen>>
     ELSE \E len \in Int :
          /\ len >= 1
          /\ IF glen + len > Limit THEN phase' = "drain" /\ next' = TRUE /\ UNCHANGED <<left, pend, glen>>
             ELSE phase' = "write" /\ pend' = len /\ glen' = glen + len /\ left' = left - 1 /\ UNCHANGED next
  /\ UNCHANGED <<cur, c2s, sent, owed, replies, bad>>
ReadReply ==
  /\ phase \in {"drain", "rset"} /\ pend = 0 /\ sent > 0 /\ replies > 0
  /\ sent' = sent - 1 /\ replies' = replies - 1
  /\ bad' \in {bad, TRUE}
  /\ UNCHANGED <<phase, left, pend, cur, glen, c2s, owed, next>>
Drained ==
  /\ phase = "drain" /\ sent = 0
  /\ IF bad /\ next THEN phase' = "rset" /\ pend' = 6 /\ glen' = 6 /\ UNCHANGED <<left, next>>
     ELSE IF bad THEN phase' \in {"rset", "gone"} /\ pend' = 6 /\ glen' = 6 /\ UNCHANGED <<left, next>>
     ELSE IF next THEN \E len \in Int : len >= 1 /\ pend' = len /\ glen' = len /\ left' = left - 1 /\ phase' = "write" /\ UNCHANGED next
     ELSE phase' = "content" /\ UNCHANGED <<left, pend, glen, next>>
  /\ UNCHANGED <<cur, c2s, sent, owed, replies, bad>>
\* The message and its answer; RSET and its answer.
Content == /\ phase = "content" /\ phase' = "idle"
           /\ UNCHANGED <<left, pend, cur, glen, c2s, sent, owed, replies, bad, next>>
Reset == /\ phase = "rset" /\ pend = 0 /\ sent = 0 /\ phase' = "idle"
         /\ UNCHANGED <<left, pend, cur, glen, c2s, sent, owed, replies, bad, next>>

\* The server reads when it likes - it must while nothing it said is unread -, and answers what it has read.
\* (That it may answer early, all but the last command, only adds behaviours.)
ServerRead == /\ c2s > 0 /\ \E k \in Int : k >= 1 /\ k <= c2s /\ c2s' = c2s - k
              /\ UNCHANGED <<phase, left, pend, cur, glen, sent, owed, replies, bad, next>>
ServerReply == /\ owed > 0 /\ owed' = owed - 1 /\ replies' = replies + 1
               /\ owed = 1 => c2s <= cur
               /\ UNCHANGED <<phase, left, pend, cur, glen, c2s, sent, bad, next>>

Next == Send \/ Write \/ NextCommand \/ ReadReply \/ Drained \/ Content \/ Reset \/ ServerRead \/ ServerReply

---------------------------------------------------------------------------
\* Each waits for the other: the client for room, the server for its replies to be read.
Blocked == phase \in {"write", "rset"} /\ pend > 0 /\ c2s >= W /\ replies > 0
\* The client waits for a reply and none can come.
Starved == phase \in {"drain", "rset"} /\ pend = 0 /\ sent > 0 /\ replies = 0 /\ owed = 0
NoLeak == phase \in {"idle", "content"} => sent = 0 /\ owed = 0 /\ replies = 0
Safe == ~Blocked /\ ~Starved /\ NoLeak /\ (phase = "content" => ~bad)

\* The inductive invariant.
Phases == {"idle", "write", "drain", "content", "rset", "gone"}
Inv ==
  /\ phase \in Phases
  /\ left \in Int /\ pend \in Int /\ glen \in Int /\ c2s \in Int /\ cur \in Int /\ sent \in Int /\ owed \in Int /\ replies \in Int
  /\ bad \in BOOLEAN /\ next \in BOOLEAN
  /\ left >= 0 /\ pend >= 0 /\ cur >= 0 /\ glen >= 0 /\ c2s >= 0 /\ c2s <= W /\ sent >= 0 /\ owed >= 0 /\ replies >= 0
  /\ sent = owed + replies
  /\ pend = 0 => cur = 0
  \* what was answered was read
  /\ owed = 0 => c2s <= cur
  /\ phase \in {"idle", "content"} => sent = 0 /\ pend = 0
  /\ phase = "drain" => pend = 0
  /\ (phase = "drain" /\ next) => left > 0
  /\ phase = "content" => ~bad
  /\ phase \in {"write", "rset"} => c2s + pend <= glen
  \* a command behind another one fits
  /\ (phase \in {"write", "rset"} /\ pend > 0 /\ sent > 0) => glen <= Limit
=============================================================================
