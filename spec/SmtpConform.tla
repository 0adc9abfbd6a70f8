----------------------------- MODULE SmtpConform -----------------------------
(***************************************************************************)
(* Recorded executions of the real library must be behaviours of the       *)
(* client of SmtpCore: with the operations called and the replies given as *)
(* recorded, the client must write exactly the recorded units and return   *)
(* exactly the recorded results.                                           *)
(*                                                                         *)
(* Writes are matched with the unit the server receives.  Where a group of *)
(* pipelined commands has to be split is left open if the envelope is      *)
(* larger than the limit.                                                  *)
(***************************************************************************)
EXTENDS SmtpCore, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Huge == [FullDesign EXCEPT !.group = 1000000000]

\* cut: what was due when this operation met a failure; left: the half unit an earlier one left behind;
\* hid: what was written while the server took nothing.
VARIABLES t, i, c, rq, cut, left, hid, why
vars == <<t, i, c, rq, cut, left, hid, why>>
Evs == Traces[t].ev

Reject(text) == [ok |-> FALSE, c |-> c, rq |-> rq, why |-> text]
Accept(nc, nrq) == [ok |-> TRUE, c |-> nc, rq |-> nrq, why |-> ""]

EnvLen == Len(MailLine(c)) + TotalLen(c.op.to, 1) + 12 * Len(c.op.to) + 6
\* The client waits before the next command of a large envelope.
MayWait == c.st = "w" /\ c.stage \in {"rcpt", "data"} /\ Pipe(c) /\ c.owed > 0 /\ EnvLen > GroupLimit
WaitReply(r) ==
  LET n == [c EXCEPT !.owed = @ - 1, !.grp = 0, !.err = IF @.k = "none" /\ Refused(r) THEN Refusal(r) ELSE @]
  IN IF Broken(r) THEN Break(c, "parsing")
     ELSE IF n.owed = 0 /\ n.err.k /= "none" THEN Reset(n) ELSE n

SameResult(a, b) == /\ Class(a.k) = Class(b.k)
                    /\ Class(a.k) /= "err" => a.code = b.code /\ a.lines = b.lines
\* The octets the client may write before it has to wait.
RECURSIVE Due(_)
Due(cc) == IF cc.st = "w" THEN cc.unit.s \o Due(AfterWrite(cc)) ELSE ""
RECURSIVE Written(_)
Written(cc) == IF cc.st = "w" THEN Written(AfterWrite(cc)) ELSE cc
\* The server takes nothing any more.
Deaf == rq /= <<>> /\ Last(rq).r.k \in {"silent", "eof"}
\* What of the operation was written: complete units, and only after a failure a beginning of what was due.
SentOk(ev) == LET due == IF ev.e = "cancel" THEN Due(c) ELSE cut IN
              IF left /= "" THEN ev.part = left /\ ev.sent = 0 /\ c.sent = 0
              ELSE
              \* (The recorded part is cut off behind 400 octets; plen is its length.)
              /\ ev.sent = c.sent - Len(hid) + ev.plen
              /\ ev.plen >= Len(hid)
              /\ ev.plen <= Len(hid) + Len(due) /\ SubSeq(hid \o due, 1, Len(ev.part)) = ev.part
RetOf(cc, ev) ==
  IF cc.st /= "ret" THEN Reject("the operation returned too early")
  ELSE IF ~SameResult(Result(cc), ev.res) THEN Reject("another result")
  ELSE IF ~SentOk(ev) THEN Reject("something else was transmitted")
  ELSE Accept(Leave(cc), rq)

Match(ev) ==
  CASE ev.e = "call" ->
         IF IF ev.op = "connect" THEN c.st = "fresh" ELSE c.st = "idle" THEN Accept(StartOp(c, ev), rq)
         ELSE Reject("call not possible")
    [] ev.e = "rx" /\ ev.k = "greet" -> Accept(c, Append(rq, [n |-> ev.n, r |-> ev.r]))
    [] ev.e = "rx" ->
         IF c.st /= "w" THEN Reject("a unit where none is due")
         ELSE IF ev.k /= c.unit.k \/ ev.s /= c.unit.s THEN Reject("not the unit that is due")
         ELSE Accept(AfterWrite(c), Append(rq, [n |-> ev.n, r |-> ev.r]))
    [] ev.e = "got" ->
         IF rq = <<>> \/ Head(rq).n /= ev.n THEN Reject("a reply that is not the next one")
         ELSE IF c.st = "r" THEN Accept(AfterReply(c, Head(rq).r), Tail(rq))
         ELSE IF Deaf /\ c.st = "w" /\ Pipe(c) /\ c.stage \in {"rcpt", "data"} THEN Accept(AfterReply(Written(c), Head(rq).r), Tail(rq))
         ELSE IF MayWait THEN Accept(WaitReply(Head(rq).r), Tail(rq))
         ELSE Reject("a reply read where none is due")
    [] ev.e = "ret" ->
         \* a broken reply need not be consumed to its end
         IF c.st = "r" /\ rq /= <<>> /\ Head(rq).r.k = "mal" THEN RetOf(Break(c, "parsing"), ev)
         ELSE RetOf(c, ev)
    [] ev.e = "fault" ->
         IF c.st \in {"w", "r"} THEN Accept(Break(c, "io"), rq) ELSE Reject("I/O where none is due")
    [] ev.e = "cancel" ->
         IF c.st \notin {"w", "r"} THEN Reject("waiting although nothing is due")
         ELSE IF SentOk(ev) THEN Accept(Abandon(c), rq) ELSE Reject("something else was transmitted")
    [] OTHER -> Reject("panic, hang or unknown event")

Init == t \in 1..Len(Traces) /\ i = 1 /\ c = ClientInit /\ rq = <<>> /\ cut = "" /\ left = "" /\ hid = "" /\ why = ""
Next == /\ i <= Len(Evs) /\ why = ""
        /\ LET m == Match(Evs[i]) IN c' = m.c /\ rq' = m.rq /\ why' = m.why
        /\ cut' = IF Evs[i].e = "fault" /\ c.st = "w" THEN Due(c) ELSE IF Evs[i].e = "call" THEN "" ELSE cut
        /\ hid' = IF Evs[i].e = "got" /\ c.st = "w" /\ Deaf THEN hid \o Due(c) ELSE IF Evs[i].e = "call" THEN "" ELSE hid
        /\ left' = IF Evs[i].e \in {"ret", "cancel"} THEN Evs[i].part ELSE left
        /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Position == <<t, i>>
Conforms == why = ""
=============================================================================
