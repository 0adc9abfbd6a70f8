------------------------------ MODULE SmtpCore ------------------------------
(***************************************************************************)
(* The client, step by step, as a function of what it sees.                *)
(*                                                                         *)
(* A client record c is in one of these states:                            *)
(*   "fresh"  no session yet        "idle"  between operations             *)
(*   "w"      has to write c.unit   "r"     waits for the next reply       *)
(*   "ret"    returns c.res         "gone"  cannot be used any more        *)
(* StartOp, AfterWrite, AfterReply and Break give its successor.  SmtpMC   *)
(* runs it against every server, SmtpConform against recorded executions.  *)
(*                                                                         *)
(* The record D switches off design decisions, to show that the properties *)
(* depend on them (and are not vacuous):                                   *)
(*   drain   all replies to a pipelined group are read after a refusal     *)
(*   reset   a refused envelope is reset                                   *)
(*   poison  a connection that is out of step is not used any more         *)
(*   cancel  a challenge that is not answered is cancelled                 *)
(*   wait    content waits for the replies to the whole envelope           *)
(*   group   largest group of pipelined commands                           *)
(*   once    an email that was refused for now is not sent again           *)
(*   cause   the error says what failed                                    *)
(***************************************************************************)
EXTENDS SmtpObs

CONSTANT D
FullDesign == [drain |-> TRUE, reset |-> TRUE, poison |-> TRUE, cancel |-> TRUE, wait |-> TRUE, group |-> GroupLimit, once |-> TRUE, cause |-> TRUE]

NoRes == [k |-> "none", code |-> "", lines |-> <<>>]
OkUnit == [k |-> "ok", code |-> "", lines |-> <<>>]
\* Errors other than refusals: "client" (nothing can be sent), "io" (the stream or the message source),
\* "parsing" (what was read is no reply), "resp" (a reply that does not say what it must), "chal" (a challenge).
Failed(k) == [k |-> k, code |-> "", lines |-> <<>>]
OkWith(r) == [k |-> "ok", code |-> r.code, lines |-> r.lines]
Refusal(r) == [k |-> Sev(r), code |-> r.code, lines |-> r.lines]
\* Transient and permanent refusals are told apart; other errors are just errors.
Class(k) == IF k \in {"ok", "transient", "permanent", "none"} THEN k ELSE "err"

ClientInit ==
  [st |-> "fresh", op |-> NoOp, cfg |-> [greet |-> TRUE, pipe |-> TRUE, utf8 |-> FALSE], caps |-> {},
   stage |-> "none", unit |-> [k |-> "none", s |-> ""], i |-> 0, owed |-> 0, grp |-> 0, last |-> FALSE,
   dataok |-> FALSE, err |-> NoRes, res |-> NoRes, chal |-> 0, mech |-> "", sent |-> 0, bad |-> FALSE,
   nrep |-> 0]

Pipe(c) == "PIPELINING" \in c.caps /\ c.cfg.pipe
Return(c, res) == [c EXCEPT !.st = "ret", !.res = res]
WriteUnit(c, stage, k, s) == [c EXCEPT !.st = "w", !.stage = stage, !.unit = [k |-> k, s |-> s]]
Read(c, stage) == [c EXCEPT !.st = "r", !.stage = stage]

RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE " " \o Head(q) \o Join(Tail(q))
MailLine(c) == "MAIL FROM:<" \o c.op.from \o ">"
               \o Join((IF "8BITMIME" \in c.caps THEN <<"BODY=8BITMIME">> ELSE <<>>)
                       \o (IF "SMTPUTF8" \in c.caps /\ c.cfg.utf8 THEN <<"SMTPUTF8">> ELSE <<>>)) \o CRLF
RcptLine(c, i) == "RCPT TO:<" \o c.op.to[i] \o ">\r\n"
DataLine == "DATA\r\n"

StartAuth(c, m) == WriteUnit([c EXCEPT !.mech = m, !.chal = 0], "auth", "line", InitialLine(m, c.op.userb, c.op.passb))

StartOp(c0, op) ==
  LET c == [c0 EXCEPT !.op = op, !.err = NoRes, !.res = NoRes, !.i = 0, !.owed = 0, !.grp = 0,
                      !.last = FALSE, !.dataok = FALSE, !.sent = 0]
  IN CASE op.op = "connect" ->
            LET n == [c EXCEPT !.cfg = [greet |-> op.greet, pipe |-> op.pipe, utf8 |-> op.utf8], !.caps = {}, !.bad = FALSE]
            IN IF op.greet THEN Read(n, "greet") ELSE WriteUnit(n, "ehlo", "line", "EHLO " \o op.hello \o CRLF)
       [] op.op = "login" /\ FirstMatch(op.mechs, c.caps) = "" -> Return(c, OkUnit)
       [] op.op = "starttls" /\ "STARTTLS" \notin c.caps -> Return(c, Failed("client"))
       [] c.bad -> Return(c, Failed("client"))
       [] op.op = "login" -> StartAuth(c, FirstMatch(op.mechs, c.caps))
       [] op.op = "auth" -> StartAuth(c, op.mech)
       [] op.op = "starttls" -> WriteUnit(c, "starttls", "line", "STARTTLS\r\n")
       [] op.op = "quit" -> WriteUnit(c, "quit", "line", "QUIT\r\n")
       [] op.op = "send" -> WriteUnit(c, "mail", "line", MailLine(c))
       [] OTHER -> Return(c, Failed("client"))

\* The command of the envelope after the i-th recipient.
NextEnvelope(c) == IF c.i < Len(c.op.to) THEN WriteUnit([c EXCEPT !.i = @ + 1], "rcpt", "line", RcptLine(c, c.i + 1))
                   ELSE WriteUnit([c EXCEPT !.last = TRUE], "data", "line", DataLine)
Content(c) == WriteUnit(c, "content", "content", Wire(c.op.msg))
Reset(c) == IF c.bad THEN Return(c, c.err)
            ELSE IF D.reset THEN WriteUnit(c, "rset", "line", "RSET\r\n") ELSE Return(c, c.err)

\* The unit was written completely.
AfterWrite(c0) ==
  LET c == [c0 EXCEPT !.sent = @ + Len(c0.unit.s)]
  IN CASE c.stage \in {"mail", "rcpt"} /\ Pipe(c) ->
            LET n == [c EXCEPT !.owed = @ + 1, !.grp = @ + Len(c.unit.s)]
                nxt == NextEnvelope(n)
            IN IF n.grp + Len(nxt.unit.s) > D.group THEN Read(n, "group") ELSE nxt
       [] c.stage = "data" /\ Pipe(c) ->
            IF D.wait THEN Read([c EXCEPT !.owed = @ + 1], "group")
            ELSE Content([c EXCEPT !.owed = @ + 1])
       [] c.stage = "content" /\ c.owed > 0 -> Read([c EXCEPT !.owed = @ + 1], "group")
       [] OTHER -> Read(c, c.stage)

\* What was read is not a reply, or the stream failed: the connection is out of step.
Break(c, k) ==
  IF c.st = "ret" THEN c
  ELSE LET n == [c EXCEPT !.bad = IF D.poison THEN TRUE ELSE FALSE]
       IN Return(n, IF c.err.k /= "none" THEN c.err ELSE Failed(IF D.cause THEN k ELSE "client"))

\* All replies to the current group have been read.
GroupDone(c) ==
  IF ~c.last THEN (IF c.err.k /= "none" THEN Reset(c) ELSE NextEnvelope([c EXCEPT !.grp = 0]))
  ELSE IF c.err.k = "none" THEN (IF D.wait THEN Content(c) ELSE Return(c, c.res))
  ELSE IF c.dataok THEN Return([c EXCEPT !.bad = D.poison], c.err)
  ELSE Reset(c)

SaslStep(c, r) ==
  IF ~Challenge(r) THEN Return(c, OkWith(r))
  ELSE IF c.chal < MaxResponses /\ Answerable(c.mech, r)
       THEN WriteUnit([c EXCEPT !.chal = @ + 1], "sasl", "sasl", ResponseLine(c.mech, r, c.op.userb, c.op.passb))
       ELSE IF D.cancel THEN WriteUnit([c EXCEPT !.err = Failed("chal")], "cancel", "sasl", "*\r\n")
       ELSE Return(c, Failed("chal"))

AfterReply(c, r) ==
  IF Broken(r) THEN Break(c, IF r.k = "mal" THEN "parsing" ELSE "io")
  ELSE CASE c.stage \in {"rset", "cancel"} -> Return(c, c.err)
         [] c.stage = "group" ->
              LET n == [c EXCEPT !.owed = @ - 1,
                                 !.err = IF @.k = "none" /\ Refused(r) THEN Refusal(r) ELSE @,
                                 !.res = IF Pos(r) THEN OkWith(r) ELSE @,
                                 !.dataok = c.last /\ c.owed = 1 /\ Pos(r)]
              IN IF ~D.drain /\ Refused(r) THEN Return(n, n.err)
                 ELSE IF n.owed > 0 THEN n ELSE GroupDone(n)
         [] c.stage \in {"mail", "rcpt", "data"} /\ Refused(r) -> Reset([c EXCEPT !.err = Refusal(r)])
         [] ~D.once /\ c.stage = "content" /\ Refused(r) /\ Sev(r) = "transient" ->
              WriteUnit([c EXCEPT !.i = 0, !.owed = 0, !.grp = 0, !.last = FALSE, !.dataok = FALSE], "mail", "line", MailLine(c))
         [] Refused(r) -> Return(c, Refusal(r))
         [] c.stage = "greet" -> WriteUnit(c, "ehlo", "line", "EHLO " \o c.op.hello \o CRLF)
         [] c.stage = "ehlo" -> IF Names(r.lines) THEN Return([c EXCEPT !.caps = CapsOf(r.lines)], OkUnit)
                                ELSE Return(c, Failed("resp"))
         [] c.stage \in {"mail", "rcpt"} -> NextEnvelope(c)
         [] c.stage = "data" -> Content(c)
         [] c.stage = "content" -> Return(c, OkWith(r))
         [] c.stage \in {"auth", "sasl"} -> SaslStep(c, r)
         [] OTHER -> Return(c, OkUnit)

\* The result the caller sees: only send and auth hand out the response.
Result(c) == IF c.res.k = "ok" /\ c.op.op \notin {"send", "auth"} THEN OkUnit ELSE c.res

\* The operation is over.
Leave(c) ==
  LET live == \/ c.op.op = "connect" /\ c.res.k = "ok"
              \/ c.op.op \notin {"connect", "starttls"}
  IN [c EXCEPT !.st = IF c.op.op = "starttls" /\ c.res.k = "ok" THEN "fresh" ELSE IF live THEN "idle" ELSE "gone",
               !.op = NoOp, !.stage = "none"]

Abandon(c) == LET n == [c EXCEPT !.bad = D.poison, !.res = Failed("client")] IN
              [Leave(n) EXCEPT !.st = IF c.op.op \in {"connect", "starttls"} THEN "gone" ELSE "idle"]
=============================================================================
