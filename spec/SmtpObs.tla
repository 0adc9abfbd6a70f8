------------------------------ MODULE SmtpObs ------------------------------
(***************************************************************************)
(* The observer: what can be seen at the two ends of a client.             *)
(*                                                                         *)
(* It follows a sequence of events, produced either by the model of the    *)
(* client and the server (SmtpMC) or by the real library running against a *)
(* scripted stream (SmtpTrace), keeps the state of an RFC 5321 server and  *)
(* what the client has been told, and states every session property as a   *)
(* predicate over this state and the next event:                           *)
(*                                                                         *)
(*   call    the caller starts an operation                                *)
(*   rx      the server has received a unit (greet: none, it just greets;  *)
(*           line: a command; sasl: a SASL line; content: a whole message) *)
(*           and produces reply number n to it                             *)
(*   got     the client has consumed the last octet of reply n; p octets   *)
(*           transmitted so far do not belong to a complete unit           *)
(*   fault   the stream or the message source fails                        *)
(*   ret     the operation returns: result, octets transmitted by it,      *)
(*           incomplete unit at the server, what the server waits for      *)
(*   cancel  the caller drops the running operation                        *)
(*   panic, hang                                                           *)
(*                                                                         *)
(* Viol(p, o, ev) is the set of reasons why ev violates property p.        *)
(***************************************************************************)
EXTENDS SmtpText, Integers

CONSTANT GroupLimit     \* 4096, smaller in some models

NoReply == [k |-> "silent", code |-> "", lines |-> <<>>, extra |-> ""]
NoUnit == [k |-> "none", s |-> "", n |-> 0, r |-> NoReply, ab |-> FALSE, v |-> ""]
NoOp == [op |-> "none"]

---------------------------------------------------------------------------
\* Replies
WF(r) == r.k = "wf"
Digit1(r) == IF r.code = "" THEN "" ELSE Ch(r.code, 1)
Pos(r) == WF(r) /\ Digit1(r) \in {"2", "3"}
Refused(r) == WF(r) /\ Digit1(r) \in {"4", "5"}
Challenge(r) == WF(r) /\ r.code = "334"
\* What arrives instead of a reply: something else, the end of the stream, nothing.
Broken(r) == ~WF(r)

\* Capabilities, RFC 5321 section 4.1.1.1: keywords (any case) of the lines after the first.
Keywords == {"PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS"}
Mechanisms == {"PLAIN", "LOGIN", "XOAUTH2"}
LineCaps(l) ==
  LET w == Words(l)
      u == IF w = <<>> THEN "" ELSE Upper(w[1])
  IN IF u \in Keywords THEN {u}
     ELSE IF u = "AUTH" THEN {"AUTH " \o w[i] : i \in {j \in 2..Len(w) : w[j] \in Mechanisms}}
     ELSE {}
CapsOf(lines) == UNION {LineCaps(lines[i]) : i \in 2..Len(lines)}
Names(lines) == lines /= <<>> /\ Words(lines[1]) /= <<>>

\* Lines
Verb(s) == LET w == Words(Bare(s)) IN IF w = <<>> THEN "" ELSE w[1]
\* The path of a MAIL or RCPT line: the text between the first "<" and the next ">".
PathOf(s) == LET a == IndexFrom(s, "<", 1)
                 b == IndexFrom(s, ">", a)
             IN IF b > Len(s) THEN "?" ELSE SubSeq(s, a + 1, b - 1)
ParamsOf(s) == LET b == IndexFrom(s, ">", 1) IN Words(Bare(From(s, b + 1)))
MailParams(caps, cfg) == (IF "8BITMIME" \in caps THEN {"BODY=8BITMIME"} ELSE {})
                         \cup (IF "SMTPUTF8" \in caps /\ cfg.utf8 THEN {"SMTPUTF8"} ELSE {})
FirstMatch(mechs, caps) ==
  LET ok == {i \in 1..Len(mechs) : ("AUTH " \o mechs[i]) \in caps}
  IN IF ok = {} THEN "" ELSE mechs[CHOOSE i \in ok : \A j \in ok : i <= j]

\* SASL (RFC 4616, draft-murchison-sasl-login, XOAUTH2): user and password are octets here.
XoUser == <<117, 115, 101, 114, 61>>
XoAuth == <<1, 97, 117, 116, 104, 61, 66, 101, 97, 114, 101, 114, 32>>
InitialLine(mech, u, p) ==
  IF mech = "PLAIN" THEN "AUTH PLAIN " \o B64(<<0>> \o u \o <<0>> \o p) \o CRLF
  ELSE IF mech = "XOAUTH2" THEN "AUTH XOAUTH2 " \o B64(XoUser \o u \o XoAuth \o p \o <<1, 1>>) \o CRLF
  ELSE "AUTH LOGIN\r\n"
MaxResponses == 10
\* The prompts of LOGIN in base64: "User Name", "Username:", "Username"; "Password", "Password:".
UserPrompts == {"VXNlciBOYW1l", "VXNlcm5hbWU6", "VXNlcm5hbWU="}
PassPrompts == {"UGFzc3dvcmQ=", "UGFzc3dvcmQ6"}
\* What a challenge asks for.
Asked(r) == LET w == IF r.lines = <<>> THEN <<>> ELSE Words(r.lines[1])
            IN IF w = <<>> THEN "other" ELSE IF w[1] \in UserPrompts THEN "user"
               ELSE IF w[1] \in PassPrompts THEN "pass" ELSE "other"
\* What is wrong with a challenge that is not answered ("chal" is what the models say): it is not there, not
\* base64, not text, or asks for something else.  Where readers may differ nothing is claimed.
Printable == {Ch("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~", n) : n \in 1..95}
AnyChalErr == {"chal", "challenge", "utf8", "resp", "client"}
ChalErr(r) ==
  LET line == IF r.lines = <<>> THEN "" ELSE r.lines[1]
      ws == Words(line)
      w == ws[1]
      b == B64Decoded(w)
  IN IF Len(line) > 2000 \/ \E i \in 1..Len(line) : Ch(line, i) \notin Printable THEN AnyChalErr
     ELSE IF ws = <<>> THEN {"chal", "resp"}
     ELSE IF \E i \in 1..Len(w) : Ch(w, i) \notin B64Set /\ Ch(w, i) /= "=" THEN {"chal", "challenge"}
     ELSE IF ~IsB64(w) THEN AnyChalErr
     ELSE IF \A i \in DOMAIN b : b[i] < 128 THEN {"chal", "client"}
     ELSE IF \E i \in DOMAIN b : b[i] \in {192, 193} \cup 245..255 THEN {"chal", "utf8"}
     ELSE {"chal", "utf8", "client"}
Answerable(mech, r) == mech = "LOGIN" /\ Asked(r) /= "other"
ResponseLine(mech, r, u, p) ==
  IF mech = "LOGIN" /\ Asked(r) = "user" THEN B64(u) \o CRLF
  ELSE IF mech = "LOGIN" /\ Asked(r) = "pass" THEN B64(p) \o CRLF
  ELSE "*\r\n"

---------------------------------------------------------------------------
\* State
ObsInit ==
  [cfg |-> [greet |-> TRUE, pipe |-> TRUE, utf8 |-> FALSE],
   caps |-> {},          \* extensions advertised in the current session
   smode |-> "cmd",      \* what the server waits for: "cmd", "sasl", "data"
   txn |-> FALSE, from |-> "", to |-> <<>>,     \* its mail transaction
   nrep |-> 0, ngot |-> 0,                      \* replies produced, consumed
   mark |-> 0,           \* replies produced before this operation
   op |-> NoOp, mech |-> "", exp |-> "",
   un |-> <<>>,          \* units of this operation, with their replies
   grp |-> 0,            \* octets transmitted since the client last waited for a reply
   fault |-> "", faultat |-> 0, ferr |-> "", fmsg |-> "",
   dead |-> "",          \* why the connection must not be used any more
   idle |-> FALSE,       \* a login found no acceptable mechanism in this session
   first |-> TRUE, greeting |-> NoUnit]

InOp(o) == o.op.op /= "none"
Pipelined(o) == "PIPELINING" \in o.caps /\ o.cfg.pipe
IsSend(o) == o.op.op = "send"
IsAuth(o) == o.op.op \in {"auth", "login"}
\* RSET and "*" only clean up after a failure; replies to them decide nothing.
Abort(o, k, s) == (IsSend(o) /\ k = "line" /\ s = "RSET\r\n") \/ (k = "sasl" /\ s = "*\r\n")
MkUnit(o, ev) == [k |-> ev.k, s |-> ev.s, n |-> ev.n, r |-> ev.r, ab |-> Abort(o, ev.k, ev.s),
                  v |-> IF ev.k = "line" THEN Verb(ev.s) ELSE ev.k]

Received(o, u) == u.n <= o.ngot
Mains(o) == SelectSeq(o.un, LAMBDA u : ~u.ab)
MainsGot(o) == SelectSeq(o.un, LAMBDA u : ~u.ab /\ u.n <= o.ngot)
AnyBroken(o) == \E i \in DOMAIN o.un : Broken(o.un[i].r)
\* The first reply of the operation that is not positive (NoUnit if there is none).
FirstBad(m) == LET bad == {i \in DOMAIN m : ~Pos(m[i].r)}
               IN IF bad = {} THEN NoUnit ELSE m[CHOOSE i \in bad : \A j \in bad : i <= j]
\* The server accepted sender, every recipient, DATA and the message, and the client knows it.
Accepted(o) ==
  LET m == Mains(o) IN
  /\ IsSend(o)
  /\ Len(m) = Len(o.op.to) + 3
  /\ m[1].v = "MAIL" /\ m[Len(m) - 1].v = "DATA" /\ m[Len(m)].k = "content"
  /\ \A i \in 2..(Len(m) - 2) : m[i].v = "RCPT"
  /\ \A i \in DOMAIN m : Pos(m[i].r) /\ Received(o, m[i])
Matches(res, r) == res.code = r.code /\ res.lines = r.lines
Sev(r) == IF Digit1(r) = "4" THEN "transient" ELSE "permanent"

Cause(o, ev) ==
  IF o.dead /= "" THEN o.dead
  ELSE IF ev.e = "cancel" THEN "cancel"
  ELSE IF ev.e \in {"panic", "hang"} THEN ev.e
  ELSE IF o.fault = "src" THEN "src"
  ELSE IF o.fault /= "" THEN "fault"
  ELSE IF AnyBroken(o) THEN "mal"
  ELSE IF IsSend(o) /\ o.smode = "data" THEN "data"
  ELSE ""

Step(o, ev) ==
  CASE ev.e = "call" ->
         LET con == ev.op = "connect"
             g == con /\ o.first /\ o.greeting.k /= "none"
         IN [o EXCEPT !.op = ev, !.mark = IF g THEN 0 ELSE o.nrep,
                      !.un = IF g THEN <<o.greeting>> ELSE <<>>,
                      !.grp = 0, !.fault = "", !.faultat = 0, !.ferr = "", !.fmsg = "",
                      !.first = o.first /\ ~con,
                      !.cfg = IF con THEN [greet |-> ev.greet, pipe |-> ev.pipe, utf8 |-> ev.utf8] ELSE o.cfg,
                      !.caps = IF con THEN {} ELSE o.caps,
                      !.idle = o.idle /\ ~con,
                      !.mech = IF ev.op = "auth" THEN ev.mech
                               ELSE IF ev.op = "login" THEN FirstMatch(ev.mechs, o.caps) ELSE "",
                      !.exp = IF ev.op = "send" /\ "msg" \in DOMAIN ev THEN Wire(ev.msg) ELSE ""]
    [] ev.e = "rx" ->
         LET u == MkUnit(o, ev)
             p == Pos(ev.r)
             base == [o EXCEPT !.nrep = ev.n]
         IN IF ev.k = "greet"
            THEN [base EXCEPT !.greeting = u]
            ELSE [base EXCEPT
                    !.un = Append(o.un, u),
                    !.grp = IF ev.k = "line" THEN @ + Len(ev.s) ELSE 0,
                    !.smode = CASE u.v = "DATA" /\ p -> "data"
                                [] (u.v = "AUTH" \/ ev.k = "sasl") /\ Challenge(ev.r) -> "sasl"
                                [] OTHER -> "cmd",
                    !.txn = CASE u.v = "MAIL" -> o.txn \/ p
                              [] u.v \in {"EHLO", "RSET", "content"} -> FALSE
                              [] OTHER -> o.txn,
                    !.from = CASE u.v = "MAIL" /\ p -> PathOf(ev.s)
                               [] u.v \in {"EHLO", "RSET", "content"} -> ""
                               [] OTHER -> o.from,
                    !.to = CASE u.v = "RCPT" /\ p -> Append(o.to, PathOf(ev.s))
                             [] u.v \in {"EHLO", "RSET", "content"} -> <<>>
                             [] OTHER -> o.to,
                    !.caps = IF u.v = "EHLO" /\ p THEN CapsOf(ev.r.lines) ELSE o.caps]
    [] ev.e = "got" -> [o EXCEPT !.ngot = ev.n, !.grp = IF ev.p = 0 THEN 0 ELSE @]
    [] ev.e = "fault" -> [o EXCEPT !.fault = ev.k, !.faultat = o.ngot,
                                   !.ferr = IF "err" \in DOMAIN ev THEN ev.err ELSE "",
                                   !.fmsg = IF "msg" \in DOMAIN ev THEN ev.msg ELSE ""]
    [] ev.e \in {"ret", "cancel", "panic", "hang"} ->
         [o EXCEPT !.op = NoOp, !.dead = Cause(o, ev), !.idle = o.idle \/ (o.op.op = "login" /\ o.mech = "")]
    [] OTHER -> o

---------------------------------------------------------------------------
\* Properties.  If(c, t): t is the reason reported if c holds.
If(c, t) == IF c THEN {t} ELSE {}

IsErr(ev) == ev.e = "ret" /\ ev.res.k /= "ok"
IsOk(ev) == ev.e = "ret" /\ ev.res.k = "ok"
Sound(o) == o.fault = "" /\ ~AnyBroken(o) /\ o.dead = ""
EndEv(ev) == ev.e \in {"ret", "cancel", "panic", "hang"}
Reports(ev) == ev.e = "ret" /\ ev.res.k \in {"transient", "permanent"}
NothingToDo(o) == o.op.op = "login" /\ o.mech = ""
\* The connection became useless in an earlier operation, for one of these reasons.
DeadFor(o, reasons) == o.dead \in reasons
UsesDead(o, ev, reasons) ==
  IF ~DeadFor(o, reasons) THEN {}
  ELSE If(EndEv(ev) /\ "sent" \in DOMAIN ev /\ ev.sent > 0, "octets transmitted on a connection that is out of step")
       \cup If(IsOk(ev) /\ ~NothingToDo(o), "success reported on a connection that is out of step")
       \cup If(Reports(ev), "a refusal reported on a connection that is out of step")
       \cup If(ev.e \in {"panic", "hang"}, "panic or hang on a connection that is out of step")

V_C01(o, ev) ==
  IF ~IsSend(o) \/ ev.e \notin {"ret", "panic", "hang"} THEN {}
  ELSE LET a == Accepted(o) IN
       If(IsOk(ev) /\ ~a, "Ok although the server did not accept this email")
       \cup If(~IsOk(ev) /\ a, "an accepted email reported as failed")
       \cup If(IsOk(ev) /\ a /\ ~Matches(ev.res, Last(Mains(o)).r), "not the server's answer to the message")

V_C02(o, ev) ==
  IF ev.e \notin {"ret", "panic", "hang"} THEN {}
  ELSE LET f == FirstBad(MainsGot(o))
           must == Refused(f.r) /\ f.k /= "none" /\ (o.fault = "" \/ f.n <= o.faultat) /\ (ev.e = "hang" => Sound(o))
       IN If(Reports(ev) /\ ~Refused(f.r), "a refusal reported that no command of this operation got")
          \cup If(Reports(ev) /\ Refused(f.r) /\ ~(Matches(ev.res, f.r) /\ ev.res.k = Sev(f.r)),
                  "not the first refusal of this operation")
          \cup If(must /\ ~Reports(ev), "a refusal not reported")

V_C03(o, ev) ==
  (IF ev.e = "got" /\ InOp(o)
   THEN If(ev.n <= o.mark, "a reply that belongs to an earlier operation read in this one")
   ELSE {})
  \cup (IF ev.e = "ret" /\ Sound(o)
        THEN If(o.ngot /= o.nrep, "a reply of this operation left unread")
             \cup If(Reports(ev) /\ ~\E i \in DOMAIN o.un : Matches(ev.res, o.un[i].r), "a refusal from elsewhere")
             \cup If(IsOk(ev) /\ IsSend(o) /\ o.un = <<>>, "success without any reply")
        ELSE {})
  \cup If(ev.e = "hang" /\ Sound(o) /\ o.un /= <<>> /\ o.ngot = o.nrep /\ "part" \in DOMAIN ev /\ ev.part = "",
          "waits for a reply that belongs to no command of this operation")

\* All commands of the envelope answered positively, and the client knows.
GoAhead(o) ==
  /\ IsSend(o) /\ o.un /= <<>>
  /\ Last(o.un).v = "DATA"
  /\ \A i \in DOMAIN o.un : Pos(o.un[i].r) /\ Received(o, o.un[i])
V_C04(o, ev) ==
  (IF ev.e = "rx" /\ ev.k = "content"
   THEN If(~IsSend(o), "message content outside of sending")
        \cup If(IsSend(o) /\ ~GoAhead(o), "message content without all go-aheads received")
        \cup If("s" \in DOMAIN ev /\ o.exp /= "" /\ ev.s /= o.exp, "content is not this message")
   ELSE {})
  \cup If(ev.e = "rx" /\ ev.k /= "content" /\ o.smode = "data" /\ ev.k /= "greet", "a command where the server waits for content")
  \cup If(ev.e = "rx" /\ ev.k = "line" /\ IsSend(o) /\ Verb(ev.s) \notin {"MAIL", "RCPT", "DATA", "RSET"},
          "something that is no command while the server waits for one")
  \cup (IF ev.e = "got" /\ IsSend(o) /\ ev.p > 0 /\ o.un /= <<>> /\ Last(o.un).v = "DATA"
        THEN {"content started before the go-ahead was received"} ELSE {})
  \cup (IF EndEv(ev) /\ "part" \in DOMAIN ev /\ o.smode = "data" /\ ev.part /= "" /\ ev.sent > 0
        THEN If(o.dead /= "", "octets transmitted while the server waits for another message")
             \cup If(o.dead = "" /\ (~GoAhead(o) \/ (o.exp /= "" /\ ~PrefixOf(ev.part, o.exp))),
                     "octets other than this message while the server waits for it")
        ELSE {})
  \cup (IF EndEv(ev) /\ "sent" \in DOMAIN ev /\ o.smode = "data" /\ o.un = <<>> /\ ev.sent > 0
        THEN {"an operation transmitted octets while the server waits for a message"} ELSE {})

V_C05(o, ev) ==
  IF ev.e /= "rx" \/ ev.k /= "content" THEN {}
  ELSE If(~IsSend(o), "a message outside of sending")
       \cup (IF IsSend(o)
             THEN If(o.from /= o.op.from, "wrong sender")
                  \cup If(o.to /= o.op.to, "wrong recipients")
                  \cup If(\E i \in DOMAIN o.un : o.un[i].v \in {"MAIL", "RCPT"} /\ ~Pos(o.un[i].r), "submitted although a part was refused")
             ELSE {})

V_C06(o, ev) ==
  IF ev.e = "rx" /\ ev.k = "content" /\ "s" \in DOMAIN ev /\ o.exp /= ""
  THEN If(ev.s /= o.exp, "the server does not recover the message")
  ELSE {}

V_C07(o, ev) ==
  IF ev.e /= "rx" \/ ~IsSend(o) \/ ev.k = "greet" THEN {}
  ELSE LET s == ev.s
           k == Cardinality({i \in DOMAIN o.un : o.un[i].v = "RCPT"}) + 1
       IN If(ev.k = "line" /\ Verb(s) = "MAIL" /\ ~StartsWith(s, "MAIL FROM:<" \o o.op.from \o ">"), "sender not verbatim")
          \cup If(ev.k = "line" /\ Verb(s) = "RCPT" /\ (k > Len(o.op.to) \/ s /= "RCPT TO:<" \o o.op.to[MinOf(k, Len(o.op.to))] \o ">\r\n"),
                  "recipient not verbatim")
          \cup If(ev.k = "line" /\ Verb(s) \notin {"MAIL", "RCPT", "DATA", "RSET"}, "a line that is none of the commands")

V_C09(o, ev) ==
  (IF ev.e = "rx" /\ ev.k = "line" /\ Verb(ev.s) = "MAIL"
   THEN LET p == ParamsOf(ev.s)
            set == {p[i] : i \in DOMAIN p}
        IN If(set /= MailParams(o.caps, o.cfg) \/ Cardinality(set) /= Len(p), "wrong parameters")
   ELSE {})
  \cup If(ev.e = "rx" /\ ev.k = "line" /\ Verb(ev.s) = "RCPT" /\ ParamsOf(ev.s) /= <<>>, "parameters of a recipient")
  \cup If(ev.e = "rx" /\ ev.k = "line" /\ Verb(ev.s) = "STARTTLS" /\ ~(o.op.op = "starttls" /\ "STARTTLS" \in o.caps),
          "STARTTLS not requested or not advertised")
  \cup (IF ev.e = "ret" /\ o.op.op = "starttls"
        THEN If("STARTTLS" \notin o.caps /\ (ev.res.k = "ok" \/ ev.sent > 0), "STARTTLS although not advertised")
             \cup If("STARTTLS" \in o.caps /\ Sound(o) /\ o.un = <<>>, "STARTTLS advertised and requested but not sent")
        ELSE {})

\* Reply numbers the client has not consumed yet.
Owed(o) == o.nrep > o.ngot
OwedOnlyEnvelope(o) == \A i \in DOMAIN o.un : o.un[i].n > o.ngot => o.un[i].v \in {"MAIL", "RCPT"}
\* Octets of the strings q[a..b].
RECURSIVE LenOf(_, _, _)
LenOf(q, a, b) == IF a > b THEN 0 ELSE IF a = b THEN Len(q[a])
                  ELSE LET m == (a + b) \div 2 IN LenOf(q, a, m) + LenOf(q, m + 1, b)
TotalLen(q, i) == LenOf(q, i, Len(q))
\* Octets of the whole envelope: MAIL as sent, RCPT TO:<..>CRLF, DATA CRLF.
EnvelopeLen(o) == (IF o.un = <<>> THEN 0 ELSE Len(o.un[1].s)) + TotalLen(o.op.to, 1) + 12 * Len(o.op.to) + 6
V_C10(o, ev) ==
  (IF ev.e = "rx" /\ ev.k /= "greet" /\ InOp(o)
   THEN LET verb == IF ev.k = "line" THEN Verb(ev.s) ELSE ev.k
            group == Pipelined(o) /\ IsSend(o) /\ verb \in {"RCPT", "DATA"}
        IN If(Owed(o) /\ ~group, "sent before the reply to the previous command was received")
           \cup If(Owed(o) /\ group /\ ~OwedOnlyEnvelope(o), "pipelined behind a command that must be waited for")
           \cup If(group /\ o.grp > 0 /\ o.grp + Len(ev.s) > GroupLimit, "a group of more than 4096 octets")
   ELSE {})
  \cup (IF ev.e = "got" /\ InOp(o) /\ ev.p > 0 /\ ev.n > o.mark
        THEN If(~(Pipelined(o) /\ IsSend(o)) \/ (o.un /= <<>> /\ Last(o.un).v \in {"DATA", "content", "RSET"}),
                "transmission started before the reply to the previous command was received")
        ELSE {})
  \cup (IF ev.e = "got" /\ IsSend(o) /\ ev.p = 0 /\ ev.n > o.mark /\ Pipelined(o) /\ o.un /= <<>>
        THEN If(Last(o.un).v \in {"MAIL", "RCPT"} /\ EnvelopeLen(o) <= GroupLimit, "waited within a group")
        ELSE {})

V_C11(o, ev) ==
  IF o.op.op /= "login"
  THEN IF ~o.idle THEN {}          \* the session is as it was before a login that found nothing
       ELSE V_C09(o, ev) \cup V_C10(o, ev)
            \cup If(ev.e = "ret" /\ o.op.op \in {"auth", "send", "quit"} /\ o.dead = "" /\ o.fault = "" /\ o.un = <<>>, "nothing works after a login that found no mechanism")
  ELSE (IF ev.e = "rx" /\ ev.k = "line"
        THEN If(o.mech = "", "something sent although no mechanism is acceptable")
             \cup If(o.mech /= "" /\ ~(o.un = <<>> /\ Verb(ev.s) = "AUTH" /\ Len(Words(Bare(ev.s))) >= 2 /\ Upper(Words(Bare(ev.s))[2]) = o.mech),
                     "not exactly the first acceptable mechanism")
        ELSE {})
       \cup (IF ev.e = "ret"
             THEN If(o.mech = "" /\ ev.sent > 0, "octets sent although no mechanism is acceptable")
                  \cup If(o.mech /= "" /\ o.dead = "" /\ o.fault = "" /\ o.un = <<>>, "an acceptable mechanism not used")
             ELSE {})

Responses(o) == Cardinality({i \in DOMAIN o.un : o.un[i].k = "sasl" /\ ~o.un[i].ab})
V_C12(o, ev) ==
  IF ~IsAuth(o) THEN {}
  ELSE (IF ev.e = "rx" /\ ev.k = "line"
        THEN If(o.un /= <<>>, "a second command in an authentication")
             \cup If(o.un = <<>> /\ o.mech /= "" /\ ev.s /= InitialLine(o.mech, o.op.userb, o.op.passb), "wrong AUTH command")
        ELSE {})
       \cup (IF ev.e = "rx" /\ ev.k = "sasl" /\ o.un /= <<>>
             THEN LET want == IF Responses(o) >= MaxResponses THEN "*\r\n"
                              ELSE ResponseLine(o.mech, Last(o.un).r, o.op.userb, o.op.passb)
                  IN If(ev.s /= want, "wrong response to a challenge")
             ELSE {})
       \cup If(ev.e = "rx" /\ ev.k = "content", "content in an authentication")
       \cup (IF ev.e = "ret" /\ Sound(o)
             THEN LET m == Mains(o)
                      last == IF m = <<>> THEN NoUnit ELSE Last(m)
                      good == last.k /= "none" /\ Pos(last.r) /\ ~Challenge(last.r) /\ o.ngot = o.nrep
                  IN If(o.smode = "sasl" /\ ~(o.un /= <<>> /\ Last(o.un).ab), "the server still waits for a response")
                     \cup If(~NothingToDo(o) /\ (ev.res.k = "ok") /= good, "result is not that of the exchange")
                     \cup If(o.op.op = "auth" /\ ev.res.k = "ok" /\ ~Matches(ev.res, last.r), "not the last reply of the exchange")
             ELSE {})
       \cup If(ev.e = "panic", "panic in an authentication")
       \cup If(ev.e = "hang" /\ Sound(o), "the exchange does not end")

V_C13(o, ev) ==
  IF ev.e /= "ret" THEN If(ev.e = "panic", "panic on a reply")
  ELSE If(Sound(o) /\ o.ngot /= o.nrep, "a reply not consumed completely")
       \cup If(ev.res.code /= "" /\ ~\E i \in DOMAIN o.un : WF(o.un[i].r) /\ Matches(ev.res, o.un[i].r), "a reply not read as it was")
       \cup If(AnyBroken(o) /\ IsOk(ev), "something that is no reply taken for one")
       \cup (IF AnyBroken(o) /\ o.fault = ""
             THEN LET f == FirstBad(Mains(o)) IN If(Broken(f.r) /\ Reports(ev), "something that is no reply taken for a refusal")
             ELSE {})
       \cup (IF Sound(o) /\ InOp(o) /\ o.op.op \in {"auth", "send"} /\ IsErr(ev)
             THEN If(\A i \in DOMAIN o.un : Pos(o.un[i].r) /\ ~Challenge(o.un[i].r), "well-formed positive replies not accepted")
             ELSE {})
       \cup (IF Sound(o) /\ o.op.op \in {"connect", "login"} /\ o.un /= <<>> /\ IsErr(ev)
             THEN If((\A i \in DOMAIN o.un : Pos(o.un[i].r) /\ ~Challenge(o.un[i].r)) /\ (o.op.op = "connect" /\ Last(o.un).v = "EHLO" => Names(Last(o.un).r.lines)),
                     "well-formed positive replies not accepted")
             ELSE {})
       \cup (IF Sound(o) /\ o.op.op \in {"quit", "starttls"} /\ o.un /= <<>> /\ IsErr(ev)
             THEN If(Pos(o.un[1].r), "a well-formed positive reply not accepted")
             ELSE {})

V_C14(o, ev) ==
  If(ev.e = "hang" /\ o.dead = "" /\ o.fault = "" /\ ~AnyBroken(o), "the operation stalls")
  \cup If(ev.e = "hang" /\ "why" \in DOMAIN ev /\ ev.why /= "stall", "the operation spins")

V_C15(o, ev) ==
  LET stream == o.fault /= "" /\ o.fault /= "src"
      hit == InOp(o) /\ o.dead = "" /\ (stream \/ AnyBroken(o))
  IN If(ev.e = "panic", "panic")
     \cup If(hit /\ IsOk(ev), "success although the stream broke")
     \cup If(InOp(o) /\ o.dead = "" /\ ev.e = "rx" /\ ev.k /= "greet"
             /\ (stream \/ \E i \in DOMAIN o.un : o.un[i].r.k = "mal" /\ Received(o, o.un[i])),
             "the operation goes on although the stream broke")
     \cup If(hit /\ ev.e = "hang" /\ ~\E i \in DOMAIN o.un : o.un[i].r.k = "silent", "hang although the stream broke")
     \cup UsesDead(o, ev, {"fault", "mal"})

V_C16(o, ev) == UsesDead(o, ev, {"cancel"})
                \cup If(ev.e = "got" /\ o.dead = "cancel", "a reply read on an abandoned connection")

V_C17(o, ev) ==
  IF o.op.op /= "connect" THEN {}
  ELSE LET sent == SelectSeq(o.un, LAMBDA u : u.k /= "greet")
           greets == SelectSeq(o.un, LAMBDA u : u.k = "greet")
       IN (IF ev.e = "rx"
           THEN If(sent /= <<>>, "more than one command while connecting")
                \cup If(ev.s /= "EHLO " \o o.op.hello \o CRLF, "not the EHLO command with the configured name")
                \cup If(o.cfg.greet /\ ~(greets /= <<>> /\ Received(o, greets[1]) /\ Pos(greets[1].r)),
                        "EHLO without a positive greeting received")
           ELSE {})
          \cup If(ev.e = "got" /\ o.cfg.greet /\ sent = <<>> /\ ev.p > 0, "transmission before the greeting was received")
          \cup (IF ev.e = "ret"
                THEN LET good == /\ o.cfg.greet => greets /= <<>> /\ Pos(greets[1].r) /\ Received(o, greets[1])
                                 /\ Len(sent) = 1 /\ Pos(sent[1].r) /\ Received(o, sent[1])
                                 /\ Names(sent[1].r.lines)
                     IN If(IsOk(ev) /\ ~good, "connected although greeting or EHLO failed")
                        \cup If(~IsOk(ev) /\ good /\ o.fault = "", "not connected although greeting and EHLO were positive")
                        \cup If(~IsOk(ev) /\ sent = <<>> /\ o.fault = "" /\ o.dead = "" /\ (o.cfg.greet => greets /= <<>> /\ Pos(greets[1].r) /\ Received(o, greets[1])),
                                "not connected, without EHLO, although the greeting was positive")
                        \cup If(sent = <<>> /\ ev.sent > 0 /\ o.fault = "", "something else transmitted")
                        \cup If(sent /= <<>> /\ o.fault = "" /\ ev.sent /= Len(sent[1].s), "more than EHLO transmitted")
                ELSE {})
          \cup If(ev.e \in {"panic", "hang"} /\ o.fault = "" /\ ~AnyBroken(o), "connecting does not end")

V_C18(o, ev) ==
  If(ev.e = "rx" /\ ev.k = "line" /\ Verb(ev.s) = "MAIL" /\ o.txn, "a mail transaction opened while another is open")
  \cup (IF ev.e = "ret" /\ IsSend(o) /\ o.dead = "" /\ o.fault = ""
        THEN If(o.un = <<>>, "the email was not attempted")
             \cup If(o.un /= <<>> /\ (\A i \in DOMAIN o.un : Pos(o.un[i].r)) /\ ~IsOk(ev), "an email the server accepts not delivered")
        ELSE {})
  \cup If(ev.e \in {"panic", "hang"} /\ IsSend(o) /\ Sound(o), "sending an email does not end")
  \cup UsesDead(o, ev, {"data"})

\* What the client knows shows in what it does, wherever the client's configuration leaves it no choice.
V_C19(o, ev) ==
  (IF ev.e = "rx" /\ ev.k = "line" /\ Verb(ev.s) = "MAIL"
   THEN LET p == ParamsOf(ev.s)
            has(w) == \E i \in DOMAIN p : p[i] = w
        IN If(has("BODY=8BITMIME") /= ("8BITMIME" \in o.caps), "8BITMIME is not known as advertised")
           \cup If(o.cfg.utf8 /\ has("SMTPUTF8") /= ("SMTPUTF8" \in o.caps), "SMTPUTF8 is not known as advertised")
   ELSE {})
  \cup (IF ev.e = "rx" /\ ev.k = "line" /\ IsSend(o) /\ Verb(ev.s) \in {"RCPT", "DATA"} /\ o.cfg.pipe
        THEN If("PIPELINING" \notin o.caps /\ o.nrep > o.ngot, "PIPELINING taken for advertised")
        ELSE {})
  \cup (IF ev.e = "got" /\ IsSend(o) /\ ev.p = 0 /\ ev.n > o.mark /\ Pipelined(o) /\ o.un /= <<>>
        THEN If(Last(o.un).v = "MAIL" /\ TotalLen(o.op.to, 1) + 12 * Len(o.op.to) + 6 + Len(Last(o.un).s) <= GroupLimit,
                "PIPELINING advertised but not known")
        ELSE {})
  \cup (IF ev.e = "ret" /\ o.op.op = "starttls" /\ o.dead = "" /\ o.fault = ""
        THEN If((o.un = <<>>) = ("STARTTLS" \in o.caps), "STARTTLS is not known as advertised")
        ELSE {})
  \cup (IF ev.e = "ret" /\ o.op.op = "login" /\ o.dead = "" /\ o.fault = ""
        THEN If((o.un = <<>>) = (o.mech /= ""), "mechanisms are not known as advertised")
        ELSE {})
  \cup (IF ev.e = "rx" /\ ev.k = "line" /\ o.op.op = "login"
        THEN LET w == Words(Bare(ev.s)) IN If(Len(w) >= 2 /\ ("AUTH " \o Upper(w[2])) \notin o.caps, "a mechanism that was not advertised")
        ELSE {})

V_C20(o, ev) ==
  If(o.dead = "src" /\ ev.e = "rx" /\ ev.k = "content" /\ ~GoAhead(o), "a failed message completed later")
  \cup IF ~IsSend(o) THEN {} ELSE If(o.fault = "src" /\ IsOk(ev), "success although the source failed")
       \cup If(o.fault = "src" /\ ev.e = "rx" /\ ev.k = "content", "a truncated message completed")
       \cup If(o.fault = "src" /\ ev.e \in {"panic", "hang"}, "panic or hang when the source failed")
       \cup If(Sound(o) /\ ev.e \in {"panic", "hang"}, "panic or hang over a message source")
       \cup V_C06(o, ev)
       \cup (IF ev.e = "ret" /\ Sound(o) /\ (\A i \in DOMAIN o.un : Pos(o.un[i].r)) /\ o.un /= <<>>
             THEN If(~IsOk(ev) \/ Last(o.un).k /= "content", "the message did not get through") ELSE {})

V_C21(o, ev) ==
  IF o.op.op /= "starttls" THEN {}
  ELSE (IF ev.e = "rx" THEN If(ev.k /= "line" \/ ev.s /= "STARTTLS\r\n" \/ o.un /= <<>>, "something else than one STARTTLS") ELSE {})
       \cup (IF ev.e = "ret"
             THEN LET u == IF o.un = <<>> THEN NoUnit ELSE o.un[1]
                      good == u.k /= "none" /\ Pos(u.r) /\ Received(o, u)
                  IN If(IsOk(ev) /\ ~good, "stream handed over without a positive reply")
                     \cup If(~IsOk(ev) /\ good /\ o.fault = "", "stream not handed over after a positive reply")
                     \cup If(IsOk(ev) /\ good /\ "rest" \in DOMAIN ev /\ ev.rest /= u.r.extra, "stream not positioned behind the reply")
                     \cup If(IsOk(ev) /\ ev.sent /= 10, "more than STARTTLS transmitted")
             ELSE {})
       \cup If(ev.e \in {"panic", "hang"} /\ o.fault = "" /\ ~AnyBroken(o), "STARTTLS does not end")

\* Nothing is repeated on the client's own account: it could be delivered twice.
V_C29(o, ev) ==
  IF ev.e /= "rx" \/ ev.k = "greet" THEN {}
  ELSE LET v == IF ev.k = "line" THEN Verb(ev.s) ELSE ev.k
           before(w) == Cardinality({i \in DOMAIN o.un : o.un[i].v = w})
       IN If(v \in {"MAIL", "RCPT", "DATA", "content"} /\ ~IsSend(o), "an email, or a part of it, outside of sending")
          \cup (IF IsSend(o)
                THEN If(v \in {"MAIL", "DATA", "content"} /\ before(v) > 0, "a part of an email submitted again")
                     \cup If(v = "RCPT" /\ before(v) >= Len(o.op.to), "a recipient submitted again")
                     \cup If(v /= "RSET" /\ before("content") > 0, "something behind the message")
                ELSE {})

\* What a failure other than a refusal is due to.
HasMal(o) == \E i \in DOMAIN o.un : LET r == o.un[i].r IN r.k = "mal" \/ (r.k = "eof" /\ "raw" \in DOMAIN r /\ r.raw /= "")
Unanswered(o) ==
  LET g == MainsGot(o)
      c == {i \in DOMAIN g : Challenge(g[i].r)}
  IN /\ IsAuth(o)
     /\ (\E i \in c : ~Answerable(o.mech, g[i].r)) \/ Cardinality(c) > MaxResponses
\* The errors that tell which challenge was not answered, and why.
UnansweredErr(o) ==
  LET g == MainsGot(o)
      all == {i \in DOMAIN g : Challenge(g[i].r)}
      c == {i \in all : ~Answerable(o.mech, g[i].r)}
  IN (IF Cardinality(all) > MaxResponses THEN {"chal", "resp"} ELSE {})
     \cup (IF c = {} THEN {} ELSE ChalErr(g[CHOOSE i \in c : \A j \in c : i <= j].r))
V_C30(o, ev) ==
  IF ~IsErr(ev) THEN {}
  ELSE LET f == FirstBad(MainsGot(o))
           refused == f.k /= "none" /\ Refused(f.r) /\ (o.fault = "" \/ f.n <= o.faultat)
           k == ev.res.k
           iok == IF "iok" \in DOMAIN ev.res THEN ev.res.iok ELSE ""
       IN IF o.dead /= "" THEN If(k /= "client", "the error hides that the connection cannot be used any more")
          ELSE IF refused THEN If(k \notin {"transient", "permanent"}, "the error hides the refusal")
          ELSE IF Unanswered(o) THEN If(k \notin UnansweredErr(o), "the error hides what is wrong with the challenge")
          ELSE IF HasMal(o) THEN If(k \notin {"parsing", "utf8", "io"} \/ (k = "io" /\ o.fault = "" /\ iok /= "InvalidData"),
                                    "the error hides that something else than a reply was read")
          ELSE IF o.fault /= "" THEN If(k /= "io", "the error hides the failure of the stream or the message source")
                                     \cup If(k = "io" /\ o.ferr /= "" /\ iok /= o.ferr, "another error than the one that occurred")
                                     \cup If(k = "io" /\ o.fmsg /= "" /\ ev.res.text /= "io: " \o o.fmsg, "the text of the error is lost")
          ELSE IF AnyBroken(o) THEN If(k /= "io", "the error hides that the stream ended")
          ELSE IF o.op.op = "connect" THEN If(k /= "resp", "the error hides that the server did not name itself")
          ELSE IF o.op.op = "starttls" /\ o.un = <<>> THEN If(k /= "client", "the error hides that STARTTLS is not available")
          ELSE {"an error without a cause"}

SessionProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13",
                 "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C29", "C30"}

Viol(p, o, ev) ==
  CASE p = "C01" -> V_C01(o, ev) [] p = "C02" -> V_C02(o, ev) [] p = "C03" -> V_C03(o, ev)
    [] p = "C04" -> V_C04(o, ev) [] p = "C05" -> V_C05(o, ev) [] p = "C06" -> V_C06(o, ev)
    [] p = "C07" -> V_C07(o, ev) [] p = "C09" -> V_C09(o, ev) [] p = "C10" -> V_C10(o, ev)
    [] p = "C11" -> V_C11(o, ev) [] p = "C12" -> V_C12(o, ev) [] p = "C13" -> V_C13(o, ev)
    [] p = "C14" -> V_C14(o, ev) [] p = "C15" -> V_C15(o, ev) [] p = "C16" -> V_C16(o, ev)
    [] p = "C17" -> V_C17(o, ev) [] p = "C18" -> V_C18(o, ev) [] p = "C20" -> V_C20(o, ev)
    [] p = "C21" -> V_C21(o, ev) [] p = "C19" -> V_C19(o, ev) [] p = "C29" -> V_C29(o, ev) [] p = "C30" -> V_C30(o, ev) [] OTHER -> {}
=============================================================================
