------------------------------- MODULE SmtpMC -------------------------------
(***************************************************************************)
(* The client of SmtpCore, an RFC 5321 server that may answer anything,    *)
(* two bounded channels, a stream that may fail and a caller that may drop *)
(* an operation: every interleaving.  The observer of SmtpObs watches;     *)
(* bad collects the violations of the properties in Props.                 *)
(***************************************************************************)
EXTENDS SmtpCore, TLC, Json

CONSTANTS Props,        \* properties to check
          Ops,          \* operations the caller may start (without "connect")
          Connects,     \* ways to connect
          MaxOps,       \* operations per connection
          Answers,      \* unit class -> set of replies the server may give
          Faults,       \* kinds of stream failures that may happen
          Cancels,      \* TRUE: the caller may drop operations
          WinC2S,       \* octets the direction to the server holds
          WinS2C,       \* replies the direction to the client holds
          Eager,        \* TRUE: only one interleaving, to generate histories
          Record        \* TRUE: keep the history, print complete ones

VARIABLES c, chan, rq, sv, o, bad, nops, hist
vars == <<c, chan, rq, sv, o, bad, nops, hist>>

\* The server: what it waits for, replies so far, whether the stream broke.
SvInit == [mode |-> "cmd", nrep |-> 0, pend |-> <<>>]

Note(ev) == /\ o' = Step(o, ev)
            /\ bad' = bad \cup UNION {Viol(p, o, ev) : p \in Props}
Quiet == UNCHANGED <<o, bad>>
Log(x) == hist' = IF Record THEN Append(hist, x) ELSE hist
NoLog == UNCHANGED hist

GreetUnit(r) == [e |-> "rx", k |-> "greet", s |-> "", n |-> 1, r |-> r]
\* The server greets, or (after a STARTTLS handled elsewhere) does not.
Init == /\ c = ClientInit /\ chan = <<>> /\ nops = 0
        /\ \/ \E r \in Answers["greeting"] :
                /\ rq = <<[n |-> 1, r |-> r]>>
                /\ o = Step(ObsInit, GreetUnit(r))
                /\ hist = IF Record THEN <<[e |-> "rx", q |-> "greeting", r |-> r]>> ELSE <<>>
                /\ sv = [SvInit EXCEPT !.nrep = 1]
           \/ /\ \E k \in Connects : ~k.greet
              /\ rq = <<>> /\ o = ObsInit /\ hist = <<>> /\ sv = SvInit
        /\ bad = {}

Call(op) ==
  /\ nops < MaxOps
  /\ IF op.op = "connect" THEN c.st = "fresh" /\ op.greet = (o.first /\ o.greeting.k /= "none")
     ELSE c.st = "idle"
  /\ c' = StartOp(c, op) /\ nops' = nops + 1
  /\ LET ev == [x \in DOMAIN op \cup {"e"} |-> IF x = "e" THEN "call" ELSE op[x]]
     IN Note(ev) /\ Log([e |-> "call", op |-> op])
  /\ UNCHANGED <<chan, rq, sv>>

RECURSIVE Fill(_)
Fill(q) == IF q = <<>> THEN 0 ELSE Len(Head(q).s) + Fill(Tail(q))
\* A unit is written when it fits (or, being larger than the channel, when the channel is empty).
Write ==
  /\ c.st = "w"
  /\ chan = <<>> \/ Fill(chan) + Len(c.unit.s) <= WinC2S
  /\ chan' = Append(chan, c.unit) /\ c' = AfterWrite(c)
  /\ Quiet /\ NoLog /\ UNCHANGED <<rq, sv, nops>>

Class5(u) == IF u.k /= "line" THEN u.k
             ELSE CASE Verb(u.s) = "MAIL" -> "mail" [] Verb(u.s) = "RCPT" -> "rcpt" [] Verb(u.s) = "DATA" -> "data"
                    [] Verb(u.s) = "EHLO" -> "ehlo" [] Verb(u.s) = "AUTH" -> "auth" [] Verb(u.s) = "RSET" -> "rset"
                    [] Verb(u.s) = "QUIT" -> "quit" [] Verb(u.s) = "STARTTLS" -> "starttls" [] OTHER -> "other"
\* In data mode everything is content, in sasl mode a SASL line.
UnitKind(u) == IF sv.mode = "data" THEN "content" ELSE IF sv.mode = "sasl" THEN "sasl"
               ELSE IF u.k = "content" THEN "line" ELSE u.k
\* The server takes a unit when it is not stuck sending, and answers.
Serve ==
  /\ chan /= <<>> /\ sv.pend = <<>> /\ sv.mode /= "dead"
  /\ Eager => c.st /= "w"
  /\ LET u == Head(chan)
         \* a command in data mode does not end the content: it is swallowed
         lost == sv.mode = "data" /\ u.k /= "content"
         k == UnitKind(u)
         q == IF k = "line" THEN Class5([u EXCEPT !.k = "line"])
              ELSE IF k = "sasl" /\ u.s = "*\r\n" THEN "abort" ELSE k
         n == sv.nrep + 1
     IN IF lost
        THEN /\ chan' = Tail(chan) /\ Quiet /\ NoLog /\ UNCHANGED <<rq, sv>>
        ELSE \E r \in Answers[q] :
               /\ chan' = Tail(chan)
               /\ rq' = IF Len(rq) < WinS2C THEN Append(rq, [n |-> n, r |-> r]) ELSE rq
               /\ sv' = [nrep |-> n, pend |-> IF Len(rq) < WinS2C THEN <<>> ELSE <<[n |-> n, r |-> r]>>,
                         mode |-> CASE r.k \in {"eof", "silent"} -> "dead"
                                    [] q = "data" /\ Pos(r) -> "data"
                                    [] q \in {"auth", "sasl"} /\ Challenge(r) -> "sasl"
                                    [] OTHER -> "cmd"]
               /\ Note([e |-> "rx", k |-> k, s |-> u.s, n |-> n, r |-> r])
               /\ Log([e |-> "rx", q |-> q, r |-> r])
  /\ UNCHANGED <<c, nops>>

\* A reply the server was stuck with gets into the channel.
Unstick ==
  /\ sv.pend /= <<>> /\ Len(rq) < WinS2C
  /\ rq' = Append(rq, sv.pend[1]) /\ sv' = [sv EXCEPT !.pend = <<>>]
  /\ Quiet /\ NoLog /\ UNCHANGED <<c, chan, nops>>

ReadReply ==
  /\ c.st = "r" /\ rq /= <<>>
  /\ Eager => chan = <<>> \/ sv.mode = "dead"
  /\ LET x == Head(rq) IN
     CASE x.r.k = "silent" -> FALSE
       [] x.r.k = "eof" -> /\ c' = Break(c, "io") /\ Note([e |-> "fault", k |-> "eof"]) /\ rq' = rq /\ chan' = <<>>
       [] OTHER -> /\ c' = AfterReply(c, x.r) /\ rq' = Tail(rq)
                   /\ chan' = IF Broken(x.r) THEN <<>> ELSE chan
                   /\ Note([e |-> "got", n |-> x.n, p |-> Fill(chan)])
  /\ NoLog /\ UNCHANGED <<sv, nops>>

Running == c.st \in {"w", "r"}
\* The stream fails.  What the server has not read by then it never reads (it may read before).
Fault(k) ==
  /\ Running
  /\ k = "src" => c.st = "w" /\ c.stage = "content"
  /\ c' = Break(c, "io") /\ chan' = <<>>
  /\ Note([e |-> "fault", k |-> k]) /\ Log([e |-> "fault", k |-> k])
  /\ UNCHANGED <<rq, sv, nops>>

EndInfo == [part |-> "", sent |-> c.sent, mode |-> sv.mode]
Cancel ==
  /\ Cancels /\ Running
  /\ c' = Abandon(c) /\ chan' = <<>>
  /\ Note([e |-> "cancel", part |-> "", sent |-> c.sent, mode |-> sv.mode])
  /\ Log([e |-> "cancel"])
  /\ UNCHANGED <<rq, sv, nops>>

Ret ==
  /\ c.st = "ret"
  /\ c' = Leave(c)
  /\ LET res == Result(c)
     IN Note([e |-> "ret", res |-> res, part |-> "", sent |-> c.sent, mode |-> sv.mode])
  /\ Log([e |-> "ret", k |-> Class(c.res.k)])
  /\ UNCHANGED <<chan, rq, sv, nops>>

Over == c.st = "gone" \/ (c.st \in {"idle", "fresh"} /\ nops = MaxOps) \/ (c.st = "fresh" /\ nops > 0 /\ \A k \in Connects : k.greet)
Done == Over /\ UNCHANGED vars

Next == \/ \E op \in Ops \cup Connects : Call(op)
        \/ Write \/ Serve \/ Unstick \/ ReadReply \/ Ret
        \/ \E k \in Faults : Fault(k)
        \/ Cancel
        \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* Properties
NoViolation == bad = {}
Completes == <>[]Over

\* Complete histories, to be replayed against the implementation.
Emit == (Record /\ Over) => PrintT("@H@" \o ToJson(hist))
\* A server that stays silent makes the client wait: only the caller can end that.
Waiting == c.st = "r" /\ rq /= <<>> /\ Head(rq).r.k = "silent"
=============================================================================
