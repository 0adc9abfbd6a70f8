------------------------------ MODULE DotTrace ------------------------------
(***************************************************************************)
(* Recorded executions in which messages are sequences of octets: what the *)
(* server of DotStuff recovers from the transmitted content must be the    *)
(* message and one CRLF, ended exactly once, at the end.                   *)
(***************************************************************************)
EXTENDS DotStuff, TLC, Json, IOUtils

CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i, j,      \* trace, event, octet of a content event
          m,            \* the event that started the running send operation, or 0
          k,            \* octets recovered so far
          q,            \* state of the server
          seen, src,    \* content received, message source failed in this operation
          bad
tvars == <<t, i, j, m, k, q, seen, src, bad>>
Ev == Traces[t].ev[i]
Msg == Traces[t].ev[m].msgb
Due(x) == IF x <= Len(Msg) THEN Msg[x] ELSE IF x = Len(Msg) + 1 THEN CR ELSE IF x = Len(Msg) + 2 THEN LF ELSE 256

Idle == DecInit
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ j = 0 /\ m = 0 /\ k = 0 /\ q = DecInit /\ seen = FALSE /\ src = FALSE
         /\ bad = "" /\ enc = EncInit /\ dec = DecInit /\ lag = <<>> /\ phase = "trace" /\ ok = TRUE
Fail(text) == bad' = text
Fine == bad' = ""

Octet ==
  /\ Ev.e = "rx" /\ Ev.k = "content" /\ m /= 0 /\ j < Len(Ev.b)
  /\ LET s == Dec(q, Ev.b[j + 1])
         n == Len(s.out)
         fits == \A x \in 1..n : Due(k + x) = s.out[x]
     IN /\ q' = s.q /\ k' = k + n /\ j' = j + 1
        /\ IF q = "end" THEN Fail("the message ends before its end")
           ELSE IF ~fits THEN Fail("the server recovers something else")
           ELSE IF s.q = "end" /\ (k + n /= Len(Msg) + 2 \/ j + 1 /= Len(Ev.b)) THEN Fail("the message is cut short")
           ELSE IF src THEN Fail("a message completed although its source failed")
           ELSE Fine
  /\ UNCHANGED <<t, i, m, seen, src>>

Event ==
  /\ ~(Ev.e = "rx" /\ Ev.k = "content" /\ m /= 0 /\ j < Len(Ev.b))
  /\ i' = i + 1 /\ t' = t /\ j' = 0 /\ q' = DecInit /\ k' = 0
  /\ m' = IF Ev.e = "call" THEN (IF Ev.op = "send" THEN i ELSE 0) ELSE m
  /\ seen' = IF Ev.e = "call" THEN FALSE ELSE seen \/ (Ev.e = "rx" /\ Ev.k = "content")
  /\ src' = IF Ev.e = "call" THEN FALSE ELSE src \/ Ev.e = "fault"
  /\ IF Ev.e = "rx" /\ Ev.k = "content" /\ m = 0 THEN Fail("a message outside of sending")
     ELSE IF Ev.e = "rx" /\ Ev.k = "content" /\ q /= "end" THEN Fail("the message has no end")
     ELSE IF Ev.e = "rx" /\ m /= 0 /\ seen THEN Fail("the server sees something behind the message")
     ELSE IF Ev.e = "ret" /\ m /= 0 /\ Ev.part /= "" /\ Ev.sent > 0 /\ ~src THEN Fail("something transmitted behind the message")
     ELSE IF Ev.e = "ret" /\ m /= 0 /\ Ev.res.k = "ok" /\ (~seen \/ src) THEN Fail("sent without a message")
     ELSE IF Ev.e = "ret" /\ m /= 0 /\ Ev.res.k /= "ok" /\ seen THEN Fail("an accepted message reported as failed")
     ELSE IF Ev.e = "ret" /\ m /= 0 /\ Ev.res.k /= "ok" /\ ~src /\ Ev.sent > 0 THEN Fail("the message did not get through")
     ELSE IF Ev.e \in {"panic", "hang"} THEN Fail("panic or hang")
     ELSE Fine

TNext == i <= Len(Traces[t].ev) /\ bad = "" /\ (Octet \/ Event) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<tvars, vars>>
Position == <<t, i, j>>
NoViolation == bad = ""
=============================================================================
