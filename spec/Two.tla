-------------------------------- MODULE Two --------------------------------
(***************************************************************************)
(* Two clients of SmtpCore in one process, each with its own caller and    *)
(* its own server, in every interleaving: what each of them shows is what  *)
(* it shows alone.  Shared switches on a design in which the capabilities  *)
(* of the latest EHLO are kept in one place for the whole process, which   *)
(* the property must reject.                                               *)
(***************************************************************************)
EXTENDS SmtpCore, TLC

CONSTANT Shared

FullD == FullDesign
Con(p, u) == [op |-> "connect", greet |-> TRUE, pipe |-> p, utf8 |-> u, hello |-> "me"]
Snd(f, to) == [op |-> "send", from |-> f, to |-> to, msg |-> "m"]
Log1 == [op |-> "login", mechs |-> <<"PLAIN", "LOGIN">>, userb |-> <<117>>, passb |-> <<112>>]
Rep(code, ls) == [k |-> "wf", code |-> code, lines |-> ls, extra |-> ""]
OkR == Rep("250", <<"ok">>)
No == Rep("550", <<"no">>)
\* Callers and servers: operations, replies in order.
Scripts == <<
  [ops |-> <<Con(TRUE, TRUE), Snd("a", <<"b", "c">>), Snd("d", <<"e">>)>>,
   rs |-> <<Rep("220", <<"mx">>), Rep("250", <<"mx", "PIPELINING", "8BITMIME", "SMTPUTF8">>), OkR, No, OkR, Rep("503", <<"no">>), OkR, OkR, OkR, Rep("354", <<"go">>), Rep("250", <<"queued 1">>)>>],
  [ops |-> <<Con(TRUE, FALSE), Log1, Snd("x", <<"y">>)>>,
   rs |-> <<Rep("220", <<"mx">>), Rep("250", <<"mx", "AUTH LOGIN">>), Rep("334", <<"VXNlcm5hbWU6">>), Rep("334", <<"UGFzc3dvcmQ6">>), Rep("235", <<"in">>), OkR, OkR, Rep("354", <<"go">>), Rep("250", <<"queued 2">>)>>],
  [ops |-> <<Con(TRUE, TRUE), Log1, Snd("p", <<"q">>), Snd("", <<"r">>)>>,
   rs |-> <<Rep("220", <<"mx">>), Rep("250", <<"mx", "AUTH PLAIN">>), Rep("535", <<"no">>), Rep("451", <<"later">>), OkR, OkR, OkR, Rep("354", <<"go">>), Rep("250", <<"queued 3">>)>>],
  [ops |-> <<Con(TRUE, TRUE), Snd("a", <<"b">>), [op |-> "quit"]>>,
   rs |-> <<Rep("220", <<"mx">>), Rep("250", <<"mx", "SMTPUTF8">>), OkR, [k |-> "mal", code |-> "", lines |-> <<>>, extra |-> ""]>>]
>>

Fresh == [c |-> ClientInit, n |-> 0, m |-> 0, log |-> <<>>]
\* One step of one client; g: the capabilities learned last in this process.
Over(s, x) == \/ x.c.st = "gone"
              \/ x.c.st \in {"fresh", "idle"} /\ x.n = Len(s.ops)
              \/ x.c.st = "r" /\ x.m = Len(s.rs)
Advance(s, x, g) ==
  LET c == IF Shared THEN [x.c EXCEPT !.caps = g] ELSE x.c
  IN CASE c.st \in {"fresh", "idle"} -> [x EXCEPT !.c = StartOp(c, s.ops[x.n + 1]), !.n = @ + 1]
       [] c.st = "w" -> [x EXCEPT !.c = AfterWrite(c), !.log = Append(@, c.unit.s)]
       [] c.st = "r" -> [x EXCEPT !.c = AfterReply(c, s.rs[x.m + 1]), !.m = @ + 1]
       [] OTHER -> [x EXCEPT !.c = Leave(c), !.log = Append(@, Result(c))]
RECURSIVE Alone(_, _)
Alone(s, x) == IF Over(s, x) THEN x.log ELSE Alone(s, LET y == Advance(s, x, x.c.caps) IN y)

VARIABLES a, b, x, y, g
vars == <<a, b, x, y, g>>
Init == a \in DOMAIN Scripts /\ b \in DOMAIN Scripts /\ x = Fresh /\ y = Fresh /\ g = {}
Left == /\ ~Over(Scripts[a], x) /\ x' = Advance(Scripts[a], x, g)
        /\ g' = IF x'.c.caps /= x.c.caps THEN x'.c.caps ELSE g
        /\ UNCHANGED <<a, b, y>>
Right == /\ ~Over(Scripts[b], y) /\ y' = Advance(Scripts[b], y, g)
         /\ g' = IF y'.c.caps /= y.c.caps THEN y'.c.caps ELSE g
         /\ UNCHANGED <<a, b, x>>
Done == Over(Scripts[a], x) /\ Over(Scripts[b], y) /\ UNCHANGED vars
Next == Left \/ Right \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Left) /\ WF_vars(Right)

Prefix(p, q) == Len(p) <= Len(q) /\ \A i \in DOMAIN p : p[i] = q[i]
Independent ==
  LET p == Alone(Scripts[a], Fresh)
      q == Alone(Scripts[b], Fresh)
  IN /\ Prefix(x.log, p) /\ Prefix(y.log, q)
     /\ Over(Scripts[a], x) => x.log = p
     /\ Over(Scripts[b], y) => y.log = q
=============================================================================
