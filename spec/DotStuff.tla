------------------------------ MODULE DotStuff ------------------------------
(***************************************************************************)
(* Transparency of message content, RFC 5321 sections 4.1.1.4 and 4.5.2,   *)
(* octet by octet.                                                         *)
(*                                                                         *)
(* Enc is the client: it doubles a dot at the beginning of a line.         *)
(* Dec is the server: it removes one dot at the beginning of a line, and a *)
(* line of one dot ends the message.                                       *)
(* The module checks Enc against Dec for messages of every length: what    *)
(* the server has recovered lags behind by a bounded number of octets, so  *)
(* the state space of the composition is finite.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CR == 13
LF == 10
DOT == 46

---------------------------------------------------------------------------
\* The server.  State: "bol" at the beginning of a line, "mid" within a line, "cr" behind a CR,
\* "dot" behind a dot at the beginning of a line, "dotcr" behind that and CR, "end".
DecInit == "bol"
Plain(b) == [q |-> IF b = CR THEN "cr" ELSE "mid", out |-> <<b>>]
Dec(q, b) ==
  CASE q = "bol" /\ b = DOT -> [q |-> "dot", out |-> <<>>]
    [] q = "bol" -> Plain(b)
    [] q = "mid" -> Plain(b)
    [] q = "cr" /\ b = LF -> [q |-> "bol", out |-> <<b>>]
    [] q = "cr" -> Plain(b)
    [] q = "dot" /\ b = CR -> [q |-> "dotcr", out |-> <<>>]
    [] q = "dot" -> Plain(b)
    [] q = "dotcr" /\ b = LF -> [q |-> "end", out |-> <<>>]
    [] q = "dotcr" -> [q |-> Plain(b).q, out |-> <<CR, b>>]
    [] OTHER -> [q |-> "end", out |-> <<>>]

\* The client: "bol", "mid", "cr"; a dot at the beginning of a line is doubled.
EncInit == "bol"
Enc(q, b) ==
  [q |-> IF b = CR THEN "cr" ELSE IF q = "cr" /\ b = LF THEN "bol" ELSE "mid",
   out |-> IF q = "bol" /\ b = DOT THEN <<DOT, DOT>> ELSE <<b>>]
Terminator == <<CR, LF, DOT, CR, LF>>

---------------------------------------------------------------------------
\* The composition: enc, dec, and what was sent but not recovered yet.
VARIABLES enc, dec, lag, phase, ok
vars == <<enc, dec, lag, phase, ok>>
Octets == {CR, LF, DOT, 120}

\* The server reads q; what it recovers must be what is due.
RECURSIVE Feed(_, _, _)
Feed(d, q, due) ==
  IF q = <<>> THEN [d |-> d, due |-> due, ok |-> TRUE]
  ELSE LET s == Dec(d, Head(q))
           n == Len(s.out)
       IN IF d = "end" \/ n > Len(due) \/ SubSeq(due, 1, n) /= s.out
          THEN [d |-> s.q, due |-> due, ok |-> FALSE]
          ELSE Feed(s.q, Tail(q), SubSeq(due, n + 1, Len(due)))

Init == enc = EncInit /\ dec = DecInit /\ lag = <<>> /\ phase = "msg" /\ ok = TRUE
More == /\ phase = "msg"
        /\ \E b \in Octets :
             LET e == Enc(enc, b)
                 f == Feed(dec, e.out, Append(lag, b))
             IN enc' = e.q /\ dec' = f.d /\ lag' = f.due /\ ok' = f.ok
        /\ phase' = phase
Finish == /\ phase = "msg" /\ phase' = "done"
          /\ LET f == Feed(dec, Terminator, lag \o <<CR, LF>>)
             IN dec' = f.d /\ lag' = f.due /\ ok' = f.ok
          /\ enc' = enc
Next == More \/ Finish
Spec == Init /\ [][Next]_vars

\* The server recovers the message and one CRLF, and sees the end exactly behind the terminator.
Transparent == /\ ok
               /\ dec = "end" <=> phase = "done"
               /\ phase = "done" => lag = <<>>
Bounded == Len(lag) <= 2
=============================================================================
