------------------------------ MODULE ReplyGen ------------------------------
(***************************************************************************)
(* A reader of replies that works symbol by symbol, run on every string    *)
(* over an alphabet that distinguishes all cases of the grammar.  It must  *)
(* agree with the grammar (Reply!Read) on every string; every string is    *)
(* printed, to be given to the library as well.                            *)
(***************************************************************************)
EXTENDS Reply, Json, TLC

CONSTANTS Symbols, MaxLen, Record

Symbols1 == {"2", "5", "6", "0", "-", " ", "a", CRLF}
Symbols2 == {"250", "251", "550", "25", "0", "-", " ", "a", CRLF}

RdInit == [st |-> "c1", cur |-> "", code |-> "", lines |-> <<>>, text |-> "", more |-> FALSE]
Feed1(a, ch) ==
  LET code(next, ok) == IF ok THEN [a EXCEPT !.st = next, !.cur = @ \o ch] ELSE [a EXCEPT !.st = "bad"]
      line(more) == IF more THEN [RdInit EXCEPT !.code = a.cur, !.lines = Append(a.lines, a.text)]
                    ELSE [a EXCEPT !.st = "done", !.code = a.cur, !.lines = Append(@, a.text)]
  IN CASE a.st \in {"bad", "done"} -> a
       [] a.st = "c1" -> code("c2", ch \in Digits(2, 5))
       [] a.st = "c2" -> code("c3", ch \in Digits(0, 5))
       [] a.st = "c3" -> code("sep", ch \in Digits(0, 9) /\ (a.code = "" \/ a.code = a.cur \o ch))
       [] a.st = "sep" -> IF ch = CRLF THEN line(FALSE)
                          ELSE IF ch \in {" ", "-"} THEN [a EXCEPT !.st = "text", !.more = (ch = "-")]
                          ELSE [a EXCEPT !.st = "bad"]
       [] OTHER -> IF ch = CRLF THEN line(a.more) ELSE [a EXCEPT !.text = @ \o ch]
RECURSIVE Feed(_, _, _)
Feed(a, s, i) == IF i > Len(s) THEN a ELSE Feed(Feed1(a, Ch(s, i)), s, i + 1)
FeedSym(a, s) == IF s = CRLF THEN Feed1(a, CRLF) ELSE Feed(a, s, 1)

VARIABLES s, n, rd
vars == <<s, n, rd>>
Init == s = "" /\ n = 0 /\ rd = RdInit
Next == /\ n < MaxLen /\ n' = n + 1
        /\ \E x \in Symbols : s' = s \o x /\ rd' = FeedSym(rd, x)
Spec == Init /\ [][Next]_vars

Agree == LET r == Read(s)
         IN /\ r.ok = (rd.st = "done")
            /\ r.ok => r.code = rd.code /\ r.lines = rd.lines
\* What follows a complete reply makes no difference to it, and it never becomes one that is none.
Emit == (Record /\ n > 0) => PrintT("@H@" \o ToJson(s))
=============================================================================
