-------------------------------- MODULE Reply --------------------------------
(***************************************************************************)
(* Replies, RFC 5321 section 4.2: the grammar, as a function from octets.  *)
(* Read(s) says whether s begins with a complete reply, and which.         *)
(***************************************************************************)
EXTENDS SmtpText

Digits(a, b) == {Ch("0123456789", n + 1) : n \in a..b}
\* A reply line without its CRLF: code and, unless it ends there, a separator and text.
LineOk(l) == /\ Len(l) >= 3
             /\ Ch(l, 1) \in Digits(2, 5) /\ Ch(l, 2) \in Digits(0, 5) /\ Ch(l, 3) \in Digits(0, 9)
             /\ Len(l) = 3 \/ Ch(l, 4) \in {" ", "-"}
More(l) == Len(l) > 3 /\ Ch(l, 4) = "-"
CodeOf(l) == Upto(l, 3)
TextOf(l) == From(l, 5)

\* Position of the first CRLF at or after i, Len(s)+1 if there is none.
CrlfAt(s, i) == IF \E j \in i..(Len(s) - 1) : SubSeq(s, j, j + 1) = CRLF
                THEN CHOOSE j \in i..(Len(s) - 1) : SubSeq(s, j, j + 1) = CRLF /\ \A n \in i..(j - 1) : SubSeq(s, n, n + 1) /= CRLF
                ELSE Len(s) + 1
NoRead == [ok |-> FALSE, code |-> "", lines |-> <<>>, used |-> 0]
RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(s, i, code, lines) ==
  LET e == CrlfAt(s, i)
      l == SubSeq(s, i, e - 1)
  IN IF e > Len(s) \/ ~LineOk(l) THEN NoRead
     ELSE IF code /= "" /\ CodeOf(l) /= code THEN NoRead
     ELSE IF More(l) THEN ReadFrom(s, e + 2, CodeOf(l), Append(lines, TextOf(l)))
     ELSE [ok |-> TRUE, code |-> CodeOf(l), lines |-> Append(lines, TextOf(l)), used |-> e + 1]
Read(s) == ReadFrom(s, 1, "", <<>>)

\* CR or LF alone: not allowed in SMTP at all; clients may be lenient, so nothing is claimed.
Bareword(s) == \E j \in 1..Len(s) : \/ Ch(s, j) = "\r" /\ (j = Len(s) \/ Ch(s, j + 1) /= "\n")
                                    \/ Ch(s, j) = "\n" /\ (j = 1 \/ Ch(s, j - 1) /= "\r")
=============================================================================
