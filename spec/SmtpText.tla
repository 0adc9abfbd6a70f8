------------------------------ MODULE SmtpText ------------------------------
(***************************************************************************)
(* Text helpers.  Every octet string is a TLA+ string with one character   *)
(* (U+0000..U+00FF) per octet; CR and LF are "\r" and "\n".  All operators *)
(* are total on strings, so that no observation can make TLC fail.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CRLF == "\r\n"

MinOf(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, MinOf(i, Len(s)))
Ch(s, i) == SubSeq(s, i, i)
PrefixOf(p, s) == StartsWith(s, p)

\* Index of the first position at or after i whose character is (is not) in set C, or Len(s)+1.
\* (Quantifiers instead of recursion: TLC is quadratic in the depth of a recursion.)
FirstIn(s, C, i) ==
  IF \E j \in i..Len(s) : Ch(s, j) \in C
  THEN CHOOSE j \in i..Len(s) : Ch(s, j) \in C /\ \A k \in i..(j - 1) : Ch(s, k) \notin C
  ELSE Len(s) + 1
FirstNotIn(s, C, i) ==
  IF \E j \in i..Len(s) : Ch(s, j) \notin C
  THEN CHOOSE j \in i..Len(s) : Ch(s, j) \notin C /\ \A k \in i..(j - 1) : Ch(s, k) \in C
  ELSE Len(s) + 1
IndexFrom(s, c, i) == FirstIn(s, {c}, i)

Contains(s, c) == IndexFrom(s, c, 1) <= Len(s)

Ascii == LET g == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
         IN {SubSeq(g, j, j) : j \in 1..Len(g)} \cup {"\"", "\\", "\t", "\r", "\n"}

UpperOf == [a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", f |-> "F", g |-> "G",
            h |-> "H", i |-> "I", j |-> "J", k |-> "K", l |-> "L", m |-> "M", n |-> "N",
            o |-> "O", p |-> "P", q |-> "Q", r |-> "R", s |-> "S", t |-> "T", u |-> "U",
            v |-> "V", w |-> "W", x |-> "X", y |-> "Y", z |-> "Z"]
UpCh(c) == IF c \in DOMAIN UpperOf THEN UpperOf[c] ELSE c
\* (Halves instead of one character after the other: the depth of the recursion stays small.)
RECURSIVE Upper(_)
Upper(s) == IF Len(s) <= 1 THEN UpCh(s)
            ELSE LET m == Len(s) \div 2 IN Upper(SubSeq(s, 1, m)) \o Upper(SubSeq(s, m + 1, Len(s)))

\* The words of s, separated by spaces (and tabs).
Blanks == {" ", "\t"}
RECURSIVE WordsFrom(_, _)
WordsFrom(s, i) ==
  LET a == FirstNotIn(s, Blanks, i)
      b == FirstIn(s, Blanks, a)
  IN IF a > Len(s) THEN <<>> ELSE <<SubSeq(s, a, b - 1)>> \o WordsFrom(s, b)
Words(s) == WordsFrom(s, 1)

\* A line without its CRLF.
Bare(s) == IF EndsWith(s, CRLF) THEN Upto(s, Len(s) - 2) ELSE s

\* Base64 (RFC 4648, with padding) of a sequence of octets 0..255.
B64Alphabet == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64Char(n) == Ch(B64Alphabet, n + 1)
B64Group(b, i, n) ==
  IF n = 1 THEN B64Char(b[i] \div 4) \o B64Char((b[i] % 4) * 16) \o "=="
  ELSE IF n = 2 THEN B64Char(b[i] \div 4) \o B64Char((b[i] % 4) * 16 + b[i+1] \div 16)
                     \o B64Char((b[i+1] % 16) * 4) \o "="
  ELSE B64Char(b[i] \div 4) \o B64Char((b[i] % 4) * 16 + b[i+1] \div 16)
       \o B64Char((b[i+1] % 16) * 4 + b[i+2] \div 64) \o B64Char(b[i+2] % 64)
\* Groups i..j of three octets each; the last one may be shorter.
RECURSIVE B64Groups(_, _, _)
B64Groups(b, i, j) ==
  IF i > j THEN ""
  ELSE IF i = j THEN B64Group(b, 3 * i - 2, MinOf(3, Len(b) - 3 * i + 3))
  ELSE LET m == (i + j) \div 2 IN B64Groups(b, i, m) \o B64Groups(b, m + 1, j)
B64(b) == B64Groups(b, 1, (Len(b) + 2) \div 3)

\* And back: whether w is base64 of something (with padding, unused bits zero), and of which octets.
B64Set == {Ch(B64Alphabet, n) : n \in 1..64}
B64Val == [c \in B64Set |-> (CHOOSE n \in 1..64 : Ch(B64Alphabet, n) = c) - 1]
B64Pad(w) == IF EndsWith(w, "==") THEN 2 ELSE IF EndsWith(w, "=") THEN 1 ELSE 0
B64Six(w, i) == IF i > Len(w) - B64Pad(w) THEN 0 ELSE B64Val[Ch(w, i)]
B64Decoded(w) ==
  [k \in 1..((Len(w) \div 4) * 3 - B64Pad(w)) |->
     LET g == ((k - 1) \div 3) * 4
     IN CASE (k - 1) % 3 = 0 -> B64Six(w, g + 1) * 4 + B64Six(w, g + 2) \div 16
          [] (k - 1) % 3 = 1 -> (B64Six(w, g + 2) % 16) * 16 + B64Six(w, g + 3) \div 4
          [] OTHER -> (B64Six(w, g + 3) % 4) * 64 + B64Six(w, g + 4)]
IsB64(w) == /\ Len(w) % 4 = 0 /\ \A i \in 1..(Len(w) - B64Pad(w)) : Ch(w, i) \in B64Set
            /\ B64(B64Decoded(w)) = w

\* Dot stuffing, RFC 5321 section 4.5.2 (DotStuff states it octet by octet):
\* a dot at the beginning of the text or behind CRLF is doubled.
AtBol(s, j) == j = 1 \/ (j > 2 /\ SubSeq(s, j - 2, j - 1) = CRLF)
RECURSIVE StuffPart(_, _, _)
StuffPart(s, i, j) ==
  IF \A k \in i..j : Ch(s, k) /= "." THEN SubSeq(s, i, j)
  ELSE IF i = j THEN (IF AtBol(s, i) THEN ".." ELSE ".")
  ELSE LET m == (i + j) \div 2 IN StuffPart(s, i, m) \o StuffPart(s, m + 1, j)
\* What has to be transmitted for a message.
Wire(msg) == (IF msg = "" THEN "" ELSE StuffPart(msg, 1, Len(msg))) \o "\r\n.\r\n"

Last(q) == q[Len(q)]
=============================================================================
