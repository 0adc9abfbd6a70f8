-------------------------------- MODULE Xtext --------------------------------
(***************************************************************************)
(* xtext (RFC 3461 section 4) as an encoder and a decoder working octet by *)
(* octet, composed: the encoder is given any text, the decoder must give   *)
(* the same text back, and what passes between them is confined.           *)
(* The state graph is finite although the texts are not.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

High == 200                         \* stands for everything that is not ASCII
Chars == 0..127 \cup {High}
MustEncode(ch) == ch <= 32 \/ ch = 127 \/ ch = 43 \/ ch = 61
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Encode(ch) == IF MustEncode(ch) THEN <<43, HexDigit(ch \div 16), HexDigit(ch % 16)>> ELSE <<ch>>

HexValue(ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 65..70 THEN ch - 55 ELSE -1
\* Decoder: "t" between characters, "h" after "+", "l" after the first digit.
DecInit == [st |-> "t", acc |-> 0]
Dec(d, ch) ==
  CASE d.st = "t" /\ ch = 43 -> [d |-> [st |-> "h", acc |-> 0], out |-> <<>>]
    [] d.st = "t" -> [d |-> d, out |-> <<ch>>]
    [] HexValue(ch) = -1 -> [d |-> [st |-> "bad", acc |-> 0], out |-> <<>>]
    [] d.st = "h" -> [d |-> [st |-> "l", acc |-> HexValue(ch)], out |-> <<>>]
    [] OTHER -> [d |-> DecInit, out |-> <<16 * d.acc + HexValue(ch)>>]

VARIABLES given,        \* the character being encoded, <<>> between characters
          wire,         \* what was encoded and not yet decoded
          dec, got      \* the decoder, what it made of the character
vars == <<given, wire, dec, got>>
Init == given = <<>> /\ wire = <<>> /\ dec = DecInit /\ got = <<>>
Take == /\ given = <<>>
        /\ \E ch \in Chars : given' = <<ch>> /\ wire' = Encode(ch)
        /\ got' = <<>> /\ UNCHANGED dec
Decode == /\ wire /= <<>>
          /\ LET r == Dec(dec, Head(wire)) IN dec' = r.d /\ got' = got \o r.out
          /\ wire' = Tail(wire) /\ UNCHANGED given
Done == /\ given /= <<>> /\ wire = <<>>
        /\ given' = <<>> /\ got' = <<>> /\ UNCHANGED <<wire, dec>>
Next == Take \/ Decode \/ Done
Spec == Init /\ [][Next]_vars

Invertible == (given /= <<>> /\ wire = <<>>) => got = given /\ dec = DecInit
Confined == \A i \in DOMAIN wire : wire[i] > 32 /\ wire[i] /= 127 /\ wire[i] /= 61
\* Different characters are encoded differently, and no encoding begins another one.
Injective == \A a, b \in Chars : a /= b => ~(Len(Encode(a)) <= Len(Encode(b)) /\ Encode(a) = SubSeq(Encode(b), 1, Len(Encode(a))))
=============================================================================
