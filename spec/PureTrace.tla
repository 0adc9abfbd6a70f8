------------------------------ MODULE PureTrace ------------------------------
(***************************************************************************)
(* Recorded evaluations of the functions of the library that need no       *)
(* connection: addresses, envelopes, xtext, EHLO replies, replies.         *)
(* Each is specified as a predicate over argument and result.              *)
(***************************************************************************)
EXTENDS SmtpObs, Reply, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

---------------------------------------------------------------------------
\* Addresses: code points.  ASCII, graphic, no angle brackets.
Acceptable(cp) == cp > 32 /\ cp < 127 /\ cp /= 60 /\ cp /= 62
AddrOk(op, out) ==
  LET good == \A i \in DOMAIN op.s : Acceptable(op.s[i])
  IN If(out.ok /= good \/ out.ok2 /= good, "an address accepted or refused wrongly")
     \cup If(out.ok /\ good /\ (out.s1 /= op.s \/ out.s2 /= op.s \/ out.s3 /= op.s), "an address not kept unchanged")
\* Which of the code points lo..hi make pre, cp, post acceptable.
AddrsOk(op, out) ==
  LET clean == \A q \in {op.pre, op.post} : \A n \in DOMAIN q : Acceptable(q[n])
      want == {cp \in op.lo..op.hi : clean /\ Acceptable(cp)}
      got == {out.accepted[i] : i \in DOMAIN out.accepted}
  IN If(got /= want, "an address accepted or refused wrongly")
     \cup If(~out.kept, "an address not kept unchanged")
EnvOk(op, out) ==
  If(out.ok /= (op.to /= <<>>), "an envelope without recipients accepted, or one with recipients refused")
  \cup If(out.ok /\ (out.from /= op.from \/ out.null /= op.null \/ out.to /= op.to), "an envelope not kept unchanged")
\* The command lines of an envelope: octets.
LinesOk(op, out) ==
  If(out.mail /= "MAIL FROM:<" \o op.from \o ">\r\n", "sender not verbatim")
  \cup If(Len(out.rcpt) /= Len(op.to) \/ \E i \in DOMAIN op.to : i \in DOMAIN out.rcpt /\ out.rcpt[i] /= "RCPT TO:<" \o op.to[i] \o ">\r\n",
          "recipient not verbatim")

---------------------------------------------------------------------------
\* xtext, RFC 3461 section 4: code points.
Hex == [c \in 48..57 \cup 65..70 |-> IF c < 65 THEN c - 48 ELSE c - 55]
\* White space and controls of ASCII, and "=".
Banned(cp) == cp <= 32 \/ cp = 127 \/ cp = 61
\* (No recursion: "+" is no hexadecimal digit, so every "+" begins an encoded character.)
Unxtext(x) ==
  LET hex(i) == i \in DOMAIN x /\ x[i] \in DOMAIN Hex
      second(i) == (i > 1 /\ x[i - 1] = 43) \/ (i > 2 /\ x[i - 2] = 43)
      ch(i) == IF x[i] = 43 THEN 16 * Hex[x[i + 1]] + Hex[x[i + 2]] ELSE IF second(i) THEN -1 ELSE x[i]
  IN IF \E i \in DOMAIN x : x[i] = 43 /\ ~(hex(i + 1) /\ hex(i + 2)) THEN <<-1>>
     ELSE SelectSeq([i \in DOMAIN x |-> ch(i)], LAMBDA c : c /= -1)
XBad(s, x) == If(Unxtext(x) /= s, "not the value when decoded")
              \cup If(\E i \in DOMAIN x : Banned(x[i]), "white space, a control character or = in the rendering")
MailPre == <<77, 65, 73, 76, 32, 70, 82, 79, 77, 58, 60, 62, 32, 75, 61>>                     \* MAIL FROM:<> K=
RcptPre == <<82, 67, 80, 84, 32, 84, 79, 58, 60, 114, 64, 120, 62, 32, 75, 61>>               \* RCPT TO:<r@x> K=
Enclosed(pre, line) ==
  IF Len(line) >= Len(pre) + 2 /\ SubSeq(line, 1, Len(pre)) = pre /\ SubSeq(line, Len(line) - 1, Len(line)) = <<13, 10>>
  THEN SubSeq(line, Len(pre) + 1, Len(line) - 2) ELSE <<-2>>
XtextOk(op, out) == XBad(op.s, out.x) \cup XBad(op.s, Enclosed(MailPre, out.mail)) \cup XBad(op.s, Enclosed(RcptPre, out.rcpt))
\* One code point of lo..hi behind pre and before post.
XtextsOk(op, out) ==
  If(Len(out.x) /= op.hi - op.lo + 1, "renderings missing")
  \cup UNION {IF out.x[i] = <<>> THEN {} ELSE XBad(op.pre \o <<op.lo + i - 1>> \o op.post, out.x[i]) : i \in DOMAIN out.x}
\* Several parameters: the line falls apart into exactly them.
RECURSIVE SplitCp(_, _, _)
SplitCp(q, c, i) ==       \* the words of q, separated by code point c
  IF \E j \in i..Len(q) : q[j] = c
  THEN LET j == CHOOSE a \in i..Len(q) : q[a] = c /\ \A b \in i..(a - 1) : q[b] /= c
       IN <<SubSeq(q, i, j - 1)>> \o SplitCp(q, c, j + 1)
  ELSE <<SubSeq(q, i, Len(q))>>
ParamBad(p, w) ==
  LET parts == SplitCp(w, 61, 1)
  IN IF p.has THEN If(Len(parts) /= 2 \/ parts[1] /= p.k, "not one parameter with a value")
                   \cup (IF Len(parts) = 2 THEN XBad(p.v, parts[2]) ELSE {})
     ELSE If(w /= p.k, "not this parameter")
ParamsOk(op, out) ==
  LET one(line, pre) ==
        IF ~(Len(line) >= Len(pre) + 2 /\ SubSeq(line, 1, Len(pre)) = pre /\ SubSeq(line, Len(line) - 1, Len(line)) = <<13, 10>>)
        THEN {"not one command line"}
        ELSE LET body == SubSeq(line, Len(pre) + 1, Len(line) - 2)
                 ws == IF body = <<>> THEN <<>> ELSE SplitCp(body, 32, 1)
             IN IF op.ps = <<>> THEN If(body /= <<>>, "a parameter from nowhere")
                ELSE IF Len(ws) /= Len(op.ps) + 1 \/ ws[1] /= <<>> THEN {"not as many parameters"}
                ELSE UNION {ParamBad(op.ps[i], ws[i + 1]) : i \in DOMAIN op.ps}
  IN one(out.mail, SubSeq(MailPre, 1, 12)) \cup one(out.rcpt, SubSeq(RcptPre, 1, 13))

---------------------------------------------------------------------------
CapsOk(op, out) ==
  If(out.ok /= Names(op.lines), "a reply that names no server accepted, or one that names it refused")
  \cup (IF out.ok /\ Names(op.lines)
        THEN If({out.features[i] : i \in DOMAIN out.features} /= CapsOf(op.lines), "not the advertised capabilities")
             \cup If({out.yes[i] : i \in DOMAIN out.yes} /= CapsOf(op.lines), "capabilities are not those that are told")
             \cup If({out.mechs[i] : i \in DOMAIN out.mechs} /= {c \in CapsOf(op.lines) : StartsWith(c, "AUTH ")}, "mechanisms are not those that are told")
             \cup If(out.name /= Words(op.lines[1])[1], "not the name of the server")
        ELSE {})

\* Whole EHLO replies as octets.
ParseOk(op, out) ==
  LET r == Read(op.raw)
      p == r.code /= "" /\ Ch(r.code, 1) \in {"2", "3"}
      first == IF r.lines = <<>> THEN "" ELSE r.lines[1]
      ws == Words(first)
  IN IF Bareword(op.raw) \/ op.any THEN If(out.k = "panic", "panic")
     ELSE If((out.k = "ok") /= r.ok, "a reply refused, or something else taken for one")
          \cup (IF r.ok /\ out.k = "ok"
                THEN If(out.code /= r.code \/ out.lines /= r.lines, "a reply not read as it is")
                     \cup If(out.positive /= p, "positive and negative confused")
                     \cup If(out.same /= (op.code = r.code), "code confused")
                     \cup If(out.line /= first, "not the first line")
                     \cup If(op.words /\ out.word /= (IF ws = <<>> THEN "" ELSE ws[1]), "not the first word")
                ELSE {})

---------------------------------------------------------------------------
\* Command lines as octets (C24).
\* The groups of an IPv6 address in text form, RFC 4291 section 2.2 (any case, with or without "::" and dotted end).
HexOf(c) == LET l == "0123456789abcdef"
                u == "0123456789ABCDEF"
            IN IF \E n \in 1..16 : c \in {Ch(l, n), Ch(u, n)} THEN (CHOOSE n \in 1..16 : c \in {Ch(l, n), Ch(u, n)}) - 1 ELSE -1
RECURSIVE HexValue(_)
HexValue(s) == IF s = "" THEN 0
               ELSE LET d == HexOf(Ch(s, Len(s))) IN IF d < 0 THEN -100000000 ELSE HexValue(Upto(s, Len(s) - 1)) * 16 + d
DecOf(c) == IF HexOf(c) \in 0..9 THEN HexOf(c) ELSE -1
RECURSIVE DecValue(_)
DecValue(s) == IF s = "" THEN 0
               ELSE LET d == DecOf(Ch(s, Len(s))) IN IF d < 0 THEN -10000 ELSE DecValue(Upto(s, Len(s) - 1)) * 10 + d
RECURSIVE SplitStr(_, _)
SplitStr(s, c) == IF Contains(s, c) THEN <<Upto(s, IndexFrom(s, c, 1) - 1)>> \o SplitStr(From(s, IndexFrom(s, c, 1) + 1), c)
                  ELSE <<s>>
V4Groups(s) == LET q == SplitStr(s, ".") IN
               IF Len(q) = 4 /\ \A n \in 1..4 : Len(q[n]) \in 1..3 /\ DecValue(q[n]) \in 0..255
               THEN <<DecValue(q[1]) * 256 + DecValue(q[2]), DecValue(q[3]) * 256 + DecValue(q[4])>> ELSE <<-1>>
Groups(s) ==
  IF s = "" THEN <<>>
  ELSE LET q == SplitStr(s, ":")
           one(n) == IF n = Len(q) /\ Contains(q[n], ".") THEN V4Groups(q[n])
                     ELSE IF Len(q[n]) \in 1..4 /\ HexValue(q[n]) >= 0 THEN <<HexValue(q[n])>> ELSE <<-1>>
           RECURSIVE all(_)
           all(n) == IF n > Len(q) THEN <<>> ELSE one(n) \o all(n + 1)
       IN all(1)
V6Groups(s) ==
  IF \E j \in 1..(Len(s) - 1) : SubSeq(s, j, j + 1) = "::"
  THEN LET j == CHOOSE j \in 1..(Len(s) - 1) : SubSeq(s, j, j + 1) = "::" /\ \A n \in 1..(j - 1) : SubSeq(s, n, n + 1) /= "::"
           a == Groups(Upto(s, j - 1))
           b == Groups(From(s, j + 2))
       IN a \o [n \in 1..Max(0, 8 - Len(a) - Len(b)) |-> 0] \o b
  ELSE Groups(s)
RECURSIVE Spaced(_)
Spaced(q) == IF q = <<>> THEN "" ELSE " " \o Head(q) \o Spaced(Tail(q))
ParamText(p) == CASE p.k = "body7" -> "BODY=7BIT" [] p.k = "body8" -> "BODY=8BITMIME" [] p.k = "utf8" -> "SMTPUTF8"
                  [] p.k = "size" -> "SIZE=" \o p.v
                  [] OTHER -> p.w \o (IF p.has THEN "=" \o p.v ELSE "")
Params(ps) == Spaced([n \in DOMAIN ps |-> ParamText(ps[n])])
Enclosed6 == "EHLO [IPv6:"
CmdOk(op, out) ==
  IF op.c = "EHLO6"
  THEN If(~(StartsWith(out.s, Enclosed6) /\ EndsWith(out.s, "]\r\n")
            /\ V6Groups(SubSeq(out.s, Len(Enclosed6) + 1, Len(out.s) - 3)) = op.groups), "not an EHLO line with this IPv6 address")
  ELSE LET want == CASE op.c = "EHLO" -> "EHLO " \o op.arg
                     [] op.c = "EHLO4" -> "EHLO [" \o op.arg \o "]"
                     [] op.c = "EHLODEF" -> "EHLO [127.0.0.1]"
                     [] op.c \in {"STARTTLS", "DATA", "QUIT", "NOOP", "RSET"} -> op.c
                     [] op.c = "HELP" -> "HELP" \o (IF op.has THEN " " \o op.arg ELSE "")
                     [] op.c \in {"VRFY", "EXPN"} -> op.c \o " " \o op.arg
                     [] op.c = "MAIL" -> "MAIL FROM:<" \o op.from \o ">" \o Params(op.ps)
                     [] op.c = "RCPT" -> "RCPT TO:<" \o op.from \o ">" \o Params(op.ps)
                     [] OTHER -> "?"
       IN If(out.s /= want \o CRLF, "not the line of this command")

\* Building blocks of AUTH (C25).
Prompts == [user |-> {"User Name", "Username:", "Username"}, pass |-> {"Password", "Password:"}]
AuthCmdOk(op, out) ==
  LET initial == op.mech \in {"PLAIN", "XOAUTH2"}
      ok == IF initial THEN ~op.has ELSE op.has /\ op.chal \in Prompts.user \cup Prompts.pass
      resp == IF op.mech = "PLAIN" THEN <<0>> \o op.userb \o <<0>> \o op.passb
              ELSE IF op.mech = "XOAUTH2" THEN XoUser \o op.userb \o XoAuth \o op.passb \o <<1, 1>>
              ELSE IF op.has /\ op.chal \in Prompts.user THEN op.userb ELSE op.passb
      cmdok == ok \/ (op.mech = "LOGIN" /\ ~op.has)
      line == IF initial THEN "AUTH " \o op.mech \o " " \o B64(resp) \o CRLF
              ELSE IF op.has THEN B64(resp) \o CRLF ELSE "AUTH LOGIN\r\n"
  IN If(out.initial /= initial, "initial response of a mechanism confused")
     \cup If(out.name /= op.mech, "name of a mechanism confused")
     \cup If(out.resp.ok /= ok, "a challenge answered or refused wrongly")
     \cup If(ok /\ out.resp.ok /\ B64(out.respb) /= B64(resp), "wrong answer to a challenge")
     \cup If(out.cmd.ok /= cmdok, "an AUTH command made or refused wrongly")
     \cup If(cmdok /\ out.cmd.ok /\ out.cmd.s /= line, "wrong AUTH line")
\* Nothing by default on connections that are not encrypted; LOGIN is the last resort.
DefaultsOk(op, out) ==
  If(out.unenc /= <<>>, "a mechanism by default on an unencrypted connection")
  \cup If(out.enc /= <<"PLAIN", "LOGIN">>, "other mechanisms by default")
  \cup If(~out.same, "credentials not kept")
AuthRespOk(op, out) ==
  LET r == [lines |-> op.lines]
      ok == op.code = "334" /\ op.mech = "LOGIN" /\ Asked(r) /= "other"
      line == B64(IF Asked(r) = "user" THEN op.userb ELSE op.passb) \o CRLF
  IN If(out.ok /= ok, "a reply answered or refused wrongly")
     \cup If(ok /\ out.ok /\ out.s /= line, "wrong answer to a challenge")
     \cup If(~ok /\ ~out.ok /\ op.why /\ out.k \notin (IF op.code /= "334" THEN {"resp"} ELSE ChalErr(r)), "the error does not tell what is wrong with the challenge")

\* What a refusal says (C26).
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN "" ELSE Head(q) \o (IF Len(q) = 1 THEN "" ELSE "; " \o Joined(Tail(q)))
ErrorOk(op, out) ==
  LET d == Ch(op.code, 1)
      pre == IF d = "4" THEN "transient: " ELSE "permanent: "
      ws == IF op.lines = <<>> THEN <<>> ELSE Words(op.lines[1])
  IN If(out.num /= op.code \/ out.parts /= op.code \/ ~out.only, "code confused")
     \cup If(out.positive /= (d \in {"2", "3"}), "positive and negative confused")
     \cup If(out.hasfirst /= (op.lines /= <<>>) \/ (op.lines /= <<>> /\ out.first /= op.lines[1]), "not the first line")
     \cup If(op.words /\ (out.hasword /= (ws /= <<>>) \/ (ws /= <<>> /\ out.word /= ws[1])), "not the first word")
     \cup (IF d \in {"2", "3"} THEN If(out.k \in {"transient", "permanent"}, "a positive reply turned into a refusal")
           ELSE If(out.k /= (IF d = "4" THEN "transient" ELSE "permanent") \/ out.code /= op.code \/ out.lines /= op.lines, "not this refusal")
                \cup If(op.lines /= <<>> /\ out.shown /= pre \o Joined(op.lines), "does not show what the server said")
                \cup If(op.lines = <<>> /\ ~(StartsWith(out.shown, pre) /\ Len(out.shown) > Len(pre)), "shows nothing"))

\* An error that is no refusal keeps and shows its cause (C30).
FailureOk(op, out) ==
  LET pre == CASE op.what = "io" -> "io: " [] op.what = "client" -> "client: " [] op.what = "utf8" -> "utf8: "
               [] op.what = "addr" -> "address parse error: " [] OTHER -> ""
  IN If(out.k /= op.what, "another kind of error")
     \cup If(op.what = "io" /\ out.iok /= out.want, "another kind of I/O error")
     \cup If(op.what /= "resolution" /\ out.shown /= pre \o out.own, "does not show its cause")
     \cup If(op.what = "resolution" /\ out.shown = "", "shows nothing")

\* An email hands out what it was made from (C27).
EmailOk(op, out) ==
  LET err == op.reader /\ "err_at" \in DOMAIN op.src
  IN If(out.from /= op.from \/ out.nofrom /= op.null \/ out.to /= op.to, "not this envelope")
     \cup If(out.b /= (IF err THEN SubSeq(op.b, 1, op.src.err_at) ELSE op.b), "not the octets of the message")
     \cup If(out.end /= (IF err THEN "err" ELSE "end"), "the end of the message confused")
     \cup If(~out.clean, "octets elsewhere touched")

\* A value is what it was made from: equal to another exactly if both were made from the same, equal to its
\* copies, found in a set by what it is equal to, shown as what it is (C32).
ShownAs(what, v, s) ==
  CASE what = "addr" -> s = v.s
    [] what = "mech" -> s = v.s
    [] what = "ext" -> s = v.s
    [] what = "code" -> s = v.s
    [] what = "id" -> (v.k = "name" => s = v.v) /\ (v.k = "v4" => s = "[" \o v.v \o "]")
                      /\ (v.k = "v6" => StartsWith(s, "[IPv6:") /\ EndsWith(s, "]"))
    [] what = "info" -> s = (IF v.features = <<>> THEN "none" ELSE "all")
    [] OTHER -> TRUE
ValuesOk(op, out) ==
  LET same == op.a = op.b
  IN If(out.eq /= same \/ out.qe /= same \/ out.ne = same, IF same THEN "equal values differ" ELSE "different values are equal")
     \cup If(~out.clone \/ ~out.self, "a copy is not what was copied")
     \cup If(~out.hash, "not found by its equal")
     \cup If(~ShownAs(op.what, op.a, out.shown) \/ ~ShownAs(op.what, op.b, out.shownb), "shown as something else")

Bad(ev) ==
  IF ev.e = "fault" THEN {}
  ELSE IF ev.e /= "pure" THEN {"panic or hang"}
  ELSE CASE ev.op.op = "addr" -> AddrOk(ev.op, ev.out)
         [] ev.op.op = "addrs" -> AddrsOk(ev.op, ev.out)
         [] ev.op.op = "env" -> EnvOk(ev.op, ev.out)
         [] ev.op.op = "lines" -> LinesOk(ev.op, ev.out)
         [] ev.op.op = "xtext" -> XtextOk(ev.op, ev.out)
         [] ev.op.op = "xtexts" -> XtextsOk(ev.op, ev.out)
         [] ev.op.op = "params" -> ParamsOk(ev.op, ev.out)
         [] ev.op.op = "caps" -> CapsOk(ev.op, ev.out)
         [] ev.op.op = "parse" -> ParseOk(ev.op, ev.out)
         [] ev.op.op = "cmd" -> CmdOk(ev.op, ev.out)
         [] ev.op.op = "defaults" -> DefaultsOk(ev.op, ev.out)
         [] ev.op.op = "authcmd" -> AuthCmdOk(ev.op, ev.out)
         [] ev.op.op = "authresp" -> AuthRespOk(ev.op, ev.out)
         [] ev.op.op = "error" -> ErrorOk(ev.op, ev.out)
         [] ev.op.op = "failure" -> FailureOk(ev.op, ev.out)
         [] ev.op.op = "values" -> ValuesOk(ev.op, ev.out)
         [] ev.op.op = "email" -> EmailOk(ev.op, ev.out)
         [] OTHER -> {"unknown function"}

VARIABLES t, i, bad
vars == <<t, i, bad>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ bad = {}
Next == /\ i <= Len(Traces[t].ev)
        /\ bad' = Bad(Traces[t].ev[i])
        /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Position == <<t, i>>
NoViolation == bad = {}
=============================================================================
