------------------------------- MODULE MCDefs -------------------------------
(* Small constants for SmtpMC. *)
EXTENDS SmtpMC

P(code, text) == [k |-> "wf", code |-> code, lines |-> <<text>>, extra |-> ""]
PL(code, lines) == [k |-> "wf", code |-> code, lines |-> lines, extra |-> ""]
Mal == [k |-> "mal", code |-> "", lines |-> <<>>, extra |-> ""]
Eof == [k |-> "eof", code |-> "", lines |-> <<>>, extra |-> ""]
Silent == [k |-> "silent", code |-> "", lines |-> <<>>, extra |-> ""]

Full == FullDesign
NoDrain == [FullDesign EXCEPT !.drain = FALSE]
NoReset == [FullDesign EXCEPT !.reset = FALSE]
NoPoison == [FullDesign EXCEPT !.poison = FALSE]
NoCancel == [FullDesign EXCEPT !.cancel = FALSE]
NoWait == [FullDesign EXCEPT !.wait = FALSE]
NoCause == [FullDesign EXCEPT !.cause = FALSE]
NoOnce == [FullDesign EXCEPT !.once = FALSE]
HugeGroup == [FullDesign EXCEPT !.group = 1000000]

Con(pipe, utf8, greet) == [op |-> "connect", greet |-> greet, pipe |-> pipe, utf8 |-> utf8, hello |-> "me"]
ConTls == {Con(TRUE, FALSE, TRUE), Con(FALSE, TRUE, FALSE)}
ConPipe == {Con(TRUE, FALSE, TRUE)}
ConBoth == {Con(TRUE, FALSE, TRUE), Con(FALSE, FALSE, TRUE)}
ConAll == {Con(p, u, g) : p \in BOOLEAN, u \in BOOLEAN, g \in BOOLEAN}
ConGreet == {Con(p, u, TRUE) : p \in BOOLEAN, u \in BOOLEAN}

SendA == [op |-> "send", from |-> "a@x", to |-> <<"r@x", "s@x">>, msg |-> "one\r\n.two"]
SendB == [op |-> "send", from |-> "", to |-> <<"t@y">>, msg |-> ""]
SendC == [op |-> "send", from |-> "c@z", to |-> <<"r@x", "u@y", "r@x">>, msg |-> "."]
Quit == [op |-> "quit"]
Tls == [op |-> "starttls"]
Auth(m) == [op |-> "auth", mech |-> m, userb |-> <<117>>, passb |-> <<112, 119>>, user |-> "u", pass |-> "pw"]
Login(ms) == [op |-> "login", mechs |-> ms, userb |-> <<117>>, passb |-> <<112, 119>>, user |-> "u", pass |-> "pw"]

OpsSend == {SendA, SendB}
OpsSendQuit == {SendA, SendB, Quit}
OpsSendC == {SendA, SendB, SendC}
OpsAuth == {Auth("PLAIN"), Auth("LOGIN"), Auth("XOAUTH2"), Quit}
OpsLogin == {Login(<<"PLAIN", "LOGIN">>), Login(<<"LOGIN", "PLAIN">>), Login(<<"XOAUTH2">>), Login(<<>>), SendB}
OpsTls == {Tls, Quit}
OpsTlsSend == {Tls, SendB}
OpsMixed == {SendA, SendB, Quit, Auth("LOGIN")}
OpsMixedS == {SendB, Quit, Auth("LOGIN")}

OneGreeting == {P("220", "mx")}
Caps(lines) == PL("250", <<"mx">> \o lines)
EhloNone == {Caps(<<>>)}
EhloPipe == {Caps(<<"PIPELINING">>)}
EhloBoth == {Caps(<<"PIPELINING">>), Caps(<<>>)}
EhloCaps == {Caps(<<>>), Caps(<<"pipelining", "8BITMIME">>), Caps(<<"SMTPUTF8", "STARTTLS">>),
             Caps(<<"8bitmime x", "smtputf8", "PIPELINING", "AUTH PLAIN">>), PL("250", <<"">>), P("550", "no")}
EhloAuth == {Caps(<<"AUTH LOGIN PLAIN", "PIPELINING">>), Caps(<<"AUTH XOAUTH2 GSSAPI">>), Caps(<<"PIPELINING">>), P("250", "AUTH PLAIN")}

UserQ == P("334", "VXNlcm5hbWU6")
PassQ == P("334", "UGFzc3dvcmQ6")
WhatQ == P("334", "V2hhdD8=")
NoQ == P("334", "")

Base == [greeting |-> OneGreeting, ehlo |-> EhloBoth, mail |-> {P("250", "ok")}, rcpt |-> {P("250", "ok")},
         data |-> {P("354", "go")}, content |-> {P("250", "queued")}, rset |-> {P("250", "reset")},
         quit |-> {P("221", "bye")}, auth |-> {P("235", "in")}, sasl |-> {P("235", "in")}, abort |-> {P("501", "aborted")},
         starttls |-> {P("220", "go")}, other |-> {P("500", "what")}]
Ref == [Base EXCEPT !.mail = {P("250", "ok"), P("451", "m")}, !.rcpt = {P("250", "ok"), P("550", "r")},
                    !.data = {P("354", "go"), P("554", "d")}, !.content = {P("250", "queued"), P("452", "c")}]
Ref3 == [Ref EXCEPT !.rcpt = {P("250", "ok"), P("550", "r"), P("450", "later")}, !.quit = {P("221", "bye"), P("500", "q")}]
AnsSend == Ref
AnsSend3 == Ref3
AnsSasl == {P("235", "in"), P("535", "no"), UserQ, PassQ, WhatQ}
AnsAuth == [Base EXCEPT !.ehlo = EhloPipe, !.auth = AnsSasl \cup {NoQ}, !.sasl = AnsSasl]
AnsLogin == [Base EXCEPT !.ehlo = EhloAuth, !.auth = {P("235", "in"), P("535", "no"), UserQ, WhatQ}, !.sasl = {P("235", "in"), PassQ}]
\* Endless challenges.
AnsEndless == [Base EXCEPT !.ehlo = EhloPipe, !.auth = {UserQ}, !.sasl = {UserQ, PassQ, P("235", "in")}]
AnsTls == [Base EXCEPT !.ehlo = {Caps(<<"STARTTLS">>), Caps(<<>>)},
                       !.starttls = {P("220", "go"), P("454", "no"), P("501", "never"), Mal,
                                     [P("220", "go") EXCEPT !.extra = "220 x\r\n"]}]
AnsOpen == [Base EXCEPT !.greeting = {P("220", "mx"), PL("220", <<"a", "b">>), P("554", "no"), P("421", "busy"), Mal, Eof},
                        !.ehlo = EhloCaps \cup {Mal, Eof, PL("250", <<"", "PIPELINING">>), P("421", "bye")}]
AnsCaps == [Base EXCEPT !.ehlo = EhloCaps]
AnsFault == [Ref EXCEPT !.ehlo = EhloBoth, !.mail = @ \cup {Mal}, !.rcpt = @ \cup {Eof}, !.content = @ \cup {Mal, Eof},
                        !.quit = @ \cup {Mal}, !.rset = @ \cup {Mal}]
AnsFaultAuth == [Base EXCEPT !.auth = {UserQ, WhatQ, Mal}, !.sasl = {PassQ, P("235", "in"), Eof}]
AnsSilent == [Ref EXCEPT !.content = @ \cup {Silent}, !.rcpt = @ \cup {Silent}]
AnsGroup == [Base EXCEPT !.ehlo = EhloPipe, !.rcpt = {P("250", "ok"), P("550", "r")}]
StreamFaults == {"read", "write"}
AllFaults == {"read", "write", "src"}
NoFaults == {}
=============================================================================
