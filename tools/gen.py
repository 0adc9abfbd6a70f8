"""Scenario generators.  A scenario is what the harness executes: operations, the replies of a
scripted server, and how the stream behaves.  Nothing in here knows what the client should do."""
import ipaddress
import zlib
import json
import random

import literals

# ---------------------------------------------------------------- building blocks


def R(code, *lines, **kw):
    d = {"code": str(code), "lines": list(lines) or ["ok"]}
    d.update(kw)
    return d


def raw(text, k="mal"):
    return {"k": k, "raw": text}


def connect(greet=True, pipe=True, utf8=False, helloid=None, order="pugh", default=False):
    op = {"op": "connect", "greet": greet, "pipe": pipe, "utf8": utf8, "order": order, "default": default}
    if helloid:
        op["helloid"] = helloid
        if "domain" in helloid:
            op["hello"] = u8(helloid["domain"])
        elif "v4" in helloid:
            op["hello"] = "[%s]" % helloid["v4"]
        else:
            op["hello"] = "[IPv6:%s]" % ipaddress.IPv6Address(helloid["v6"]).compressed
    else:
        op["hello"] = "[127.0.0.1]"
    return op


def lat(b):
    return b.decode("latin-1")


def u8(s):
    """A text as the octets of its UTF-8 form, one character per octet."""
    return lat(s.encode("utf-8"))


def cred(op, user, pw):
    op["user"], op["pass"] = u8(user), u8(pw)
    op["userb"], op["passb"] = list(user.encode("utf-8")), list(pw.encode("utf-8"))
    return op


def auth(mech, user="user", pw="secret"):
    return cred({"op": "auth", "mech": mech}, user, pw)


def login(mechs, user="user", pw="secret"):
    return cred({"op": "login", "mechs": list(mechs)}, user, pw)


def send(frm, to, msg="hello\r\n", **kw):
    op = {"op": "send", "from": frm, "to": list(to)}
    if isinstance(msg, (bytes, bytearray)):
        op["msgb"] = list(msg)
    else:
        op["msg"] = msg
    op.update(kw)
    return op


QUIT = {"op": "quit"}
TLS = {"op": "starttls"}
USERQ = ["VXNlcm5hbWU6", "VXNlciBOYW1l", "VXNlcm5hbWU="]
PASSQ = ["UGFzc3dvcmQ6", "UGFzc3dvcmQ="]
OTHERQ = ["V2hhdD8=", "UE9XIQ==", "AAAA", "VG9rZW46"]      # What? POW! \0\0\0 Token:
BADQ = ["", "!!!!", "====", "abc", "/w==", "gICA"]  # no base64, not UTF-8, nothing
MALS = ["2x0 what\r\n", "hello\r\n", "600 x\r\n", "25\r\n", "260 a\r\n", "250x\r\n", "250-a\r\n251 b\r\n", "\r\n",
        "250_a\r\n", "\xff\xfe\r\n", "250-a\r\nfoo\r\n", "1 a\r\n", "150 wait\r\n", " 250 a\r\n", "2500 a\r\n",
        "-250 a\r\n", "250\ta\r\n", "999 a\r\n", "050 a\r\n", "250-a\xc3\r\n250 b\r\n", "250-a\r\n250\xff\r\n", "290 a\r\n",
        "250-a\r\n350 b\r\n", "550-a\r\n450 b\r\n", "250-a\r\n250-b\r\n550 c\r\n", "2 50 a\r\n", "HTTP/1.1 200 OK\r\n",
        # long lines, and a line after long ones
        "x" * 600 + "\r\n", "2x0 " + "y" * 520 + "\r\n", "250x" + "y" * 1100 + "\r\n", "z" * 5000 + "\r\n", "250-" + "a" * 600 + "\r\nfoo\r\n", "250-" + "a" * 520 + "\r\n251 b\r\n", " " * 700 + "\r\n"]
EOFS = ["", "2", "25", "250", "250 o", "250-", "250-a\r\n", "250-a\r\n25", "250-a\r\n250", "250-a\r\n250 b", "220 ok\r", "5",
        "550 no", "550-no\r\n550", "354 go", "235 2.7.0 in", "\r", "250\r", "250 " + "x" * 700, "250-" + "x" * 700 + "\r\n", "x" * 600]


def scenario(id_, ops, server=None, io=None, default=None, greets=True, **kw):
    s = {"id": id_, "ops": ops, "server": server or {}, "io": io or {}, "greets": greets}
    if default:
        s["default"] = dict(default)
    if zlib.crc32(id_.encode()) % 3 == 0:
        s.setdefault("default", {}).setdefault("known", {"code": "502", "lines": ["not implemented"]})
    s.update(kw)
    return s


# ---------------------------------------------------------------- how the stream behaves


def plain(direct=False):
    return {"direct": direct}


def rand_io(rng, pend=True):
    io = {"direct": rng.random() < 0.5}
    k = rng.random()
    if k < 0.3:
        io["rchunks"] = [1]
    elif k < 0.6:
        io["rchunks"] = [rng.choice([1, 2, 3, 4, 5, 7, 11, 30]) for _ in range(rng.randint(1, 5))]
    k = rng.random()
    if k < 0.2:
        io["wchunks"] = [1]
    elif k < 0.6:
        io["wchunks"] = [rng.choice([1, 2, 3, 5, 8, 13, 40]) for _ in range(rng.randint(1, 5))]
    if pend and rng.random() < 0.5:
        io["pend"] = [rng.randint(0, 1) for _ in range(rng.randint(1, 6))] + [0]
    return io


# ---------------------------------------------------------------- histories of the model


def from_model(histories, rng, tag, vary=True, sample=None):
    """Turns complete histories of SmtpMC into scenarios."""
    hs = list(histories)
    if sample is not None and len(hs) > sample:
        hs = rng.sample(hs, sample)
    out = []
    for n, h in enumerate(hs):
        ops, server, greets = [], {}, False
        for e in h:
            if e["e"] == "call":
                o = dict(e["op"])
                if o["op"] == "connect":
                    o = connect(o["greet"], o["pipe"], o["utf8"], {"domain": o["hello"]})
                elif o["op"] == "send":
                    o = send(o["from"] or None, o["to"], o["msg"])
                elif o["op"] in ("auth", "login"):
                    o["userb"] = list(o["user"].encode())
                    o["passb"] = list(o["pass"].encode())
                ops.append(o)
            elif e["e"] == "rx":
                r = e["r"]
                q = e["q"]
                if q == "greeting":
                    greets = True
                if r["k"] == "wf":
                    d = {"code": r["code"], "lines": r["lines"]}
                    if r["extra"]:
                        d["extra"] = r["extra"]
                elif r["k"] == "mal":
                    d = raw(rng.choice(MALS))
                elif r["k"] == "eof":
                    d = raw(rng.choice(EOFS), "eof")
                else:
                    d = {"k": r["k"], "raw": ""}
                server.setdefault(q, []).append(d)
        io = plain(n % 2 == 0) if not vary or n % 3 == 0 else rand_io(rng)
        out.append(scenario("%s-%d" % (tag, n), ops, server, io, greets=greets))
    return out


# ---------------------------------------------------------------- random sessions

LIT_STRS, LIT_NUMS, NEW_STRS, NEW_NUMS = literals.load()
LIT_P = 0.15 if NEW_STRS or NEW_NUMS else 0.01


def lit(rng, p=1):
    """Whether to use a literal of the source here."""
    return rng.random() < LIT_P * p


def lit_str(rng):
    return rng.choice(NEW_STRS) if NEW_STRS and rng.random() < 0.85 else rng.choice(LIT_STRS or ["x"])


def lit_num(rng, most, least=1):
    """A number of the source, or one next to it."""
    for ns in ([NEW_NUMS, LIT_NUMS] if rng.random() < 0.85 else [LIT_NUMS]):
        ns = [n for n in ns if least <= n <= most]
        if ns:
            return max(least, rng.choice(ns) + rng.choice([0, 0, 0, 1, 1, -1]))
    return rng.randint(least, min(most, 20))


def lit_form(rng, s):
    """The word in some form."""
    k = rng.random()
    if k < 0.4:
        return s
    if k < 0.6:
        return rng.choice([s.upper(), s.lower(), s.capitalize(), s.title()])
    return rng.choice(["%s x", "x %s", "x %s y", "x%sy", "%s%s", "%s: x", "%sx", "(%s)", "5.1.1 %s", "2.0.0 %s", "%s%s%s"]).replace("%s", s)


def lit_text(rng):
    """As the text of a reply: no line ends, no controls."""
    s = "".join(c for c in lit_form(rng, lit_str(rng)) if c == "\t" or ord(c) >= 32 and ord(c) != 127)
    return u8(s)


def lit_addr(rng):
    s = lit_str(rng)
    s = rng.choice([s, s, s + "@x", "a@" + s, "a" + s, s + "b@y.org", "a@b." + s, "a@" + s + ".c"])
    if rng.random() < 0.2:
        s = rng.choice([s.upper(), s.lower()])
    return "".join(c for c in s if c in ADDR_CHARS)


def lit_msg(rng):
    s = u8(lit_str(rng))
    if rng.random() < 0.3:
        s = rng.choice([s.upper(), s.lower()])
    return rng.choice(["%s", "%s\r\n", "\r\n%s", "x\r\n%s\r\ny", "%s: x\r\n\r\nbody\r\n", ".%s", "%s.", "a%sb", "%s%s", "x\r\n.%s\r\n", "%s\r\n.\r\n%s", "X: y\r\n%s: 1\r\n\r\nb", "\r\n%s"]).replace("%s", s)


ADDR_CHARS = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789.!#$%&'*+-/=?^_`{|}~\"\\()[],;:@"


def addr(rng, n=None):
    if n is None:
        if lit(rng):
            return lit_addr(rng)
        if lit(rng, 0.2):
            return addr(rng, lit_num(rng, 9000))
        k = rng.random()
        n = 0 if k < 0.02 else rng.randint(1, 12) if k < 0.8 else rng.randint(13, 80)
    return "".join(rng.choice(ADDR_CHARS) for _ in range(n))


PHRASES = ["ok", "Ok", "OK", "2.0.0 Ok: queued as 4F1B2", "2.1.0 Sender ok", "2.1.5 Recipient ok", "5.7.1 Relay access denied", "4.2.0 greylisted, try again later",
           "5.1.1 no such user", "4.3.2 service shutting down", "Start mail input; end with <CRLF>.<CRLF>", "Bye", "closing connection", "Authentication successful",
           "250 ok", "550 no", "354 go", "-", "--", "- a", " ", "2", "25", "250", "250-", ".", "..", "queued", "0", "\t", "a\tb", "=?", "%s%n", "\\r\\n", "\"", "try again", "=" * 80]


ENHANCED = ["%d.%d" % (a, b) for a, m in ((0, 0), (1, 10), (2, 4), (3, 6), (4, 7), (5, 6), (6, 10), (7, 30)) for b in range(0, m + 1)]
WORDS = ["Recipient address rejected", "Greylisted", "Too many connections", "TLS required", "Must issue a STARTTLS command first", "Authentication required", "Mailbox full", "quota exceeded",
         "Timeout", "try again later", "try again", "Temporary failure", "Service unavailable", "closing transmission channel", "Command not implemented", "bad sequence of commands", "duplicate",
         "already", "nested MAIL command", "No valid recipients", "need RCPT", "need MAIL", "sender already specified", "message too large", "SMTPUTF8 required", "8BITMIME", "PIPELINING", "STARTTLS",
         "AUTH", "RSET", "QUIT", "spam", "blocked", "listed", "relay", "denied", "unknown", "accepted", "deferred", "queued as 1", "delivered", "forwarding", "will forward to <x@y>", "Go ahead",
         "ready", "ESMTP Postfix", "ESMTP Exim 4.96", "Microsoft ESMTP MAIL Service", "Goodbye", "error", "fatal", "Error: timeout exceeded", "ok", "cannot VRFY", "continue", "no", "yes",
         "DATA", "send DATA first", "MAIL", "RCPT", "EHLO", "EHLO first", "NOOP", "HELP", "Enter message, ending with \".\" on a line by itself", "Sender OK", "OK id=1qXyZ-0003", "Data received OK",
         "reset", "restart", "retry", "repeat", "invalid", "wait", "slow down", "rate limited", "not allowed", "disabled", "expired", "password", "credentials invalid", "Username and Password not accepted",
         "temporarily", "permanent", "partial", "empty", "null sender", "bounce", "loop detected", "too many hops", "too many recipients", "one recipient at a time", "too many errors", "maximum", "limit",
         "discarded", "ignored", "virus", "DMARC", "SPF", "DKIM", "TLS", "encryption needed", "upgrade", "localhost", "example.org", "id 7", "please", "welcome", "hello", "pipelining", "not supported"]


def enhanced(rng, c, cls=None):
    """A text as servers give it, with the enhanced code that goes with the code (mostly)."""
    e = rng.choice(ENHANCED) if cls is None else cls
    d = c[0] if c[0] in "245" and rng.random() < 0.9 else rng.choice("245")
    k = rng.random()
    return "%s.%s%s" % (d, e, "" if k < 0.15 else " " + rng.choice(WORDS))


def texts(rng, tag="txt", limit=None, places=None):
    """What servers say, in each place."""
    out = []
    n = 0
    usual = {"greeting": "220", "ehlo": "250", "auth": "235", "sasl": "235", "quit": "221", "starttls": "220", "data": "354"}
    for place in places or PLACES:
        cases = [(c, t, None) for t in WORDS + PHRASES for c in (usual.get(place, "250"), rng.choice(NEG))]
        dialogue = place in ("mail", "rcpt", "data", "content", "rset")
        for e in ENHANCED:
            for c in (rng.choice(["421", "450", "451", "452", "454"]), rng.choice(["500", "503", "535", "550", "552", "554"])):
                cases += [(c, "%s.%s %s" % (c[0], e, rng.choice(WORDS)), pipe) for pipe in ([False, True] if dialogue else [None])]
        cases += [(usual.get(place, "250"), "2.%s %s" % (e, rng.choice(WORDS)), None) for e in rng.sample(ENHANCED, 12)]
        for c, t, pipe in cases:
            if place in ("auth", "sasl") and c == "334":
                continue
            ls = [t] if pipe is not None or rng.random() < 0.7 else [t, enhanced(rng, c)] if rng.random() < 0.7 else [text(rng), t]
            if place == "ehlo" and c[0] in "23":
                ls = ["mx " + ls[0]] + ["X-" + x for x in ls[1:]]
            out.append(place_scenario("%s-%d" % (tag, n), place, R(c, *ls), rng, pipe))
            n += 1
    if limit and len(out) > limit:
        out = rng.sample(out, limit)
    return out


def extras(rng, tag="xtr", count=200):
    """The last operation is answered, and the server sends more without being asked."""
    out = []
    more = ["250 ok\r\n", "500 what\r\n", "421 closing\r\n", "221 bye\r\n", "550-a\r\n550 b\r\n", "334 VXNlcm5hbWU6\r\n", "354 go\r\n", "\r\n", "junk", "250-x\r\n", "2", "451 4.3.2 idle for too long\r\n", "\x16\x03"]
    for n in range(count):
        place = rng.choice(["quit", "quit", "content", "auth", "sasl", "ehlo", "rset", "starttls"])
        c = rng.choice("2235") + rng.choice("012345") + rng.choice("0123456789") if place in ("quit", "starttls") and rng.random() < 0.7 else code(rng, rng.choice(["pos", "pos", "neg"]))
        if c == "334":
            c = "235"
        r = R(c, *(["mx"] if place == "ehlo" else [text(rng)]))
        r["extra"] = rng.choice(more)
        srv = {"ehlo": [R("250", "mx", *(["PIPELINING"] if rng.random() < 0.5 else []), "AUTH LOGIN", "STARTTLS")]}
        srv[place] = [r]
        ops = [connect()]
        if place != "ehlo" and rng.random() < 0.4 and place not in ("content", "rset"):
            ops.append(send("a@x", ["b@y"], "m"))
        if place == "quit":
            ops.append(dict(QUIT))
        elif place == "starttls":
            ops.append(dict(TLS))
        elif place in ("content", "rset"):
            if place == "rset":
                srv["rcpt"], srv["data"] = [R("250", "ok"), R("550", "no")], [R("503", "no")]
            ops.append(send("a@x", ["b@y", "c@y"], "m"))
        elif place in ("auth", "sasl"):
            if place == "sasl":
                srv["auth"] = [R("334", USERQ[0])]
            ops.append(auth("LOGIN"))
        out.append(scenario("%s-%d" % (tag, n), ops, srv, rand_io(rng)))
    return out


def text(rng, n=None):
    k = rng.random() if n is None else 1
    if n is None and lit(rng):
        return lit_text(rng)
    if n is None and lit(rng, 0.1):
        return "t" * lit_num(rng, 5000)
    if k < 0.2:
        return rng.choice(PHRASES)
    if k < 0.35:
        return rng.choice(WORDS)
    if k < 0.5:
        return enhanced(rng, rng.choice("245"))
    n = rng.choice([0, 1, 3, 8, 20, 60]) if n is None else n
    al = "abc XYZ019.-=<>\t()"
    s = "".join(rng.choice(al) for _ in range(n))
    if rng.random() < 0.1:
        s += u8(rng.choice(["ü", "☃", "日本"]))
    return s


NEG = ["421", "450", "451", "452", "455", "500", "501", "502", "503", "504", "521", "530", "535", "550", "551", "552", "553", "554"]


def code(rng, cls):
    if lit(rng):
        c = "%d" % lit_num(rng, 559, 200)
        if 200 <= int(c) <= 559 and c[1] in "012345" and (c[0] in "45") == (cls == "neg"):
            return c
    if cls == "neg":
        return rng.choice(NEG) if rng.random() < 0.6 else rng.choice("45") + rng.choice("012345") + rng.choice("0123456789")
    return rng.choice(["250", "250", "251", "252", "354", "220"]) if rng.random() < 0.7 else rng.choice("23") + rng.choice("012345") + rng.choice("0123456789")


def reply(rng, neg=0.0, pos=None):
    n = 1 if rng.random() < 0.7 else rng.randint(2, 5)
    if lit(rng, 0.3):
        n = lit_num(rng, 130)
    ls = [text(rng) for _ in range(n)]
    if n > 1 and rng.random() < 0.2:      # lines that are alike
        ls = [ls[0]] * rng.choice([n, n - 1]) + ls[n - 1:][:1]
    if rng.random() < neg:
        c = code(rng, "neg")
    else:
        c = pos or code(rng, "pos")
    if n == 1 and ls[0] == "" and rng.random() < 0.5:
        return {"k": "wf", "code": c, "lines": [""], "raw": c + "\r\n"}
    return R(c, *ls)


KEYS = ["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS"]
NOISE = ["SIZE 1000", "ENHANCEDSTATUSCODES", "DSN", "X-PIPELINING", "PIPELININGX", "8BIT", "AUTHX PLAIN", "CHUNKING", "", "VRFY PIPELINING",
         "HELP STARTTLS", "NOT AUTH PLAIN", "AUTH=PLAIN", "AUTH=LOGIN PLAIN", "8BITMIME=1", "STARTTLS:x", "XSMTPUTF8",
         # what servers advertise besides
         "SIZE", "SIZE 0", "SIZE 5", "SIZE 35882577", "BINARYMIME", "BINARYMIME CHUNKING", "DELIVERBY 60", "ETRN", "ATRN", "TURN", "EXPN", "HELP", "SEND", "SOML", "SAML", "MT-PRIORITY MIXER", "RRVS", "REQUIRETLS",
         "FUTURERELEASE 100 2030", "BURL imap", "NO-SOLICITING", "XCLIENT NAME ADDR", "XFORWARD NAME", "CHECKPOINT", "CONNEG", "CONPERM", "SUBMITTER", "UTF8SMTP", "UTF8", "VERB", "ONEX", "LIMITS RCPTMAX=1 MAILMAX=1",
         "X-EXPS GSSAPI LOGIN", "X-EXPS=LOGIN", "X-ANONYMOUSTLS", "XAUTH PLAIN", "XEXCH50", "X-LINK2STATE", "XRDST", "TLS", "STARTTLSX", "XPIPELINE", "PIPE", "PIPELINE", "QUIT", "RSET", "NOOP", "EHLO", "SMTPUTF8X", "8BITMIMEX", "7BIT"]


def mix(rng, s):
    k = rng.random()
    return s if k < 0.6 else s.lower() if k < 0.8 else "".join(rng.choice([c.upper(), c.lower()]) for c in s)


def ehlo_reply(rng, must=(), never=(), noise=True):
    ls = []
    for k in KEYS:
        if k in never:
            continue
        if k in must or rng.random() < 0.5:
            ls.append(mix(rng, k) + (rng.choice(["", "", " x", " 1 2"])))
    if "AUTH" not in never and ("AUTH" in must or rng.random() < 0.5):
        ms = [m for m in ["PLAIN", "LOGIN", "XOAUTH2", "CRAM-MD5", "GSSAPI", "PLAINX", "XPLAIN"] if rng.random() < 0.5]
        rng.shuffle(ms)
        ls.append(" ".join([mix(rng, "AUTH")] + ms))
        if rng.random() < 0.2:
            ls.append("AUTH " + rng.choice(["LOGIN", "PLAIN", "XOAUTH2", "PLAIN LOGIN"]))
    if noise:
        for _ in range(rng.randint(0, 3)):
            x = lit_text(rng) if lit(rng) else ""
            ls.append(rng.choice(NOISE) if any(w in x.upper() for w in ["AUTH"] + KEYS) or x.strip() == "" else x)
    if rng.random() < 0.15 and ls:
        ls.append(rng.choice(ls))
    rng.shuffle(ls)
    first = rng.choice(["mx", "mx.example.org hello", "STARTTLS", "PIPELINING", "8BITMIME hi", "AUTH PLAIN LOGIN", "m [1.2.3.4]"])
    return R("250", first, *ls)


def msg_text(rng):
    parts = ["a", "b ", ".", "..", "\r\n", "\r\n.", "\r\n..", "\r", "\n", ".\r\n", "MAIL FROM:<x>\r\n", "QUIT\r\n", "\r\n.\r\n", "xyz", "\n.\r\n",
             "\r\r\n.", "DATA\r\n", "RSET\r\n", "\xe9", "\x00", "\xff"]
    m = "".join(rng.choice(parts) for _ in range(rng.randint(0, 8)))
    if lit(rng):
        return lit_msg(rng) if rng.random() < 0.6 else m + lit_msg(rng) + m
    if lit(rng, 0.5):
        n = lit_num(rng, 20000)
        return (m + ("line\r\n" if rng.random() < 0.5 else "x") * n)[:n]
    k = rng.random()
    if k < 0.1:       # some line of any length, any octets
        m += "".join(chr(rng.randint(0, 255)) for _ in range(rng.choice([1, 10, 76, 77, 200, 998, 1000, 1001]))) + rng.choice(["", ".", "\r\n", "\r\n.", "\r", "\r\n.\r\n"])
    elif k < 0.2:     # a message as it is usual
        m = "".join("%s: %s\r\n" % (rng.choice(["From", "To", "Subject", "Bcc", "Date", "Message-ID", "Content-Type", "Content-Transfer-Encoding", "Return-Path", "X-A"]),
                                    rng.choice(["a@b", "hi", "<1@x>", "text/plain; charset=utf-8", "8bit", "base64", "", "multi\r\n line"])) for _ in range(rng.randint(1, 5))) + "\r\n" + m
    return m


HELLOS = [{"domain": "me"}, {"domain": "client.example.org"}, None, {"v4": "10.1.2.3"}, {"v6": "2001:db8::1"}, {"v6": "::1"},
          {"domain": "[127.0.0.1]"}, {"v6": "fe80:0:0:0:1:2:3:4"}, {"v4": "255.255.255.255"}, {"domain": u8("bücher.example")[:0] or "x-y_z.example"}]


def rand_hello(rng):
    k = rng.random()
    if lit(rng):
        return {"domain": lit_addr(rng) or "x"}
    if k < 0.4:
        return rng.choice(HELLOS)
    if k < 0.5:
        return {"v4": ".".join(str(rng.choice([0, 1, 9, 10, 99, 100, 127, 192, 254, 255])) for _ in range(4))}
    if k < 0.65:
        return {"v6": str(ipaddress.IPv6Address(rng.getrandbits(128) & rng.choice([-1, 0xffff, 0xffffffff, 0xffff << 112, 0xffff0000ffff, 0xffffffffffff]) & ((1 << 128) - 1)))}
    n = rng.choice([1, 2, 5, 20, 63, 64, 65, 100, 128, 250, 253, 255, 256, 300, 600])
    return {"domain": "".join(rng.choice("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789.-_[]:") for _ in range(n))}


def rand_order(rng, hello=True):
    """The builder's calls in any order, some repeated: the last one counts."""
    order = list("pugh")
    rng.shuffle(order)
    for x in "PUHpugh":
        if rng.random() < 0.15 and (x != "H" or hello):
            i = rng.randrange(len(order))
            if x.isupper():
                i = rng.randint(0, order.index(x.lower()))
            order.insert(i, x)
    return "".join(order)


def rand_connect(rng, greet=True, pipe=None):
    h = rand_hello(rng)
    order, p, u = rand_order(rng, h is not None), rng.random() < 0.7 if pipe is None else pipe, rng.random() < 0.5
    # what is not set is the documented default
    if p and rng.random() < 0.25:
        order = order.replace("p", "").replace("P", "")
    if not u and rng.random() < 0.25:
        order = order.replace("u", "").replace("U", "")
    return connect(greet, p, u, h, order, rng.random() < 0.3)


def rand_send(rng, sizes=None, reader=None, msg=None):
    n = rng.choice(sizes) if sizes else lit_num(rng, 70) if lit(rng) else rng.choice([1, 1, 2, 2, 3, 4, 6])
    to = [addr(rng) for _ in range(n)]
    k = rng.random()
    if n > 1 and k < 0.1:
        to[-1] = to[0]
    elif n > 1 and k < 0.3:      # recipients that are alike
        a = addr(rng, rng.randint(2, 9)) + "@x.org"
        to = [rng.choice([a, a, a.upper(), a.swapcase(), a + ".", a[1:], "+" + a, '"%s"' % a]) for _ in range(n)]
    elif k < 0.35:
        to = [rng.choice(["postmaster", "Postmaster", "POSTMASTER", "root", "@a,@b:c@d", "a@[1.2.3.4]", "a@[IPv6:::1]", "x@" + "y" * 200, '"a b'.replace(" ", "_") + '"@c', "-oQ/tmp", "|cmd", "SIZE=1", "a@b>".rstrip(">")]) for _ in to]
    frm = None if rng.random() < 0.15 else rng.choice(to) if rng.random() < 0.1 else addr(rng)
    op = send(frm, to, msg_text(rng) if msg is None else msg)
    if (rng.random() < 0.25) if reader is None else reader:
        op["src"] = {"chunks": [rng.choice([1, 2, 5, 100]) for _ in range(rng.randint(1, 3))],
                     "pend": [rng.randint(0, 1) for _ in range(rng.randint(1, 4))] + [0]}
    return op


def b64(s):
    import base64
    return base64.b64encode(s if isinstance(s, bytes) else s.encode("utf-8")).decode()


def near_prompts():
    """What resembles a prompt of LOGIN without being one."""
    known = ["User Name", "Username:", "Username", "Password", "Password:"]
    out = []
    for p in known:
        out += [p.lower(), p.upper(), p.swapcase(), p + " ", " " + p, p + ":", p + ": ", p + "::", p + "\0", "\0" + p, p + "\r\n", p + "\n", p[1:], p[:-1], p[:4], p * 2, "Old " + p,
                "Not " + p, "Your " + p, p + " please", p + " (again)", p.replace("s", "S"), p + "?", "Enter " + p, p[::-1], "\ufeff" + p, p + "\u200b", p.replace("e", "\u0435")]
    out += ["UserName", "User name:", "User Name:", "User-Name", "Pass", "Passphrase:", "Passwort:", "Username:Password:", "Password for user Username", "Username/Password", "Token:", "PIN", "",
            "U", "P", "User", "Login:", "login", "Passcode", "UsernamePassword"]
    return sorted({p for p in out if p not in known})


NEAR = [b64(p) for p in near_prompts()]


def chal_lines(rng):
    l = chal_one(rng)
    k = rng.random()
    if k < 0.12:      # what follows the first word of the first line is not the challenge
        l = [l[0]] + [rng.choice(USERQ + PASSQ + ["", "more", "x y"]) for _ in range(rng.randint(1, 2))]
    elif k < 0.2:
        l = [l[0] + rng.choice([" ", " please", "\t", " " + rng.choice(USERQ + PASSQ)])]
    elif k < 0.24:
        l = [rng.choice([" ", "\t"]) + l[0]]
    return l


def chal_one(rng):
    k = rng.random()
    if k < 0.4:
        return [rng.choice(USERQ)]
    if k < 0.8:
        return [rng.choice(PASSQ)]
    if k < 0.85:
        return [rng.choice(OTHERQ)]
    if k < 0.95:
        return [rng.choice(NEAR)]
    return [rng.choice(BADQ)]


USERS = ["user", "", "u", "someone@example.org", "ünïcode", "a b", "x" * 57, "y" * 58, "\x01\x02", "日本" * 5, "with\0nul", "crlf\r\nDATA",
         "a:b", "user:pass", ":", "::", "DOMAIN\\user", "user@", "@x", "user;x", "user%x", "user/x", "user,x", "user=x", "user|x", " user", "user ", "User", "USER", "user\0", "\0user", "anonymous", "root", "postmaster", "apikey", "user\x01auth=", "n,a=x,", "dXNlcg=="]
PASSES = [":", "a:b", "::x", "a b ", " x", "pass\0", "\0", "Bearer x", "bearer", "ya29.a0Af", "SG.x-y_z", "user", "cGFzcw==", "\u00e9", "e\u0301", "secret", "", "p w", "pass\twörd", "z" * 200, "\xff", "=+/", "\r\n.\r\n", "0"]


def text_any(rng):
    if lit(rng):
        return rng.choice(["%s", "%s", "a%s", "%sb"]).replace("%s", lit_str(rng))
    if lit(rng, 0.5):
        return "p" * lit_num(rng, 9000)
    n = rng.choice(list(range(40)) + [60, 76, 77, 100, 255, 256, 400, 512, 1000, 4096]) if rng.random() < 0.99 else rng.choice([9000, 9217, 12289, 20000, 70000])
    k = rng.random()
    if k < 0.6:
        return "".join(chr(rng.randint(33, 126)) for _ in range(n))
    if k < 0.8:
        return "".join(chr(rng.randint(0, 127)) for _ in range(n))
    return "".join(rng.choice("aZ0 \u00e9\u4e2d\U0001f511:@") for _ in range(n))


def rand_auth(rng):
    u, p = rng.choice(USERS), rng.choice(PASSES)
    if rng.random() < 0.3:
        u, p = text_any(rng), text_any(rng)
    if rng.random() < 0.5:
        return auth(rng.choice(["PLAIN", "LOGIN", "XOAUTH2"]), u, p)
    ms = [rng.choice(["PLAIN", "LOGIN", "XOAUTH2"]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
    return login(ms, u, p)


def auth_server(rng, n):
    """Replies for n authentications: AUTH, then challenges."""
    a, s = [], []
    for _ in range(n):
        k = rng.random()
        if k < 0.3:
            a.append(reply(rng, 0.3, "235"))
        else:
            a.append(R("334", *chal_lines(rng)) if k < 0.95 else R("334", "VXNlcm5hbWU6", "UGFzc3dvcmQ6"))
            if rng.random() < 0.2:     # a long exchange of known prompts, of one shape
                tail = rng.choice([[], ["x"], ["", "y"]])
                a[-1] = R("334", rng.choice(USERQ + PASSQ), *tail)
                s += [R("334", rng.choice(USERQ + PASSQ), *tail) for _ in range(rng.randint(6, 14))] + [reply(rng, 0.3, "235")]
                continue
            depth = rng.choice([1, 1, 1, 2, 2, 9, 10, 11, 12]) if rng.random() < 0.5 else 1
            s += [R("334", *chal_lines(rng)) for _ in range(depth)] + [reply(rng, 0.3, "235")]
    return {"auth": a, "sasl": s}


def rand_session(rng, id_, neg=0.15, ops=None, kinds=None, io=None, sizes=None, tls=True, big=False):
    n = ops or rng.choice([1, 2, 3, 3, 4, 5, 7])
    kinds = kinds or ["send"] * 6 + ["auth"] + ["login"] + ["quit"]
    con = rand_connect(rng)
    lst = [con]
    for _ in range(n):
        k = rng.choice(kinds)
        if k == "send":
            lst.append(rand_send(rng, sizes))
        elif k in ("auth", "login"):
            lst.append(rand_auth(rng))
        elif k == "starttls":
            lst.append(dict(TLS))
            lst.append(rand_connect(rng, greet=False))
        else:
            lst.append(dict(QUIT))
    naut = sum(1 for o in lst if o["op"] in ("auth", "login"))
    nsend = sum(1 for o in lst if o["op"] == "send")
    nto = sum(len(o.get("to", [])) for o in lst)
    server = auth_server(rng, naut)
    server["greeting"] = [reply(rng, 0.03, "220")]
    server["ehlo"] = [ehlo_reply(rng) if rng.random() > 0.03 else reply(rng, 0.8) for _ in range(1 + sum(1 for o in lst if o["op"] == "starttls"))]
    server["mail"] = [reply(rng, neg * 0.7) for _ in range(nsend)]
    server["rcpt"] = [reply(rng, neg * min(1, 3.0 / max(1, nto / max(1, nsend)))) for _ in range(nto)]
    server["data"] = [reply(rng, neg * 0.7, rng.choice(["354", "354", "354", "250"])) for _ in range(nsend)]
    server["content"] = [reply(rng, neg * 0.7) for _ in range(nsend)]
    if rng.random() < 0.5:
        server["rset"] = [reply(rng, 0.25) for _ in range(nsend)]
    server["starttls"] = [reply(rng, 0.2, "220") for _ in range(n)]
    server["quit"] = [reply(rng, 0.1, "221") for _ in range(n)]
    return scenario(id_, lst, server, io if io is not None else rand_io(rng))


def sessions(rng, count, tag="rs", **kw):
    return [rand_session(rng, "%s-%d" % (tag, n), **kw) for n in range(count)]


# ---------------------------------------------------------------- big envelopes, flow control


def fit(rng, total, pipe_caps=("8BITMIME",)):
    """Recipients such that the whole pipelined group has exactly `total` octets."""
    mail = len("MAIL FROM:<s@x> BODY=8BITMIME\r\n")
    rest = total - mail - 6
    to = []
    while rest > 0:
        n = min(rest, rng.choice([60, 90, 200]))
        if rest - n < 14 and rest != n:
            n = rest - 14 if rest - 14 >= 14 else rest
        to.append("r" * (n - 12))
        rest -= n
    return to


def groups(rng, tag="grp", totals=None, win=True):
    out = []
    totals = totals or [200, 4000, 4090, 4095, 4096, 4097, 4100, 4102, 4103, 5000, 8191, 8192, 8193, 12288, 20000]
    n = 0
    for tot in totals:
        to = fit(rng, tot)
        for kind in range(3):
            srv = {"ehlo": [R("250", "mx", "PIPELINING", "8BITMIME")]}
            if kind == 1:
                srv["rcpt"] = [R("550", "no")] if rng.random() < 0.5 else [R("250", "ok")] * (len(to) - 1) + [R("550", "last")]
            if kind == 2:
                srv["mail"] = [R("451", "later")]
                srv["data"] = [R("503", "no")]
            io = {"direct": n % 2 == 0}
            if win:
                io["win_c2s"] = 4096
                io["win_s2c"] = rng.choice([1, 5, 50, 500])
            out.append(scenario("%s-%d" % (tag, n), [connect(), send("s@x", to, "m\r\n"), send("s@x", ["t@y"], "n\r\n"), dict(QUIT)], srv, io))
            n += 1
    return out


def windows(rng, count, tag="win"):
    out = []
    for n in range(count):
        m = rng.choice([1, 2, 3, 10, 60, 120, 250, 400])
        to = [addr(rng, rng.choice([3, 10, 40, 90])) for _ in range(m)]
        long_reply = R("250", *[text(rng, 40) for _ in range(rng.choice([1, 1, 2, 8]))])
        srv = {"ehlo": [R("250", "mx", *(["PIPELINING"] if rng.random() < 0.8 else []), "8BITMIME")],
               "rcpt": [long_reply if rng.random() < 0.9 else R("550", "no " * 10) for _ in range(m)]}
        io = {"direct": rng.random() < 0.5, "win_c2s": 4096, "win_s2c": rng.choice([1, 7, 64, 512, 1500])}
        if rng.random() < 0.3:
            io["rchunks"] = [rng.choice([1, 10, 100])]
        if rng.random() < 0.3:
            io["wchunks"] = [rng.choice([1, 10, 1000])]
        msg = "m" * rng.choice([0, 10, 5000, 9000])
        out.append(scenario("%s-%d" % (tag, n), [connect(), send("s@x", to, msg), send(None, ["q@z"], "n"), dict(QUIT)], srv, io))
    return out


# ---------------------------------------------------------------- failures of the stream


def bases():
    """Small dialogues on which failures and cancellations are enumerated."""
    pipe = {"ehlo": [R("250", "mx", "PIPELINING", "8BITMIME", "AUTH LOGIN PLAIN", "STARTTLS")]}
    nopipe = {"ehlo": [R("250", "mx", "AUTH LOGIN PLAIN", "STARTTLS")]}
    A = send("a@x", ["r@x", "s@x"], "one\r\n.two")
    A2 = send("a@x", ["r@x", "s@x"], "one\r\n.two", src={"chunks": [2], "pend": [0]})
    B = send(None, ["t@y"], "x")
    Q = dict(QUIT)
    chal = {"auth": [R("334", USERQ[0])], "sasl": [R("334", PASSQ[0]), R("235", "in")]}
    unk = {"auth": [R("334", OTHERQ[0])], "sasl": [R("501", "aborted")]}
    out = []
    for nm, srv in (("p", pipe), ("n", nopipe)):
        out.append((nm + "ok", [connect(), A, B, Q], dict(srv)))
        out.append((nm + "src", [connect(), A2, B], dict(srv)))
        out.append((nm + "mref", [connect(), A, B], dict(srv, mail=[R("450", "m")], rcpt=[R("503", "x"), R("503", "y")], data=[R("503", "z")])))
        out.append((nm + "rref", [connect(), A, B], dict(srv, rcpt=[R("250", "ok"), R("550", "r", "rr")], data=[R("554", "d")])))
        out.append((nm + "rgo", [connect(), A, B], dict(srv, rcpt=[R("550", "r")])))
        out.append((nm + "dref", [connect(), A, B], dict(srv, data=[R("451", "d")])))
        out.append((nm + "cref", [connect(), A, B], dict(srv, content=[R("552", "c1", "c2")])))
        out.append((nm + "login", [connect(), login(["LOGIN"]), B], dict(srv, **chal)))
        out.append((nm + "unk", [connect(), auth("LOGIN"), B], dict(srv, **unk)))
        out.append((nm + "tls", [connect(), dict(TLS), connect(greet=False), B], dict(srv)))
    return out


FOLLOW = [[QUIT], [send("z@x", ["w@x"], "later")], [login(["PLAIN"])], [auth("LOGIN")], [login([]), QUIT], [TLS], [send("z@x", ["w@x"], "l"), QUIT]]


ERRS = ["reset", "timeout", "aborted", "pipe", "other", "eofkind", "invalid", "notconn", "wouldblock"]
ERRS2 = ERRS + ["refused", "denied", "writezero", "input", "notfound", "unsupported", "memory", "exists", "inuse", "unreachable", "netdown"]


def fault_kinds(rng, tag="fki", limit=None):
    """Every kind of error, at every call of one dialogue, once and from then on."""
    out = []
    n = 0
    for pipe in (False, True):
        for kind, kmax in (("write", 11), ("flush", 9), ("read", 9)):
            for at in range(1, kmax + 1):
                for err in ERRS2:
                    for sticky in (False, True):
                        srv = {"ehlo": [R("250", "mx", *(["PIPELINING"] if pipe else []), "AUTH PLAIN", "STARTTLS")]}
                        ops = [connect(), auth("PLAIN"), send("a@x", ["b@y", "c@y"], rng.choice(["m\r\n.n", "", "x" * 30]))] + [dict(o) for o in rng.choice(FOLLOW)]
                        io = {"direct": kind == "write" and rng.random() < 0.5, "fault": {"kind": kind, "at": at, "sticky": sticky, "err": err}}
                        out.append(scenario("%s-%d" % (tag, n), ops, srv, io))
                        n += 1
    if limit and len(out) > limit:
        out = rng.sample(out, limit)
    return out


def faults(rng, tag="flt", limit=None, kinds=None, full=True):
    out = []
    n = 0
    for nm, ops, srv in bases():
        for kind in kinds or ["write", "wzero", "flush", "read", "eof"]:
            kmax = {"write": 14, "wzero": 14, "flush": 14, "read": 14, "eof": 260}[kind]
            ks = list(range(0 if kind == "eof" else 1, kmax + 1))
            for k in ks:
                f = {"kind": kind, "at": k, "sticky": rng.random() < 0.5, "err": rng.choice(ERRS2)}
                io = {"direct": rng.random() < 0.5, "fault": f}
                if rng.random() < 0.3:
                    io["wchunks"] = [rng.choice([1, 4, 7])]
                if rng.random() < 0.3 and kind != "eof":
                    io["rchunks"] = [rng.choice([1, 4, 7])]
                tail = [dict(o) for o in rng.choice(FOLLOW)]
                out.append(scenario("%s-%d" % (tag, n), ops + tail, srv, io))
                n += 1
    if limit and len(out) > limit:
        out = rng.sample(out, limit)
    return out


POINTS = ["greeting", "ehlo", "mail", "rcpt", "data", "content", "auth", "sasl", "rset", "quit", "starttls"]


def malformed(rng, tag="mal", limit=None, raws=None):
    """Something that is no reply, or the end of the stream, at every point of the dialogues."""
    out = []
    n = 0
    cases = [("mal", x) for x in (raws or MALS)] + [("eof", x) for x in EOFS]
    for nm, ops, srv in bases():
        used = POINTS
        for p in used:
            for pos in (0, 1):
                for k, x in cases:
                    if pos == 1 and p not in ("rcpt", "mail", "sasl", "ehlo", "data", "content"):
                        continue
                    s = {q: list(v) for q, v in srv.items()}
                    q = s.get(p, [])
                    dflt = {"sasl": R("235", "in"), "data": R("354", "go"), "ehlo": R("250", "mx")}.get(p, R("250", "ok"))
                    while len(q) <= pos:
                        q.append(dflt)
                    q[pos] = raw(x, k)
                    s[p] = q
                    tail = [dict(o) for o in rng.choice(FOLLOW)]
                    out.append(scenario("%s-%d" % (tag, n), ops + tail, s, rand_io(rng)))
                    n += 1
    if limit and len(out) > limit:
        out = rng.sample(out, limit)
    return out


def long_malformed(rng, tag="lml", count=200):
    """Long replies that are none, at every point of the dialogues."""
    return malformed(rng, tag, count, rng.sample(long_bad(rng), 40))


def cancels(rng, tag="can", limit=None):
    out = []
    n = 0
    for nm, ops, srv in bases():
        for j in range(len(ops)):
            for k in range(1, 40):
                for w in ([], [3]):
                    for stall in (False, True):
                        o = [dict(x) for x in ops]
                        o[j]["cancel"] = k
                        if "src" in o[j]:
                            o[j]["src"] = {"chunks": [2], "pend": [1, 0]}
                        io = {"direct": rng.random() < 0.5, "pend": [1, 0], "wchunks": w, "rchunks": [rng.choice([3, 50])]}
                        if not w:
                            del io["wchunks"]
                        tail = [dict(x) for x in rng.choice(FOLLOW)]
                        out.append(scenario("%s-%d" % (tag, n), o + tail, srv, io))
                        n += 1
    if limit and len(out) > limit:
        out = rng.sample(out, limit)
    return out


def stalls(rng, tag="stl", limit=None):
    """The server falls silent, or its reply arrives only after the caller gave up."""
    out = []
    n = 0
    for nm, ops, srv in bases():
        for p in POINTS:
            for pos in (0, 1, 2):
                for late in (False, True):
                    s = {q: list(v) for q, v in srv.items()}
                    q = s.get(p, [])
                    dflt = {"sasl": R("235", "in"), "data": R("354", "go"), "ehlo": R("250", "mx"), "auth": R("235", "in")}.get(p, R("250", "ok"))
                    while len(q) <= pos:
                        q.append(dict(dflt))
                    q[pos] = dict(q[pos], late=True) if late else {"k": "silent", "raw": ""}
                    s[p] = q
                    o = [dict(x, cancel=1) for x in ops]
                    tail = [dict(x, cancel=1) for x in rng.choice(FOLLOW)]
                    out.append(scenario("%s-%d" % (tag, n), o + tail, s, {"direct": rng.random() < 0.5}))
                    n += 1
    if limit and len(out) > limit:
        out = rng.sample(out, limit)
    return out


# ---------------------------------------------------------------- message sources


def sources(rng, tag="src", count=400, fail=True):
    out = []
    for n in range(count):
        m = rng.choice(["", ".", "a", "hello\r\n", "x\r\n.\r\ny", "..\r\n.", "0123456789" * 3, msg_text(rng), msg_text(rng)])
        src = {"chunks": [rng.choice([1, 2, 3, 7, 1000]) for _ in range(rng.randint(1, 4))], "pend": [rng.randint(0, 1) for _ in range(rng.randint(1, 5))] + [0]}
        if fail and rng.random() < 0.6:
            src["err_at"] = rng.randint(0, len(m))
            src["err"], src["err_once"] = rng.choice(ERRS2), rng.random() < 0.5
        srv = {"ehlo": [R("250", "mx", *(["PIPELINING"] if rng.random() < 0.5 else []))]}
        ops = [connect(), send("a@x", ["b@y"], m, src=src)] + [dict(o) for o in rng.choice(FOLLOW)] + [send("c@x", ["d@y"], "z"), dict(QUIT)]
        ops = [o for i, o in enumerate(ops) if i < 2 or o["op"] != "starttls"]
        out.append(scenario("%s-%d" % (tag, n), ops, srv, rand_io(rng)))
    return out


# ---------------------------------------------------------------- STARTTLS


def starttls(rng, tag="tls", count=300):
    out = []
    extras = ["", "\x16\x03\x01", "220 injected\r\n", "250 ok\r\n250 ok\r\n", "\r\n", "2", "\xff" * 5, "x" * 3000]
    for n in range(count):
        adv = rng.random() < 0.85
        r = reply(rng, 0.3, rng.choice(["220", "220", "250", "354"]))
        if rng.random() < 0.6:
            r["extra"] = rng.choice(extras)
        if rng.random() < 0.1:
            r = raw(rng.choice(MALS)) if rng.random() < 0.5 else raw(rng.choice(EOFS), "eof")
        pre = []
        srv = {"ehlo": [ehlo_reply(rng, must=("STARTTLS",)) if adv else ehlo_reply(rng, never=("STARTTLS",))], "starttls": [r]}
        if rng.random() < 0.4:
            pre = [send("a@x", ["b@y"], "m")]
            if rng.random() < 0.5:
                srv["rcpt"] = [R("550", "no")]
                srv["data"] = [R("503", "no")]
        ops = [rand_connect(rng)] + pre + [dict(TLS)]
        if not r.get("extra") and rng.random() < 0.5:
            srv["ehlo"].append(ehlo_reply(rng))
            ops += [rand_connect(rng, greet=False), rand_send(rng), dict(TLS)]
        out.append(scenario("%s-%d" % (tag, n), ops, srv, rand_io(rng)))
    return out


# ---------------------------------------------------------------- opening


def openings(rng, tag="opn", count=400):
    out = []
    for n in range(count):
        greet = rng.random() < 0.8
        g = reply(rng, 0.2, "220")
        e = ehlo_reply(rng)
        k = rng.random()
        if k < 0.15:
            e = reply(rng, 0.7)
        elif k < 0.3:
            e = R("250", rng.choice(["", " ", "  ", "\t"]), *(["PIPELINING"] if rng.random() < 0.5 else []))
        elif k < 0.35:
            e = {"k": "wf", "code": "250", "lines": [""], "raw": "250\r\n"}
        if rng.random() < 0.08:
            g = raw(rng.choice(MALS)) if rng.random() < 0.5 else raw(rng.choice(EOFS), "eof")
        if rng.random() < 0.08:
            e = raw(rng.choice(MALS)) if rng.random() < 0.5 else raw(rng.choice(EOFS), "eof")
        con = rand_connect(rng, greet=greet)
        if rng.random() < 0.3:
            con = dict(con)
            d = "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789.-_[]:") for _ in range(rng.randint(1, 40)))
            con = connect(greet, con["pipe"], con["utf8"], {"domain": d}, con["order"], con["default"])
        out.append(scenario("%s-%d" % (tag, n), [con, dict(QUIT)], {"greeting": [g], "ehlo": [e]}, rand_io(rng), greets=greet))
    return out


# ---------------------------------------------------------------- extensions


def gating(rng, tag="ext", exhaustive=True):
    """Every subset of the extensions, every client configuration."""
    out = []
    n = 0
    for mask in range(32):
        ls = [k for i, k in enumerate(["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS", "AUTH PLAIN LOGIN"]) if mask >> i & 1]
        for pipe in (False, True):
            for utf8 in (False, True):
                l2 = [mix(rng, x) if not x.startswith("AUTH") else x for x in ls] + rng.sample(NOISE, rng.randint(0, 2))
                rng.shuffle(l2)
                order = rand_order(rng)
                srv = {"ehlo": [R("250", rng.choice(["mx", "STARTTLS", "SMTPUTF8 8BITMIME"]), *l2)]}
                ops = [connect(True, pipe, utf8, {"domain": "c"}, "".join(order), rng.random() < 0.5),
                       send("a@x", ["b@y", "c@y"], rng.choice(["m", "\xe9\r\n", "x" * 1200])), send(None, ["b@y"], "q")]
                ops += [dict(TLS), connect(False, pipe, utf8), send("a@x", ["b@y"], "z")]
                srv["ehlo"].append(ehlo_reply(rng))
                out.append(scenario("%s-%d" % (tag, n), ops, srv, rand_io(rng)))
                n += 1
    return out


# ---------------------------------------------------------------- authentication


def auths(rng, tag="aut", count=800):
    out = []
    for n in range(count):
        k = rng.randint(1, 3)
        ops = [rand_connect(rng)]
        for _ in range(k):
            ops.append(rand_auth(rng))
        ops += [send("a@x", ["b@y"], "m"), dict(QUIT)]
        srv = auth_server(rng, k)
        srv["ehlo"] = [ehlo_reply(rng, must=("AUTH",))]
        out.append(scenario("%s-%d" % (tag, n), ops, srv, rand_io(rng)))
    # all short challenge sequences for LOGIN
    syms = [USERQ[0], PASSQ[0], OTHERQ[0], ""]
    m = 0
    for a in syms:
        for b in syms + ["end", "no"]:
            for c in syms + ["end"]:
                seq = [a, b, c]
                srv = {"ehlo": [R("250", "mx", "AUTH LOGIN PLAIN XOAUTH2")], "auth": [R("334", a)], "sasl": []}
                for x in seq[1:]:
                    srv["sasl"].append(R("235", "in") if x == "end" else R("535", "bad") if x == "no" else R("334", x))
                for mech in ("LOGIN", "PLAIN", "XOAUTH2"):
                    out.append(scenario("%s-s%d" % (tag, m), [connect(), auth(mech, rng.choice(USERS), rng.choice(PASSES)), dict(QUIT)], srv, rand_io(rng)))
                    m += 1
    # octets at the edges of user name and password
    for n, x in enumerate(["\0", " ", "\t", "\r", "\n", "\r\n", "\x01", "\x7f", ",", ":", ";", "=", "@", "\"", "\\", "<", ">", "%", "é", "\u00a0", "\u3000", "\ufeff"]):
        for m, (u, p) in enumerate([(x + "user", "pw"), ("user" + x, "pw"), ("us" + x + "er", "pw"), ("user", x + "pw"), ("user", "pw" + x), ("user", "p" + x + "w"), (x, x)]):
            for mech in ("PLAIN", "LOGIN", "XOAUTH2"):
                srv = {"ehlo": [R("250", "mx", "AUTH " + mech)]}
                if mech == "LOGIN":
                    srv.update(auth=[R("334", rng.choice(USERQ))], sasl=[R("334", rng.choice(PASSQ))])
                out.append(scenario("%s-o%d-%d-%s" % (tag, n, m, mech), [connect(), login([mech], u, p) if n % 2 else auth(mech, u, p)], srv, rand_io(rng)))
    # what resembles a prompt, in the place of each of them
    for n, p in enumerate(NEAR):
        srv = {"ehlo": [R("250", "mx", "AUTH LOGIN")]}
        if n % 3 == 0:
            srv["auth"], srv["sasl"] = [R("334", p)], [R("235", "in")]
        elif n % 3 == 1:
            srv["auth"], srv["sasl"] = [R("334", USERQ[n % 3])], [R("334", p), R("235", "in")]
        else:
            srv["auth"], srv["sasl"] = [R("334", USERQ[0])], [R("334", PASSQ[n % 2]), R("334", p), R("235", "in")]
        out.append(scenario("%s-n%d" % (tag, n), [connect(), login(["LOGIN"], "user", "secret"), send("a@x", ["b@y"], "m"), dict(QUIT)], srv, rand_io(rng)))
    # endless and nearly endless
    for d in (8, 9, 10, 11, 12, 15):
        for end in ("235", "535"):
            srv = {"ehlo": [R("250", "mx", "AUTH LOGIN")], "auth": [R("334", USERQ[0])],
                   "sasl": [R("334", rng.choice(USERQ + PASSQ)) for _ in range(d - 1)] + [R(end, "end")]}
            out.append(scenario("%s-m%d%s" % (tag, d, end), [connect(), auth("LOGIN"), send("a@x", ["b@y"], "m"), dict(QUIT)],
                                {"ehlo": srv["ehlo"], "auth": [R("334", USERQ[0], "x")], "sasl": [R("334", rng.choice(USERQ + PASSQ), *["more"] * (1 + d % 2)) for _ in range(d - 1)] + [R(end, "end")]}, rand_io(rng)))
            out.append(scenario("%s-e%d%s" % (tag, d, end), [connect(), login(["LOGIN"]), send("a@x", ["b@y"], "m"), dict(QUIT)], srv, rand_io(rng)))
    # every order of preference against every advertised set
    mechs = ["PLAIN", "LOGIN", "XOAUTH2"]
    import itertools
    m = 0
    prefs = [p for r in range(4) for p in itertools.permutations(mechs, r)] + [("LOGIN", "LOGIN"), ("PLAIN", "LOGIN", "PLAIN")]
    for adv in [a for r in range(4) for a in itertools.combinations(mechs, r)]:
        for p in prefs:
            a = list(adv)
            rng.shuffle(a)
            ls = [" ".join(["AUTH"] + a)] if rng.random() < 0.6 else ["AUTH " + x for x in a]
            if rng.random() < 0.3:
                ls.append("X-" + rng.choice(mechs))
            srv = {"ehlo": [R("250", "mx", *ls)], "default": {}}
            srv = {"ehlo": [R("250", rng.choice(["mx", "AUTH PLAIN LOGIN XOAUTH2"]), *ls)], "auth": [reply(rng, 0.3, "235")]}
            if p and [x for x in p if x in adv][:1] == ["LOGIN"]:
                srv["auth"] = [R("334", USERQ[0])]
                srv["sasl"] = [R("334", PASSQ[0]), reply(rng, 0.3, "235")]
            out.append(scenario("%s-p%d" % (tag, m), [connect(), login(p, rng.choice(USERS), rng.choice(PASSES)), send("a@x", ["b@y"], "m")], srv, rand_io(rng)))
            m += 1
    return out


def long_history(rng, tag="long", count=20, n=25):
    """Many emails on one connection."""
    return [rand_session(rng, "%s-%d" % (tag, i), neg=0.2, ops=n, kinds=["send"] * 9 + ["login", "quit"]) for i in range(count)]


def addresses(rng, tag="adr", count=300):
    """Envelopes of unusual but acceptable addresses."""
    out = []
    for n in range(count):
        to = [addr(rng, rng.choice([0, 1, 5, 30, 64, 254, 998])) for _ in range(rng.choice([1, 2, 5, 40]))]
        if n % 10 == 0:
            to = ["".join(chr(c) for c in range(33, 127) if chr(c) not in "<>")] + to
        srv = {"ehlo": [ehlo_reply(rng)]}
        out.append(scenario("%s-%d" % (tag, n), [rand_connect(rng), send(rng.choice([None, "", addr(rng), addr(rng, 300)]), to, "m"), dict(QUIT)], srv, rand_io(rng)))
    return out


def dump(scs, path):
    with open(path, "w") as f:
        for s in scs:
            f.write(json.dumps(s, ensure_ascii=False) + "\n")


# ---------------------------------------------------------------- functions that need no connection


def pure(id_, ops):
    return {"id": id_, "pure": ops}


def cp(s):
    return [ord(c) for c in s]


def packs(ops, tag, n=20):
    return [pure("%s-%d" % (tag, i // n), ops[i:i + n]) for i in range(0, len(ops), n)]


UNI = "\u0085\u00a0\u1680\u2003\u2028\u2029\u3000\ufeff\uff1c\uff1e\u200b\u212a\u0130\u00df\u0301\U0001f600\U0010ffff\ud7ff\ue000éÿ"


def rand_text(rng, n, ascii_bias=0.6):
    if ascii_bias < 1 and lit(rng):
        return rng.choice(["%s", "%s", "a%s", "%sb"]).replace("%s", lit_str(rng))
    out = []
    for _ in range(n):
        k = rng.random()
        if k < ascii_bias:
            out.append(chr(rng.randint(33, 126)))
        elif k < ascii_bias + 0.15:
            out.append(chr(rng.randint(0, 127)))
        elif k < ascii_bias + 0.25:
            out.append(rng.choice(UNI))
        else:
            c = rng.randint(128, 0x10FFFF)
            out.append("?" if 0xD800 <= c <= 0xDFFF else chr(c))
    return "".join(out)


def address_ops(rng, thorough=False):
    ops = []
    ctx = [("", ""), ("a", ""), ("", "a"), ("user@", ".example")]
    for lo in range(0, 0x110000, 0x1000):
        for n, (a, b) in enumerate(ctx):
            if thorough or lo < 0x4000 or n == (lo >> 12) % 4:
                ops.append({"op": "addrs", "lo": lo, "hi": lo + 0xFFF, "pre": cp(a), "post": cp(b)})
    for c in range(33, 127):
        if chr(c) not in "<>":
            ops.append({"op": "addrs", "lo": 0, "hi": 0x17F, "pre": [c], "post": []})
            ops.append({"op": "addrs", "lo": 0, "hi": 0x17F, "pre": [], "post": [c]})
    for a, b in [('"a', 'b"@x'), ('"a', '"'), ('"', '"@x'), ("a@[", "]"), ("a@[1.2", "3.4]"), ("(", ")a@b"), ("a\\", "b@c"), ("'a", "b'@c"), ("a@b ", ""), ("a@", ""), ("@", ""), ("a@b,", "c@d"), ("@h:", "a@b"), ("mailto:", "@b"), ("=?utf-8?q?", "?="),
                 ("a" * 64, "@b"), ("a@" + "b" * 254, "c"), ("a" * 500, "b" * 500), ("postmaster", ""), ('"\\', '"@b'), ("a@xn--", "x"), ("\u00fc", "@b"), ("a@\u4e2d", "\u6587")]:
        ops.append({"op": "addrs", "lo": 0, "hi": 0x2FF, "pre": cp(a), "post": cp(b)})
        ops.append({"op": "addrs", "lo": 0x2000, "hi": 0x20FF, "pre": cp(a), "post": cp(b)})
    # whole strings that look like an address in some notation
    ends = ["<%s>", "Bob <%s>", '"Bob" <%s>', "Bob<%s>", "%s (Bob)", "(Bob) %s", " %s", "%s ", "<%s", "%s>", "SMTP:%s", "mailto:%s", "%s,c@d", "%s, c@d",
            "<%s> SIZE=1", "%s> SIZE=1", "%s SIZE=1", "<%s>\r\nDATA", "%s\r\nDATA", "\t%s", "%s\n", "%s\0", "<<%s>>", "< %s >", "group:%s;", "%s;", "@r:%s", "<@r:%s>",
            "[%s]", "'%s'", '"%s"', "%s.", ".%s", "%s@", "@%s", "%s%%h", "%s/", "%s?subject=x", "\ufeff%s", "%s\u200b", "\uff1c%s\uff1e", "\u00a0%s", "=?utf-8?q?Bob?= <%s>", "To: %s", "%s <>", "<> %s", "<>%s", "%s<>"]
    for a in ["", "a@b", "a", "bob@example.org", "Bob.Smith@Example.ORG", "x+y@z", "a@[1.2.3.4]"] + [addr(rng, rng.randint(1, 40)) for _ in range(60 if thorough else 12)]:
        for f in ends:
            ops.append({"op": "addr", "s": cp(f % a)})
    for n in SIZES:
        for x in ("", " ", "\r", "\n", "\0", "\t", "\x7f", "\u0085", "\u2028", "é"):
            a = rand_text(rng, n, 1.0).replace("<", "a").replace(">", "b")
            at = rng.choice([0, n // 2, n])
            ops.append({"op": "addr", "s": cp(a[:at] + x + a[at:])})
    for _ in range(20000 if thorough else 3000):
        n = rng.choice([0, 1, 2, 3, 10, 30, 255])
        ops.append({"op": "addr", "s": cp(rand_text(rng, n, rng.choice([1.0, 0.99, 0.9, 0.5])).translate({60: 97, 62: 98}) if rng.random() < 0.5 else rand_text(rng, n, 0.97))})
    for n in (0, 1, 2, 5, 100):
        for null in (True, False):
            for _ in range(40 if thorough else 10):
                frm = "" if null else addr(rng)
                ops.append({"op": "env", "from": frm, "null": null, "to": [addr(rng) for _ in range(n)]})
                ops.append({"op": "lines", "from": frm, "to": [addr(rng) for _ in range(n)]})
    return ops


def xtext_ops(rng, thorough=False):
    ops = []
    ctx = [("", ""), ("a", "b"), ("+", "41"), ("", "+"), ("=", " "), ("\r\n", ""), ("+4", ""), ("\u00e9", "\U0001f600")]
    for n, (a, b) in enumerate(ctx):
        ops.append({"op": "xtexts", "lo": 0, "hi": 0x2FF, "pre": cp(a), "post": cp(b)})
        step = 0x400
        for lo in range(0x300 // step * step, 0x110000 if thorough else 0x10000, step):
            if thorough or (lo // step) % len(ctx) == n:
                ops.append({"op": "xtexts", "lo": lo, "hi": lo + step - 1, "pre": cp(a), "post": cp(b)})
    for _ in range(20000 if thorough else 3000):
        n = rng.choice([0, 1, 2, 3, 8, 40, 200])
        k = rng.random()
        s = rand_text(rng, n) if k < 0.5 else "".join(rng.choice("+=A1 \r\n\t\x00\x7f\x1fé2F") for _ in range(n))
        ops.append({"op": "xtext", "s": cp(s)})
    for _ in range(300 if thorough else 60):      # long values, with much, little or nothing to encode
        n = rng.choice([498, 499, 500, 501, 510, 512, 600, 998, 1000, 1001, 1024, 2000, 4096, 5000])
        k = rng.random()
        s = "".join(rng.choice("abcXYZ019;@.-_") for _ in range(n)) if k < 0.6 else "".join(chr(rng.randint(0, 127)) for _ in range(n)) if k < 0.8 else rand_text(rng, n)
        ops.append({"op": "xtext", "s": cp(s)})
    # all short strings over what matters
    import itertools
    for r in range(0, 5 if thorough else 4):
        for t in itertools.product("+=A1 \r\x7f\u00e9", repeat=r):
            ops.append({"op": "xtext", "s": cp("".join(t))})
    for _ in range(10000 if thorough else 1500):
        ps = []
        for i in range(rng.choice([0, 1, 1, 2, 3, 5])):
            k = "".join(rng.choice("ABCXYZ-019") for _ in range(rng.randint(1, 8)))
            has = rng.random() < 0.7
            v = rand_text(rng, rng.randint(0, 12)) if rng.random() < 0.5 else "".join(rng.choice("+=A1 \r\n\x00 NOTIFY") for _ in range(rng.randint(0, 10)))
            ps.append({"k": cp(k), "has": has, "v": cp(v) if has else []})
        ops.append({"op": "params", "ps": ps})
    return ops


CAP_LINES = ["PIPELINING", "pipelining", "PIPELINING x", "X PIPELINING", "8BITMIME", "8bitMIME y", "SMTPUTF8", "smtputf8", "STARTTLS", "StartTLS 1",
             "AUTH PLAIN", "AUTH LOGIN PLAIN", "auth XOAUTH2", "AUTH", "AUTH  LOGIN", "AUTH CRAM-MD5 PLAIN", "AUTHPLAIN", "AUTH=PLAIN", "AUTH PLAINX XLOGIN", "", " ", "SIZE 10",
             "PIPELININGS", "STARTTLS-X", "8BIT", "AUTH PLAIN STARTTLS", "HELP AUTH PLAIN"]
CAP_FIRST = ["mx", "mx greets you", "PIPELINING", "STARTTLS hello", "AUTH PLAIN LOGIN", "8BITMIME", "SMTPUTF8 x", "", " ", "[1.2.3.4]", " lead"]


def caps_ops(rng, thorough=False):
    import itertools
    ops = [{"op": "caps", "lines": []}]
    for f in CAP_FIRST:
        ops.append({"op": "caps", "lines": [f]})
        for a in CAP_LINES:
            ops.append({"op": "caps", "lines": [f, a]})
    for a, b in itertools.product(CAP_LINES, repeat=2):
        ops.append({"op": "caps", "lines": [rng.choice(CAP_FIRST[:7]), a, b]})
    if thorough:
        for a, b, c in itertools.product(CAP_LINES, repeat=3):
            ops.append({"op": "caps", "lines": [rng.choice(CAP_FIRST[:7]), a, b, c]})
    for z in (7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000):
        for k in KEYS + ["AUTH PLAIN", "AUTH LOGIN XOAUTH2"]:
            for at in (0, z // 2, z - 1, z):
                ls = ["X-%d" % i for i in range(z)]
                ls.insert(at, k)
                ops.append({"op": "caps", "lines": ["mx"] + ls})
        ms = ["M%d" % i for i in range(z)]
        for m in ("PLAIN", "LOGIN", "XOAUTH2"):
            for at in (0, z // 2, z):
                ops.append({"op": "caps", "lines": ["mx", " ".join(["AUTH"] + ms[:at] + [m] + ms[at:])]})
        ops.append({"op": "caps", "lines": ["mx"] + ["AUTH " + m for m in ms] + ["AUTH PLAIN"]})
        ops.append({"op": "caps", "lines": ["mx", rng.choice(KEYS) + " " + "x" * z, "Y" * z, rng.choice(KEYS), "AUTH PLAIN " + "y" * z + " LOGIN"]})
        ops.append({"op": "caps", "lines": ["m" * z, "PIPELINING"] + ["SIZE"] * z})
    # what resembles a keyword or a mechanism without being one
    for w in KEYS + ["AUTH", "PLAIN", "LOGIN", "XOAUTH2"]:
        near = [w + chr(c) for c in range(33, 127)] + [chr(c) + w for c in range(33, 127)] + [w[:-1], w[1:], w + w, w[::-1], w + "\x0b", "\0" + w, w + "\0", w[:2] + " " + w[2:], w.replace("I", "1")]
        near += [u8(w + "\u0301"), u8(w.replace("I", "\u0130")), u8(w.replace("I", "\u0131")), u8(w.replace("S", "\u017f")), u8(w.replace("K", "\u212a")), u8("\ufeff" + w)]
        for x in near:
            if x.upper() == w or x == w + "":
                continue
            if "\x0b" in x:
                continue
            ops.append({"op": "caps", "lines": ["mx", "AUTH " + x if w in ("PLAIN", "LOGIN", "XOAUTH2") else x + rng.choice(["", " PLAIN LOGIN"])]})
    for _ in range(20000 if thorough else 2000):
        ls = [rng.choice(CAP_LINES + NOISE) if rng.random() < 0.6 else
              " ".join(mix(rng, rng.choice(KEYS + ["AUTH"])) if i == 0 else rng.choice(["PLAIN", "LOGIN", "XOAUTH2", "GSSAPI", "STARTTLS", "x"]) for i in range(rng.randint(1, 5)))
              for _ in range(rng.randint(0, 8))]
        ops.append({"op": "caps", "lines": [rng.choice(CAP_FIRST)] + ls})
    return ops


FRAGS = ["250 a\r\n", "250-a\r\n", "250\r\n", "250-\r\n", "250 \r\n", "25", "250", "250-", "251-b\r\n", "251 b\r\n", "2x0 a\r\n", "350-a\r\n", "550 no\r\n", "550-no\r\n", "550\r\n",
         "\r\n", "a\r\n", "250_a\r\n", "2500\r\n", "290 a\r\n", "260-a\r\n", "190 a\r\n", "650 a\r\n", "25a a\r\n", "250- \r\n", "250--x\r\n", "250 -x\r\n", "250  y \r\n", "250-1 2\r\n", "-250 a\r\n",
         " 250 a\r\n", "354 go\r\n", "421 x y z\r\n", "421-x\r\n"]


def parse_op(raw_, code="250"):
    return {"op": "parse", "raw": raw_, "code": code, "ncode": int(code), "any": False,
            # Unicode knows more white space than SMTP: nothing is claimed about words there
            "words": "\xe2\x80\xa8" not in raw_ and "\xc2\x85" not in raw_}


def parse_ops(rng, thorough=False):
    import itertools
    ops = []
    for a in range(1000):
        c = "%03d" % a
        for t in ("%s ok\r\n", "%s\r\n", "%s-a\r\n%s b\r\n", "%s-\r\n%s\r\n"):
            s = t.replace("%s", c)
            ops.append(parse_op(s, c))
            ops.append(parse_op(s, rng.choice(["250", "550", "%03d" % ((a + 1) % 1000), "%03d" % ((a + 10) % 1000)])))
    for r in range(1, 4 if thorough else 3):
        for t in itertools.product(FRAGS, repeat=r):
            ops.append(parse_op("".join(t)))
    ops += [parse_op(x) for x in long_bad(rng)]
    for _ in range(60000 if thorough else 4000):
        n = rng.randint(1, 4)
        s = "".join(rng.choice(FRAGS) for _ in range(n))
        k = rng.random()
        if k < 0.5 and s:          # one octet changed, dropped or added
            i = rng.randrange(len(s))
            s = s[:i] + rng.choice(["", rng.choice("0123456789- \tax")]) + s[i + rng.randint(0, 1):]
        elif k < 0.7:
            s = s[:rng.randrange(len(s) + 1)]
        elif k < 0.8:
            s = s.replace("a", u8(rng.choice(["ü", "☃", "日本", "\u2028", "\u0085"])))
        ops.append(parse_op(s, rng.choice(["250", "251", "550", "354", "421"])))
    return ops


# ---------------------------------------------------------------- replies, segmented


def segmented(rng, tag="seg", count=600):
    """Every reply code and shape as the answer in each place, in pieces."""
    out = []
    codes = ["%d%d%d" % (a, b, c) for a in range(2, 6) for b in range(6) for c in range(10)]
    shapes = [lambda c: {"k": "wf", "code": c, "lines": [""], "raw": c + "\r\n"}, lambda c: R(c, ""), lambda c: R(c, "text"), lambda c: R(c, "a", ""),
              lambda c: {"k": "wf", "code": c, "lines": ["", ""], "raw": "%s-\r\n%s\r\n" % (c, c)}, lambda c: R(c, "one", "two", "three"),
              lambda c: R(c, " lead", "trail ", "\ttab\t"), lambda c: R(c, u8("ünï"), u8("日本")), lambda c: R(c, "2", "50", "250 x"), lambda c: R(c, "-", "--", " "),
              lambda c: R(c, "x" * 600, "y" * 600), lambda c: R(c, *["l%d" % i for i in range(40)])]
    n = 0
    while n < count:
        c1, c2 = codes[(2 * n) % 240], codes[(2 * n + 1) % 240]
        s1, s2 = shapes[n % len(shapes)], shapes[(n // len(shapes)) % len(shapes)]
        place = rng.choice(["mail", "rcpt", "data", "content", "greeting", "ehlo", "auth", "quit", "starttls"])
        srv = {"ehlo": [R("250", "mx", *(["PIPELINING"] if rng.random() < 0.5 else []), "AUTH PLAIN", "STARTTLS")]}
        srv[place] = [s1(c1), s2(c2)]
        if place in ("greeting", "ehlo"):
            srv[place] = [s1(c1)]
        ops = [connect()]
        ops += [auth("PLAIN")] * 2 if place == "auth" else [send("a@x", ["b@y", "c@y"], "m"), send("a@x", ["b@y"], "n")]
        ops += [dict(TLS)] if place == "starttls" else [dict(QUIT)]
        out.append(scenario("%s-%d" % (tag, n), ops, srv, rand_io(rng)))
        n += 1
    return out


SHAPES = [lambda c: {"k": "wf", "code": c, "lines": [""], "raw": c + "\r\n"}, lambda c: R(c, ""), lambda c: R(c, " "), lambda c: R(c, "a", ""), lambda c: R(c, "", "a"), lambda c: R(c, "", ""),
          lambda c: {"k": "wf", "code": c, "lines": ["", ""], "raw": "%s-\r\n%s\r\n" % (c, c)}, lambda c: {"k": "wf", "code": c, "lines": ["a", ""], "raw": "%s-a\r\n%s\r\n" % (c, c)}, lambda c: R(c, "one", "two", "three"),
          lambda c: R(c, " lead", "trail ", "\ttab\t"), lambda c: R(c, u8("ünï"), u8("日本")), lambda c: R(c, "2", "50", "250 x"), lambda c: R(c, "-", "--", " "), lambda c: R(c, c, c + "-" + c), lambda c: R(c, "same", "same"),
          lambda c: R(c, *["l%d" % i for i in range(40)])]


def shapes(rng, tag="shp", places=None):
    """Every shape of a reply, in each place, as the expected answer and as a refusal."""
    out = []
    for place in places or PLACES:
        for n, sh in enumerate(SHAPES):
            for c in ({"greeting": "220", "auth": "235", "sasl": "235", "quit": "221", "starttls": "220", "data": "354"}.get(place, "250"), rng.choice(NEG)):
                for pipe in ([False, True] if place in ("mail", "rcpt", "data", "content", "rset") else [None]):
                    out.append(place_scenario("%s-%s-%d-%s%s" % (tag, place, n, c, "p" if pipe else ""), place, sh(c), rng, pipe))
    return out


SIZES = [100, 254, 255, 256, 257, 320, 321, 500, 512, 513, 900, 998, 1000, 1001, 1024, 2048, 4095, 4096, 4097, 8192, 9000, 9217, 12289, 16384, 20000, 65536, 70000]


def giants(rng, tag="gnt", what=("from", "to", "hello", "user", "pass", "mechs", "caps", "auths", "cap")):
    """Texts of any length from the caller, and advertisements of any length from the server."""
    out = []
    for n, z in enumerate(SIZES):
        for w in what:
            if z > 4097 and w in ("mechs", "caps", "auths"):
                continue
            big = "".join(rng.choice("abcdefghij.0") for _ in range(z))
            con, srv, ops = connect(), {"ehlo": [R("250", "mx", *(["PIPELINING"] if rng.random() < 0.5 else []), "AUTH PLAIN LOGIN XOAUTH2")]}, []
            if w == "from":
                ops = [send(big, ["b@y"], "m")]
            elif w == "to":
                ops = [send("a@x", rng.choice([[big], [big, "b@y"], ["b@y", big], [big, big]]), "m")]
            elif w == "hello":
                con = connect(helloid={"domain": big})
            elif w in ("user", "pass"):
                mech = rng.choice(["PLAIN", "LOGIN", "XOAUTH2"])
                a = (big, "pw") if w == "user" else ("user", big)
                ops = [auth(mech, *a) if rng.random() < 0.5 else login([mech], *a)]
                if mech == "LOGIN":
                    srv.update(auth=[R("334", rng.choice(USERQ))], sasl=[R("334", rng.choice(PASSQ)), R("235", "in")])
            elif w == "mechs":
                ops = [login(["XOAUTH2"] * (z // 2) + ["PLAIN"])]
                srv["ehlo"] = [R("250", "mx", "AUTH PLAIN")]
            elif w == "caps":
                ls = ["X-%d" % i for i in range(z)]
                ks = ["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS", "AUTH PLAIN"]
                at = rng.choice([0, z // 2, z])
                srv["ehlo"] = [R("250", "mx", *(ls[:at] + ks + ls[at:] if rng.random() < 0.7 else rng.sample(ls + ks, z + 5)))]
                con = connect(utf8=True)
                ops = [login(["PLAIN"]), dict(TLS)]
            elif w == "auths":
                ms = ["M%d" % i for i in range(z // 4)]
                ms.insert(rng.choice([0, len(ms)]), "PLAIN")
                srv["ehlo"] = [R("250", "mx", "AUTH " + " ".join(ms), "PIPELINING")]
                ops = [login(["PLAIN"])]
            else:
                srv["ehlo"] = [R("250", "mx", *rng.sample(["PIPELINING " + big, "8BITMIME", "X" + big, "AUTH PLAIN", "SMTPUTF8 x"], 5))]
                con = connect(utf8=True)
                ops = [login(["PLAIN"])]
            tail = [dict(TLS), connect(False)] if w == "caps" else []
            ops = [con] + [o for o in ops if o["op"] != "starttls"] + [send("a@x", ["b@y", "c@y"], "m")] + tail + [dict(QUIT)]
            out.append(scenario("%s-%s-%d" % (tag, w, z), ops, srv, rand_io(rng) if z < 5000 else {"direct": rng.random() < 0.5}))
    return out


def rounds(rng, tag="rou", sizes=(32, 60, 64, 72, 76, 78, 80, 100, 128, 200, 250, 255, 256, 257, 320, 400, 500, 510, 511, 512, 513, 998, 1000, 1001, 1024, 2000, 2048, 4096, 8192)):
    """Commands that are exactly so long, with their CRLF or without."""
    out = []
    for z in sizes:
        for less in (0, 2):
            n = z - less
            fill = lambda m: "".join(rng.choice("abcdefghij.0") for _ in range(max(1, m)))
            for w in ("from", "from8", "to", "hello", "plain", "answer"):
                con, srv, ops = connect(pipe=rng.random() < 0.3), {"ehlo": [R("250", "mx", "AUTH PLAIN LOGIN XOAUTH2", *([] if w == "from" else ["8BITMIME"]), *(["PIPELINING"] if rng.random() < 0.5 else []))]}, []
                if w in ("from", "from8"):
                    ops = [send(fill(n - 14 - (14 if w == "from8" else 0)), ["b@y"], "m")]
                elif w == "to":
                    ops = [send("a@x", rng.choice([[fill(n - 12)], [fill(n - 12), "b@y"], ["b@y", fill(n - 12)]]), "m")]
                elif w == "hello":
                    con = connect(helloid={"domain": fill(n - 7)})
                elif w == "plain":
                    k = (n - 13) // 4 * 3      # base64: only every fourth length
                    if k < 8 or (n - 13) % 4:
                        continue
                    ops = [auth("PLAIN", fill(k - 6), "pass")]
                else:
                    k = (n - 2) // 4 * 3
                    if k < 3 or (n - 2) % 4:
                        continue
                    ops = [auth("LOGIN", fill(k), fill(k))]
                    srv.update(auth=[R("334", rng.choice(USERQ))], sasl=[R("334", rng.choice(PASSQ)), R("235", "in")])
                out.append(scenario("%s-%s-%d-%d" % (tag, w, z, less), [con] + ops + [send("a@x", ["b@y", "c@y"], "m"), dict(QUIT)], srv, rand_io(rng) if rng.random() < 0.5 else plain()))
    return out


PLACES = ["greeting", "ehlo", "mail", "rcpt", "data", "content", "rset", "auth", "sasl", "quit", "starttls"]


def long_replies(rng, tag="lng", places=None, counts=(30, 64, 99, 100, 101, 128, 255, 256, 257, 400), lens=(100, 510, 512, 513, 998, 1000, 1024, 2000, 4096, 9000)):
    """Many lines, long lines, in each place."""
    out = []
    n = 0
    for place in places or PLACES:
        for shape in [("n", c) for c in counts] + [("l", c) for c in lens]:
            if place == "rset":
                c = "250"
            else:
                c = {"greeting": "220", "auth": "235", "sasl": "235", "quit": "221", "starttls": "220", "data": "354"}.get(place, "250")
                if rng.random() < 0.3 and place not in ("greeting", "ehlo"):
                    c = rng.choice(NEG)
            ls = ["%d" % i for i in range(shape[1])] if shape[0] == "n" else [rng.choice(["", "a"]), "x" * shape[1]][rng.randint(0, 1):]
            if place == "ehlo":
                ls = ["mx"] + ls + ["AUTH LOGIN", "STARTTLS"]
            out.append(place_scenario("%s-%d" % (tag, n), place, R(c, *ls), rng))
            n += 1
    return out


def place_scenario(id_, place, r, rng, pipe=None):
    if pipe is None:
        pipe = rng.random() < 0.5
    srv = {"ehlo": [R("250", "mx", *(["PIPELINING"] if pipe else []), "AUTH LOGIN", "STARTTLS")]}
    ops = [connect()]
    if place in ("auth", "sasl"):
        srv["auth"] = [R("334", USERQ[0])]
        srv["sasl"] = [R("334", PASSQ[0])]
        ops += [auth("LOGIN")]
    if place == "rset":
        srv["mail"] = [R("451", "no")]
        if rng.random() < 0.5:
            srv["mail"], srv["rcpt"] = [], [R("250", "ok"), R("550", "no")]
        srv["data"] = [R("503", "no")]
    if place in ("auth", "greeting", "ehlo"):
        srv[place] = [r]
    elif place == "rcpt":
        srv["rcpt"] = [R("250", "ok")] * rng.randint(0, 1) + [r]
    elif place == "sasl":
        srv["sasl"] = srv["sasl"] * rng.randint(0, 1) + [r]
    elif place in ("mail", "data", "content"):
        k = rng.randint(0, 1)
        srv[place] = [R("354" if place == "data" else "250", "ok")] * k + [r]
    else:
        srv[place] = [r]
    ops += [send("a@x", ["b@y", "c@y"], "m"), send("a@x", ["b@y"], "n")]
    ops += [dict(TLS)] if place == "starttls" else [dict(QUIT)]
    return scenario(id_, ops, srv, rand_io(rng))


def codes(rng, tag="cod", places=None):
    """Every reply code in every place."""
    out = []
    for place in places or PLACES:
        for c in ["%d%d%d" % (a, b, x) for a in range(2, 6) for b in range(6) for x in range(10)]:
            if place in ("auth", "sasl") and c == "334":
                continue
            k = rng.random()
            ls = [text(rng)] if k < 0.6 else [text(rng) for _ in range(rng.randint(2, 3))]
            if place == "ehlo":
                ls = ["mx"] + ls
            out.append(place_scenario("%s-%s%s" % (tag, place, c), place, R(c, *ls), rng))
    return out


def group_refusals(rng, tag="gre", win=True):
    """Envelopes of several pipelined groups, one or two refusals anywhere, the same without pipelining."""
    out = []
    n = 0
    for size, count in ((1000, 22), (1300, 16), (500, 36)):
        to = ["r%02d" % i + "r" * (size - 15) for i in range(count)]
        for bad in [()] + [(i,) for i in range(count)] + [tuple(sorted(rng.sample(range(count), 2))) for _ in range(4)] + [("mail",), ("data",), ("mail", count - 1), (0, "data")]:
            srv = {"ehlo": [R("250", "mx", "PIPELINING")], "rcpt": [R("250", "ok") if i not in bad else rng.choice([R("550", "no"), R("451", "no", "later"), R("421", "bye")]) for i in range(count)]}
            if "mail" in bad:
                srv["mail"] = [R("451", "later")]
            if bad and ("data" in bad or rng.random() < 0.5):
                srv["data"] = [R(rng.choice(["503", "554"]), "no")]
            io = {"direct": rng.random() < 0.5}
            if rng.random() < 0.3 and win:
                io.update(win_c2s=4096, win_s2c=rng.choice([1, 50]))
            out.append(scenario("%s-%d" % (tag, n), [connect(pipe=n % 5 != 0), send("s@x", to, "m\r\n"), send("s@x", ["t@y"], "n\r\n"), dict(QUIT)], srv, io))
            n += 1
    return out


def contrary(rng, tag="ctr", places=None):
    """Replies whose text says the contrary of their code, in their first or in a later line."""
    out = []
    n = 0
    usual = {"greeting": "220", "ehlo": "250", "auth": "235", "sasl": "235", "quit": "221", "starttls": "220", "data": "354"}
    for place in places or PLACES:
        common = ["7.1", "7.0", "2.0", "2.2", "3.0", "3.2", "5.1", "1.1", "0.0"]
        for e, good, cl in [(e, True, cl) for e in common for cl in "45" for _ in "12"] + [(e, rng.random() < 0.5, "") for e in rng.sample(ENHANCED, 12)]:
            cl = cl or (rng.choice("45") if good else "2")
            c = usual.get(place, "250") if good else rng.choice(NEG)
            bad = rng.choice(["%s.%s %s" % (cl, e, rng.choice(WORDS))] * 4 + ["%s.%s" % (cl, e), "%s %s" % (rng.choice(NEG) if good else "250", rng.choice(WORDS))])
            plain = rng.choice(["ok", "%s.%s %s" % (c[0], e, "x"), ""])
            ls = rng.choice([[bad], [plain, bad], [bad, plain], [plain, bad, plain], [plain, plain, bad]])
            if place == "ehlo" and good:
                ls = ["mx " + ls[0]] + ls[1:]
            out.append(place_scenario("%s-%d" % (tag, n), place, R(c, *ls), rng))
            n += 1
    return out


def long_bad(rng):
    """Long replies with one line that does not belong there."""
    out = []
    for k in (2, 3, 5, 9, 10, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300):
        c = rng.choice(["250", "220", "550", "334", "451"])
        for at in sorted({0, k - 1, k // 2, rng.randrange(k)}):
            d = rng.choice([x for x in ("250", "251", "550", "220", "354", "450") if x != c])
            for bad in (d + "-x\r\n", d + "-\r\n", c + "x\r\n", c[:2] + "-x\r\n", "x\r\n", "\r\n", "-" + c + "\r\n", c + "_x\r\n"):
                ls = ["%s-l%d\r\n" % (c, i) for i in range(k)]
                ls[at] = bad
                out.append("".join(ls) + c + " end\r\n")
            out.append("".join("%s-l%d\r\n" % (c, i) for i in range(k)) + d + " end\r\n")
    return out


def round_messages(rng, tag="rme", sizes=(1, 2, 60, 64, 76, 100, 128, 250, 255, 256, 500, 512, 998, 1000, 1024, 1500, 2000, 2048, 4000, 4096, 5000, 8000, 8192, 10000, 12288, 16000, 16384, 20480, 32768, 65536, 131072)):
    """Messages of exactly so many octets, as given, with the dots that are added, or with the end."""
    out = []
    n = 0
    for z in sizes:
        for less in (0, 1, 2, 3, 5):
            k = z - less
            if k < 1:
                continue
            dots = rng.randint(0, min(3, k // 8))
            line = "".join(rng.choice("abcdefgh ") for _ in range(70)) + "\r\n"
            m = rng.choice(["m" * k, (line * (k // 72 + 1))[:k], (line * (k // 72 + 1))[:k - 2] + "\r\n" if k > 1 else "m"])
            if dots and k > 20:
                m = "." + m[1:-4] + rng.choice(["\r\n..", "\r\n.x"]) if rng.random() < 0.5 else "\r\n.." * dots + m[4 * dots:]
            assert len(m) == k, (len(m), k)
            src = {} if rng.random() < 0.6 else {"src": {"chunks": [rng.choice([z, 512, 1000, 4096, 8192])]}}
            srv = {"ehlo": [R("250", "mx", *(["PIPELINING"] if rng.random() < 0.5 else []))], "content": [R("250", "first"), R("250", "second")]}
            out.append(scenario("%s-%d-%d" % (tag, z, less), [connect(), send("a@x", ["b@y"], m, **src), send("a@x", ["c@y"], "small"), dict(QUIT)], srv, rng.choice([{"direct": False}, {"direct": True}, {"direct": False, "pend": [0, 1]}])))
            n += 1
    return out


def many(rng, tag="many"):
    """Many emails on a connection, many recipients of an email, without pipelining too."""
    out = []
    for n in (70, 130, 260):
        neg = [R("250", "ok")] * 9 + [R("550", "no")]
        srv = {"ehlo": [R("250", "mx", *(["PIPELINING"] if n == 130 else []))], "rcpt": [rng.choice(neg) for _ in range(n)]}
        out.append(scenario("%s-s%d" % (tag, n), [connect()] + [send("a%d@x" % i, ["b@y"], "m%d" % i) for i in range(n)] + [dict(QUIT)], srv, {"direct": True}))
    for n in (50, 99, 100, 101, 128, 250, 255, 256, 257, 300):
        for pipe in (False, True):
            for bad in (None, n - 1, rng.randrange(n)):
                srv = {"ehlo": [R("250", "mx", *(["PIPELINING"] if pipe else []))]}
                if bad is not None:
                    srv["rcpt"] = [R("250", "ok")] * bad + [R("550", "no")]
                    srv["data"] = [R(rng.choice(["503", "554"]), "no")]
                out.append(scenario("%s-r%d-%d-%s" % (tag, n, pipe, bad), [connect(pipe=rng.random() < 0.8), send("s@x", ["r%d@y" % i for i in range(n)], "m"), send(None, ["t@y"], "n"), dict(QUIT)], srv,
                                    {"direct": rng.random() < 0.5}))
    return out


def all_cuts(rng, tag="cut"):
    """One dialogue, every size of the pieces in which replies arrive."""
    out = []
    srv = {"greeting": [R("220", "mx", "hello")], "ehlo": [R("250", "mx", "PIPELINING", "AUTH LOGIN")], "mail": [R("250", "ok", "")], "rcpt": [R("250", "x")] * 2 + [R("550", "no", "such")],
           "auth": [R("334", USERQ[0])], "sasl": [R("334", PASSQ[0]), R("235", "in")]}
    ops = [connect(), login(["LOGIN"]), send("a@x", ["b@y", "c@y"], "m"), send("a@x", ["b@y"], "n"), send("d@x", ["e@y"], "o"), dict(QUIT)]
    for n in range(1, 90):
        for d in (False, True):
            out.append(scenario("%s-%d%s" % (tag, n, "d" if d else ""), ops, srv, {"direct": d, "rchunks": [n], "pend": [0, 1]}))
            out.append(scenario("%s-f%d%s" % (tag, n, "d" if d else ""), ops, srv, {"direct": d, "rchunks": [n] + [1000] * 7}))
    return out


# ---------------------------------------------------------------- messages of octets


def octets(rng, msgs, tag, per=15, srcs=None):
    """Messages, several on a connection."""
    out = []
    for i in range(0, len(msgs), per):
        srv = {"ehlo": [R("250", "mx", *(["PIPELINING"] if i % 2 else []))]}
        ops = [connect()]
        for m in msgs[i:i + per]:
            kw = {}
            if srcs and rng.random() < 0.5:
                kw["src"] = {"chunks": [rng.choice(srcs) for _ in range(rng.randint(1, 3))], "pend": [rng.randint(0, 1), 0]}
            ops.append(send("a", ["b"], bytes(m), **kw))
        io = {"direct": rng.random() < 0.5}
        if rng.random() < 0.3:
            io["wchunks"] = [rng.choice([1, 2, 3, 5, 100])]
        out.append(scenario("%s-%d" % (tag, i // per), ops, srv, io, bytes=True))
    return out


def all_messages(rng, upto, tag="all"):
    import itertools
    msgs = [bytes(t) for r in range(upto + 1) for t in itertools.product(b"\r\n.x", repeat=r)]
    rng.shuffle(msgs)
    return octets(rng, msgs, tag, srcs=[1, 2, 3])


def big_messages(rng, tag="big", sizes=None, per_size=2):
    msgs = []
    pats = [b"\r\n.", b"\r\n.\r\n", b"\r\n..", b"\r\r\n.", b"\n.", b"\r.", b".\r\n", b"\r\n.\r", b"\r\n.\n"]
    for n in sizes or [1024, 2048, 4096, 8192, 16384]:
        for d in range(-4, 5):
            for _ in range(per_size):
                p = rng.choice(pats)
                at = n + d - rng.randint(0, len(p))
                m = bytearray(b"x" * (n + rng.randint(0, 40)))
                m[at:at + len(p)] = p
                msgs.append(bytes(m))
    return octets(rng, msgs, tag, per=3, srcs=[1000, 1024, 4096, 5000, 8191, 8192, 100000])


def bulky(rng, tag="bulk", sizes=(5000, 9000, 20000, 66000, 100001, 140000, 300000)):
    """Messages beyond any buffer: of one thing throughout, with another at either end."""
    fill = [b"x", b".", b"\r\n", b"\r", b"\n", b"\r\n.", b"x" * 997 + b"\r\n", b".\r\n", b"\0", b"\xff", b"a line of text\r\n", None]
    ends = [b"", b".", b"\r\n", b"\r\n.", b"\r", b"\n", b"\r\n.\r\n", b"\r\n.\r", b"..", b" ", b"\r\n\r\n", b"."]
    out = []
    n = 0
    for z in sizes:
        for f in fill:
            for _ in range(2 if z < 50000 else 1):
                if f is None:
                    b = bytes(rng.getrandbits(8) for _ in range(z))
                else:
                    b = f * (z // len(f) + 1)
                m = (rng.choice(ends) if rng.random() < 0.5 else b"") + b + rng.choice(ends)
                src = {} if rng.random() < 0.5 else {"src": {"chunks": [rng.choice([1000, 8192, 10000, 65536, 10000000])]}}
                srv = {"ehlo": [R("250", "mx", *(["PIPELINING"] if rng.random() < 0.5 else []))], "content": [R("250", "first"), R("250", "second")]}
                io = {"direct": rng.random() < 0.3}
                if rng.random() < 0.3:
                    io["wchunks"] = [rng.choice([500, 4096, 8192, 65535, 100000])]
                out.append(scenario("%s-%d" % (tag, n), [connect(), send("a@x", ["b@y"], m.decode("latin-1"), **src), send("a@x", ["c@y"], "small"), dict(QUIT)], srv, io))
                n += 1
    return out


def large(rng, tag="large", sizes=(65000, 65536, 65537, 131072, 200000, 262145, 1048576, 1050001, 2200000, 10600000)):
    """Messages beyond any buffer, in streams that keep everything until they are flushed and others."""
    out = []
    for n in sizes:
        for kind in (0, 1):
            m = "x" * n if kind == 0 else ("0123456789" * 7 + "\r\n") * (n // 72 + 1)
            m = m[:n]
            at = rng.choice([0, n // 2 // 72 * 72, n // 72 * 72])
            m = m[:at] + "." + m[at:]
            src = {} if rng.random() < 0.5 else {"src": {"chunks": [rng.choice([8192, 10000, 65536, 10000000])]}}
            srv = {"ehlo": [R("250", "mx", *(["PIPELINING"] if rng.random() < 0.5 else []))], "content": [R("250", "first %d" % n), R("250", "second")]}
            io = {"direct": rng.random() < 0.3}
            if rng.random() < 0.3:
                io["wchunks"] = [rng.choice([4096, 8192, 65535, 100000])]
            out.append(scenario("%s-%d-%d" % (tag, n, kind), [connect(), send("a@x", ["b@y"], m, **src), send("a@x", ["c@y"], "small"), dict(QUIT)], srv, io))
    return out


EDGES = [b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\0", b"\0\0\0", b"\r", b"\n", b"\r\n", b"\n\n", b"\r\n\r\n", b" ", b"\t", b"   ", b">From x", b"From x", b"From: a@b\r\n", b"Bcc: c@d\r\n", b"Subject: x\r\n",
         b"Return-Path: <a>\r\n", b"Received: by x\r\n", b"\x1a", b"\x04", b"\x7f", b"\x80", b"\xff", b"\xc3", b"\xe2\x80\xa8", b"\x1b[", b"\x08", b"\x0b", b"\x0c", b"\x85", b"\xa0", b"--", b"-- \r\n", b".", b"..", b".\r\n", b"\r\n.",
         b"\n.", b"\r.", b"QUIT\r\n", b"RSET\r\n", b"\x1f\x8b", b"MIME-Version: 1.0\r\n", b"=", b"=\r\n", b"\\", b"\"", b"<", b"DKIM-Signature: a\r\n", b"Content-Transfer-Encoding: 8bit\r\n", b"\xfb", b"\xf0\x9f\x98\x80",
         b"\xef\xbb\xbf.", b"\xef\xbb\xbf..", b"\xff\xfe.", b"\xe2\x80\xa8.", b"\xc2\x85.", b" .", b"\t.", b"\0.", b"\x0c.", b"\x0b.", b"\x85.", b"\xa0.", b"\xc2\xa0.", b"\xe2\x80\x8b.", b"\x1b.", b"\x08.", b"--.",
         b"begin 644 x\r\n.", b"=\r\n.", b">.", b"=2E", b"=2E\r\n", b"\r\n.\n", b"\n.\r\n", b"\r.\r", b"\r\n.\r", b"\xef\xbc\x8e", b"\xe3\x80\x82"]


def edge_messages(rng, tag="edg", limit=None):
    """What a message may begin or end with."""
    msgs = []
    for x in EDGES:
        msgs += [x, x + b"body", b"body" + x, x + b"\r\nbody\r\n", b"body\r\n" + x, b"a" + x + b"b", x + x, b"a\r\n" + x + b"\r\nb\r\n", x + rng.choice(EDGES), rng.choice(EDGES) + x]
    for n in (72, 76, 77, 78, 79, 255, 256, 510, 512, 990, 997, 998, 999, 1000, 1001, 1024, 2000, 5000):      # long lines
        msgs += [b"x" * n, b"x" * n + b"\r\ny", b"y\r\n" + b"x" * n + b"\r\n.z"]
    for c in range(256):
        msgs.append(bytes([c, 46, c, 13, 10, c]))
    rng.shuffle(msgs)
    if limit:
        msgs = msgs[:limit]
    return octets(rng, msgs, tag, srcs=[1, 2, 7, 100])


def random_messages(rng, count, tag="rnd", maxlen=200):
    msgs = []
    for _ in range(count):
        n = rng.randint(0, maxlen)
        k = rng.random()
        if k < 0.4:
            m = bytes(rng.choice(b"\r\n.") if rng.random() < 0.8 else rng.randint(0, 255) for _ in range(n))
        elif k < 0.6:
            m = bytes(rng.randint(0, 255) for _ in range(n))
        else:
            m = b"".join(rng.choice([b"\r\n", b".", b"..", b"text", b"\r\n.\r\n", b"\r\n..", b"\n", b"\r", b"QUIT\r\n", b"MAIL FROM:<x>\r\n", bytes([rng.randint(0, 255)])]) for _ in range(n // 4))
        msgs.append(m)
    return octets(rng, msgs, tag, srcs=[1, 2, 7, 100])


def failing_octets(rng, count, tag="fail"):
    """The source of the message fails after some octets, also behind internal buffers."""
    out = []
    for n in range(count):
        m = b"line\r\n.x\r\n" * rng.choice([1, 3, 100, 900])
        at = rng.choice([0, 1, len(m) // 2, len(m), rng.randint(0, len(m))])
        src = {"chunks": [rng.choice([1, 10, 1000, 9000]) if len(m) < 2000 else rng.choice([1000, 8192])], "pend": [rng.randint(0, 1), 0], "err_at": at, "err": rng.choice(ERRS2), "err_once": rng.random() < 0.5}
        srv = {"ehlo": [R("250", "mx", *(["PIPELINING"] if n % 2 else []))]}
        out.append(scenario("%s-%d" % (tag, n), [connect(), send("a", ["b"], b"first"), send("a", ["b"], m, src=src), send("a", ["b"], b"later")], srv,
                            {"direct": n % 3 == 0}, bytes=True))
    return out


# ---------------------------------------------------------------- commands, building blocks, refusals, emails


def line_text(rng, n=None):
    """A text without line ends, octets of UTF-8."""
    n = rng.choice([0, 1, 2, 5, 20, 100, 600]) if n is None else n
    if lit(rng):
        return lit_text(rng)
    k = rng.random()
    if k < 0.5:
        s = "".join(chr(rng.randint(33, 126)) for _ in range(n))
    elif k < 0.8:
        s = "".join(rng.choice("abc .:-[]<>@\"'\\%\t019") for _ in range(n))
    else:
        s = rand_text(rng, n).replace("\r", "r").replace("\n", "n")
    return u8(s)


def v6_cases(rng, count):
    import itertools
    for g in itertools.product([0, 1, 0xffff], repeat=8):
        if rng.random() < count / 3.0 / 6561:
            yield list(g)
    for _ in range(count):
        yield [rng.choice([0, 0, 0, 1, 0xa, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0x8000, 0xffff, rng.getrandbits(16)]) for _ in range(8)]
    for tail in ([0x0a01, 0x0203], [0, 1], [0xc0a8, 0x0101], [0xffff, 0xffff]):
        yield [0] * 5 + [0xffff] + tail
        yield [0] * 6 + tail
        yield [0x64, 0xff9b, 0, 0, 0, 0] + tail


def cmd_ops(rng, thorough=False):
    ops = [{"op": "cmd", "c": c} for c in ("STARTTLS", "DATA", "QUIT", "NOOP", "RSET", "EHLODEF")]
    ops += [{"op": "cmd", "c": "HELP", "has": False, "arg": ""}]
    for g in v6_cases(rng, 3000 if thorough else 500):
        ops.append({"op": "cmd", "c": "EHLO6", "groups": g})
    for _ in range(1000 if thorough else 200):
        ops.append({"op": "cmd", "c": "EHLO4", "arg": ".".join(str(rng.choice([0, 1, 9, 10, 99, 100, 127, 199, 200, 254, 255, rng.randint(0, 255)])) for _ in range(4))})
    verbs = ["HELP", "DATA", "QUIT", "NOOP", "RSET", "VRFY", "EXPN", "EHLO", "HELO", "MAIL", "RCPT", "AUTH", "STARTTLS", "BDAT", "TURN", "ETRN", "LHLO", "MAIL FROM", "MAIL FROM:<>", "SIZE", "*", "=", "-", ".", "..", "?", "/", "\\", "localhost", "localhost.localdomain",
             "unknown", "none", "null", "postmaster", "Postmaster", "all", "staff-list", "user", "user@host", "<user@host>", "<>", "\"Smith\"", "127.0.0.1", "[127.0.0.1]", "::1", "[::1]", "[IPv6:::1]", "IPv6:::1", "0.0.0.0", "[]", "a.b.", ".a", "A.B", "xn--a", "x" * 255, "x" * 510]
    for v in verbs + [v.lower() for v in verbs]:
        for c in ("EHLO", "VRFY", "EXPN", "HELP"):
            for x in (v, v + " x", " " + v, v + " "):
                ops.append({"op": "cmd", "c": c, "arg": x} if c != "HELP" else {"op": "cmd", "c": c, "has": True, "arg": x})
    for _ in range(4000 if thorough else 500):
        a = line_text(rng)
        ops.append({"op": "cmd", "c": "EHLO", "arg": a})
        ops.append({"op": "cmd", "c": rng.choice(["VRFY", "EXPN"]), "arg": a})
        ops.append({"op": "cmd", "c": "HELP", "has": True, "arg": a})
    # parameters: every sequence of up to three of them, and longer ones
    import itertools
    def par(k):
        p = {"k": k, "w": "", "v": "", "has": False}
        if k == "size":
            p["v"] = str(rng.choice([0, 1, 9, 10, 12345, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 1, rng.getrandbits(40)]))
        elif k == "other":
            p["w"] = "".join(rng.choice("ABCXYZ-019ab") for _ in range(rng.randint(1, 9)))
            p["has"] = rng.random() < 0.6
            if p["has"]:
                # what needs no encoding; the encoding is C08
                p["v"] = "".join(chr(rng.choice([c for c in range(33, 127) if chr(c) not in "+="])) for _ in range(rng.choice([0, 1, 3, 20, 300])))
        return p
    kinds = ["body7", "body8", "utf8", "size", "other"]
    frms = ["", "a@b", "a", "x" * 300 + "@y"]
    for r in range(0, 5 if thorough else 4):
        for t in itertools.product(kinds, repeat=r):
            ops.append({"op": "cmd", "c": "MAIL", "from": rng.choice(frms) if rng.random() < 0.5 else addr(rng, rng.randint(1, 60)), "ps": [par(k) for k in t]})
    for _ in range(3000 if thorough else 400):
        ops.append({"op": "cmd", "c": "RCPT", "from": addr(rng), "ps": [par("other") for _ in range(rng.choice([0, 1, 1, 2, 3, 8, 30]))]})
        ops.append({"op": "cmd", "c": "MAIL", "from": addr(rng, rng.randint(1, 60)), "ps": [par(rng.choice(kinds)) for _ in range(rng.choice([4, 5, 8, 30]))]})
    return ops


def challenge_ops(rng, thorough=False):
    """What is no challenge, or asks for something else: the error says so."""
    return [dict(o, why=True) for o in authcmd_ops(rng, thorough) if o["op"] == "authresp"]


def variants(rng, w):
    """Texts that are nearly w."""
    out = [w, w.upper(), w.lower(), w.swapcase(), w + ".", w + " ", " " + w, w + w, w[1:], w[:-1], w[::-1], w.replace("@", ""), w.replace(".", ""), w + "0", "0" + w, w + "a", w.capitalize(), w[: len(w) // 2]]
    if "@" in w:
        a, b = w.split("@", 1)
        out += [a.upper() + "@" + b, a + "@" + b.upper(), b + "@" + a, a + "+x@" + b, a + "@" + b + ".", a.replace(".", "") + "@" + b, a + "@", "@" + b, '"' + a + '"@' + b]
    return out


def value_ops(rng, thorough=False):
    """Pairs of values of every public type, equal or nearly so."""
    ops = []
    def put(what, a, b):
        ops.append({"op": "values", "what": what, "a": a, "b": b})
        ops.append({"op": "values", "what": what, "a": b, "b": a})
        ops.append({"op": "values", "what": what, "a": a, "b": a})
    ok = lambda w: all(c in ADDR_CHARS for c in w)
    words = ["a", "", "Ann@example.org", "ann.b+c@x.y", "x@localhost", "root", "User", "pass word", "größe", "\u212a", "ſ", "K", "1", "01", "é", "e\u0301", "\x00", "a" * 300, "tab\t", "250", "AUTH", "true"] + list(NEW_STRS[:6])
    pairs = [(w, v) for w in words for v in variants(rng, w)] + [(rng.choice(words), rng.choice(words)) for _ in range(60)]
    for w, v in pairs:
        if ok(w) and ok(v):
            put("addr", {"s": w}, {"s": v})
            put("env", {"from": w, "to": ["x@y", "z@y"]}, {"from": v, "to": ["x@y", "z@y"]})
            put("env", {"from": "", "to": [w, "z@y"]}, {"from": "", "to": [v, "z@y"]})
            put("env", {"from": "s@t", "to": ["x@y", w]}, {"from": "s@t", "to": ["x@y", v]})
            put("env", {"from": "s@t", "to": [w, v]}, {"from": "s@t", "to": [v, w]})
            put("env", {"from": w, "to": [v, "z@y"]}, {"from": v, "to": [w, "z@y"]})
            put("env", {"from": w, "to": [v]}, {"from": w, "to": [v, v]})
            put("mail", {"from": w, "ps": []}, {"from": v, "ps": []})
            put("rcpt", {"from": w, "ps": []}, {"from": v, "ps": []})
        w, v = u8(w), u8(v)
        put("cred", {"user": w, "pass": "p"}, {"user": v, "pass": "p"})
        put("cred", {"user": "u", "pass": w}, {"user": "u", "pass": v})
        put("cred", {"user": w, "pass": v}, {"user": v, "pass": w})
        put("cred", {"user": w + v, "pass": "z"}, {"user": w, "pass": v + "z"})
        put("id", {"k": "name", "v": w}, {"k": "name", "v": v})
        put("ehlo", {"k": "name", "v": w}, {"k": "name", "v": v})
        put("info", {"name": w, "features": ["PIPELINING"]}, {"name": v, "features": ["PIPELINING"]})
        for c in ("250", "550"):
            put("reply", {"code": c, "lines": [w]}, {"code": c, "lines": [v]})
            put("reply", {"code": c, "lines": ["x", w]}, {"code": c, "lines": ["x", v]})
            put("reply", {"code": c, "lines": [w, v]}, {"code": c, "lines": [v, w]})
            put("reply", {"code": c, "lines": [w + v]}, {"code": c, "lines": [w, v]})
            put("reply", {"code": c, "lines": []}, {"code": c, "lines": [w]})
        for has in (True, False):
            put("help", {"has": True, "s": w}, {"has": has, "s": v if has else ""})
        put("vrfy", {"s": w}, {"s": v})
        put("expn", {"s": w}, {"s": v})
        for m in ("PLAIN", "XOAUTH2"):
            put("auth", {"mech": m, "user": w, "pass": "p", "has": False, "chal": ""}, {"mech": m, "user": v, "pass": "p", "has": False, "chal": ""})
            put("auth", {"mech": m, "user": "u", "pass": w, "has": False, "chal": ""}, {"mech": m, "user": "u", "pass": v, "has": False, "chal": ""})
        def par(k, word="", val="", has=False):
            return {"k": k, "w": word, "v": val, "has": has}
        for p, q in ((par("other", w), par("other", v)), (par("other", "K", w, True), par("other", "K", v, True)), (par("other", "K", w, True), par("other", "K")), (par("other", w, v, True), par("other", v, w, True))):
            put("mail", {"from": "a@b", "ps": [p]}, {"from": "a@b", "ps": [q]})
            put("rcpt", {"from": "a@b", "ps": [p, p]}, {"from": "a@b", "ps": [p, q]})
    pars = [par("body7"), par("body8"), par("utf8"), par("size", "", "0"), par("size", "", "1"), par("size", "", str(2 ** 64 - 1)), par("other", "SMTPUTF8"), par("other", "SIZE", "1", True)]
    lists = [[]] + [[p] for p in pars] + [[p, q] for p in pars for q in pars]
    for _ in range(6000 if thorough else 400):
        put("mail", {"from": "a@b", "ps": rng.choice(lists)}, {"from": rng.choice(["a@b", "a@b", "", "b@a"]), "ps": rng.choice(lists)})
    mechs = ["PLAIN", "LOGIN", "XOAUTH2"]
    exts = ["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS"] + ["AUTH " + m for m in mechs]
    for m in mechs:
        for k in mechs:
            put("mech", {"s": m}, {"s": k})
            put("auth", {"mech": m, "user": "u", "pass": "p", "has": False, "chal": ""}, {"mech": k, "user": "u", "pass": "p", "has": False, "chal": ""})
    put("auth", {"mech": "LOGIN", "user": "u", "pass": "p", "has": True, "chal": "Username:"}, {"mech": "LOGIN", "user": "u", "pass": "p", "has": False, "chal": ""})
    put("auth", {"mech": "LOGIN", "user": "u", "pass": "p", "has": True, "chal": "Username:"}, {"mech": "LOGIN", "user": "u", "pass": "p", "has": True, "chal": "Password:"})
    for e in exts:
        for k in exts:
            put("ext", {"s": e}, {"s": k})
    sets = [sorted(x for i, x in enumerate(exts) if m >> i & 1) for m in range(128)]
    for a in sets:
        put("info", {"name": "mx", "features": a}, {"name": "mx", "features": rng.choice(sets)})
        for e in exts:
            if e in a:
                put("info", {"name": "mx", "features": a}, {"name": "mx", "features": [x for x in a if x != e]})
    codes = ["%d%d%d" % (a, b, x) for a in range(2, 6) for b in range(6) for x in range(10)]
    for c in codes:
        for k in [rng.choice(codes), c[0] + c[2] + c[1] if c[2] < "6" else c, c[:2] + rng.choice("0123456789"), c[0] + rng.choice("012345") + c[2], rng.choice("2345") + c[1:]]:
            put("code", {"s": c}, {"s": k})
            put("reply", {"code": c, "lines": ["x"]}, {"code": k, "lines": ["x"]})
    # Every two codes, in one order or the other.
    for i, c in enumerate(codes):
        for k in codes[i + 1:]:
            x, y = (c, k) if rng.random() < 0.5 else (k, c)
            ops.append({"op": "values", "what": "code", "a": {"s": x}, "b": {"s": y}})
    ids = [("v4", "127.0.0.1"), ("v4", "0.0.0.0"), ("v4", "127.0.0.2"), ("v4", "1.0.0.127"), ("v6", "::1"), ("v6", "::"), ("v6", "::ffff:127.0.0.1"), ("v6", "1::"), ("v6", "2001:db8::1"), ("name", "127.0.0.1"), ("name", "[127.0.0.1]"), ("name", "::1"), ("name", "[IPv6:::1]")]
    for k, v in ids:
        for l, x in ids:
            for what in ("id", "ehlo"):
                put(what, {"k": k, "v": v}, {"k": l, "v": x})
    return ops


def authcmd_ops(rng, thorough=False):
    ops = [{"op": "defaults"}]
    known = ["User Name", "Username:", "Username", "Password", "Password:"]
    near = near_prompts()
    def base(op, mech):
        op["mech"] = mech
        return cred(op, rng.choice(USERS) if rng.random() < 0.5 else text_any(rng), rng.choice(PASSES) if rng.random() < 0.5 else text_any(rng))
    for mech in ("PLAIN", "LOGIN", "XOAUTH2"):
        for u in USERS:
            for p in PASSES:
                o = {"op": "authcmd", "mech": mech, "has": False, "chal": ""}
                ops.append(cred(o, u, p))
        for c in known + near:
            for _ in range(3 if c in known else 1):
                ops.append(base({"op": "authcmd", "has": True, "chal": u8(c)}, mech))
        for _ in range(3000 if thorough else 300):
            has = rng.random() < 0.6
            ops.append(base({"op": "authcmd", "has": has, "chal": u8(rng.choice(known) if rng.random() < 0.6 else rng.choice(near)) if has else ""}, mech))
        for c in known + near:
            ops.append(base({"op": "authresp", "why": False, "code": "334", "lines": [u8(b64(c))]}, mech))
        for _ in range(4000 if thorough else 500):
            c = "334" if rng.random() < 0.7 else rng.choice("2345") + rng.choice("012345") + rng.choice("0123456789")
            ls = chal_lines(rng) if rng.random() < 0.95 else []
            ops.append(base({"op": "authresp", "why": False, "code": c, "lines": ls}, mech))
    for c in ["%d%d%d" % (a, b, x) for a in range(2, 6) for b in range(6) for x in range(10)]:
        ops.append(base({"op": "authresp", "why": False, "code": c, "lines": [rng.choice(USERQ + PASSQ)]}, "LOGIN"))
    return ops


def error_ops(rng, thorough=False):
    ops = []
    texts = ["", "no", "no such user", "a; b", ";", "; ", " lead", "trail ", "\ttab", "x" * 600, "transient: ", "permanent: x", "550 5.1.1 <a@b>: unknown", "%s {} {0}", u8("größe ☃"), "\x01", "-", "undetailed error during SMTP transaction"]
    for c in ["%d%d%d" % (a, b, x) for a in range(2, 6) for b in range(6) for x in range(10)]:
        for k in range(8 if thorough else 4):
            ls = [rng.choice(texts) for _ in range(k if k < 4 else rng.choice([5, 20, 99, 100, 101, 300]))]
            ops.append({"op": "error", "code": c, "lines": ls, "words": True})
    for a in texts:
        for b in texts:
            ops.append({"op": "error", "code": rng.choice("45") + rng.choice("012345") + rng.choice("0123456789"), "lines": [a, b], "words": True})
    for e in ENHANCED:      # enhanced status codes in front of the text, on every line
        for c in "245":
            for code_ in ("%s%s%s" % (c, rng.choice("012345"), rng.choice("0123456789")), rng.choice(NEG)):
                st = rng.choice(["%s.%s" % (c, e), "%s.%s" % (rng.choice("245"), e)])
                ls = ["%s%s%s" % (st if k == 0 or rng.random() < 0.7 else "", rng.choice([" ", " ", "  ", "-", ": ", ""]), rng.choice(PHRASES + WORDS)) for k in range(rng.choice([1, 1, 2, 3]))]
                if all(ord(x) < 127 for x in "".join(ls)):
                    ops.append({"op": "error", "code": code_, "lines": ls, "words": True})
    for _ in range(4000 if thorough else 400):
        ls = [line_text(rng, rng.choice([0, 1, 5, 30, 510])) for _ in range(rng.choice([1, 1, 2, 3, 10]))]
        ops.append({"op": "error", "code": rng.choice("45") + rng.choice("012345") + rng.choice("0123456789"), "lines": ls, "words": all(ord(c) < 127 for c in "".join(ls)) and not any(c in "".join(ls) for c in "\x0b\x0c\x1c\x1d\x1e\x1f")})
    return ops


def failure_ops(rng, thorough=False):
    texts = ["", "x", "no route to host", "a: b", "io: ", "client: x", "%s {}", u8("größe ☃"), " x ", "x" * 300, "\x01", "timed out", "incomplete"]
    ops = [{"op": "failure", "what": "io", "kind": k, "text": t} for k in ERRS2 for t in texts]
    ops += [{"op": "failure", "what": w, "text": t} for w in ("client", "resp") for t in texts]
    ops += [{"op": "failure", "what": "addr", "text": t} for t in texts + ["1.2.3", "1.2.3.4.5", "::g", "[::1]", "256.1.1.1"]]
    ops += [{"op": "failure", "what": "utf8", "b": b, "text": ""} for b in ([255], [65, 0xc3], [0xe2, 0x82], [65, 66, 0xed, 0xa0, 0x80, 67], [0xf5, 0x80, 0x80, 0x80])]
    return ops + [{"op": "failure", "what": "resolution", "text": ""}]


def email_ops(rng, thorough=False):
    ops = []
    def one(data, reader, src, sizes, null=None, n=None):
        to = [addr(rng) for _ in range(n or rng.choice([1, 1, 2, 5]))]
        if len(to) > 1 and rng.random() < 0.3:
            to[-1] = to[0]
        null = rng.random() < 0.2 if null is None else null
        o = {"op": "email", "null": null, "from": "" if null else addr(rng), "to": to, "b": list(data), "reader": reader, "sizes": sizes}
        if reader:
            o["src"] = src
        ops.append(o)
    datas = [b"", b".", b"a", b"\r\n", b"hello\r\n", bytes(range(256)), b"x" * 4096, b"\r\n.\r\n" * 50, b"\0" * 9] + EDGES + [x + b"body" for x in EDGES] + [b"body" + x for x in EDGES]
    for n, d in enumerate(datas):
        if n > 9 and not thorough:
            one(d, n % 2 == 0, {"chunks": [rng.choice([1, 3, 100])], "pend": [0]}, [rng.choice([1, 3, 100])])
            one(d, n % 2 == 1, {"chunks": [rng.choice([1, 3, 100])], "pend": [0]}, [rng.choice([1, 3, 100])])
            continue
        for sz in ([1], [2], [3], [7], [100], [4096], [8192], [100000], [1, 2, 3, 50], [5, 0, 5]):
            one(d, False, None, sz)
            for _ in range(2):
                src = {"chunks": [rng.choice([1, 2, 3, 7, 1000]) for _ in range(rng.randint(1, 4))], "pend": [rng.randint(0, 1) for _ in range(rng.randint(1, 5))] + [0]}
                one(d, True, src, sz)
    for _ in range(3000 if thorough else 400):
        n = rng.choice([0, 1, 2, 10, 50, 200])
        d = bytes(rng.choice(b"\r\n.x") if rng.random() < 0.5 else rng.randint(0, 255) for _ in range(n))
        src = {"chunks": [rng.choice([1, 2, 3, 7, 1000]) for _ in range(rng.randint(1, 4))], "pend": [rng.randint(0, 1) for _ in range(rng.randint(1, 5))] + [0]}
        if rng.random() < 0.5:
            src["err_at"], src["err"], src["err_once"] = rng.randint(0, n), rng.choice(ERRS), rng.random() < 0.5
        one(d, rng.random() < 0.8, src, [rng.choice([1, 2, 3, 5, 8, 100, 1000]) for _ in range(rng.randint(1, 4))])
    for n in (20, 100, 300):
        one(b"m", False, None, [10], n=n)
    return ops


# ---------------------------------------------------------------- several connections


def together(rng, count, tag="tog"):
    """Connections side by side: one polled while another waits."""
    out = []
    for n in range(count):
        k = rng.choice([2, 2, 3, 4, 6])
        scs = []
        for j in range(k):
            kinds = rng.choice([["send"], ["send", "send", "auth"], ["login", "send"], ["send", "starttls"], None])
            s = rand_session(rng, "%s-%d-%d" % (tag, n, j), neg=rng.choice([0, 0.15, 0.4]), ops=rng.choice([1, 2, 3, 5]), kinds=kinds)
            s["io"]["pend"] = rng.choice([[1, 0], [1, 1, 0], [0, 1, 0, 0], [1, 0, 0, 0, 0]])
            if rng.random() < 0.5:
                s["io"].setdefault("rchunks", [rng.choice([1, 3, 10, 50])])
            if rng.random() < 0.5:
                s["io"].setdefault("wchunks", [rng.choice([1, 3, 10, 50])])
            k2 = rng.random()
            if k2 < 0.15:
                s["io"]["fault"] = {"kind": rng.choice(["write", "flush", "read", "eof"]), "at": rng.randint(1, 12), "sticky": rng.random() < 0.5, "err": rng.choice(ERRS2)}
            elif k2 < 0.3:
                o = rng.choice(s["ops"][1:])
                o["cancel"] = rng.randint(1, 12)
            scs.append(s)
        if rng.random() < 0.6:      # the same server, and users and addresses that are alike
            for s in scs:
                for r in s["server"].get("ehlo", []) + s["server"].get("greeting", []):
                    if r.get("lines") and "raw" not in r:
                        r["lines"][0] = "mx.example.org"
                if rng.random() < 0.3:
                    for r in s["server"]["ehlo"]:
                        if "raw" not in r:
                            r["lines"] = r["lines"][:1]
                for o in s["ops"]:
                    if o["op"] in ("auth", "login"):
                        cred(o, "user", rng.choice(["pw", "wp"]))
                    if o["op"] == "connect" and rng.random() < 0.5:
                        o.update(connect(o["greet"], o["pipe"], o["utf8"], {"domain": "me"}))
        turns = [] if rng.random() < 0.3 else [rng.randrange(k) for _ in range(rng.choice([3, 10, 50]))]
        if turns and set(turns) != set(range(k)):
            turns += list(range(k))
        out.append({"id": "%s-%d" % (tag, n), "ops": [], "server": {}, "io": {}, "greets": True, "together": scs, "turns": turns})
    return out


# ---------------------------------------------------------------- what the source mentions


USUALC = {"greeting": "220", "ehlo": "250", "auth": "235", "sasl": "235", "quit": "221", "starttls": "220", "data": "354"}


def lit_words(rng, base):
    return NEW_STRS + rng.sample(LIT_STRS, min(base, len(LIT_STRS)))


def near_nums(most, least=1, base=True):
    return sorted({m for n in NEW_NUMS + (LIT_NUMS if base else []) for m in (n - 1, n, n + 1) if least <= m <= most and (n in NEW_NUMS or n > 9)})


def lit_replies(rng, tag="lre", places=None, limit=900):
    """Replies with the words of the source, and refusals of one to five lines."""
    out = []
    for place in places or PLACES:
        usual = USUALC.get(place, "250")
        cases = []
        for w in NEW_STRS * 4 + rng.sample(LIT_STRS, min(5, len(LIT_STRS))):
            w = u8("".join(c for c in lit_form(rng, w) if ord(c) >= 32 and ord(c) != 127))
            plain_ = rng.choice(["ok", "", "2.0.0 x"])
            ls = rng.choice([[w], [w], [w], [plain_, w], [w, plain_], [w, w], [plain_, w, plain_]])
            cases.append((rng.choice([usual, usual, rng.choice(NEG), "250"]), ls, None))
        new = ["%d" % n for n in NEW_NUMS if 200 <= n <= 559 and n // 10 % 10 < 6]
        for c in new:
            for k in (1, 2, 3, 4):
                cases += [(c, [text(rng) for _ in range(k)], p) for p in (False, True)]
        for c in rng.sample(NEG, 9):
            cases.append((c, [rng.choice(["no", text(rng)]) for _ in range(rng.randint(2, 5))], None))
        for n in near_nums(300):
            cases.append((rng.choice([usual, rng.choice(new + NEG)]), rng.choice([["l%d" % i for i in range(n)], [""] * (n - 1) + ["end"], ["same"] * n]), None))
        for n in near_nums(9000, 6):
            cases.append((rng.choice([usual, rng.choice(new + NEG)]), [("t" * n)[:n - 4 if rng.random() < 0.5 else n]], None))
        for c, ls, pipe in cases:
            if place in ("auth", "sasl") and c == "334":
                continue
            if place == "ehlo" and c[0] in "23":
                ls = ["mx " + ls[0]] + ["X-" + x for x in ls[1:]]
            out.append(place_scenario("%s-%s-%d" % (tag, place, len(out)), place, R(c, *ls), rng, pipe))
    return out if len(out) <= limit else rng.sample(out, limit)


def counts(rng, tag="cnt", limit=400):
    """Every small number of recipients; the numbers of the source as numbers of things."""
    out = []
    for n in sorted(set(range(1, 41)) | set(near_nums(300))):
        for pipe in (False, True):
            for bad in [None, rng.randrange(n)] if n in near_nums(300) else [rng.choice([None, None, rng.randrange(n)])]:
                srv = {"ehlo": [R("250", "mx", *(["PIPELINING"] if pipe else []))]}
                if bad is not None:
                    srv["rcpt"] = [R("250", "ok")] * bad + [R(rng.choice(NEG), "no")]
                    srv["data"] = [R(rng.choice(["503", "554"]), "no")]
                out.append(scenario("%s-r%d-%d-%s" % (tag, n, pipe, bad), [connect(pipe=True), send("s@x", ["r%d@y" % i for i in range(n)], "m"), send(None, ["t@y"], "n"), dict(QUIT)], srv, rand_io(rng)))
    for n in near_nums(130):
        for pipe in (False, True):
            srv = {"ehlo": [R("250", "mx", *(["PIPELINING"] if pipe else []))], "rcpt": [rng.choice([R("250", "ok")] * 9 + [R("550", "no")]) for _ in range(n)]}
            out.append(scenario("%s-s%d-%d" % (tag, n, pipe), [connect()] + [send("a%d@x" % i, ["b@y"], "m%d" % i) for i in range(n + 1)] + [dict(QUIT)], srv, {"direct": True}))
    for n in near_nums(40):
        srv = {"ehlo": [R("250", "mx", "AUTH LOGIN")], "auth": [R("334", USERQ[0])], "sasl": [R("334", rng.choice(PASSQ)) for _ in range(n)]}
        out.append(scenario("%s-q%d" % (tag, n), [connect(), auth("LOGIN"), send("a@x", ["b@y"], "m"), dict(QUIT)], srv, rand_io(rng)))
    return out if len(out) <= limit else rng.sample(out, limit)


def lit_sizes(rng, tag="lsz", limit=400):
    """The numbers of the source as sizes of what is sent."""
    out = []

    def add(ops, srv=None, io=None):
        srv = dict({"ehlo": [R("250", "mx", *(["PIPELINING"] if rng.random() < 0.5 else []), "AUTH PLAIN LOGIN XOAUTH2")], "content": [R("250", "first"), R("250", "second")]}, **(srv or {}))
        out.append(scenario("%s-%d" % (tag, len(out)), ops, srv, io or rng.choice([{"direct": False}, {"direct": True}, {"direct": False, "pend": [0, 1]}])))

    line = "".join(rng.choice("abcdefgh ") for _ in range(70)) + "\r\n"
    for n in near_nums(200000, 2):
        for m in ("m" * n, (line * (n // 72 + 1))[:n], (line * (n // 72 + 1))[:n - 2] + "\r\n", "\r\n." + "m" * (n - 3) if n > 3 else "..", "m" * (n - 1) + ".", "m" * n + "\r\n.x\r\n", "\r\n" * (n // 2), "." * n):
            src = {} if rng.random() < 0.6 else {"src": {"chunks": [rng.choice([n, 512, 1000, 8192])]}}
            if n < 20000 or rng.random() < 0.3:
                add([connect(), send("a@x", ["b@y"], m, **src), send("a@x", ["c@y"], "small"), dict(QUIT)])
    for n in near_nums(20000, 6):
        a = ("u" * n)[:n - 4] + "@x.y"
        a = a[len(a) - n:] if len(a) > n else a
        for ops in ([send(a, ["b@y"], "m")], [send("a@x", [a], "m")], [send("a@x", ["b@y", a, "c@z"], "m")]):
            add([connect()] + ops + [send("a@x", ["b@y"], "n"), dict(QUIT)])
        add([connect(helloid={"domain": "h" * n}), send("a@x", ["b@y"], "n"), dict(QUIT)])
        for mech in ("PLAIN", "LOGIN", "XOAUTH2"):
            for u, p in (("u" * n, "p"), ("u", "p" * n), ("u" * n, "p" * n), ("u" * (n // 2), "p" * (n - n // 2))):
                add([connect(), auth(mech, u, p), send("a@x", ["b@y"], "n"), dict(QUIT)], {"auth": [R("334", USERQ[0])], "sasl": [R("334", PASSQ[0]), R("235", "in")]} if mech == "LOGIN" else {})
    for n in near_nums(20000, 60):
        if n in NEW_NUMS or n - 1 in NEW_NUMS or n + 1 in NEW_NUMS:
            add([connect(), send("s@x", fit(rng, n), "m\r\n"), send("s@x", ["t@y"], "n\r\n"), dict(QUIT)], {"ehlo": [R("250", "mx", "PIPELINING", "8BITMIME")]})
    return out if len(out) <= limit else rng.sample(out, limit)


def lit_values(rng, tag="lva", limit=400):
    """The words of the source in addresses, names, messages, credentials and capabilities."""
    out = []
    for w in NEW_STRS * 2 + rng.sample(LIT_STRS, min(12, len(LIT_STRS))):
        a = "".join(c for c in rng.choice([w, w.upper(), w.lower()]) if c in ADDR_CHARS) or "w"
        msgs = [m.replace("%s", u8(w)) for m in ("%s", "%s\r\n", "x\r\n%s\r\ny", "%s: x\r\n\r\nb", "X: %s\r\n\r\nb", "a%sb", "%s%s", "x\r\n.%s\r\n", "x%s")]
        for ops in ([send(a, ["b@y"], "m"), send("a@x", [a], "m"), send("a@x", ["c@d", a, a + "@b"], "m")], [send(a + "@x", ["b@" + a], "m"), send("a@" + a, ["x" + a, a + "x"], "m")],
                    [send("a@x", ["b@y"], m) for m in msgs[:5]], [send("a@x", ["b@y"], m) for m in msgs[5:]], [auth(rng.choice(["PLAIN", "XOAUTH2"]), w, "p"), auth("PLAIN", "u", w), send("a@x", ["b@y"], "m")], [auth("LOGIN", w, w), send("a@x", ["b@y"], "m")],
                    [login(["LOGIN", "PLAIN", "XOAUTH2"], w, w)]):
            x = u8("".join(c for c in w if ord(c) >= 32 and ord(c) != 127))
            srv = {"ehlo": [R("250", rng.choice(["mx", "mx " + x]), *(["PIPELINING"] if rng.random() < 0.5 else []), "AUTH PLAIN LOGIN XOAUTH2", *([x + rng.choice(["", " 1"])] if x.strip() and not any(k in x.upper() for k in KEYS + ["AUTH"]) else []))],
                   "auth": [R("334", USERQ[0])] if ops[0]["op"] in ("auth", "login") and ops[0].get("mech") != "PLAIN" else [], "sasl": [R("334", PASSQ[0]), R("235", "in")]}
            con = connect(utf8=rng.random() < 0.5, helloid={"domain": a}) if rng.random() < 0.4 else connect()
            out.append(scenario("%s-%d" % (tag, len(out)), [con] + ops + [dict(QUIT)], srv, rand_io(rng)))
        # as the challenge
        for q in (b64(w), b64(w.lower()), u8("".join(c for c in w if ord(c) >= 32 and ord(c) != 127))):
            out.append(scenario("%s-%d" % (tag, len(out)), [connect(), auth("LOGIN"), send("a@x", ["b@y"], "m"), dict(QUIT)], {"ehlo": [R("250", "mx", "AUTH LOGIN")], "auth": [R("334", q)], "sasl": [R("334", PASSQ[0])]}, rand_io(rng)))
    return out if len(out) <= limit else rng.sample(out, limit)


def lit_cap_ops(rng):
    ops = []
    for w in lit_words(rng, 30):
        x = u8("".join(c for c in w if ord(c) >= 32 and ord(c) != 127))
        for t in ("%s", "AUTH %s", "AUTH PLAIN %s", "%s PLAIN", "X%s", "%s=1", "PIPELINING %s", "STARTTLS %s"):
            ops += [{"op": "caps", "lines": ["mx", t.replace("%s", f)] + rng.choice([[], ["PIPELINING"], ["AUTH LOGIN"]])} for f in (x, x.lower())]
        ops += [{"op": "caps", "lines": [f, "8BITMIME"]} for f in ("mx " + x, x)]
    for n in near_nums(300):
        for k in KEYS + ["AUTH PLAIN"]:
            ops.append({"op": "caps", "lines": ["mx"] + ["X-%d" % i for i in range(n)] + [k]})
            ops.append({"op": "caps", "lines": ["mx", k] + ["X-%d" % i for i in range(n)]})
        ops.append({"op": "caps", "lines": ["mx", " ".join(["AUTH"] + ["M%d" % i for i in range(n)] + ["PLAIN"])]})
        ops.append({"op": "caps", "lines": ["mx", "AUTH " + "m" * n + " LOGIN", "x" * n, "SMTPUTF8"]})
    return ops


def lit_parse_ops(rng):
    ops = []
    for n in near_nums(300):
        for ls in (["l%d" % i for i in range(n)], [""] * n, [" "] * n, ["same"] * n, [""] * (n - 1) + ["x"], ["x"] + [""] * (n - 1), ["t" * n], ["t" * max(0, n - 4)], [" " * n], ["x" + " " * n]):
            c = rng.choice(["250", "550", "220", "451", "354"])
            s = "".join("%s%s%s\r\n" % (c, "-" if i < len(ls) - 1 else " ", l) for i, l in enumerate(ls))
            ops += [parse_op(s, c), parse_op(s + s), parse_op(s[:-1])]
    for w in lit_words(rng, 20):
        x = u8("".join(c for c in w if ord(c) >= 32 and ord(c) != 127))
        for t in ("250 %s\r\n", "250-%s\r\n250 x\r\n", "250-x\r\n250 %s\r\n", "550 %s\r\n", "250%s\r\n", "%s\r\n", "%s 250 x\r\n", "250-%s\r\n250-\r\n250 %s\r\n"):
            ops.append(parse_op(t.replace("%s", x)))
    for n in NEW_NUMS:
        if n < 1000:
            c = "%03d" % n
            for t in ("%s x\r\n", "%s-x\r\n%s y\r\n", "%s\r\n", "%s-x\r\n250 y\r\n", "%s-a\r\n%s-b\r\n%s c\r\n", "%s-a\r\n%s-b\r\n%s-c\r\n%s d\r\n"):
                ops.append(parse_op(t.replace("%s", c), c))
    return ops


def lit_addr_ops(rng):
    ops = []
    for w in lit_words(rng, 40):
        for t in ("%s", "%s@x", "a@%s", "a%s", "%sb", "<%s>", " %s", "a@b %s", "%s a", "%s%s"):
            ops += [{"op": "addr", "s": cp(t.replace("%s", f))} for f in sorted({w, w.lower(), w.upper()})]
        a = "".join(c for c in w if c in ADDR_CHARS) or "x"
        ops += [{"op": "lines", "from": a, "to": [a + "@b", "x@" + a, a]}, {"op": "env", "from": a, "null": False, "to": [a, "b", a]}]
    for n in near_nums(9000):
        for x in ("", " ", "\r", "\0", "é", "@"):
            for at in (0, n // 2, n - 1):
                ops.append({"op": "addr", "s": cp(("a" * n)[:at] + x + ("a" * n)[at + len(x):])})
    for n in near_nums(300):
        ops += [{"op": "env", "from": "a", "null": False, "to": ["r%d" % i for i in range(n)]}, {"op": "lines", "from": "a", "to": ["r%d" % i for i in range(n)]}]
    return ops


def lit_xtext_ops(rng):
    ops = []
    for w in lit_words(rng, 40):
        for t in ("%s", "a%s", "%sb", "%s%s", "+%s", "=%s "):
            ops += [{"op": "xtext", "s": cp(t.replace("%s", f))} for f in sorted({w, w.lower(), w.upper()})]
        k = "".join(c for c in w.upper() if c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-") or "X"
        ops += [{"op": "params", "ps": [{"k": cp(k), "has": True, "v": cp(v)}, {"k": cp("Y"), "has": True, "v": cp(w)}]} for v in (w, "a=b", "+", "")]
    for n in near_nums(5000):
        ops += [{"op": "xtext", "s": cp(x)} for x in ("a" * n, "=" * n, ("a=" * n)[:n], "é" * n, "a" * (n - 1) + "+", "+" + "a" * (n - 1))]
    for n in NEW_NUMS:
        if n < 0x110000 and not 0xD800 <= n <= 0xDFFF:
            ops += [{"op": "xtext", "s": cp(t.replace("%s", chr(n)))} for t in ("%s", "a%sb", "%s%s")]
    return ops


def lit_cmd_ops(rng):
    ops = []
    for w in lit_words(rng, 30):
        x = u8(w.replace("\r", "").replace("\n", ""))
        for c in ("EHLO", "VRFY", "EXPN"):
            ops += [{"op": "cmd", "c": c, "arg": t.replace("%s", f)} for t in ("%s", "a%s", "%s b") for f in sorted({x, x.lower(), x.upper()})]
        ops += [{"op": "cmd", "c": "HELP", "has": True, "arg": t.replace("%s", x)} for t in ("%s", "a %s")]
        a = "".join(c for c in w if c in ADDR_CHARS) or "x"
        k = "".join(c for c in w.upper() if c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-") or "X"
        v = "".join(c for c in w if 33 <= ord(c) < 127 and c not in "+=")
        ps = [[], [{"k": "other", "w": k, "v": v, "has": True}], [{"k": "other", "w": k, "v": "", "has": False}], [{"k": "utf8", "w": "", "v": "", "has": False}, {"k": "other", "w": "Z", "v": v, "has": True}]]
        for p in ps:
            ops += [{"op": "cmd", "c": "MAIL", "from": a, "ps": p}]
            if not p or p[0]["k"] == "other":
                ops += [{"op": "cmd", "c": "RCPT", "from": a, "ps": p}]
    for n in near_nums(9000):
        ops += [{"op": "cmd", "c": c, "arg": "x" * n} for c in ("EHLO", "VRFY", "EXPN")] + [{"op": "cmd", "c": "HELP", "has": True, "arg": "x" * n}, {"op": "cmd", "c": "MAIL", "from": "x" * n, "ps": []}, {"op": "cmd", "c": "RCPT", "from": "x" * n, "ps": []}]
        ops.append({"op": "cmd", "c": "MAIL", "from": "a@b", "ps": [{"k": "other", "w": "X" * min(n, 500), "v": "v" * n, "has": True}]})
        ops.append({"op": "cmd", "c": "MAIL", "from": "a@b", "ps": [{"k": "size", "w": "", "v": str(n), "has": False}]})
        if n <= 300:
            ops.append({"op": "cmd", "c": "RCPT", "from": "a@b", "ps": [{"k": "other", "w": "X%d" % i, "v": "", "has": False} for i in range(n)]})
    for n in NEW_NUMS:
        ops.append({"op": "cmd", "c": "MAIL", "from": "a@b", "ps": [{"k": "size", "w": "", "v": str(n), "has": False}]})
        ops.append({"op": "cmd", "c": "MAIL", "from": "a@b", "ps": [{"k": "size", "w": "", "v": str(n + 1), "has": False}, {"k": "body8", "w": "", "v": "", "has": False}]})
        if n < 256:
            ops += [{"op": "cmd", "c": "EHLO4", "arg": ".".join(str(rng.choice([n, n, 1, 0])) for _ in range(4))} for _ in range(8)]
        if n < 65536:
            ops += [{"op": "cmd", "c": "EHLO6", "groups": [rng.choice([n, n, 1, 0]) for _ in range(8)]} for _ in range(8)] + [{"op": "cmd", "c": "EHLO6", "groups": [n, 0, 0, 0, 0, 0, 0, 1]}]
    return ops


def lit_authcmd_ops(rng):
    ops = []
    for w in lit_words(rng, 20):
        for mech in ("PLAIN", "LOGIN", "XOAUTH2"):
            for u, p in ((w, "p"), ("u", w), (w, w), ("a" + w, w + "b"), (w.lower(), w.upper())):
                ops.append(cred({"op": "authcmd", "mech": mech, "has": False, "chal": ""}, u, p))
            for f in sorted({w, w.lower(), w + ":", w + " "}):
                ops.append(cred({"op": "authresp", "why": False, "mech": mech, "code": "334", "lines": [u8(b64(f))]}, "u", "p"))
                ops.append(cred({"op": "authcmd", "mech": mech, "has": True, "chal": u8(f)}, "u", "p"))
            x = u8("".join(c for c in w if ord(c) >= 32 and ord(c) != 127))
            ops.append(cred({"op": "authresp", "why": False, "mech": mech, "code": "334", "lines": [x]}, "u", "p"))
            ops.append(cred({"op": "authresp", "why": False, "mech": mech, "code": "334", "lines": [USERQ[0] + " " + x, x]}, "u", "p"))
    for n in near_nums(9000):
        for mech in ("PLAIN", "LOGIN", "XOAUTH2"):
            for u, p in (("u" * n, "p"), ("u", "p" * n), ("u" * (n // 2), "p" * (n - n // 2))):
                ops.append(cred({"op": "authcmd", "mech": mech, "has": mech == "LOGIN", "chal": rng.choice(["Username:", "Password:"]) if mech == "LOGIN" else ""}, u, p))
    return ops


def lit_error_ops(rng):
    ops = []
    bad = "\x0b\x0c\x1c\x1d\x1e\x1f"
    for w in lit_words(rng, 30):
        x = u8("".join(c for c in w if ord(c) >= 32 and ord(c) != 127))
        for ls in ([x], [x + " a", "b"], ["a", x], [x, x], ["5.1.1 " + x], ["a " + x + " b", "", x]):
            c = rng.choice(NEG + ["%d" % n for n in NEW_NUMS if 400 <= n <= 559 and n // 10 % 10 < 6] * 3)
            ops.append({"op": "error", "code": c, "lines": ls, "words": all(ord(k) < 127 for k in "".join(ls)) and not any(k in "".join(ls) for k in bad)})
        for k in ("client", "resp"):
            ops.append({"op": "failure", "what": k, "text": x})
        ops += [{"op": "failure", "what": "io", "kind": k, "text": x} for k in rng.sample(ERRS2, 3)]
    for n in near_nums(1000):
        ops.append({"op": "error", "code": rng.choice(NEG), "lines": ["x" * n], "words": True})
        if n <= 300:
            for ls in (["l%d" % i for i in range(n)], [""] * (n - 1) + ["x"], ["same"] * n):
                ops.append({"op": "error", "code": rng.choice(NEG), "lines": ls, "words": True})
    for n in NEW_NUMS:
        if 200 <= n <= 559 and n // 10 % 10 < 6:
            for k in range(1, 6):
                for t in ("", "x", "5.1.1 x", " ", "a b"):
                    ops.append({"op": "error", "code": str(n), "lines": [t] + ["y%d" % i for i in range(k - 1)], "words": True})
    return ops


def lit_email_ops(rng):
    ops = []
    for w in lit_words(rng, 20):
        for t in ("%s", "%s\r\n", "a%sb", "x\r\n%s\r\n", "%s%s"):
            d = list(t.replace("%s", w).encode("utf-8"))
            for reader in (False, True):
                o = {"op": "email", "null": rng.random() < 0.3, "from": "", "to": [lit_addr(rng), "b"], "b": d, "reader": reader, "sizes": [rng.choice([1, 3, 100])]}
                if not o["null"]:
                    o["from"] = "".join(c for c in w if c in ADDR_CHARS)
                if reader:
                    o["src"] = {"chunks": [rng.choice([1, 3, 100])], "pend": [0]}
                ops.append(o)
    for n in near_nums(20000):
        for k in range(6):
            o = {"op": "email", "null": False, "from": "a@b", "to": ["c"] if n > 300 or k % 2 else ["r%d" % i for i in range(n)], "b": [120 + k] * n, "reader": k > 2, "sizes": [rng.choice([n, 1000, max(1, n - 1), 100000])]}
            if o["reader"]:
                o["src"] = {"chunks": [rng.choice([n, 1000, 100000])], "pend": [0]}
            ops.append(o)
    return ops


def lit_messages(rng, tag="lms"):
    msgs = []
    for w in lit_words(rng, 20):
        w = w.encode("utf-8")
        msgs += [w, w + b"\r\n", b"a" + w, w + b".", b"." + w, b"x\r\n" + w + b"\r\n.y", b"x\r\n." + w, w + w, b"\r\n" + w, w + b"\r\n.\r\n", b"X: y\r\n" + w + b": 1\r\n\r\n.b", w.lower(), w.upper()]
    for n in near_nums(5000):
        for p in (b"\r\n.", b"\r\n", b".", b"\r", b"\n.", b"\r\n.\r\n"):
            for at in (n - len(p), n - 1, n):
                if at >= 0:
                    msgs.append(b"x" * at + p + b"y")
        msgs += [b"." * n, b"\r\n." * min(n, 600), b"x" * n + b"\r\n." + b"x" * n]
    for n in NEW_NUMS:
        if n < 256:
            msgs += [bytes([n]), bytes([n, 46]), bytes([46, n]), bytes([13, 10, n, 46]), bytes([13, n, 10, 46]), bytes([n, n, 46, n])]
    if len(msgs) > 1500:
        msgs = rng.sample(msgs, 1500)
    return octets(rng, msgs, tag, per=10, srcs=[1, 2, 7, 100, 8192])


def foreign(rng, tag="frn"):
    """Long texts of characters of two, three and four octets, at every alignment, wherever there is a text."""
    out = []
    for ch in ("é", "☃", "\U0001f600", "e\u0301"):
        w = len(ch.encode("utf-8"))
        for n in (3, 16, 40, 70, 90, 130, 200, 260, 350, 520, 700, 1100, 4200):
            for shift in range(w):
                t = u8("a" * shift + ch * (n // w + 1))
                srv = {"ehlo": [R("250", "mx " + t, "PIPELINING", "AUTH LOGIN PLAIN")], "auth": [R("334", USERQ[0] + " " + t)], "sasl": [R("334", PASSQ[0]), R("235", t)], "mail": [R("250", t), R("451", t)], "rcpt": [R("250", "x", t)], "content": [R("250", t)]}
                cred_ = ("a" * shift + ch * (n // w + 1))
                ops = [connect(helloid={"domain": cred_})] + ([auth(rng.choice(["LOGIN", "PLAIN"]), cred_, cred_)] if n < 800 else []) + [send("a@x", ["b@y"], t + "\r\n." + t), send("a@x", ["b@y"], "m"), dict(QUIT)]
                if ops[1].get("mech") == "PLAIN":
                    srv["auth"], srv["sasl"] = [R("235", t)], []
                out.append(scenario("%s-%d" % (tag, len(out)), ops, srv, rng.choice([{"direct": False}, {"direct": True}, {"direct": True, "rchunks": [rng.choice([1, 7, 100, 511])]}])))
    return out
