"""Per property: which models TLC explores, which histories of the model and which families of
scenarios the library executes, and which trace specification judges them."""
import gen

QUICK = True
PLANS = {}

ASSUMPTIONS = [
    "the server follows RFC 5321/4954/3207 framing except where a scenario says otherwise (malformed replies, silence, end of stream)",
    "RSET clears the mail transaction whatever its reply; a server answers the cancelling \"*\" with a final reply",
    "the harness's scripted stream and TLC are trusted",
]

# Configurations of the exhaustive model (defaults in check.py: mc_cfg).
MC = {
    "send": dict(Ops="OpsSendQuit", MaxOps=4),
    "send3": dict(Ops="OpsSendC", MaxOps=3, Answers="AnsSend3"),
    "auth": dict(Ops="OpsAuth", Answers="AnsAuth", MaxOps=3, Connects="ConPipe"),
    "auth2": dict(Ops="OpsAuth", Answers="AnsAuth", MaxOps=2, Connects="ConPipe"),
    "endless": dict(Ops="OpsAuth", Answers="AnsEndless", MaxOps=3, Connects="ConPipe"),
    "login": dict(Ops="OpsLogin", Answers="AnsLogin", MaxOps=3),
    "tls": dict(Ops="OpsTlsSend", Answers="AnsTls", MaxOps=4, Connects="ConTls"),
    "open": dict(Ops="OpsTlsSend", Answers="AnsOpen", MaxOps=2, Connects="ConAll"),
    "caps": dict(Ops="OpsTlsSend", Answers="AnsCaps", MaxOps=3, Connects="ConAll"),
    "fault": dict(Ops="OpsSendQuit", Answers="AnsFault", MaxOps=3, Faults="AllFaults"),
    "faultauth": dict(Ops="OpsMixedS", Answers="AnsFaultAuth", MaxOps=3, Faults="StreamFaults"),
    "cancel": dict(Ops="OpsSendQuit", Answers="AnsSend", MaxOps=3, Cancels="TRUE"),
    "cancelsil": dict(Ops="OpsMixedS", Answers="AnsSilent", MaxOps=3, Cancels="TRUE"),
    "win": dict(Ops="OpsSendC", Answers="AnsGroup", MaxOps=2, Connects="ConPipe", Win2=32, Win1=1, GL=32),
    # crippled designs, which must be rejected
    "x_drain": dict(D="NoDrain"),
    "x_reset": dict(D="NoReset"),
    "x_poison": dict(D="NoPoison", Faults="StreamFaults"),
    "x_poisonC": dict(D="NoPoison", Cancels="TRUE"),
    "x_poisonS": dict(D="NoPoison", Faults="AllFaults"),
    "x_poisonD": dict(D="NoPoison"),
    "x_cancel": dict(Ops="OpsAuth", D="NoCancel", Answers="AnsAuth", Connects="ConPipe"),
    "x_once": dict(D="NoOnce"),
    "x_cause": dict(D="NoCause", Faults="AllFaults"),
    "x_wait": dict(D="NoWait"),
    "x_win": dict(Ops="OpsSendC", Answers="AnsGroup", MaxOps=2, Connects="ConPipe", Win2=32, Win1=1, D="HugeGroup", GL=32),
}
# Configurations whose complete histories are replayed against the library.
HIST = {
    "send": dict(Ops="OpsSend", MaxOps=3),
    "send3": dict(Ops="OpsSendC", MaxOps=3, Answers="AnsSend3"),
    "auth": dict(Ops="OpsAuth", Answers="AnsAuth", MaxOps=2, Connects="ConPipe"),
    "login": dict(Ops="OpsLogin", Answers="AnsLogin", MaxOps=3),
    "tls": dict(Ops="OpsTlsSend", Answers="AnsTls", MaxOps=4, Connects="ConTls"),
    "open": dict(Ops="OpsTlsSend", Answers="AnsOpen", MaxOps=2, Connects="ConAll"),
    "caps": dict(Ops="OpsTlsSend", Answers="AnsCaps", MaxOps=3, Connects="ConAll"),
}

# Other models and generators: module, configuration.
MODELS = {
    "dotstuff": ("DotStuff", "SPECIFICATION Spec\nINVARIANT Transparent\nINVARIANT Bounded\nCHECK_DEADLOCK FALSE\n"),
    "two": ("Two", "SPECIFICATION Spec\nCONSTANTS\n D <- FullD\n GroupLimit = 4096\n Shared = FALSE\nINVARIANT Independent\n"),
    "x_two": ("Two", "SPECIFICATION Spec\nCONSTANTS\n D <- FullD\n GroupLimit = 4096\n Shared = TRUE\nINVARIANT Independent\n"),
    "xtext": ("Xtext", "SPECIFICATION Spec\nINVARIANT Invertible\nINVARIANT Confined\nINVARIANT Injective\n"),
    "replies5": ("ReplyGen", "SPECIFICATION Spec\nCONSTANTS\n Symbols <- Symbols2\n MaxLen = 5\n Record = FALSE\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n"),
    "replies6": ("ReplyGen", "SPECIFICATION Spec\nCONSTANTS\n Symbols <- Symbols2\n MaxLen = 6\n Record = FALSE\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n"),
    "genreplies4": ("ReplyGen", "SPECIFICATION Spec\nCONSTANTS\n Symbols <- Symbols2\n MaxLen = 4\n Record = TRUE\nINVARIANT Agree\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"),
    "genreplies5": ("ReplyGen", "SPECIFICATION Spec\nCONSTANTS\n Symbols <- Symbols2\n MaxLen = 5\n Record = TRUE\nINVARIANT Agree\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"),
}


# Apalache: module, arguments, whether it must hold
PROOFS = {
    "group-init": ("Group", ["--cinit=ConstInit", "--init=Init", "--inv=Inv", "--length=0"], True),
    "group-step": ("Group", ["--cinit=ConstInit", "--init=Inv", "--inv=Inv", "--length=1"], True),
    "group-safe": ("Group", ["--cinit=ConstInit", "--init=Inv", "--inv=Safe", "--length=0"], True),
    "group-narrow": ("Group", ["--cinit=ConstNarrow", "--init=Init", "--inv=Safe", "--length=8"], False),
    "align-init": ("Align", ["--cinit=ConstFull", "--init=Init", "--inv=Inv", "--length=0"], True),
    "align-step": ("Align", ["--cinit=ConstFull", "--init=Inv", "--inv=Inv", "--length=1"], True),
    "align-safe": ("Align", ["--cinit=ConstFull", "--init=Inv", "--inv=Safe", "--length=0"], True),
    "align-nodrain": ("Align", ["--cinit=ConstNoDrain", "--init=Init", "--inv=Safe", "--length=6"], False),
    "align-nopoison": ("Align", ["--cinit=ConstNoPoison", "--init=Init", "--inv=Safe", "--length=6"], False),
    "align-nogiveup": ("Align", ["--cinit=ConstNoGiveUp", "--init=Init", "--inv=Safe", "--length=8"], False),
}
GROUP = ["group-init", "group-step", "group-safe"]
# In step for any number of operations; "refine": the detailed model refines the unbounded one.
ALIGN = ["align-init", "align-step", "align-safe"]


def setup(tier):
    global QUICK
    QUICK = tier == "quick"
    q = QUICK
    T = not q

    def n(a, b=None):
        return (a * 3 if b is None else min(3 * a, b)) if q else (b if b is not None else a * 10)

    def f(fn, *a, judge="trace", **kw):
        return (judge, lambda rng: fn(rng, *a, **kw))

    def cutdown(fn, k, judge="trace", **kw):
        def go(rng):
            l = fn(rng, **kw)
            return l if len(l) <= k else rng.sample(l, k)
        return (judge, go)

    def packed(fn, tag):
        return ("pure", lambda rng: gen.packs(fn(rng, T), tag))

    def ses(k, tag="rs", judge="trace", **kw):
        return ("%s" % judge, lambda rng: gen.sessions(rng, n(k), tag, **kw))

    def parsed(hs, rng):
        # a line end behind every string, so that the library has a complete line to read
        ss = {h + e for h in hs for e in ("", "\r\n")}
        return ("pure", gen.packs([gen.parse_op(x) for x in sorted(ss)], "rg", 40))

    send = [("send", None)] + ([("send3", None)] if T else [])
    auth = [("auth", 2000 if q else None)]
    P = PLANS
    P.clear()
    P["C01"] = dict(mc=["send", "fault"] + (["send3", "cancel"] if T else []), hist=send, must_fail=["x_drain", "x_wait"],
                    fams=[f(gen.round_messages), f(gen.contrary, places=["mail", "rcpt", "data", "content", "rset"]), f(gen.group_refusals), f(gen.shapes, places=["mail", "rcpt", "data", "content", "rset"]), f(gen.giants, what=["from", "to"]), cutdown(gen.bulky, n(8, 84)), f(gen.texts, places=["mail", "rcpt", "data", "content", "rset"]), f(gen.fault_kinds, limit=n(300)), f(gen.codes, places=["mail", "rcpt", "data", "content"]), cutdown(gen.many, n(15, 63)), cutdown(gen.long_replies, n(40, 220)), ses(700), ses(300, "rn", neg=0.4), f(gen.faults, limit=n(500)), f(gen.malformed, limit=n(400)), f(gen.cancels, limit=n(300)),
                          f(gen.sources, count=n(150)), f(gen.long_history, count=n(10)), cutdown(gen.groups, n(20, 45)), cutdown(gen.large, n(8, 18))])
    P["C02"] = dict(mc=["send", "open", "login", "tls"] + (["auth", "send3"] if T else ["auth2"]), hist=send + [("login", None), ("tls", None), ("open", None), ("auth", 800 if q else None)],
                    must_fail=["x_drain"],
                    fams=[f(gen.contrary), f(gen.group_refusals), f(gen.shapes), f(gen.texts), f(gen.extras, count=n(150)), f(gen.fault_kinds, limit=n(200)), f(gen.codes), cutdown(gen.long_replies, n(60, 220)), cutdown(gen.many, n(15, 63)), ses(500), ses(500, "rn", neg=0.45), f(gen.openings, count=n(200)), f(gen.starttls, count=n(100)), f(gen.faults, limit=n(300)), f(gen.malformed, limit=n(300)),
                          f(gen.segmented, count=n(300)), cutdown(gen.groups, n(20, 45))])
    P["C03"] = dict(proofs=GROUP + ALIGN, refuted=["group-narrow", "align-nodrain"], norefine=["x_drain"], refine=["tls", "cancel"] + (["send", "send3", "fault", "faultauth", "login"] if T else []), mc=["send", "tls"] + (["send3", "auth", "fault", "cancel"] if T else ["auth2"]), hist=send + [("tls", None), ("auth", 500 if q else None)], must_fail=["x_drain", "x_poison"],
                    fams=[f(gen.contrary), f(gen.group_refusals), cutdown(gen.shapes, n(100, 550)), f(gen.texts, limit=n(400)), f(gen.extras, count=n(300)), cutdown(gen.many, n(25, 63)), f(gen.codes), ses(600), ses(600, "rn", neg=0.4), f(gen.long_history, count=n(15)), f(gen.groups), f(gen.malformed, limit=n(300)), f(gen.cancels, limit=n(300)), f(gen.stalls, limit=n(300)),
                          cutdown(gen.auths, n(300, 1316))])
    P["C04"] = dict(proofs=GROUP + ALIGN, refuted=["group-narrow", "align-nodrain"], refine=["fault"] + (["send", "send3", "cancel", "win"] if T else []), mc=["send", "fault", "cancel"] + (["send3", "cancelsil"] if T else []), hist=send, must_fail=["x_wait", "x_poisonS"],
                    fams=[f(gen.contrary, places=["mail", "rcpt", "data", "content", "rset"]), f(gen.group_refusals), f(gen.shapes, places=["mail", "rcpt", "data", "content", "rset"]), f(gen.texts, places=["mail", "rcpt", "data", "content", "rset"]), f(gen.fault_kinds, limit=n(300)), f(gen.codes, places=["mail", "rcpt", "data", "content", "rset"]), cutdown(gen.many, n(15, 63)), ses(500), ses(400, "rn", neg=0.4), f(gen.sources, count=n(250)), f(gen.faults, limit=n(400)), f(gen.cancels, limit=n(500)), f(gen.stalls, limit=n(300)), f(gen.malformed, limit=n(300))])
    P["C05"] = dict(mc=["send"] + (["send3", "fault"] if T else []), hist=send, must_fail=["x_drain", "x_reset"],
                    fams=[f(gen.group_refusals), cutdown(gen.rounds, n(40, 260)), f(gen.giants, what=["from", "to", "caps"]), f(gen.many), ses(600), ses(600, "rn", neg=0.35), f(gen.long_history, count=n(15)), f(gen.groups), f(gen.addresses, count=n(60)), f(gen.windows, n(25)), f(gen.faults, limit=n(200)),
                          f(gen.cancels, limit=n(200))])
    P["C06"] = dict(mc=[], models=["dotstuff"], hist=[("send", 300 if q else None)],
                    fams=[f(gen.round_messages), f(gen.bulky), f(gen.edge_messages, judge="dot"), f(gen.all_messages, 6 if q else 9, judge="dot"), f(gen.big_messages, judge="dot") if q else
                          f(gen.big_messages, judge="dot", sizes=[512, 1024, 2048, 4096, 8192, 16384, 32768, 65536], per_size=4),
                          f(gen.random_messages, n(500), judge="dot"), f(gen.random_messages, n(20), judge="dot", tag="rndl", maxlen=6000), ses(300), f(gen.large)])
    P["C07"] = dict(mc=["send"], hist=[("send", 300 if q else None)], fams=[f(gen.rounds), f(gen.giants, what=["from", "to"]), packed(gen.address_ops, "adr"), f(gen.addresses, count=n(200)), ses(400), cutdown(gen.groups, n(15, 45))])
    P["C08"] = dict(mc=[], models=["xtext"], hist=[], fams=[packed(gen.xtext_ops, "xt")])
    P["C09"] = dict(mc=["caps", "tls"], hist=[("caps", None), ("tls", None)], fams=[f(gen.giants, what=["caps", "cap", "auths"]), f(gen.gating), ses(700), f(gen.starttls, count=n(200)), ses(200, "rt", kinds=["send", "send", "starttls"])])
    P["C10"] = dict(mc=["send", "win", "open"] + (["send3", "auth", "login"] if T else ["auth2"]), hist=send + [("login", 300 if q else None), ("open", None)], must_fail=["x_wait"],
                    fams=[f(gen.group_refusals), cutdown(gen.rounds, n(40, 260)), cutdown(gen.shapes, n(100, 550)), cutdown(gen.giants, n(40, 240)), f(gen.texts, limit=n(200)), f(gen.extras, count=n(60)), cutdown(gen.many, n(30, 63)), ses(700), f(gen.groups), f(gen.groups, tag="grn", win=False), f(gen.windows, n(40)), f(gen.gating), cutdown(gen.auths, n(400, 1316)), f(gen.openings, count=n(200)), f(gen.all_cuts),
                          f(gen.starttls, count=n(60))])
    P["C11"] = dict(mc=["login"], hist=[("login", None)], fams=[f(gen.giants, what=["mechs", "auths", "cap"]), f(gen.auths, count=n(300)), ses(300, kinds=["login", "login", "send"]), cutdown(gen.malformed, n(200)), cutdown(gen.gating, n(60, 128))])
    P["C12"] = dict(proofs=ALIGN, refuted=["align-nogiveup"], refine=["auth2"] + (["endless", "login"] if T else []), norefine=["x_cancel"], mc=["endless", "login"] + (["auth"] if T else ["auth2"]), hist=auth + [("login", None)], must_fail=["x_cancel"],
                    fams=[f(gen.contrary, places=["auth", "sasl"]), cutdown(gen.rounds, n(30, 260)), f(gen.shapes, places=["auth", "sasl"]), f(gen.giants, what=["user", "pass", "mechs"]), f(gen.texts, places=["auth", "sasl"]), f(gen.codes, places=["auth", "sasl"]), f(gen.auths, count=n(800)), ses(300, kinds=["login", "auth", "auth", "send"]), cutdown(gen.malformed, n(300)), f(gen.all_cuts)])
    P["C13"] = dict(mc=["open", "tls"] + (["fault", "send3"] if T else ["send"]), hist=[("open", None), ("tls", None)],
                    models=["replies5" if q else "replies6"], gens=[("genreplies4" if q else "genreplies5", parsed)],
                    fams=[f(gen.long_malformed), f(gen.contrary), f(gen.shapes), cutdown(gen.codes, n(1300, 2640)), f(gen.long_replies), packed(gen.parse_ops, "prs"), f(gen.segmented, count=n(720)), f(gen.all_cuts), f(gen.malformed, limit=n(1200)), ses(300), f(gen.openings, count=n(150)), f(gen.starttls, count=n(80)),
                          cutdown(gen.auths, n(200, 1316))])
    P["C14"] = dict(proofs=GROUP, refuted=["group-narrow"], mc=["win", "send"] + (["auth", "open", "login", "tls", "send3"] if T else ["auth2"]), hist=send + [("auth", 400 if q else None)], must_fail=["x_win"],
                    fams=[f(gen.round_messages), f(gen.rounds), cutdown(gen.shapes, n(60, 550)), cutdown(gen.giants, n(60, 240)), cutdown(gen.bulky, n(10, 84)), f(gen.texts, limit=n(300)), f(gen.extras, count=n(100)), f(gen.large), f(gen.many), cutdown(gen.long_replies, n(80, 220)), f(gen.groups), f(gen.windows, n(120)), ses(700), f(gen.all_cuts), cutdown(gen.auths, n(300, 1316)), f(gen.starttls, count=n(80)), f(gen.sources, count=n(150), fail=False),
                          f(gen.openings, count=n(100)), f(gen.long_history, count=n(4))])
    P["C15"] = dict(proofs=ALIGN, refuted=["align-nopoison"], norefine=["x_poison"], refine=["fault"] + (["faultauth", "open"] if T else []), mc=["fault", "faultauth"] + (["open"] if T else []), hist=[], must_fail=["x_poison"], fams=[f(gen.long_malformed), f(gen.contrary), f(gen.fault_kinds, limit=n(2400)), f(gen.faults, limit=n(2500, 6340)), f(gen.malformed, limit=n(2000, 15300)), f(gen.openings, count=n(200))])
    P["C16"] = dict(proofs=ALIGN, refuted=["align-nopoison"], norefine=["x_poisonC"], refine=["cancel", "cancelsil"], mc=["cancel", "cancelsil"], hist=[], must_fail=["x_poisonC"], fams=[f(gen.cancels, limit=n(3000, 9984)), f(gen.stalls, limit=n(1320))])
    P["C17"] = dict(mc=["open", "caps"], hist=[("open", None), ("caps", 150 if q else None)], fams=[f(gen.contrary, places=["greeting", "ehlo"]), f(gen.shapes, places=["greeting", "ehlo"]), f(gen.giants, what=["hello", "caps", "auths", "cap"]), f(gen.texts, places=["greeting", "ehlo"]), f(gen.codes, places=["greeting", "ehlo"]), f(gen.long_replies, places=["greeting", "ehlo"]), f(gen.openings, count=n(1200)), ses(200), ses(150, "rt", kinds=["send", "starttls"]), f(gen.faults, limit=n(200))])
    P["C18"] = dict(mc=["send"] + (["send3", "fault"] if T else []), hist=send, must_fail=["x_reset", "x_poisonD"],
                    fams=[f(gen.contrary, places=["mail", "rcpt", "data", "content", "rset"]), f(gen.group_refusals), f(gen.shapes, places=["mail", "rcpt", "data", "content", "rset"]), f(gen.texts, places=["mail", "rcpt", "data", "content", "rset"]), f(gen.codes, places=["mail", "rcpt", "data", "content", "rset"]), f(gen.many), ses(500), ses(900, "rn", neg=0.45, kinds=["send"]), f(gen.long_history, count=n(20)), cutdown(gen.groups, n(25, 45)), cutdown(gen.auths, n(100, 1316))])
    P["C19"] = dict(mc=["caps", "login"], hist=[("caps", None), ("login", 300 if q else None)], fams=[f(gen.giants, what=["caps", "cap", "auths"]), packed(gen.caps_ops, "cap"), f(gen.gating), cutdown(gen.auths, n(500, 1316), count=10), ses(300), f(gen.starttls, count=n(100)),
                                                                                                      f(gen.openings, count=n(200))])
    P["C20"] = dict(mc=["fault"], hist=[], must_fail=["x_poisonS"], fams=[f(gen.round_messages), cutdown(gen.bulky, n(12, 84)), f(gen.edge_messages, judge="dot"), cutdown(gen.codes, n(200, 700), places=["data", "content"]), f(gen.sources, count=n(1200)), f(gen.failing_octets, n(60), judge="dot"), f(gen.random_messages, n(300), judge="dot"),
                                                                       f(gen.big_messages, judge="dot"), ses(300, kinds=["send"]), f(gen.large)])
    P["C21"] = dict(mc=["tls"], hist=[("tls", None)], fams=[f(gen.contrary, places=["starttls"]), f(gen.shapes, places=["starttls", "ehlo"]), f(gen.texts, places=["starttls"]), f(gen.extras, count=n(60)), f(gen.codes, places=["starttls"]), f(gen.long_replies, places=["starttls"]), f(gen.starttls, count=n(1200)), ses(300, "rt", kinds=["send", "starttls", "starttls"])])
    J = "conform"
    P["C22"] = dict(mc=[], hist=send + [("auth", 1500 if q else None), ("login", None), ("tls", None), ("open", None), ("caps", None)], session_judge=J,
                    fams=[f(gen.round_messages, judge=J), f(gen.contrary, judge=J), f(gen.group_refusals, judge=J, win=False), cutdown(gen.rounds, n(40, 260), judge=J), f(gen.shapes, judge=J), cutdown(gen.giants, n(60, 240), judge=J), f(gen.texts, judge=J), f(gen.extras, count=n(150), judge=J), f(gen.fault_kinds, limit=n(500), judge=J), f(gen.codes, judge=J), cutdown(gen.long_replies, n(80, 220), judge=J), f(gen.many, judge=J), ses(1000, judge=J), ses(300, "rn", judge=J, neg=0.4), f(gen.long_history, count=n(10), judge=J), f(gen.gating, judge=J), cutdown(gen.auths, n(600, 1316), judge=J),
                          f(gen.groups, judge=J, win=False), f(gen.openings, count=n(300), judge=J), f(gen.starttls, count=n(150), judge=J), f(gen.segmented, count=n(200), judge=J), f(gen.addresses, count=n(40), judge=J),
                          f(gen.faults, limit=n(1200), judge=J), f(gen.cancels, limit=n(1000), judge=J), f(gen.malformed, limit=n(800), judge=J), f(gen.stalls, limit=n(500), judge=J), f(gen.sources, count=n(300), judge=J)])
    J = "same"
    P["C23"] = dict(compare="runtimes", mc=[], hist=[("send", 300 if q else None), ("open", None), ("tls", None)], session_judge=J,
                    fams=[f(gen.round_messages, judge=J), f(gen.group_refusals, judge=J), cutdown(gen.rounds, n(60, 260), judge=J), cutdown(gen.shapes, n(100, 550), judge=J), f(gen.giants, judge=J), cutdown(gen.bulky, n(20, 84), judge=J), f(gen.texts, limit=n(300), judge=J), f(gen.extras, count=n(100), judge=J), f(gen.fault_kinds, limit=n(700), judge=J), f(gen.edge_messages, limit=200, judge=J), cutdown(gen.codes, n(600, 2640), judge=J), cutdown(gen.long_replies, n(100, 220), judge=J), f(gen.many, judge=J), ses(500, judge=J), f(gen.faults, limit=n(800), judge=J), f(gen.malformed, limit=n(600), judge=J), f(gen.cancels, limit=n(600), judge=J), f(gen.stalls, limit=n(200), judge=J),
                          f(gen.sources, count=n(300), judge=J), f(gen.groups, judge=J), f(gen.windows, n(30), judge=J), f(gen.starttls, count=n(150), judge=J), f(gen.openings, count=n(150), judge=J),
                          cutdown(gen.auths, n(300, 1316), judge=J), f(gen.random_messages, n(100), judge=J), f(gen.failing_octets, n(30), judge=J), f(gen.big_messages, judge=J, per_size=1), cutdown(gen.large, n(8, 18), judge=J),
                          f(gen.segmented, count=n(200), judge=J), f(gen.all_cuts, judge=J), ("same", lambda rng: gen.packs(gen.parse_ops(rng, False)[:3000], "prs"))])
    # the same families in another order: what is compared is with and without logging and debug assertions
    P["C31"] = dict(P["C23"], compare="watched", fams=P["C23"]["fams"] +
                    [("same", lambda rng, fn=fn: gen.packs((ops := fn(rng, T)) and rng.sample(ops, min(len(ops), n(1500))), fn.__name__)) for fn in (gen.error_ops, gen.email_ops, gen.cmd_ops, gen.authcmd_ops, gen.caps_ops)])
    P["C24"] = dict(mc=[], hist=[], fams=[packed(gen.cmd_ops, "cmd")])
    P["C25"] = dict(mc=["login"], hist=[], fams=[packed(gen.authcmd_ops, "acm")])
    P["C26"] = dict(mc=[], hist=[], fams=[packed(gen.error_ops, "err")])
    P["C27"] = dict(mc=[], hist=[], fams=[packed(gen.email_ops, "eml")])
    P["C32"] = dict(mc=[], hist=[], fams=[packed(gen.value_ops, "val")])
    P["C28"] = dict(mc=[], models=["two"], hist=[], must_fail=["x_two"], fams=[f(gen.together, n(700), judge="indep")])
    P["C30"] = dict(mc=["fault", "open", "tls", "auth2"] + (["auth", "faultauth", "cancel", "cancelsil", "endless"] if T else []), hist=[("auth", 400 if q else None), ("tls", None), ("open", None)], must_fail=["x_cause"],
                    fams=[f(gen.long_malformed), f(gen.contrary), cutdown(gen.shapes, n(100, 550)), f(gen.fault_kinds), f(gen.faults, limit=n(1500)), f(gen.malformed, limit=n(1200)), f(gen.cancels, limit=n(300)), f(gen.sources, count=n(300)), cutdown(gen.auths, n(400, 1900)), f(gen.openings, count=n(300)), f(gen.starttls, count=n(150)),
                          f(gen.texts, limit=n(400)), cutdown(gen.codes, n(300, 2640)), ses(300, "rn", neg=0.4), ("pure", lambda rng: gen.packs(gen.failure_ops(rng, T) + gen.challenge_ops(rng, T), "flr"))])
    P["C29"] = dict(mc=["send", "fault", "cancel"] + (["send3", "cancelsil"] if T else []), hist=send, must_fail=["x_once"],
                    fams=[f(gen.contrary, places=["mail", "rcpt", "data", "content", "rset"]), f(gen.group_refusals), f(gen.shapes, places=["mail", "rcpt", "data", "content", "rset"]), cutdown(gen.bulky, n(6, 84)), f(gen.texts, places=["mail", "rcpt", "data", "content", "rset"]), f(gen.fault_kinds, limit=n(2400)), ses(700), ses(400, "rn", neg=0.4), f(gen.faults, limit=n(1200)), f(gen.cancels, limit=n(1000)), f(gen.malformed, limit=n(500)), f(gen.stalls, limit=n(400)), f(gen.sources, count=n(300)), f(gen.groups), cutdown(gen.large, n(8, 18))])

    # What the source mentions: words and numbers, in the places a property is about.
    D5 = ["mail", "rcpt", "data", "content", "rset"]
    places = {"C01": D5, "C04": D5, "C18": D5, "C29": D5, "C12": ["auth", "sasl"], "C11": ["auth", "sasl", "ehlo"], "C17": ["greeting", "ehlo"], "C09": ["ehlo"], "C19": ["ehlo"], "C20": ["data", "content"], "C21": ["starttls", "ehlo"]}
    for c in P:
        if P[c]["fams"] is None or c in ("C08", "C24", "C25", "C26", "C27", "C28", "C32"):
            continue
        j = "conform" if c == "C22" else "same" if c in ("C23", "C31") else "trace"
        fams = [f(gen.lit_replies, judge=j, places=places.get(c)), cutdown(gen.lit_values, n(130), judge=j)]
        if c not in ("C11", "C17", "C19", "C21"):
            fams += [cutdown(gen.counts, n(60, 400), judge=j), cutdown(gen.lit_sizes, n(110, 400), judge=j)]
        P[c] = dict(P[c], fams=P[c]["fams"] + fams)
    for c in ("C10", "C12", "C13", "C17", "C22", "C23", "C31"):
        P[c] = dict(P[c], fams=P[c]["fams"] + [cutdown(gen.foreign, n(50, 143), judge="conform" if c == "C22" else "same" if c in ("C23", "C31") else "trace")])

    def more(c, fn, tag):
        P[c] = dict(P[c], fams=P[c]["fams"] + [("same" if c in ("C23", "C31") else "pure", lambda rng: gen.packs(fn(rng), tag))])
    for c, fn in (("C07", gen.lit_addr_ops), ("C08", gen.lit_xtext_ops), ("C13", gen.lit_parse_ops), ("C19", gen.lit_cap_ops), ("C24", gen.lit_cmd_ops), ("C25", gen.lit_authcmd_ops), ("C26", gen.lit_error_ops), ("C27", gen.lit_email_ops), ("C30", gen.lit_error_ops)):
        more(c, fn, "lit")
    for c in ("C23", "C31"):
        more(c, lambda rng: [o for fn in (gen.lit_parse_ops, gen.lit_cap_ops, gen.lit_cmd_ops, gen.lit_authcmd_ops, gen.lit_error_ops, gen.lit_email_ops) for o in fn(rng)], "lit")
    for c in ("C06", "C20"):
        P[c] = dict(P[c], fams=P[c]["fams"] + [f(gen.lit_messages, judge="dot")])
