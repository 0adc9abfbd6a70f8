#!/usr/bin/env python3
"""Decides one property: check.py <ID>.  VERIF_TIER (quick, thorough), VERIF_SEED.

1. TLC explores the models of spec/ exhaustively with the property as invariant.
2. Scenarios (complete histories of the model and generated families) are executed against the
   library, built from /repo for both runtimes; the harness records traces and judges nothing.
3. TLC judges every recorded trace with the trace specifications of spec/.
Exit 0: held; 1: VIOLATION; 2: the machinery failed."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.dont_write_bytecode = True
import plans  # noqa: E402

SPEC = os.path.join(ROOT, "spec")
JAVA = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx5g", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]
RUNTIMES = {"tokio": "rt-tokio", "async-std": "rt-async-std"}
# how the library is built for each runtime, and which scenarios run with logging on
USUAL = {"tokio": ("debug", "even"), "async-std": ("release", "odd")}
DEBUG = {"tokio": ("debug", "even"), "async-std": ("debug", "even")}
LOGGED = {"tokio": ("debug", "on"), "async-std": ("release", "on")}
SILENT = {"tokio": ("release", "off"), "async-std": ("debug", "off")}
T0 = time.time()


class Broken(Exception):
    """The machinery failed: exit 2."""


def say(*a):
    print("[%5.1fs]" % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------- build


def build(variants=(USUAL,)):
    errs = {}

    def one(rt, profile):
        target = os.path.join(ROOT, "target", rt + "-" + profile)
        # do not trust time stamps: the tree under test may be a fresh copy with old ones
        fp = os.path.join(target, profile, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("async-smtp-"):
                    shutil.rmtree(os.path.join(fp, d))
        r = subprocess.run(["cargo", "build", "--offline", "-q", "--features", RUNTIMES[rt], "--target-dir", target] + ["--release"] * (profile == "release"),
                           cwd=os.path.join(ROOT, "harness"), capture_output=True, text=True)
        if r.returncode != 0:
            errs[rt] = r.stderr[-4000:]

    ts = [threading.Thread(target=one, args=a) for a in sorted({(rt, v[rt][0]) for v in variants for rt in v})]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise Broken("build failed: %s" % errs)


# ---------------------------------------------------------------- TLC


def tlc(module, cfg, work, env=None, workers=2, timeout=800):
    os.makedirs(work, exist_ok=True)
    cfgf = os.path.join(work, "m.cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    cmd = JAVA[:1] + ["-Djava.io.tmpdir=" + os.path.abspath(work)] + JAVA[1:] + ["-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(work, "meta"), "-config", cfgf, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, env=dict(os.environ, **(env or {})), timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out: %s %s" % (module, work))
    out = r.stdout
    with open(os.path.join(work, "out"), "w") as f:
        f.write(out + r.stderr)
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    gen, dis = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    inv = re.search(r"Invariant (\w+) is violated", out)
    res = {"rc": r.returncode, "generated": gen, "distinct": dis, "inv": inv.group(1) if inv else None, "deadlock": "Deadlock reached" in out, "out": out}
    shutil.rmtree(os.path.join(work, "meta"), ignore_errors=True)
    if r.returncode not in (0, 11, 12, 13) or (r.returncode != 0 and not inv and not res["deadlock"]):
        raise Broken("TLC failed on %s (%s): %s" % (module, work, "\n".join(l for l in out.splitlines() if "rror" in l)[:2000] or r.stderr[-500:]))
    return res


def apalache(module, args, work):
    """A proof step over unbounded integers: True if it holds, False if there is a counterexample."""
    os.makedirs(work, exist_ok=True)
    shutil.copy(os.path.join(SPEC, module + ".tla"), work)
    env = dict(os.environ, JVM_ARGS="-Xmx3g -Djava.io.tmpdir=" + os.path.abspath(work))
    try:
        r = subprocess.run(["apalache-mc", "check", "--out-dir=" + os.path.join(os.path.abspath(work), "ao")] + args + [module + ".tla"],
                           cwd=work, capture_output=True, text=True, env=env, timeout=800)
    except subprocess.TimeoutExpired:
        raise Broken("Apalache timed out: %s %s" % (module, args))
    shutil.rmtree(os.path.join(work, "ao"), ignore_errors=True)
    if r.returncode not in (0, 12):
        raise Broken("Apalache failed on %s %s: %s" % (module, args, r.stdout[-500:]))
    return r.returncode == 0


def refine_cfg(c):
    """The detailed model refines the unbounded one (AlignMC)."""
    return mc_cfg(c, []).replace("INVARIANT NoViolation\n", "INVARIANT AlignInv\nPROPERTY Refines\n")


def mc_cfg(c, props, record=False):
    d = {"Ops": "OpsSend", "Connects": "ConBoth", "MaxOps": 3, "Answers": "AnsSend", "Faults": "NoFaults", "Cancels": "FALSE",
         "Win2": 100000, "Win1": 100, "D": "Full", "GL": 4096}
    d.update(c)
    return "\n".join([
        "SPECIFICATION Spec", "CONSTANTS", " D <- %s" % d["D"], " GroupLimit = %d" % d["GL"],
        " Props = {%s}" % ", ".join('"%s"' % p for p in props), " Ops <- %s" % d["Ops"], " Connects <- %s" % d["Connects"],
        " MaxOps = %d" % d["MaxOps"], " Answers <- %s" % d["Answers"], " Faults <- %s" % d["Faults"], " Cancels = %s" % d["Cancels"],
        " WinC2S = %d" % d["Win2"], " WinS2C = %d" % d["Win1"], " Record = %s" % str(record).upper(), " Eager = %s" % str(record).upper(),
        "INVARIANT NoViolation", "INVARIANT Emit" if record else "", "PROPERTY Completes" if d.get("Live") else "", "CHECK_DEADLOCK TRUE", ""])


def histories(out):
    hs = []
    for l in out.splitlines():
        # PrintT prints the string as a TLA+ value: quoted and escaped
        if l.startswith('"@H@'):
            hs.append(json.loads(json.loads(l)[3:]))
    return hs


# ---------------------------------------------------------------- the library


def execute(scs, work, variant=USUAL):
    """Runs the scenarios on both builds; returns {runtime: [trace lines in order]}."""
    nsh = 4
    jobs = []
    res = {rt: [None] * len(scs) for rt in RUNTIMES}

    def one(rt, shard):
        idx = list(range(shard, len(scs), nsh))
        rounds = 0
        while idx and rounds < 6:
            rounds += 1
            sf = os.path.join(work, "s-%s-%d.ndjson" % (rt, shard))
            tf = os.path.join(work, "t-%s-%d.ndjson" % (rt, shard))
            with open(sf, "w") as f:
                for i in idx:
                    f.write(json.dumps(scs[i], ensure_ascii=False) + "\n")
            profile, logging = variant[rt]
            exe = os.path.join(ROOT, "target", rt + "-" + profile, profile, "smtp-harness")
            try:
                # prlimit: code under test that allocates without bound must not take the sandbox down
                p = subprocess.run(["prlimit", "--as=12000000000", exe, sf, tf], capture_output=True, text=True, timeout=400, env=dict(os.environ, LOGGING=logging))
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -1
            lines = open(tf).read().split("\n") if os.path.exists(tf) else []
            full = lines[:-1]
            if rc == 2:
                raise Broken("harness: %s" % p.stderr[-500:])
            for i, l in zip(idx, full):
                json_ok = l.endswith("}")
                if not json_ok:
                    raise Broken("harness wrote a broken line")
                res[rt][i] = l
            idx = idx[len(full):]
            if idx and rc != 0:
                # the process died in this scenario: that is data
                i = idx.pop(0)
                ev = [{"e": "panic", "part": "", "plen": 0, "sent": 0, "mode": "cmd", "why": "process died (%d)" % rc}]
                res[rt][i] = json.dumps({"ev": ev, "id": scs[i]["id"]})
            os.unlink(sf)
            if os.path.exists(tf):
                os.unlink(tf)

    with ThreadPoolExecutor(8) as ex:
        for rt in RUNTIMES:
            for s in range(min(nsh, max(1, len(scs)))):
                jobs.append(ex.submit(one, rt, s))
        for j in jobs:
            j.result()
    return res


JUDGES = {
    "trace": ("SmtpTrace", "SPECIFICATION Spec\nCONSTANTS\n GroupLimit = 4096\n Prop = \"%s\"\nINVARIANT NoViolation\n%sVIEW Position\nCHECK_DEADLOCK FALSE\n"),
    "conform": ("SmtpConform", "SPECIFICATION Spec\nCONSTANTS\n D <- Huge\n GroupLimit = 4096\nINVARIANT Conforms\nVIEW Position\nCHECK_DEADLOCK FALSE\n"),
    "pure": ("PureTrace", "SPECIFICATION Spec\nCONSTANT GroupLimit = 4096\nINVARIANT NoViolation\nVIEW Position\nCHECK_DEADLOCK FALSE\n"),
    "dot": ("DotTrace", "SPECIFICATION TSpec\nCONSTANT Prop = \"%s\"\nINVARIANT NoViolation\nVIEW Position\nCHECK_DEADLOCK FALSE\n"),
    "same": ("Same", "SPECIFICATION Spec\nINVARIANT NoViolation\nVIEW Position\nCHECK_DEADLOCK FALSE\n"),
    "indep": ("Same", "SPECIFICATION Spec\nINVARIANT NoViolation\nVIEW Position\nCHECK_DEADLOCK FALSE\n"),
}


def judge(kind, prop, items, work, workers=2):
    """items: [(scenario index, runtime, line)].  Returns (violations, stats)."""
    mod, cfg = JUDGES[kind]
    if kind == "trace":
        cfg = cfg % (prop, "INVARIANT ScriptSane\n" if prop == "C13" else "")
    elif kind == "dot":
        cfg = cfg % prop
    # TLC moves parts of a queue of more than 8192 states to the disk, and spoils strings with octets above 127 there.
    nsh = 1 if len(items) < 400 else 2 if len(items) < 1200 else max(4, len(items) // 5000 + 1)
    shards = [items[s::nsh] for s in range(nsh)]
    viols, stats = [], {"generated": 0, "distinct": 0}

    def one(s):
        w = os.path.join(work, "judge-%s-%d" % (kind, s))
        os.makedirs(w, exist_ok=True)
        f = os.path.join(w, "traces.ndjson")
        with open(f, "w") as fh:
            for _, _, l in shards[s]:
                fh.write(l + "\n")
        r = tlc(mod, cfg, w, {"TRACES": f}, workers=workers, timeout=850 if plans.QUICK else 6000)
        if r["rc"] == 0:
            os.unlink(f)
            return r, None
        if r["inv"] not in ("NoViolation", "Conforms"):
            raise Broken("%s: %s in %s" % (mod, r["inv"], w))
        last = r["out"][r["out"].rindex("State "):]
        t = int(re.search(r"^/\\ t = (\d+)", last, re.M).group(1))
        i = int(re.search(r"^/\\ i = (\d+)", last, re.M).group(1))
        why = re.search(r'^/\\ (?:bad|why) = (.*)', last, re.M).group(1)
        return r, (shards[s][t - 1], i, why)

    with ThreadPoolExecutor(4) as ex:
        for r, v in ex.map(one, range(nsh)):
            stats["generated"] += r["generated"]
            stats["distinct"] += r["distinct"]
            if v:
                viols.append(v)
    return viols, stats


# ---------------------------------------------------------------- known findings


def digest(sc):
    return hashlib.sha256(json.dumps({k: v for k, v in sc.items() if k != "id"}, sort_keys=True).encode()).hexdigest()[:16]


def findings(prop):
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) scenario=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3).strip()
    return out


# ---------------------------------------------------------------- main


def trim_for_dot(line):
    d = json.loads(line)
    for e in d["ev"]:
        for k in ("r", "src", "order", "hello", "default"):
            e.pop(k, None)
    return json.dumps(d)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plans.setup(tier)
    plan = plans.PLANS[prop]
    work = os.path.join(ROOT, "out", "%s-%s" % (prop, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    states = transitions = 0
    models = []

    # 1. models, while the library is being built
    pool = ThreadPoolExecutor(4)
    variants = {"runtimes": [DEBUG], "watched": [LOGGED, SILENT]}.get(plan.get("compare"), [USUAL])
    building = pool.submit(build, variants)
    mcs = [(n, pool.submit(tlc, "MCDefs", mc_cfg(dict(plans.MC[n], Live=prop == "C14"), [prop]), os.path.join(work, "mc-" + n), None, 3, 6000)) for n in plan["mc"]]
    mcs += [("align-" + n, pool.submit(tlc, "AlignMC", refine_cfg(plans.MC[n]), os.path.join(work, "ref-" + n), None, 3, 6000)) for n in plan.get("refine", [])]
    recs = [(n, k, pool.submit(tlc, "MCDefs", mc_cfg(plans.HIST[n], [prop], True), os.path.join(work, "hist-" + n), None, 2, 6000)) for n, k in plan["hist"]]
    for m in plan.get("models", []):
        mod, cfg = plans.MODELS[m]
        mcs.append((m, pool.submit(tlc, mod, cfg, os.path.join(work, "mc-" + m), None, 3, 6000)))
    gens = [(m, fn, pool.submit(tlc, plans.MODELS[m][0], plans.MODELS[m][1], os.path.join(work, "gen-" + m), None, 4, 6000)) for m, fn in plan.get("gens", [])]
    neg = [(n, pool.submit(tlc, *(plans.MODELS[n] if n in plans.MODELS else ("MCDefs", mc_cfg(plans.MC[n], [prop]))), os.path.join(work, "neg-" + n), None, 3, 6000)) for n in plan.get("must_fail", [])] if tier != "quick" else []
    neg += [("align-" + n, pool.submit(tlc, "AlignMC", refine_cfg(plans.MC[n]), os.path.join(work, "negref-" + n), None, 3, 6000)) for n in plan.get("norefine", [])] if tier != "quick" else []
    proofs = [(p, pool.submit(apalache, *plans.PROOFS[p][:2], os.path.join(work, "proof-" + p))) for p in plan.get("proofs", []) + (plan.get("refuted", []) if tier != "quick" else [])]
    building.result()
    say("built")
    for p, f in proofs:
        if f.result() != plans.PROOFS[p][2]:
            raise Broken("the proof step %s %s" % (p, "fails" if plans.PROOFS[p][2] else "succeeds where it must not: it is vacuous"))
        models.append({"proof_step": p, "holds": plans.PROOFS[p][2]})
    for n, f in mcs:
        r = f.result()
        if r["rc"] != 0:
            raise Broken("the model %s itself violates %s (%s)" % (n, prop, r["inv"] or "deadlock"))
        states += r["distinct"]
        transitions += r["generated"]
        models.append({"model": n, "states": r["distinct"], "transitions": r["generated"]})
    for n, f in neg:
        if f.result()["rc"] == 0:
            raise Broken("the crippled design %s does not violate %s: the property is vacuous there" % (n, prop))
        models.append({"crippled_design": n, "rejected": True})
    rng = random.Random("%d-%s-%s" % (seed, prop, tier))
    groups = []          # (judge, scenarios)
    for n, k, f in recs:
        r = f.result()
        if r["rc"] != 0:
            raise Broken("the model %s itself violates %s" % (n, prop))
        hs = histories(r["out"])
        if not hs:
            raise Broken("no histories from %s" % n)
        states += r["distinct"]
        transitions += r["generated"]
        models.append({"histories_of": n, "complete_histories": len(hs)})
        groups.append((plan.get("session_judge", "trace"), plans.gen.from_model(hs, rng, "h" + n, sample=k)))
    for m, fn, f in gens:
        r = f.result()
        if r["rc"] != 0:
            raise Broken("the model %s: %s" % (m, r["inv"]))
        hs = histories(r["out"])
        if not hs:
            raise Broken("nothing from %s" % m)
        states += r["distinct"]
        transitions += r["generated"]
        models.append({"cases_of": m, "cases": len(hs)})
        groups.append(fn(hs, rng))
    say("models: %d states, %d transitions" % (states, transitions))
    for j, fn in plan["fams"]:
        groups.append((j, fn(rng)))

    # 2. the library
    scs, kinds, seen = [], [], set()
    known = findings(prop)
    for j, g in groups:
        for s in g:
            d = digest(s)
            if d in known:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[d]))
                continue
            if (j, d) in seen:
                continue
            seen.add((j, d))
            scs.append(s)
            kinds.append(j)
    say("%d scenarios" % len(scs))
    res = execute(scs, work, variants[0])
    if len(variants) > 1:
        other = execute(scs, work, variants[1])
    say("executed")

    # 3. judgement
    per = {}
    nosample = 0
    for i, s in enumerate(scs):
        a, b = res["tokio"][i], res["async-std"][i]
        if a is None or b is None:
            nosample += 1
            if a is None and b is None:
                continue
        if kinds[i] == "same" and len(variants) > 1:
            # with and without logging and debug assertions, on each runtime
            for rt in RUNTIMES:
                a, b = res[rt][i], other[rt][i]
                if a is not None and b is not None:
                    per.setdefault("same", []).append((i, rt, '{"id":%s,"a":%s,"b":%s}' % (json.dumps(s["id"]), json.dumps(json.loads(a)["ev"]), json.dumps(json.loads(b)["ev"]))))
            continue
        if kinds[i] == "same":
            if a is None or b is None:
                continue
            per.setdefault("same", []).append((i, "both", '{"id":%s,"a":%s,"b":%s}' % (json.dumps(s["id"]), json.dumps(json.loads(a)["ev"]), json.dumps(json.loads(b)["ev"]))))
            continue
        if kinds[i] == "indep":
            # side by side and alone, on each runtime
            for rt, l in (("tokio", a), ("async-std", b)):
                if l is not None:
                    d = json.loads(l)
                    per.setdefault("indep", []).append((i, rt, json.dumps({"id": s["id"], "a": d["ev"], "b": d.get("solo", [])})))
            continue
        for rt, l in ((("tokio", a),) if a == b else (("tokio", a), ("async-std", b))):
            if l is not None:
                per.setdefault(kinds[i], []).append((i, rt, trim_for_dot(l) if kinds[i] == "dot" else l))
    if nosample:
        say("%d scenarios not executed (the process kept hanging)" % nosample)
    viols = []
    ntr = 0
    events = 0
    for kind, items in per.items():
        v, st = judge(kind, prop, items, work)
        if kind != "dot" and not v:
            # every event of every trace was judged
            want = sum((len(json.loads(l).get("ev") or json.loads(l)["a"]) + 1) for _, _, l in items)
            if st["distinct"] < want:
                raise Broken("%s: %d states for %d events" % (kind, st["distinct"], want))
        states += st["distinct"]
        transitions += st["generated"]
        events += st["distinct"] - len(items)
        ntr += len(items)
        viols += [(kind,) + x for x in v]
        say("judged %d traces with %s: %d states" % (len(items), JUDGES[kind][0], st["distinct"]))

    # 4. evidence
    ident = sum(1 for i in range(len(scs)) if res["tokio"][i] is not None and res["tokio"][i] == res["async-std"][i])
    samples = []
    for kind, items in per.items():
        for i, rt, l in items[:: max(1, len(items) // 2)][:2]:
            samples.append({"scenario": scs[i]["id"], "runtime": rt, "judge": JUDGES[kind][0], "trace": l[:1500]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": ntr,
                       "evaluations": 2 * len(variants) * len(scs), "distinct_nontrivial": len({l for it in per.values() for _, _, l in it}),
                       "rule": "one evaluation: one scenario executed by the library built for one runtime; non-trivial: distinct recorded traces (equal traces of both builds count once), each judged event by event by TLC",
                       "samples": samples[:6], "models": models, "trace_events_judged": events, "scenarios": len(scs), "identical_on_both_runtimes": ident,
                       "checker_cmd": "python3 check.py %s (TLC 1.8.0 on spec/*.tla)" % prop},
          "assumptions": plans.ASSUMPTIONS, "wall_s": round(time.time() - T0, 1), "violations": len(viols)}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if not viols:
        say("%s holds on everything explored (%d states, %d traces)" % (prop, states, ntr))
        return 0
    for n, (kind, (i, rt, line), at, why) in enumerate(viols[:5]):
        rp = os.path.join(work, "replay-%d.json" % n)
        with open(rp, "w") as f:
            json.dump({"property": prop, "reasons": why, "judge": JUDGES[kind][0], "event": at - 1, "runtime": rt, "scenario": scs[i],
                       "trace": json.loads(line), "digest": digest(scs[i]),
                       "how": "write the scenario as one line to S; target/%s-%s/%s/smtp-harness S T (LOGGING=%s); the judge on T" % ((rt if rt in RUNTIMES else "tokio",) + (variants[0][rt if rt in RUNTIMES else "tokio"][0],) * 2 + (variants[0][rt if rt in RUNTIMES else "tokio"][1],))}, f, indent=1)
            f.write("\n")
        say("%s: %s at event %d of %s (%s)" % (prop, why, at - 1, scs[i]["id"], rt))
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    except Broken as e:
        print("CHECK FAILED:", e, flush=True)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    os._exit(rc)
