#!/usr/bin/env python3
"""Decide one property of juju/worker by generated-case search.

usage: check.py ID [--tier quick|thorough]      search
       check.py ID --replay FILE                replay one recorded case

Builds the harness against /repo's working tree, runs it in several processes
with different seeds and processor counts, merges what they covered into
evidence/ID.json and exits 0 (held), 1 (VIOLATION line printed) or 2 (no
answer).
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time, zlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
EVID = os.path.join(HERE, "evidence")
LEVEL = "exploration"

# Properties with their own number of cases per shard: (quick, thorough).
# The number is what usually bounds a quick run; the deadline is a safety net.
TABLE = json.load(open(os.path.join(HERE, "budget.json")))


def env_for_go():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOFLAGS="-mod=mod")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin"
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in list(e):
        if k.startswith("VP_"):
            del e[k]
    return e


def build(tmp, race, env):
    h = os.path.join(HERE, "harness")
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(h, f), os.path.join(tmp, f))
    out = os.path.join(tmp, "vp.test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", os.path.join(tmp, "go.mod"), "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./checks")
    p = subprocess.run(cmd, cwd=h, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        print(p.stdout[-4000:])
        print("cannot build the harness against /repo")
        sys.exit(2)
    return out


FRAME = re.compile(r"^\s+(/\S+\.go):\d+")


def blame(section):
    """Whose code the innermost frames of a stack trace belong to."""
    for line in section.splitlines():
        if ".cellTouch(" in line:
            return "library"  # memory whose accesses the library has to order
        m = FRAME.match(line)
        if not m:
            continue
        p = m.group(1)
        if p.startswith(REPO + "/"):
            return "library"
        if p.startswith(HERE + "/"):
            return "harness"
        # standard library and dependencies: look further out
    return "unknown"


def crash_verdict(log):
    """(what, is it the library's fault) for the log of a crashed process."""
    i = log.find("WARNING: DATA RACE")
    if i >= 0:
        sec = log[i:i + 12000].split("==================")[0]
        # both accesses: the library's if either innermost frame is its own
        parts = re.split(r"\n(?=Previous |Goroutine )", sec)
        who = [blame(p) for p in parts[:2]]
        return "data race", "library" in who, sec
    for mark in ("panic: ", "fatal error: "):
        i = log.find(mark)
        if i >= 0:
            sec = log[i:]
            j = sec.find("\ngoroutine ")
            head = sec[:j if j > 0 else 400][:400]
            g = sec[j + 1:].split("\n\n")[0] if j > 0 else sec
            return head.strip(), blame(g) == "library", sec[:8000]
    return "exited abnormally", False, log[-4000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build once, to fill the build cache")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.setup:
        tmp = tempfile.mkdtemp(prefix="vp-")
        try:
            for race in (False, True):
                build(tmp, race, env_for_go())
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return
    prop = a.prop
    if not re.match(r"C\d\d$", prop or ""):
        ap.error("which property?")
    conf = dict(TABLE["default"])
    conf.update(TABLE.get(prop, {}))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    env = env_for_go()
    env["VP_KNOWN"] = ",".join(k for k, _ in known_findings(prop))
    tmp = tempfile.mkdtemp(prefix="vp-")
    try:
        rc = run(a, prop, conf, seed, t0, env, tmp)
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(a, prop, conf, seed, t0, env, tmp):
    binary = build(tmp, conf.get("race", False), env)
    os.makedirs(EVID, exist_ok=True)
    if a.replay:
        rec = json.load(open(a.replay))
        e = dict(env, VP_PROP=prop, VP_REPLAY=os.path.abspath(a.replay), VP_FIRST="1", VP_REPEAT="3000",
                 VP_OUT=os.path.join(tmp, "o.json"), GORACE="halt_on_error=1 exitcode=66")
        p = subprocess.run([binary, "-test.timeout=0"], env=e, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        print(p.stdout[-20000:])
        return 1 if p.returncode else 0

    shards = conf["shards"]
    tier = a.tier
    deadline = conf[tier + "_deadline"]
    checks = conf[tier + "_cases"]
    procs = []
    for i in range(shards):
        s = (seed * 1000003 + zlib.crc32(prop.encode()) * 31 + i * 7919) % (2**62) + 1
        b = os.path.join(tmp, "s%d" % i)
        e = dict(env, VP_PROP=prop, VP_OUT=b + ".json", VP_CUR=b + ".cur", VP_DEADLINE=str(deadline),
                 VP_PROCS=str(conf["procs"][i % len(conf["procs"])]), VP_SHRINK=str(conf["shrink"]),
                 GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="all")
        log = open(b + ".log", "w")
        p = subprocess.Popen([binary, "-test.run=^TestVP$", "-test.timeout=0", "-rapid.checks=%d" % checks, "-rapid.seed=%d" % s,
                              "-rapid.nofailfile", "-rapid.shrinktime=%ds" % conf["shrink"]],
                             env=e, cwd=tmp, stdout=log, stderr=subprocess.STDOUT)
        procs.append((p, b))

    # Wait; as soon as one has an answer against the property, stop the rest.
    hard = time.time() + deadline + conf["shrink"] + 460
    failed = None
    inconclusive = []
    left = list(procs)
    while left and failed is None:
        time.sleep(0.05)
        for p, b in list(left):
            rc = p.poll()
            if rc is None:
                continue
            left.remove((p, b))
            if rc == 0:
                continue
            out = {}
            try:
                out = json.load(open(b + ".json"))
            except (OSError, ValueError):
                pass
            log = open(b + ".log", errors="replace").read()
            if out.get("fail") and rc in (1, 7):
                failed = out["fail"]
                break
            if rc == 9:
                inconclusive.append("shard inconclusive: " + log[-1500:])
                continue
            what, lib, sec = crash_verdict(log)
            if lib:
                try:
                    scn, case = open(b + ".cur", errors="replace").read().split("\n", 1)
                    case = json.loads(case.split("\n")[0])
                except ValueError:
                    scn, case = "?", None
                failed = {"property": prop, "scenario": scn, "case": case,
                          "violations": [{"property": prop, "message": "the library crashed the process: " + what}],
                          "trace": sec.splitlines()}
                break
            inconclusive.append("shard exited %d: %s\n%s" % (rc, what, log[-3000:]))
        if time.time() > hard:
            inconclusive.append("shards did not finish in time")
            break
    for p, _ in left:
        p.kill()
    for p, _ in procs:
        p.wait()

    # Merge coverage.
    ev = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "classes": {}, "shards": shards,
          "deadline_reached": 0, "other_properties_seen_failing": {}}
    hashes = set()
    for _, b in procs:
        try:
            o = json.load(open(b + ".json"))
        except (OSError, ValueError):
            continue
        ev["evaluations"] += o.get("evaluations", 0)
        hashes.update(o.get("nontrivial_hashes") or [])
        ev["rule"] = o.get("rule") or ev["rule"]
        for s in (o.get("samples") or [])[:1]:
            if len(ev["samples"]) < 3:
                ev["samples"].append(s)
        for k, v in (o.get("classes") or {}).items():
            ev["classes"][k] = ev["classes"].get(k, 0) + v
        ev["deadline_reached"] += bool(o.get("deadline_hit"))
        for k, v in (o.get("other_properties") or {}).items():
            ev["other_properties_seen_failing"][k] = ev["other_properties_seen_failing"].get(k, 0) + v
    ev["distinct_nontrivial"] = len(hashes)
    rec = {"property": prop, "tier": a.tier, "seed": seed, "level": LEVEL, "coverage": ev,
           "assumptions": conf["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": 1 if failed else 0}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(rec, f, indent=1)
    rep = os.path.join("evidence", "replay-%s.json" % prop)
    if failed:
        with open(os.path.join(HERE, rep), "w") as f:
            json.dump(failed, f, indent=1)
        for v in failed["violations"][:5]:
            print("  %s: %s" % (v["property"], v["message"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    try:
        os.remove(os.path.join(HERE, rep))
    except OSError:
        pass
    for line in inconclusive[:2]:
        print(line)
    if inconclusive and len(inconclusive) >= shards:
        return 2
    if not hashes or (inconclusive and ev["evaluations"] < checks):
        print("no non-trivial case was evaluated")
        return 2
    for k, f in known_findings(prop):
        if ev["classes"].get("known-" + k):
            print("KNOWN-FINDING: property=%s %s" % (prop, f))
    print("held: %s, %d cases (%d distinct non-trivial), %.1f s" % (prop, ev["evaluations"], ev["distinct_nontrivial"], time.time() - t0))
    return 2 if inconclusive else 0


def known_findings(prop):
    """Open findings of the property as (key, text); fixed ones suppress nothing."""
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


main()
