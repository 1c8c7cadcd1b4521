"""Running the harness and TLC: building, sharding, collecting verdicts."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
HARNESS = os.path.join(TARGET, "release", "harness")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = max(1, min(8, os.cpu_count() or 1))


class ToolError(Exception):
    pass


def digest(paths):
    h = hashlib.sha256()
    for top in paths:
        for d, _, fs in sorted(os.walk(top)) if os.path.isdir(top) else [(os.path.dirname(top), [], [os.path.basename(top)])]:
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as s:
                    h.update(s.read())
    return h.hexdigest()


def build():
    """Builds the harness from the current working tree of /repo."""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(BUILD, "stamp")
    now = digest([REPO + "/src", REPO + "/Cargo.toml", VERIF + "/harness/src", VERIF + "/harness/Cargo.toml"])
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    d = os.path.join(VERIF, "harness")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        # Time stamps cannot be relied upon in a copied tree
        subprocess.run(["cargo", "clean", "--release", "--offline", "-q", "-p", "libyaml-safer", "-p", "harness"],
                       cwd=d, env=env, capture_output=True)
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("the harness does not build:\n" + r.stderr[-4000:])
    with open(stamp, "w") as f:
        f.write(now)


TOOLS = os.path.join(BUILD, "tools")


def build_tools():
    """Builds the command line tools from the current working tree of /repo."""
    stamp = os.path.join(BUILD, "stamp-tools")
    now = digest([REPO + "/src", REPO + "/Cargo.toml"])
    env = dict(os.environ, CARGO_TARGET_DIR=TOOLS, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        subprocess.run(["cargo", "clean", "--release", "--offline", "-q", "-p", "libyaml-safer"], cwd=REPO, env=env, capture_output=True)
    r = subprocess.run(["cargo", "build", "--release", "--bins", "--offline", "-q"], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("the tools do not build:\n" + r.stderr[-4000:])
    with open(stamp, "w") as f:
        f.write(now)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(inp, out, n):
    """Executes all n cases, resuming after one that hangs or crashes."""
    if os.path.exists(out):
        os.unlink(out)
    bad = 0
    while True:
        done = 0
        if os.path.exists(out):
            with open(out, "rb") as f:
                done = sum(1 for _ in f)
        if done >= n:
            return
        r = subprocess.run([HARNESS, "run", inp, out, str(done)], preexec_fn=limits, capture_output=True, text=True)
        if r.returncode == 0:
            continue_at = sum(1 for _ in open(out, "rb"))
            if continue_at < n:
                raise ToolError("harness stopped early: " + r.stderr[-500:])
            return
        if r.returncode == 2:
            raise ToolError("harness: " + r.stderr[-500:])
        bad += 1
        # What it had written may be cut off: keep the whole lines.
        with open(out, "rb") as f:
            data = f.read()
        keep = data[:data.rfind(b"\n") + 1]
        k = keep.count(b"\n")
        with open(out, "wb") as f:
            f.write(keep)
        if bad > 6:
            # Enough has gone wrong to tell; the remaining cases are dropped.
            return
        if r.returncode != 3:
            # A crash (abort, stack overflow, out of memory).  Cases are
            # buffered: find the one that crashes.
            with open(inp) as f:
                lines = f.readlines()
            while k < n:
                one_in, one_out = inp + ".one", out + ".one"
                with open(one_in, "w") as f:
                    f.write(lines[k])
                if os.path.exists(one_out):
                    os.unlink(one_out)
                q = subprocess.run([HARNESS, "run", one_in, one_out, "0"], preexec_fn=limits, capture_output=True)
                if q.returncode in (0, 3):
                    with open(one_out) as f, open(out, "a") as g:
                        g.write(f.read())
                    k += 1
                    if q.returncode == 3:
                        break
                else:
                    case = json.loads(lines[k])
                    case["o"] = [{"k": "CRASH", "m": [], "s": [], "n": [], "x": []}]
                    with open(out, "a") as g:
                        g.write(json.dumps(case) + "\n")
                    k += 1
                    break


def run_tlc(directory, module, cfg, scratch, env=None, timeout=600, xmx="2500m", workers=1, xss="900m", extra=()):
    """Runs TLC; returns its output."""
    meta = os.path.join(scratch, "meta")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-DTLA-Library=" + SPEC, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + xmx, "-Xss" + xss, "-cp", JARS,
           "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, module]
    try:
        r = subprocess.run(cmd, cwd=directory, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return 124, o.decode("utf8", "replace") if isinstance(o, bytes) else o
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def marked(out, mark):
    """The JSON values TLC printed after the given mark."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + mark):
            res.append(json.loads(json.loads(line)[len(mark):]))
    return res


def validate(batch):
    """One batch: generate, execute, validate.  Runs in its own process."""
    import families
    import outfamilies  # noqa: F401
    import histories  # noqa: F401
    import docfamilies  # noqa: F401
    import toolfamilies  # noqa: F401
    prop, seed, tier, fam, k, n, scratch = batch
    d = os.path.join(scratch, "%s-%s-%d" % (prop, fam, k))
    os.makedirs(d, exist_ok=True)
    try:
        rng = random.Random("%s/%s/%s/%s/%d" % (seed, tier, prop, fam, k))
        f = families.FAMILIES[fam]
        cases = []
        for c in f.cases(rng, n, prop, k):
            c.setdefault("id", k * 1000000 + len(cases))
            cases.append(c)
        return check_cases(f, cases, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def flatten(lines):
    """A record for each session of each case."""
    out = []
    for l in lines:
        c = json.loads(l)
        if "sessions" not in c:
            out.append(l)
            continue
        of = {k: v for k, v in c.items() if k != "o"}
        obs = c["o"]
        if obs and "k" in obs[0]:
            # Crashed or hung as a whole
            obs = [obs]
        for i, o in enumerate(obs):
            out.append(json.dumps(dict(c["sessions"][i], id=c["id"] * 16 + i, o=o, of=of)) + "\n")
    return out


def check_cases(f, cases, d, timeout=850):
    inp, out = os.path.join(d, "in"), os.path.join(d, "out")
    with open(inp, "w") as s:
        for c in cases:
            s.write(json.dumps(c) + "\n")
    f.execute(inp, out, len(cases))
    with open(out) as s:
        lines = s.readlines()
    whole = len(lines)
    if any("sessions" in c for c in cases):
        lines = flatten(lines)
        with open(out, "w") as s:
            s.writelines(lines)
    n = len(lines)
    rc, text = run_tlc(os.path.join(SPEC, f.dir), f.module + ".tla", f.module + ".cfg", d, env={"CASES": out}, timeout=timeout)
    rep = marked(text, "##")
    if not rep or rep[-1]["accepted"] + rep[-1]["rejected"] != n:
        where = [x for x in text.splitlines() if "rror" in x or "xception" in x or "line " in x][:12]
        keep = os.path.join(BUILD, "failed")
        os.makedirs(keep, exist_ok=True)
        shutil.copy(out, os.path.join(keep, os.path.basename(d) + ".ndjson"))
        raise ToolError("TLC did not judge every case of %s (rc %s, %s of %d): %s" % (
            os.path.basename(d), rc, rep[-1] if rep else "no report", n, " | ".join(where)))
    bad = marked(text, "@@")
    byid = {}
    if bad:
        want = {b["id"] for b in bad}
        for l in lines:
            c = json.loads(l)
            if c["id"] in want:
                byid[c["id"]] = c.get("of", c)
    steps = 0
    keys = set()
    for c in cases:
        keys.add(hashlib.blake2b(json.dumps({a: b for a, b in c.items() if a != "id"}, sort_keys=True).encode(), digest_size=8).digest())
    kinds = {}
    samples = []
    for i, l in enumerate(lines):
        if i % max(1, n // 40) == 0 or i < 2:
            c = json.loads(l)
            for o in c["o"]:
                kinds[o["k"]] = kinds.get(o["k"], 0) + 1
            if len(samples) < 1 and len(c["o"]) > 3:
                samples.append({"case": f.describe(c), "observed": [o["k"] for o in c["o"]][:60]})
    gen, distinct = counts(text)
    return {"accepted": rep[-1]["accepted"], "rejected": rep[-1]["rejected"], "n": n, "dropped": len(cases) - whole, "states": distinct,
            "transitions": gen, "keys": keys, "kinds": kinds, "samples": samples,
            "bad": [(b, byid.get(b["id"])) for b in bad]}


def pool():
    return cf.ProcessPoolExecutor(WORKERS)
