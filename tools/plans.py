"""What each check runs: families of cases with their sizes, and design models."""
import json
import os
import shutil
import vt
import families
import outfamilies
import histories
import docfamilies
import toolfamilies


class Plan:
    def __init__(self, rule, fams, assumptions=(), note=""):
        self.rule = rule
        self.note = note or ("TLC decides for every executed case whether the specification has exactly that behaviour; "
                             "cases are sampled and enumerated, not all inputs")
        self.fams = fams            # (family, quick batches, thorough batches, batch size)
        self.assumptions = list(assumptions)

    def batches(self, tier):
        return [(f, q if tier == "quick" else t, s) for f, q, t, s in self.fams]

    def models(self, prop):
        return MODELS.get(prop, [])


def utf8(points):
    return list("".join(map(chr, points)).encode())


def replayed_texts(r):
    """What the model says about reading a text: its tokens, and its events."""
    base = {"b": utf8(r["text"]), "enc": 1, "ch": [], "cut": -1, "cmp": list("mvpfexy"), "ops": [], "ek": "Other"}
    return [("text", dict(base, mode="scan"), r["toks"]), ("text", dict(base, mode="parse"), r["evs"]), ("graphs", dict(base, mode="load", cmp=list("mvpfgexy")), r["lds"])]


CFG = {"d": 0, "ek": "Other", "wild": 0, "str": 0, "lim": -1, "short": 0, "intr": 0, "failat": []}


def replayed_events(r):
    """What the model says about emitting events: their text."""
    if r["told"]:
        # What the tools make of it: the text, and the lines told of the text.
        text = utf8(r["text"])
        return [("tolds", {"mode": "told", "times": 1, "told": r["told"], "nl": 1}, ["OUT", text]),
                ("tells", {"mode": "parse", "times": 1, "b": text}, ["LINE"] + [utf8(l) for l in r["back"]])]
    return [("roundtrees", {"mode": "round", "cfg": dict(CFG, **r["cfg"]), "ops": [{k: o[k] for k in "ksn"} for o in r["ops"]]}, utf8(r["text"]))]


def replayed_refusals(r):
    """What the model says about giving the emitter anything."""
    return [("protocol", {"mode": "emit", "cfg": dict(CFG, can=0, ind=2, wid=80, uni=1, br=2, enc=1), "ops": [{k: o[k] for k in "ksn"} for o in r["ops"]]}, r["er"])]


def refused(o, want):
    return all(x["k"] == "OK" for x in o[:-1]) and (o[-1]["x"] == want if want else o[-1]["k"] == "OK")


def replayed_histories(r):
    return [("documents", {"mode": "docs", "ops": r["ops"]}, r["told"])]


def told(o, want):
    return [(x["k"], x["n"], x["s"]) for x in o] == [(x["k"], x["n"], x["s"]) for x in want]


def replayed_dumps(r):
    return [("reloads", {"mode": "reload", "cfg": dict(CFG, **r["cfg"]), "docs": [r["doc"]], "b": []}, utf8(r["text"]))]


def as_by_tool(o, want):
    return o[-1]["k"] == "EXIT" and o[-1]["n"] == [0] and [x["k"] for x in o[:-1]] == want[:1] * (len(o) - 1) and [x["s"] for x in o[:-1]] == want[1:]


REPLAYS = {"Protocol": (replayed_refusals, refused),
           "Building": (replayed_histories, told),
           "Dumping": (replayed_dumps, lambda o, want: [x["s"] for x in o if x["k"] == "TEXT"] == [want]),
           "Reading": (replayed_texts, lambda o, want: [{k: v for k, v in x.items() if k != "d"} for x in o] == want),
           "Writing": (replayed_events, lambda o, want: as_by_tool(o, want) if want and isinstance(want[0], str) else o[:1] and o[0]["k"] == "TEXT" and o[0]["s"] == want)}


def replay_model(name, out, sc):
    """Replays the behaviours TLC reports in the implementation.  How many, and
    those that go differently."""
    if name not in REPLAYS:
        return 0, []
    cases_of, same = REPLAYS[name]
    todo = [x for r in vt.marked(out, "%%") for x in cases_of(r)]
    inp, res = os.path.join(sc, "in"), os.path.join(sc, "out")
    bad = []
    # Those the harness runs all at once, those of the tools by tool.
    by = {}
    for x in todo:
        f = families.FAMILIES[x[0]]
        by.setdefault(getattr(f, "tool", ""), (f, []))[1].append(x)
    for f, some in by.values():
        with open(inp, "w") as s:
            for i, (_, c, _) in enumerate(some):
                s.write(json.dumps(dict(c, id=i)) + "\n")
        f.execute(inp, res, len(some))
        with open(res) as s:
            for (fam, c, want), l in zip(some, s):
                o = json.loads(l)["o"]
                if not same(o, want):
                    bad.append((fam, {"why": "not as in the model", "want": want[:60], "got": o[:60]}, c))
    return len(todo), bad


def run_model(m, tier, scratch):
    """Model-checks a design model; its configuration names what is checked."""
    name, d, module, quick, thorough = m
    cfg = quick if tier == "quick" else thorough
    sc = os.path.join(scratch, "mc-" + name)
    os.makedirs(sc, exist_ok=True)
    try:
        rc, out = vt.run_tlc(os.path.join(vt.SPEC, d), module + ".tla", cfg, sc, timeout=840, xmx="4g", workers=2)
        gen, distinct = vt.counts(out)
        v = [l for l in out.splitlines() if "violated" in l or "is false" in l]
        if rc != 0 and not v:
            raise vt.ToolError("model %s: rc %s: %s" % (name, rc, " | ".join(l for l in out.splitlines() if not l.startswith('"%%') and ("rror" in l or "xception" in l or ".tla" in l))[:1500]))
        replays, bad = replay_model(module, out, sc)
    finally:
        shutil.rmtree(sc, ignore_errors=True)
    checked = []
    with open(os.path.join(vt.SPEC, d, cfg)) as f:
        on = False
        for l in f:
            w = l.split()
            if w and w[0] in ("INVARIANT", "INVARIANTS", "PROPERTY", "PROPERTIES"):
                on, w = True, w[1:]
            elif w and w[0].isupper() and len(w[0]) > 3:
                on = False
            if on:
                checked += w
    return {"model": name, "states": distinct, "transitions": gen, "checked": checked, "violated": "; ".join(v), "replayed": replays, "bad": bad}


def matches_finding(k, fam, c):
    """A known finding names the exact case that fails."""
    return k.get("family") == fam and k.get("case") == {x: c[x] for x in k.get("case", {})}


INPUT = ("Cases are texts made by the named families from a seeded generator (or enumerated); each is executed on the implementation and its whole "
         "result sequence validated by TLC against the specification. A case counts once per distinct input and configuration.")
OUTPUT = ("Cases are event sequences with settings and sinks made by the named families from a seeded generator (or enumerated); each is executed on the "
          "emitter and every operation's result and the bytes the sink received validated by TLC against the specification.")
ROUND = ("Cases are grammatical event sequences with settings; each is emitted, and the text parsed, by the implementation, and TLC decides whether the events "
         "read back are those emitted, up to what the specification allows to differ.")
HIST = ("Cases are histories of operations made by the named families from a seeded generator; each is executed on one object of the implementation, and every "
        "session of it (after creation, and after each reset) validated by TLC against the specification of a new object.")
TRUST = ["TLC evaluates the specification correctly", "the harness reports API results faithfully"]

def model(module, theme=""):
    n = module + ("_" + theme if theme else "")
    return (n, "mc", module, n + "_q.cfg", n + "_t.cfg")


def reading(*themes):
    return [model("Reading", t) for t in themes]


def writing(*themes):
    return [model("Writing", t) for t in themes]


MODELS = {"P01": reading("chars", "words"), "P02": reading("texts"), "P03": reading("props", "streams"), "P04": reading("words", "props"), "P05": reading("chars", "streams"),
          "P06": reading("chars", "graphs"), "P07": reading("texts", "words"), "P08": [model("Decoding")], "P09": [model("Decoding")], "P10": reading("streams", "words"),
          "P11": reading("graphs"), "P12": writing("structure", "breaks", "props"), "P13": writing("structure", "headers"), "P14": writing("plain", "special"),
          "P15": [model("Protocol")] + writing("headers"), "P16": [model("Sinking")], "P17": [model("Dumping")], "P18": [model("Building", "one"), model("Building", "two")],
          "P19": reading("chars"), "P21": writing("tools")}

PLANS = {
    "P01": Plan(INPUT, [("huge", 1, 10, 3), ("overgrown", 3, 45, 250), ("written", 6, 90, 1000), ("streams", 3, 50, 4000), ("lines", 8, 100, 4000), ("flows", 5, 100, 4000), ("text", 7, 160, 3000), ("short", 22, 300, 4000), ("big", 1, 15, 30), ("long", 3, 20, 400)], assumptions=TRUST),
    "P02": Plan(INPUT, [("overgrown", 3, 45, 250), ("written", 6, 90, 1000), ("scalars", 20, 300, 3000), ("text", 3, 60, 3000), ("short", 4, 100, 4000), ("big", 1, 15, 30), ("long", 1, 10, 400)], assumptions=TRUST),
    "P03": Plan(INPUT, [("overgrown", 3, 45, 250), ("written", 5, 75, 1000), ("streams", 3, 50, 4000), ("tags", 18, 250, 3000), ("text", 5, 80, 3000)], assumptions=TRUST),
    "P04": Plan(INPUT, [("overgrown", 3, 45, 250), ("written", 6, 90, 1000), ("streams", 3, 50, 4000), ("lines", 12, 150, 4000), ("flows", 8, 120, 4000), ("text", 7, 160, 3000), ("short", 7, 200, 4000), ("tags", 4, 40, 3000), ("big", 1, 15, 30), ("long", 1, 10, 400)], assumptions=TRUST),
    "P05": Plan(INPUT, [("overgrown", 3, 45, 250), ("written", 4, 60, 1000), ("streams", 3, 50, 4000), ("malformed", 14, 250, 3000), ("lines", 8, 100, 4000), ("flows", 5, 80, 4000), ("text", 4, 50, 3000), ("tags", 3, 50, 3000), ("short", 6, 100, 4000), ("long", 1, 10, 400)], assumptions=TRUST),
    "P07": Plan(INPUT, [("huge", 2, 20, 3), ("overgrown", 2, 30, 250), ("written", 6, 90, 1000), ("big", 1, 15, 30), ("streams", 3, 50, 4000), ("lines", 8, 100, 4000), ("flows", 5, 80, 4000), ("text", 8, 160, 3000), ("scalars", 5, 60, 3000), ("short", 5, 100, 4000), ("encodings", 3, 40, 3000), ("long", 2, 10, 400)], assumptions=TRUST),
    "P08": Plan(INPUT, [("huge", 1, 10, 3), ("big", 2, 30, 30), ("encodings", 12, 150, 3000), ("chars", 12, 150, 4000)], assumptions=TRUST),
    "P09": Plan(INPUT, [("huge", 1, 10, 3), ("big", 3, 45, 30), ("delivery", 16, 200, 3000), ("cuts", 6, 80, 4000)], assumptions=TRUST),
    "P12": Plan(ROUND, [("roundkeys", 6, 80, 3000), ("roundtrees", 16, 200, 4000), ("roundscalars", 16, 200, 5000), ("roundshort", 16, 200, 6000)], assumptions=TRUST),
    "P13": Plan(OUTPUT, [("hugeout", 1, 10, 3), ("keys", 6, 80, 1000), ("trees", 16, 200, 1500), ("scalarout", 8, 100, 1500)], assumptions=TRUST),
    "P14": Plan(OUTPUT, [("scalarout", 16, 200, 1500), ("shortout", 12, 200, 3000)], assumptions=TRUST),
    "P15": Plan(OUTPUT, [("protocol", 20, 300, 2500), ("trees", 4, 40, 1500)], assumptions=TRUST),
    "P16": Plan(OUTPUT, [("hugeout", 1, 10, 3), ("sinks", 24, 300, 1000)], assumptions=TRUST),
    "P17": Plan("Cases are graphs of nodes, built or loaded from texts; each is dumped by the implementation, TLC validates what is written against the specification "
                "of dumping and emitting, and decides whether the graph loaded from it is the one that was dumped.",
                [("dumps", 12, 150, 1500), ("reloads", 8, 100, 3000), ("retexts", 8, 100, 3000)], assumptions=TRUST),
    "P18": Plan("Cases are histories of operations on documents made by a seeded generator; each is executed, and the result of every operation validated by TLC "
                "against the specification.", [("documents", 16, 200, 2000)], assumptions=TRUST),
    "P19": Plan("Cases are texts and sources that fail, and event sequences and sinks that fail; of each error, every accessor, the conversion into an I/O error and the "
                "rendered text are validated by TLC against the specification.",
                [("huge", 1, 10, 3), ("errors", 16, 200, 3000), ("emiterrors", 8, 100, 2000)], assumptions=TRUST),
    "P06": Plan("Cases are sessions of reading arbitrary and deeply nested input in any way, dumping what loads, and of emitting anything, going on after errors; TLC "
                "decides whether the classes of results are possible, their number is within the bound, and every call returned.",
                [("rubbish", 10, 200, 4000), ("assorted", 8, 150, 6500), ("nested", 4, 40, 40), ("wildevents", 8, 150, 1000), ("assortedout", 3, 50, 3000), ("documents", 3, 30, 1500)], assumptions=TRUST),
    "P10": Plan(HIST, [("big", 1, 15, 30), ("ends", 16, 200, 3000), ("streams", 4, 50, 4000)], assumptions=TRUST),
    "P20": Plan(HIST, [("resets", 12, 150, 1500), ("emitresets", 12, 150, 700)], assumptions=TRUST),
    "P21": Plan("Cases are texts, and event notations, made by the named families from a seeded generator; the tool built from the tree is run on each, and what it "
                "writes and how it exits validated by TLC against the specification.", [("tells", 14, 200, 1000), ("tolds", 14, 200, 1000)], assumptions=TRUST),
    "P11": Plan(INPUT, [("overgrown", 2, 30, 250), ("written", 7, 105, 1000), ("big", 1, 15, 30), ("graphs", 12, 200, 3000), ("text", 3, 80, 3000), ("lines", 4, 80, 4000), ("flows", 4, 80, 4000)], assumptions=TRUST),
}
