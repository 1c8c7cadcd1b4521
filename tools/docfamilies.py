"""Families of documents: histories of operations on them, and graphs to dump and load."""
from families import FAMILIES, Family, case
from emitgen import cps, opt, settings, value, emit_case, ss, ev, doc, doce, scalar, PLAIN_SETTINGS, FLUSH, HANDLES, PREFIXES, TAGS, CALM, broken, describe
import gen

DEFAULTS = {"NS": "tag:yaml.org,2002:str", "NQ": "tag:yaml.org,2002:seq", "NM": "tag:yaml.org,2002:map"}


def step(k, s=(), n=()):
    return {"k": k, "m": [], "s": list(s), "n": list(n), "x": []}


def op(k, d=1, n=(), s=()):
    return {"k": k, "d": d, "n": list(n), "s": list(s)}


def header(rng, directives=.15):
    n = [rng.randint(0, 1), rng.randint(0, 1), 0, 0, 0]
    s = []
    if rng.random() < directives:
        n[2:] = [1, 1, rng.choice([1, 2])]
    if rng.random() < directives:
        for h in rng.sample(HANDLES, rng.randint(1, 2)):
            s += [cps(h), cps(rng.choice(PREFIXES))]
    return n, s


LIMITS = [0, -1, 2147483647, -2147483648, -2147483647, 1000, 65536, 256]


def history(rng, length):
    """Operations on one or more documents."""
    kinds = []      # per document: kinds of its nodes

    def some(d, kind=None, wrong=.12):
        size = len(kinds[d - 1])
        if rng.random() < wrong:
            return rng.choice(LIMITS + [size + 1, size + 1, size + 2, -size])
        c = [i + 1 for i, k in enumerate(kinds[d - 1]) if kind is None or k == kind]
        if c:
            return rng.choice(c)
        return rng.choice(LIMITS + [size, 1])

    def tag():
        return opt(rng.choice([None, None, None, "", "!", "!t", "tag:yaml.org,2002:int", "tag:yaml.org,2002:mapping", "tag:yaml.org,2002:se", "x y", "é"] + list(DEFAULTS.values())))

    def loaded():
        if rng.random() < .08:
            n = rng.choice([17, 40, 100, 127, 128, 129, 254, 255, 256, 257, 300, 513, 1000, 1025])
            if rng.random() < .5:
                return "[" + ", ".join("v%d" % (q % 7) for q in range(n)) + "]\n", ["NQ"] + ["NS"] * n
            return "".join("k%d: v\n" % q for q in range(n)), ["NM"] + ["NS"] * (2 * n)
        t = rng.choice(["a", "[a, &x b, *x]", "{a: b, c: [d]}", "- a\n- b: c\n", "&a [*a]", "%YAML 1.1\n--- !t 'q'\n", "? [a]\n: {b: c}\n", "%TAG ! !x\n---\n!a b: !c\n...\n"])
        return t, {"a": ["NS"], "[a, &x b, *x]": ["NQ", "NS", "NS"], "{a: b, c: [d]}": ["NM", "NS", "NS", "NS", "NQ", "NS"], "- a\n- b: c\n": ["NQ", "NS", "NM", "NS", "NS"],
                   "&a [*a]": ["NQ"], "%YAML 1.1\n--- !t 'q'\n": ["NS"], "? [a]\n: {b: c}\n": ["NM", "NQ", "NS", "NM", "NS", "NS"],
                   "%TAG ! !x\n---\n!a b: !c\n...\n": ["NM", "NS", "NS"]}[t]

    ops = []
    n, s = header(rng, .25)
    many = rng.choice([20, 64, 129, 257, 300]) if rng.random() < .01 else 0
    if rng.random() < .25:
        t, k = loaded()
        ops.append(dict(op("LOAD"), b=list(t.encode())))
        kinds.append(list(k))
    else:
        ops.append(op("NEW", 1, n, s))
        kinds.append([])
    while len(ops) < length:
        d = rng.randint(1, len(kinds))
        x = rng.random()
        if many and (x < .1 or len(ops) + 1 >= length):
            # Much of one thing
            y, i = rng.random(), some(d, "NQ", 0)
            if y < .3:
                ops += [op("SC", d, [q % 6], [opt(None), cps("m%d" % q)]) for q in range(many)]
                kinds[d - 1] += ["NS"] * many
            elif y < .6:
                ops += [op("AI", d, [i, some(d, wrong=.01)]) for q in range(many)]
            elif y < .8:
                i = some(d, "NM", 0)
                ops += [op("AP", d, [i, some(d, wrong=.01), some(d, wrong=.01)]) for q in range(many)]
            else:
                ops.append(op("SC", d, [1], [opt("t" * many * 4), cps("v" * many * 9)]))
                kinds[d - 1].append("NS")
            many = 0
        elif x < .14:
            ops.append(op("SC", d, [rng.randint(0, 5)], [tag(), cps(rng.choice(["", "a", "x\ny", "é€", "\0", "0"]))]))
            kinds[d - 1].append("NS")
        elif x < .25:
            ops.append(op("SQ", d, [rng.randint(0, 2)], [tag()]))
            kinds[d - 1].append("NQ")
        elif x < .36:
            ops.append(op("MP", d, [rng.randint(0, 2)], [tag()]))
            kinds[d - 1].append("NM")
        elif x < .52:
            ops.append(op("AI", d, [some(d, "NQ" if rng.random() < .9 else None), some(d)]))
        elif x < .68:
            ops.append(op("AP", d, [some(d, "NM" if rng.random() < .9 else None), some(d), some(d)]))
        elif x < .78:
            ops.append(op(rng.choice(["GET", "GETM"]), d, [some(d, wrong=.4)]))
        elif x < .82:
            ops.append(op("ROOT", d))
        elif x < .87:
            i = rng.choice([0, some(d, wrong=.3)])
            j = 1 if i == 0 and kinds[d - 1] else i
            ops.append(op("SET", d, [i, rng.randint(0, 5)], [tag(), cps(rng.choice(["", "new"]))]))
            if 1 <= j <= len(kinds[d - 1]):
                kinds[d - 1][j - 1] = "NS"
        elif x < .91:
            ops.append(op("ALL", d))
        elif len(kinds) < 4:
            if rng.random() < .6:
                ops.append(op("CLONE", d))
                kinds.append(list(kinds[d - 1]))
            else:
                n, s = header(rng, .25)
                ops.append(op("NEW", 1, n, s))
                kinds.append([])
    return ops + [op("ALL", d + 1) for d in range(len(kinds))]


def documents(rng, n, prop="", k=0):
    """Random histories of the document interface."""
    for _ in range(n):
        yield {"mode": "docs", "ops": history(rng, rng.choice([4, 8, 15, 30, 60]))}


def describe_docs(c):
    def show(o):
        w = o["k"] + (" d%d" % o["d"] if o["k"] != "LOAD" else " " + repr(bytes(o["b"]).decode()))
        return w + (" %s" % o["n"] if o["n"] else "") + (" %s" % o["s"] if o["s"] else "")
    return [show(o) for o in c["ops"]]


FAMILIES["documents"] = Family(documents, describe=describe_docs, module="DocTrace")


# ---------------------------------------------------------------------------
def graph(rng, size=None, valid=True, share=None):
    """A document: header and nodes, with sharing, cycles and nodes out of reach."""
    n, s = header(rng)
    size = size or rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 12])
    share = share if share is not None else rng.choice([0, .2, .5, 1])
    kinds = [rng.choice(["NS", "NQ", "NM"]) for _ in range(size)]
    if size > 1 and rng.random() < .95:
        kinds[0] = rng.choice(["NQ", "NM"])
    nodes = []
    for i, kd in enumerate(kinds):
        x = rng.random()
        t = DEFAULTS[kd] if x < .75 else rng.choice(TAGS) if x < .93 else rng.choice([DEFAULTS[kd] + "x", DEFAULTS[kd][:-1]]) if x < .945 else rng.choice(list(DEFAULTS.values())) if x < .965 else "!"
        if not valid and rng.random() < .05:
            t = rng.choice([None, ""])
        if kd == "NS":
            nodes.append(step(kd, [opt(t), cps(value(rng) if rng.random() < .3 else rng.choice(CALM + ["", "1", "a: b"]))], [rng.randint(0, 5)]))
        else:
            nodes.append(step(kd, [opt(t)], [rng.randint(0, 2)]))
    # A tree that reaches (most) nodes, and then more references
    coll = [i for i in range(size) if kinds[i] != "NS"]
    refs = {i: [] for i in coll}
    for j in range(1, size):
        before = [i for i in coll if i < j]
        if before and rng.random() < .95:
            refs[rng.choice(before)].append(j + 1)
    for i in coll:
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            if rng.random() < share:
                refs[i].insert(rng.randint(0, len(refs[i])), rng.randint(1, size))
        if kinds[i] == "NM" and len(refs[i]) % 2:
            refs[i].append(rng.randint(1, size) if rng.random() < max(share, .1) else refs[i][0])
        nodes[i]["n"] += refs[i]
    return [dict(step("DOCUMENT", s, n + [size]))] + nodes


def many(rng):
    """More shared nodes than three digits can number."""
    m = rng.choice([9, 10, 11, 99, 100, 101, 120, 999, 1000, 1002])
    nodes = [step("NQ", [opt(DEFAULTS["NQ"])], [rng.randint(0, 2)] + [r for i in range(m) for r in (i + 2, i + 2)])]
    nodes += [step("NS", [opt(DEFAULTS["NS"]), cps("v")], [0]) for _ in range(m)]
    return [step("DOCUMENT", [], [1, 1, 0, 0, 0, m + 1])] + nodes


def empty(rng):
    return [step("DOCUMENT", [], [1, 1, 0, 0, 0, 0])]


def dumps(rng, n, prop="", k=0):
    """Documents dumped, with and without opening, closing and flushing the emitter."""
    for i in range(n):
        ops = []
        if rng.random() < .3:
            ops.append(ev("OPEN"))
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            d = graph(rng, valid=rng.random() < .8)
            if i == n // 2:
                d = many(rng)
            if rng.random() < .04:
                # Not a valid directive
                d[0]["s"] = d[0]["s"] + [cps(rng.choice(["", "x", "!a b!"])), cps("p")]
            ops.append({"k": "DUMP", "s": [], "n": [], "doc": d})
            if rng.random() < .15:
                ops.append(FLUSH)
            if rng.random() < .1:
                # By hand, in the same stream
                ops += [doc(rng.randint(0, 1)), scalar("by hand", anchor=rng.choice([None, "id001"])), doce(rng.randint(0, 1))]
        if rng.random() < .5:
            ops.append(ev("CLOSE"))
        if rng.random() < .2:
            for _ in range(rng.choice([1, 1, 2])):
                ops.append({"k": "DUMP", "s": [], "n": [], "doc": empty(rng)})
        if rng.random() < .05:
            ops.append({"k": "DUMP", "s": [], "n": [], "doc": graph(rng)})
        g = settings(rng) if rng.random() < .6 else dict(PLAIN_SETTINGS)
        if rng.random() < .15:
            g["lim"] = rng.choice([0, 1, 5, 20, 60])
        elif rng.random() < .1:
            g["str"] = 1
            g["enc"] = rng.choice([0, 1])
        yield emit_case(ops, g)


def describe_dumps(c):
    out = []
    for o in c["ops"]:
        out.append(describe(dict(c, ops=[o]))["ops"][0] if o["k"] != "DUMP" else "DUMP " + describe_doc(o["doc"]))
    return {"settings": describe(dict(c, ops=[]))["settings"], "ops": out}


def text(v):
    return "".join(map(chr, v))


def describe_doc(d):
    def show(i, x):
        t = "<%s>" % text(x["s"][0][0]) if x["s"][0] and text(x["s"][0][0]) not in DEFAULTS.values() else ""
        return "%d:%s%s%s %s" % (i, x["k"], t, " " + repr(text(x["s"][1])) if x["k"] == "NS" else "", x["n"])
    return "%s %s %s" % (d[0]["n"], [text(s) for s in d[0]["s"]], "; ".join(show(i, x) for i, x in enumerate(d) if i))


FAMILIES["dumps"] = Family(dumps, describe=describe_dumps, module="EmitTrace")


def reloads(rng, n, prop="", k=0):
    """Documents built and dumped, and the dump loaded."""
    for i in range(n):
        g = settings(rng) if rng.random() < .6 else dict(PLAIN_SETTINGS)
        g["enc"] = rng.choice([0, 0, 0, 1, 2, 3])
        docs = [graph(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if rng.random() < .05:
            docs[-1][-1]["s"][0] = []
        if i == n // 2:
            docs = [many(rng)]
        yield {"mode": "reload", "cfg": g, "docs": docs, "b": []}


def retexts(rng, n, prop="", k=0):
    """Texts loaded and dumped, and the dump loaded."""
    parts = [FAMILIES[f].cases(rng, n, "P11", k) for f in ["graphs", "graphs", "text", "tags", "written", "written"]]
    for _ in range(n):
        g = settings(rng) if rng.random() < .6 else dict(PLAIN_SETTINGS)
        g["enc"] = rng.choice([0, 0, 0, 1, 2, 3])
        yield {"mode": "reload", "cfg": g, "docs": [], "b": next(rng.choice(parts))["b"]}


def describe_reload(c):
    s = describe(dict(c, ops=[]))["settings"]
    return {"settings": s, "docs": [describe_doc(d) for d in c["docs"]]} if c["docs"] else {"settings": s, "text": bytes(c["b"]).decode("utf8", "replace")}


FAMILIES["reloads"] = Family(reloads, describe=describe_reload, module="ReloadTrace")
FAMILIES["retexts"] = Family(retexts, describe=describe_reload, module="ReloadTrace")
