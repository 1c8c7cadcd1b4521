"""Families of histories: operations past the end, and objects reset and used again."""
from families import FAMILIES, Family, ASPECTS, case, family, longish, stream_text
from gen import *
from writer import Writer
import outfamilies
import emitgen


def operations(rng, mode, n, tail):
    """Operations for a text of n octets: some first ones, or all and then some more."""
    first = "l" if mode == "load" else None
    if rng.random() < tail:
        count = n // 2 + 3 if mode == "load" else 4 * n + 20
        kind = rng.random()
        ops = [first or ("s" if kind < .4 else "n" if kind < .8 else rng.choice("sn")) for _ in range(count)]
        if mode == "scan":
            return ops + [rng.choice("sn") for _ in range(rng.randint(1, 6))]
        return ops + [rng.choice("snl") for _ in range(rng.randint(1, 8))]
    count = rng.randint(1, rng.choice([3, 8, 20, n + 3]))
    return [first or rng.choice("sn") for _ in range(count)]


def reading(rng, mode, prop, tail=1.0):
    g = Gen(rng)
    x = rng.random()
    if x < .22:
        t = g.short_text(70)
    elif x < .3:
        t = Writer(rng).stream()
    elif x < .5:
        t = stream_text(rng)
    elif x < .8:
        # Several documents
        t = ""
        for _ in range(rng.randint(1, 5)):
            t += rng.choice(["", "", "---\n", "--- ", "%YAML 1.1\n---\n", "%TAG ! !a\n---\n"])
            t += rng.choice(["a", "[a, b]", "a: b", "- a\n- b", "", "'q'", "&a [*a]", "*a", "{a: b", "? a", "&x y", "|\n l", "!t v", "\ta: b: c", "@"])
            t += rng.choice(["\n", "\n", "\n...\n", "\n---\n", "\n# c\n"])
    else:
        t = rng.choice(["", " ", "\n", "---", "...", "# c", "a", "%YAML 1.1", "%YAML 1.1\n---\n%YAML 1.1\n", "]", "[", "'", "\ufeff", "\ufeffa"])
    b = t.encode("utf8", "surrogatepass")
    enc, cut, ch = 0, -1, ()
    if rng.random() < .15:
        u = rng.choice(["utf-16-le", "utf-16-be"])
        b = t.encode(u, "surrogatepass")
        if rng.random() < .5:
            b = (b"\xff\xfe" if u == "utf-16-le" else b"\xfe\xff") + b
        else:
            enc = 2 if u == "utf-16-le" else 3
    if rng.random() < .1:
        b = bytearray(b)
        b.insert(rng.randint(0, len(b)), rng.choice([0, 1, 0x7f, 0xff, 0xc0, 0xe2]))
        b = bytes(b)
    if rng.random() < .15:
        cut = rng.randint(0, len(b))
    if rng.random() < .3:
        ch = [rng.choice([0, 1, 1, 2, 3, 5]) for _ in range(rng.randint(1, 4))] + [rng.choice([1, 4, 100])]
    c = case(b, mode, ASPECTS[prop], enc, ch, cut)
    c["ops"] = operations(rng, mode, len(b), tail)
    return c


@family("ends")
def ends(rng, n, prop, k):
    """Reading to the end, or an error, and on: scan, parse, load and the iterators."""
    for _ in range(n):
        yield reading(rng, rng.choice(["scan", "parse", "parse", "load", "load"]), prop, .85)


@family("resets")
def resets(rng, n, prop, k):
    """Scanners and parsers used for a while, reset, and used again."""
    for _ in range(n):
        scanner = rng.random() < .4
        ss = []
        for i in range(rng.choice([2, 2, 3, 4])):
            c = reading(rng, "scan" if scanner else rng.choice(["parse", "parse", "load"]), prop, .45)
            if rng.random() < .3:
                c["ops"] = []
            ss.append(c)
        yield {"mode": "history", "sessions": ss}


def emitting(rng):
    x = rng.random()
    if x < .4:
        e = emitgen.Events(rng, props=rng.choice([0, .3]), depth=rng.choice([1, 2, 3]), values=lambda: rng.choice(["a", "", "x y", "a: b", "l\nm", "q\n\n", " s"]))
        ops = e.stream()[:60]
        if rng.random() < .5:
            ops = ops[:rng.randint(1, len(ops))]
        if rng.random() < .4:
            ops = emitgen.broken(rng, ops)
        if rng.random() < .3:
            ops = emitgen.resettled(rng, ops)
        if rng.random() < .3 and ops and ops[0]["k"] == "SS":
            ops[0] = emitgen.ev("OPEN")
            if ops[-1]["k"] == "SE":
                ops[-1:] = [emitgen.ev("CLOSE")] * rng.choice([1, 1, 2])
        c = emitgen.emit_case(ops, emitgen.settings(rng))
    elif x < .52:
        import docfamilies
        c = next(docfamilies.dumps(rng, 3))
        if rng.random() < .3:
            c["ops"] = c["ops"][:rng.randint(1, len(c["ops"]))]
    elif x < .66:
        c = next(outfamilies.protocol(rng, 1, "", 0))
    elif x < .8:
        c = next(outfamilies.scalarout(rng, 1))
        if rng.random() < .5:
            c["ops"] = c["ops"][:rng.randint(1, len(c["ops"]))]
    else:
        while True:
            c = next(outfamilies.sinks(rng, 1, "", 0))
            if sum(len(str(o)) for o in c["ops"]) < 20000:
                break
    return c


def describe_emits(c):
    return describe_wild(c)


def emitresets(rng, n, prop, k):
    """Emitters used for a while, reset, and used again."""
    for _ in range(n):
        yield {"mode": "emits", "sessions": [emitting(rng) for _ in range(rng.choice([2, 2, 3, 4]))]}


FAMILIES["emitresets"] = Family(emitresets, describe=describe_emits, module="EmitTrace")


IO_KINDS = ["NotFound", "PermissionDenied", "ConnectionReset", "BrokenPipe", "AlreadyExists", "WouldBlock", "InvalidInput",
            "InvalidData", "TimedOut", "WriteZero", "UnexpectedEof", "OutOfMemory", "Unsupported", "Other"]


@family("errors")
def errors(rng, n, prop, k):
    """Everything that makes reading fail, in every layer."""
    parts = [FAMILIES[f].cases(rng, n, prop, k) for f in ["malformed", "malformed", "tags", "encodings", "cuts", "graphs"]]
    for i in range(n):
        c = next(parts[rng.randrange(len(parts))])
        if c["cut"] >= 0 or rng.random() < .05:
            c["ek"] = rng.choice(IO_KINDS)
            if c["cut"] < 0:
                c["cut"] = rng.randint(0, len(c["b"]))
        yield c


def emiterrors(rng, n, prop, k):
    """Everything that makes emitting fail."""
    for i in range(n):
        c = next(outfamilies.protocol(rng, 1, prop, k) if rng.random() < .7 else outfamilies.sinks(rng, 1, prop, k))
        c["cfg"]["d"] = 1
        c["cfg"]["ek"] = rng.choice(IO_KINDS)
        yield c


FAMILIES["emiterrors"] = Family(emiterrors, describe=emitgen.describe, module="EmitTrace")


# ---------------------------------------------------------------------------
SIGNS = b"-?:,[]{}#&*!|>'\"%@` \n\n\t\r\\ab01~.<=/+_xuU\xc2\x85\xe2\x80\xa8\xef\xbb\xbf\xfe\xff\xf0\x9f\x98\x80"


def rubbish_bytes(rng, g):
    x = rng.random()
    if x < .15:
        return bytes(rng.randrange(256) for _ in range(rng.randint(0, 60)))
    if x < .45:
        return bytes(rng.choice(SIGNS) for _ in range(rng.choice([3, 8, 20, 60, 150])))
    b = bytearray(g.short_text(rng.choice([60, 200])).encode("utf8", "surrogatepass"))
    if x < .55:
        b = bytearray(bytes(b).decode("utf8", "replace").encode(rng.choice(["utf-16-le", "utf-16-be", "utf-16"])))
    for _ in range(rng.choice([0, 1, 1, 2, 4, 8])):
        i = rng.randint(0, len(b))
        y = rng.random()
        if y < .4:
            b[i:i] = bytes([rng.choice(SIGNS)])
        elif y < .6:
            b[i:i + 1] = bytes([rng.randrange(256)])
        elif y < .8:
            del b[i:i + rng.randint(1, 4)]
        else:
            j = rng.randint(0, len(b))
            b[i:i] = b[j:j + rng.randint(1, 10)]
    return bytes(b)


def anyhow(rng, mode):
    """Some operations in any order, and perhaps all there are, and some more."""
    kinds = {"scan": "sn", "parse": "sn", "load": "ld"}[mode]
    ops = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        ops.append([rng.choice(kinds), rng.choice([1, 1, 2, 3, 10])])
    if rng.random() < .8:
        ops.append([rng.choice(kinds), -1])
        for _ in range(rng.choice([0, 1, 2, 3])):
            ops.append([rng.choice(kinds + ("" if mode == "scan" else "snl")), rng.choice([1, 2])])
    return ops


@family("rubbish", module="RobustTrace")
def rubbish(rng, n, prop, k):
    """Arbitrary bytes read in any way, with resets in between."""
    g = Gen(rng)
    for _ in range(n):
        scanner = rng.random() < .3
        ss = []
        for i in range(rng.choice([1, 1, 1, 2, 3])):
            b = rubbish_bytes(rng, g)
            mode = "scan" if scanner else rng.choice(["parse", "load", "load"])
            ch = [rng.choice([0, 1, 1, 2, 3, 5, 8]) for _ in range(rng.randint(1, len(b) + 5))] if rng.random() < .3 else []
            c = case(b, mode, [], rng.choice([0, 0, 0, 0, 1, 2, 3]), ch, rng.randint(0, len(b)) if rng.random() < .1 else -1)
            c["ops"] = anyhow(rng, mode)
            ss.append(c)
        yield {"mode": "robust", "sessions": ss}


ASSORTED = ["text", "lines", "flows", "scalars", "tags", "malformed", "chars", "delivery", "cuts", "graphs", "streams", "short", "encodings", "written", "overgrown"]


@family("assorted", module="RobustTrace")
def assorted(rng, n, prop, k):
    """The texts of all the other families, read in any way."""
    share = n // len(ASSORTED) + 1
    for i, name in enumerate(ASSORTED):
        for c in FAMILIES[name].make(rng, min(share, n - i * share), "P09", rng.randrange(20)):
            c = dict(c, ops=anyhow(rng, c["mode"]), cmp=[])
            yield {"mode": "robust", "sessions": [c]}


@family("nested", module="RobustTrace")
def nested(rng, n, prop, k):
    """Deep nesting, long lines, many of everything."""
    for i in range(n):
        d = rng.choice([200, 1000, 3000])
        x = rng.random()
        if x < .4:
            parts = [rng.choice(["[", "{", "[{", "{a: ", "{? ", "[? ", "[a: ", "[&a ", "[!t ", "{a: &a ", "[*a, "]) for _ in range(rng.choice([1, 1, 2]))]
            s = "".join(parts) * d
            if rng.random() < .7:
                s += rng.choice(["", "a", "x: y"]) + "".join({"[": "]", "{": "}"}[q] for q in reversed(s) if q in "[{")
                if rng.random() < .3:
                    s = s[:-rng.randint(1, 5)]
        elif x < .6:
            d = rng.choice([1000, 5000, 20000])
            s = rng.choice(["- ", "? ", "- ? ", "? - ", "- &a ", "- !t ", ": "]) * d + rng.choice(["", "a", "a: b", "[", "\n"])
        elif x < .7:
            d = min(d, 400)
            s = "".join(" " * i + rng.choice(["a:\n", "-\n", "?\n", "- a:\n"]) for i in range(d))
        elif x < .9:
            d = rng.choice([1000, 10000])
            s = rng.choice(["a", " ", "\n", "a ", "a\n", "'", "'' ", "\"\\n", "#", "&a ", "!t ", "*a ", "a: b\n", "- a\n", "---\n", "...\n", "[]\n", "{}, ", "%A b\n", "|\n", "\t",
                            "\r", "\u2028", "\ufeff", ", ", ": ", "\\", "- |\n a\n", "a:\n", "? a\n", "\u00e9", "\x00", "\U0001f600", "--- a\n", "--- &a [*a]\n", "- *a\n"]) * d
        else:
            # Many simple keys at once
            s = "[" * rng.choice([10, 300]) + rng.choice(["a, ", "a: b, ", "? a : b, ", "[a], ", "{a}, "]) * rng.choice([100, 3000])
        if rng.random() < .2:
            s = rng.choice(["- ", "? ", "[", "{", "a: ", "\"", "'", "|\n ", ">\n ", "&a\n", "%TAG ! x\n--- "]) + s
        mode = rng.choice(["scan", "parse", "load"])
        c = case(s, mode, [])
        c["ops"] = [["d" if mode == "load" else "s", -1]]
        if rng.random() < .1:
            c["ch"] = [1] * len(c["b"])
        yield {"mode": "robust", "sessions": [c]}


def wildevents(rng, n, prop="", k=0):
    """Anything emitted, going on after errors of every kind, and sometimes started afresh."""
    import docfamilies
    for i in range(n):
        ss = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            x = rng.random()
            if x < .35:
                ops = [emitgen.randevent(rng) for _ in range(rng.choice([3, 10, 30]))]
                if rng.random() < .7:
                    ops = [emitgen.ss(rng.choice([0, 1, 2, 3])), emitgen.doc(rng.randint(0, 1))] + ops
            elif x < .75:
                e = emitgen.Events(rng, props=rng.choice([0, .3]), depth=rng.choice([1, 2, 3]), undefined=.1)
                ops = e.stream()[:60]
                for _ in range(rng.choice([0, 1, 2, 3])):
                    ops = emitgen.broken(rng, ops)
                # The event that failed, again
                for _ in range(rng.choice([0, 1, 3])):
                    if ops:
                        j = rng.randrange(len(ops))
                        ops[j:j] = [ops[j]] * rng.choice([1, 2])
                if rng.random() < .3:
                    ops = emitgen.resettled(rng, ops)
            elif x < .9:
                ops = [{"k": "DUMP", "s": [], "n": [], "doc": docfamilies.graph(rng, valid=False)} for _ in range(rng.randint(1, 3))]
                ops += [emitgen.randevent(rng) for _ in range(rng.choice([0, 1, 4]))]
                rng.shuffle(ops)
            else:
                # Output that does not fit the buffer, within all kinds of collections
                body = outfamilies.bulk(rng, 16384 - rng.randint(-30, 60))
                e = emitgen.Events(rng, props=.1, depth=2)
                rest = e.node(3)
                o, cl = rng.choice([(emitgen.seq(style=rng.randint(1, 2)), emitgen.SEQE), (emitgen.map_(style=rng.randint(1, 2)), emitgen.MAPE)])
                ops = [emitgen.ss(), emitgen.doc(), o] + body + rest + [cl, cl, emitgen.doce(), emitgen.doce(), emitgen.SE]
                j = rng.randint(3, len(ops) - 1)
                ops[j:j] = [ops[j]] * rng.choice([1, 2])
            for _ in range(rng.choice([0, 1, 2, 5])):
                ops.insert(rng.randint(0, len(ops)), emitgen.ev(rng.choice(["FLUSH", "FLUSH", "OPEN", "CLOSE"])))
            g = emitgen.settings(rng)
            g["wild"] = 1
            y = rng.random()
            if y < .3:
                g["failat"] = sorted(set(rng.randint(1, 6) for _ in range(rng.randint(1, 3))))
            elif y < .5:
                g["lim"] = rng.choice([0, 1, 5, 20, 60, 16000, 16384])
            elif y < .55:
                g["str"] = 1
                g["enc"] = rng.choice([0, 1])
            ss.append(emitgen.emit_case(ops, g))
            if rng.random() < .4:
                ss.append(emitting(rng))
        yield {"mode": "emits", "sessions": ss}


ASSORTEDOUT = ["scalarout", "keys", "trees", "protocol", "sinks", "shortout"]


def assortedout(rng, n, prop="", k=0):
    """The events of all the other families, going on after errors."""
    share = n // len(ASSORTEDOUT) + 1
    for i, name in enumerate(ASSORTEDOUT):
        for c in FAMILIES[name].make(rng, min(share, n - i * share), "P13", rng.randrange(20)):
            c["cfg"]["wild"] = 1
            yield {"mode": "emits", "sessions": [c]}


def describe_wild(c):
    import docfamilies
    return [docfamilies.describe_dumps(s) for s in c["sessions"]] if "sessions" in c else docfamilies.describe_dumps(c)


FAMILIES["wildevents"] = Family(wildevents, describe=describe_wild, module="EmitTrace")
FAMILIES["assortedout"] = Family(assortedout, describe=describe_wild, module="EmitTrace")
