"""Families of emitting cases, judged by EmitTrace."""
import itertools
from families import FAMILIES, Family
import emitgen
from emitgen import *


def family(name, module="EmitTrace"):
    def deco(fn):
        FAMILIES[name] = Family(fn, describe=describe, module=module)
        return fn
    return deco


def in_context(ctx, sc):
    """One scalar event somewhere in a document."""
    pad = scalar("k")
    v = scalar("v")
    inner = {
        "root": [sc],
        "bseq": [seq(style=1), sc, v, SEQE],
        "bkey": [map_(style=1), sc, v, pad, v, MAPE],
        "bval": [map_(style=1), pad, sc, v, v, MAPE],
        "fseq": [seq(style=2), v, sc, v, SEQE],
        "fkey": [map_(style=2), sc, v, pad, v, MAPE],
        "fval": [map_(style=2), pad, sc, v, v, MAPE],
        "deep": [map_(style=1), pad, map_(style=1), pad, seq(style=1), seq(style=1), sc, sc, SEQE, SEQE, MAPE, v, v, MAPE],
        "inseq": [map_(style=1), pad, seq(style=1), sc, map_(style=1), sc, sc, MAPE, SEQE, MAPE],
        "ckey": [map_(style=1), map_(style=1), sc, sc, MAPE, sc, seq(style=0), sc, SEQE, sc, MAPE],
        "fdeep": [seq(style=1), map_(style=2), pad, seq(), sc, sc, sc, SEQE, sc, sc, MAPE, SEQE],
    }[ctx]
    return [ss(), doc()] + inner + [doce(), SE]


CONTEXTS = ["root", "bseq", "bkey", "bval", "fseq", "fkey", "fval", "deep", "inseq", "ckey", "fdeep"]


@family("scalarout")
def scalarout(rng, n, prop="", k=0):
    """Scalars of all styles with random values, in every context, under every setting."""
    for _ in range(n):
        pi, qi = rng.choice([(1, 1), (1, 1), (1, 0), (0, 1)])
        t, a = None, None
        if rng.random() < .12:
            t = rng.choice(TAGS)
            pi = qi = rng.randint(0, 1)
        if rng.random() < .08:
            a = rng.choice(ANCHORS)
        sc = scalar(value(rng, True), a, t, pi, qi, rng.choice([0, 1, 2, 3, 4, 5, 4, 5]))
        if rng.random() < .7:
            ops = in_context(rng.choice(CONTEXTS), sc)
        else:
            ops = [ss()]
            for _ in range(rng.choice([1, 2])):
                ops += [doc(rng.randint(0, 1)), sc, doce(rng.randint(0, 1))]
                sc = scalar(value(rng, True), style=rng.choice([1, 2, 3, 4, 5]))
            ops += [SE]
        yield emit_case(ops, settings(rng))


def keyed(rng, longest):
    """A document with keys around the lengths up to which they are simple."""
    def props(k):
        a = "n" * rng.choice(KEY_LENGTHS[:-3]) if rng.random() < .25 else None
        t = rng.choice(["!", "tag:yaml.org,2002:", "tag:e,2000:", "x"]) + rng.choice(["t", "\u00e9", "a,"]) * rng.choice(KEY_LENGTHS[:-3]) if rng.random() < .25 else None
        return a, t

    def key():
        a, t = props("")
        x = rng.random()
        if x < .65:
            pi, qi = (0, 0) if t else rng.choice([(1, 1), (1, 1), (1, 0), (0, 1)])
            return [scalar(longkey(rng, longest) if rng.random() < .8 else rng.choice(["", "a", "l\nm"]), a, t, pi, qi, rng.choice([0, 1, 2, 3, 4, 5]))]
        if x < .75:
            return [alias("q" * rng.choice(KEY_LENGTHS))]
        open_, close = rng.choice([(seq, SEQE), (map_, MAPE)])
        body = [] if x < .9 else [scalar("i"), scalar("j")]
        return [open_(a, t, 0 if t else 1, rng.choice([0, 1, 2]))] + body + [close]
    v = scalar("v")
    outer = rng.choice([1, 2])
    pairs = [e for _ in range(rng.choice([1, 1, 2, 3])) for e in key() + (key() if rng.random() < .2 else [v])]
    m = [map_(style=rng.choice([0, 1, 2]))] + pairs + [MAPE]
    x = rng.random()
    if x < .3:
        m = [seq(style=outer)] + m + [v, SEQE]
    elif x < .6:
        m = [map_(style=outer), scalar("k")] + m + [MAPE]
    tags = [("!e!", "tag:e,2000:")] if rng.random() < .2 else []
    return [ss(), doc(1, None, tags)] + m + [doce(), SE]


@family("keys")
def keys(rng, n, prop, k):
    """Keys of all kinds around the lengths up to which they are written as simple keys."""
    for _ in range(n):
        g = settings(rng) if rng.random() < .5 else dict(PLAIN_SETTINGS)
        yield emit_case(keyed(rng, rng.random() < .1), g)


@family("roundkeys", "RoundTrace")
def roundkeys(rng, n, prop, k):
    """Keys of all kinds and lengths, emitted and parsed again."""
    for _ in range(n):
        g = settings(rng) if rng.random() < .5 else dict(PLAIN_SETTINGS)
        g["enc"] = rng.choice([0, 0, 0, 1, 2, 3])
        yield emit_case(keyed(rng, True), g, "round")


OUT_ALPHABETS = ["a :-\n", "a #,[", "a\n '", 'a"\\ \n', "-. a\n", "a\n\u2028 ", "?a: ", "a \n\t", "|>a\n ", "&*a!%@`", "a\u00e9 \n", "{}a: ", "a\r\n ", "\ufeffa\x07 "]


@family("shortout")
def shortout(rng, n, prop, k):
    """All short values over small alphabets, in turn in every style and context."""
    start, i, out = k * n, 0, 0
    for ln in range(0, 8):
        for a in OUT_ALPHABETS:
            al = sorted(set(a))
            size = len(al) ** ln * 2
            if i + size <= start:
                i += size
                continue
            for j in range(max(0, start - i), size):
                s, x = "", j // 2
                for _ in range(ln):
                    s += al[x % len(al)]
                    x //= len(al)
                g = dict(PLAIN_SETTINGS)
                h = i + j
                if h % 5 == 0:
                    g["wid"], g["uni"] = 5, h // 5 % 2
                if h % 7 == 0:
                    g["ind"] = 2 + h // 7 % 8
                sc = scalar(s, style=rng.choice([1, 2, 4, 5, 4, 5, 1, 3]))
                yield emit_case(in_context(rng.choice(CONTEXTS), sc), g)
                out += 1
                if out == n:
                    return
            i += size


@family("trees")
def trees(rng, n, prop, k):
    """Random streams of documents with directives, anchors and tags under all settings."""
    for _ in range(n):
        calm = rng.random() < .6
        e = Events(rng, props=rng.choice([0, .1, .3, .5]), depth=rng.choice([1, 2, 3, 4]), undefined=.02,
                   values=(lambda: rng.choice(["a", "k", "foo", "", "x y", "a: b", "some longer text here", "l\nm", "q\n"])) if calm else None)
        ops = e.stream()
        if len(ops) > 90:
            ops = ops[:90]
        else:
            ops = emitgen.grown(rng, ops)
        if rng.random() < .25:
            ops = [x for o in ops for x in ((o, FLUSH) if rng.random() < .3 and o["k"] != "SS" else (o,))]
        if rng.random() < .25:
            ops = resettled(rng, ops)
        yield emit_case(ops, settings(rng))


@family("protocol")
def protocol(rng, n, prop, k):
    """Event sequences with something out of place, or with unacceptable properties or directives."""
    for _ in range(n):
        e = Events(rng, props=rng.choice([0, .2, .4]), depth=rng.choice([0, 1, 2]), undefined=.1, values=lambda: rng.choice(["", "a", "b: c", "l\nm"]))
        ops = e.stream()[:40]
        if rng.random() < .06:
            ops = emitgen.enlarged(rng, ops)
        if rng.random() < .9:
            ops = broken(rng, ops)
        # Flush after every event: what is accepted must be written, and what waits must not be
        if rng.random() < .5:
            ops = [x for o in ops for x in ((o, FLUSH) if ops[0]["k"] == "SS" else (o,))]
        yield emit_case(ops, settings(rng) if rng.random() < .3 else dict(PLAIN_SETTINGS))


def bulk(rng, total):
    """A document of about total bytes of text."""
    w = rng.choice(["a", "a", "\u00e9", "\u20ac", "\U0001f600", "a b "])
    out, size = [], 0
    while size < total:
        n = min(total - size, rng.choice([total, total, 4000, 500]))
        s = w * max(1, n // len(w.encode()))
        if rng.random() < .3:
            s = "x" * rng.randint(1, 3) + s
        out.append(scalar(s, style=rng.choice([1, 2, 3, 4, 5])))
        size += len(s.encode()) + 3
    return out


@family("hugeout")
def hugeout(rng, n, prop, k):
    """Columns and sizes above what 16 bits hold, and then something whose layout depends on them."""
    for i in range(n):
        size = rng.choice([65530, 65534, 65535, 65536, 65540, 66000])
        g = settings(rng, False)
        g["wid"] = rng.choice([-1, 65536, 65535, 100000, 40])
        g["can"] = 0
        big = scalar(rng.choice(["a", "a", "a b"]) * (size // 3 * 3 // (3 if rng.random() < .3 else 1)), style=rng.choice([1, 2, 3, 0]))
        rest = [scalar("b c"), scalar("d e f", style=2), seq(style=2), scalar("g"), SEQE, scalar("h\ni", style=3)]
        x = (i + k) % 3
        if x == 0:
            body = [seq(style=2), big] + rest + [SEQE]
        elif x == 1:
            body = [seq(style=1)] + [scalar("x", style=1)] * 3 + [big] + rest + [SEQE]
        else:
            body = [map_(style=2), scalar("k"), big, scalar("l"), scalar("m"), MAPE]
        yield emit_case([ss(), doc()] + body + [doce(), SE], g)


@family("sinks")
def sinks(rng, n, prop, k):
    """Sinks that fail, accept little or are interrupted; all encodings; output around the size of the buffer."""
    for i in range(n):
        g = settings(rng)
        g["can"] = 1 if rng.random() < .1 else 0
        g["enc"] = rng.choice([0, 1, 2, 3])
        big = rng.random() < .05
        if big:
            # One scalar makes the buffer overflow, near a boundary
            g["uni"] = 1
            g["wid"] = rng.choice([-1, UNSET])
            body = bulk(rng, 16384 + rng.choice([-60, -40, -30, -20, -12, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 20, 100]) if rng.random() < .8 else rng.randint(16000, 40000))
            tail = [scalar(value(rng)) for _ in range(rng.randint(0, 4))]
            ops = [ss(), doc()] + ([seq(style=rng.choice([1, 2]))] + body + tail + [SEQE] if len(body) > 1 or rng.random() < .5 else body) + [doce(), SE]
        else:
            e = Events(rng, props=.2, depth=rng.choice([0, 1, 2, 3]))
            ops = e.stream()[:60]
            ops[0] = ss(rng.choice([0, 0, 1, 2, 3]))
            if rng.random() < .1:
                ops = [ops[0]] + resettled(rng, ops[1:])
        if rng.random() < .6:
            ops = [x for o in ops for x in ((o, FLUSH) if rng.random() < .4 else (o,))]
        if rng.random() < .2 and ops[0]["k"] == "SS":
            ops[0] = ev("OPEN")
            if ops[-1]["k"] == "SE":
                ops[-1] = ev("CLOSE")
                if rng.random() < .5:
                    ops.append(ev("CLOSE"))
        x = rng.random()
        if x < .15:
            g["str"] = 1
            g["enc"] = 1 if rng.random() < .5 else 0
        elif x < .45:
            g["lim"] = rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 60, 100]) if not big else rng.choice([0, 100, 16000, 16383, 16384, 16390, 17000])
        elif x < .75:
            g["failat"] = sorted(set(rng.randint(1, 6) for _ in range(rng.randint(1, 2))))
        if not big and g["lim"] < 0 and not g["failat"] and rng.random() < .4 or rng.random() < .1:
            g["short"] = rng.choice([1, 1, 2, 3, 7]) if not big else rng.choice([1000, 5000])
        if rng.random() < .3:
            g["intr"] = rng.choice([1, 2, 3])
        if g["short"]:
            g["failat"] = []
        yield emit_case(ops, g)


@family("roundtrees", "RoundTrace")
def roundtrees(rng, n, prop, k):
    """Random streams of documents emitted under all settings and encodings and parsed again."""
    for _ in range(n):
        g = settings(rng)
        g["enc"] = rng.choice([0, 0, 0, 1, 2, 3])
        e = Events(rng, props=rng.choice([0, .1, .3, .5]), depth=rng.choice([1, 2, 3, 4]), undefined=.02)
        ops = emitgen.grown(rng, e.stream())
        if rng.random() < .2:
            ops = resettled(rng, ops, canonical=False)
        yield emit_case(ops, g, "round")


@family("roundscalars", "RoundTrace")
def roundscalars(rng, n, prop, k):
    """Scalars of all styles with random values in every context, emitted and parsed again."""
    for c in scalarout(rng, n):
        c["mode"] = "round"
        c["cfg"]["enc"] = rng.choice([0, 0, 0, 1, 2, 3])
        yield c


@family("roundshort", "RoundTrace")
def roundshort(rng, n, prop, k):
    """All short values over small alphabets, emitted and parsed again."""
    for c in shortout(rng, n, prop, k):
        c["mode"] = "round"
        yield c
