"""Generators of what is emitted: settings, events, scalar values, sinks."""

UNSET = -99
PLAIN_SETTINGS = {"can": 0, "ind": UNSET, "wid": UNSET, "uni": 0, "br": 0, "enc": 0, "str": 0, "lim": -1, "short": 0, "intr": 0, "failat": []}
DEFAULT_TAGS = ["tag:yaml.org,2002:str", "tag:yaml.org,2002:seq", "tag:yaml.org,2002:map"]


def cps(s):
    return [ord(c) for c in s]


def opt(s):
    return [] if s is None else [cps(s)]


def ev(k, s=(), n=()):
    return {"k": k, "s": list(s), "n": list(n)}


def ss(enc=0):
    return ev("SS", n=[enc])


SE = ev("SE")
SEQE = ev("SEQE")
MAPE = ev("MAPE")
FLUSH = ev("FLUSH")


def doc(implicit=1, version=None, tags=()):
    v = [1, version[0], version[1]] if version else [0, 0, 0]
    return ev("DOC", [cps(x) for t in tags for x in t], [implicit] + v)


def doce(implicit=1):
    return ev("DOCE", n=[implicit])


def alias(a):
    return ev("ALIAS", [cps(a)])


def scalar(v, anchor=None, tag=None, pi=1, qi=1, style=0):
    return ev("SCALAR", [opt(anchor), opt(tag), cps(v)], [pi, qi, style])


def seq(anchor=None, tag=None, implicit=1, style=0):
    return ev("SEQ", [opt(anchor), opt(tag)], [implicit, style])


def map_(anchor=None, tag=None, implicit=1, style=0):
    return ev("MAP", [opt(anchor), opt(tag)], [implicit, style])


# Pieces scalar values are made of
PIECES = ["a", "b", "word", "foo bar", " ", " ", "  ", "\n", "\n", "\n\n", "\t", "\r", "\r\n", "\u0085", "\u2028", "\u2029", ":", ": ", "#", " #", "-", "- ", "?", "? ",
          ",", "[", "]", "{", "}", "&", "*", "!", "|", ">", "'", '"', "%", "@", "`", "---", "...", "\\", "\u00e9", "\u20ac", "\U0001f600", "\ufeff", "\u00a0", "\x00", "\x07",
          "\x08", "\x0b", "\x0c", "\x1b", "\x7f", "\ud7ff", "\ue000", "\ufffd", "\ufffe", "\uffff", "\U0010ffff", "\x9f", "\x80", "~", "0", "=", "<<", "/", "\u07ff", "\u0800",
          "\U00010000", "\uefff", "\uf000", "\ufeffx", "\x1f", "\xad", "\u7eff", "\uff00", "\ufdd0", " \n", "\n ", "\n\t"]
CALM = ["a", "b", "word", "foo bar", "some longer text", " ", "x y z", "\n", "\n\n", "lorem ipsum dolor sit amet", "1", "e-f", "k"]


# Values that would mean something else if they were written plain, or at the start of a line
MARKS = ["---", "...", "--- ", "... ", "-", "- ", "?", "? ", ":", ": ", "#", "# ", "%", "%YAML 1.1", "&", "*", "!", "|", ">", "'", '"', "@", "`", "[", "]", "{", "}", ",", "<<", "=", "~", "\t", "\ufeff"]


def mark(rng):
    m = rng.choice(MARKS + MARKS[:12])
    x = rng.random()
    w = rng.choice(["a", "b c", "", "1"])
    return m + w if x < .4 else w + m if x < .5 else w + rng.choice([" ", "\n", "\n", "\n\n", ""]) + m + rng.choice(["", "a", " a"])


LINE_ENDS = ["\n", "\n", "\n", "\r", "\r\n", "\u0085", "\u2028", "\u2029"]


def lines(rng):
    """Lines with ends of all kinds, several of them at the end or the start or between."""
    s = ""
    printable = rng.random() < .6
    ends = ["\n", "\n", "\u2028", "\u2029"] if printable else LINE_ENDS
    for _ in range(rng.randint(1, 4)):
        s += rng.choice(["", "a", "b c", " d", "# g", "- h", "i: j"] if printable else ["", "a", "b c", " d", "e ", "\tf", "# g", "- h", "i: j", "\u00e9"]) + "".join(rng.choice(ends) for _ in range(rng.choice([1, 1, 1, 2, 3])))
    return s + rng.choice(["", "", "", "k", " l"] if printable else ["", "", "k", " ", " l"])


def value(rng, big=False):
    if rng.random() < .07:
        return lines(rng)
    x = rng.random()
    if x > .9:
        if rng.random() < .7:
            return mark(rng)
        x = rng.random()
    if x < .07:
        return ""
    if x < .2:
        return rng.choice(["a", "key", "x1", "foo bar", "-1", "null", "~", "\u00e9t\u00e9"])
    if x < .45:
        return "".join(rng.choice(PIECES) for _ in range(rng.randint(1, 4)))
    if x < .7:
        return "".join(rng.choice(PIECES + CALM * 3) for _ in range(rng.randint(1, 12)))
    if x < .85 or not big:
        s = ""
        for _ in range(rng.randint(1, 26)):
            s += rng.choice(["a", "bc", "def", "ghij", "klmnop", "qrstuvwxyz", "\u00e9", "'q'", '"', "\\", "\u20ac\u20ac"] + CALM[:4]) + rng.choice([" ", " ", " ", " ", "  ", "", "\n", "\n\n", " \n", "\n ", "\t", "\u2028"] if rng.random() < .4 else [" "])
        return s if rng.random() < .3 else s.strip(" ")
    n = rng.choice([126, 127, 128, 129, 130, 60, 200, 81, 79, 80])
    b = rng.choice(["a", "\u00e9", "a ", "ab cd "])
    return (b * n)[:n]


KEY_LENGTHS = [1, 10, 42, 43, 60, 63, 64, 65, 85, 100, 110, 118, 120, 122, 124, 125, 126, 127, 128, 129, 130, 131, 140, 160, 200, 256]
LONG_KEYS = [300, 342, 343, 400, 500, 512, 600, 900, 1000, 1015, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1030, 1100]


def longkey(rng, longest=True):
    """A value around the lengths up to which keys are simple."""
    b = rng.choice(["a", "a", "k", "\u00e9", "\u20ac", "\U0001f600", "a\u00e9", "ab ", "'", '"', "\\", "\x07", "a: ", "x#y "])
    n = rng.choice(KEY_LENGTHS if not longest or rng.random() < .7 else LONG_KEYS)
    if rng.random() < .4:
        n = max(1, n // len(b.encode()))   # in bytes
    s = (b * n)[:n]
    return s if rng.random() < .95 else s + "\nz"


def settings(rng, wild=True):
    g = dict(PLAIN_SETTINGS)
    if rng.random() < .25:
        g["can"] = 1
    if rng.random() < .5:
        g["ind"] = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 1, 0, 10, -1, 100] if wild else [2, 3, 4, 8])
    if rng.random() < .6:
        g["wid"] = rng.choice([-1, 0, 1, 4, 5, 6, 8, 10, 15, 19, 20, 30, 40, 80, 120, -7, 1000])
    g["uni"] = rng.randint(0, 1)
    g["br"] = rng.choice([0, 0, 0, 1, 2, 3])
    return g


def resettled(rng, ops, canonical=True):
    """Settings change on the way."""
    out = []
    often = rng.choice([.05, .1, .3])
    for o in ops:
        while rng.random() < often:
            w = rng.choice([1, 2, 2, 3, 3, 4, 5, 5] if canonical else [2, 2, 3, 3, 4, 5])
            v = {1: [0, 1], 2: [-1, 0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 100], 3: [-7, -1, -1, 0, 1, 3, 5, 10, 20, 80], 4: [0, 1], 5: [0, 1, 2, 3]}[w]
            out.append(ev("SET", [], [w, rng.choice(v)]))
        out.append(o)
    return out


ANCHORS = ["a", "b1", "id001", "x-y_z", "A0", "-", "_"]
TAGS = ["tag:yaml.org,2002:str", "tag:yaml.org,2002:mapping", "tag:yaml.org,2002:sequence", "tag:yaml.org,2002:string", "tag:yaml.org,2002:s", "tag:yaml.org,2002:int", "tag:yaml.org,2002:map", "tag:yaml.org,2002:seq", "!foo", "!", "!!", "x", "tag:e,2000:bar", "tag:e,2000:", "!e!x",
        "a,b[c]", "!a,b[]", "tag:yaml.org,2002:", "\u00e9", "!\u00e9\u20ac", "\U0001f600", "a b", "a%20", "{x}", "tag:e,2000:a#b", "!~*'()", "<x>", "!my-t", "tag:yaml.org,2002:a!b",
        "!a;b/c?d:e@f&g=h+i$j_k.l", "x\u0080y", "!\"", "^", "!a{b}"]
HANDLES = ["!", "!!", "!e!", "!m!", "!a-b!", "!x_1!"]
PREFIXES = ["tag:e,2000:", "!my-", "tag:yaml.org,2002:", "x", "!", "\u00e9", "a,b[", "tag:e,2000:b", "tag:", "%", "a b"]
BAD_NAMES = ["", "a b", "\u00e9", "a!", "a.b", "*", "a\n", "a\u007f", "@"]
BAD_HANDLES = ["", "a", "e!", "!e", "!e.f!", "!\u00e9!", "!!!", "! !", "!e!f"]


def badname(rng):
    x = rng.random()
    return rng.choice(BAD_NAMES) if x < .8 else longname(rng) + rng.choice(["!", " ", "\u00e9", ".", "*"]) + rng.choice(["", "a", "bc"])


def badhandle(rng):
    x = rng.random()
    return rng.choice(BAD_HANDLES) if x < .8 else "!" + longname(rng) + rng.choice(["", " !", ".!", "\u00e9!", "!a!", "!a"])


class Events:
    """A grammatical stream.  tags: probability of tags; names defined so far are kept for aliases."""

    def __init__(self, rng, props=.25, depth=3, values=None, width=4, undefined=0.0, styles=True):
        self.r, self.props, self.depth, self.width, self.undefined, self.styles = rng, props, depth, width, undefined, styles
        self.value = values or (lambda: value(rng))
        self.names = []
        self.count = 0

    def anchor(self):
        if self.r.random() < self.props:
            self.count += 1
            a = self.r.choice(ANCHORS) + (str(self.count) if self.r.random() < .8 else "")
            return a
        return None

    def tag(self):
        return self.r.choice(TAGS) if self.r.random() < self.props else None

    def scalar(self):
        r = self.r
        t = self.tag()
        if t is None:
            pi, qi = r.choice([(1, 1), (1, 1), (1, 0), (0, 1)])
        else:
            pi, qi = r.choice([(0, 0), (0, 0), (1, 1), (1, 0), (0, 1)])
        a = self.anchor()
        if a:
            self.names.append(a)
        return scalar(self.value(), a, t, pi, qi, r.choice([0, 1, 2, 3, 4, 5]) if self.styles else 0)

    def node(self, d):
        r = self.r
        x = r.random()
        if (self.names or r.random() < self.undefined) and x < .1 + self.props / 3:
            return [alias(r.choice(self.names or ["u"]))]
        if d <= 0 or x < .4:
            return [self.scalar()]
        a, t = self.anchor(), self.tag()
        if a:
            self.names.append(a)
        n = r.choice([0, 1, 1, 2, 2, 3, self.width])
        style = r.choice([0, 1, 2] if r.random() < .8 else [1])
        impl = 1 if t is None else r.choice([0, 0, 1])
        if t is None and r.random() < .1:
            impl = 0
        if r.random() < .5:
            return [seq(a, t, impl, style)] + [e for _ in range(n) for e in self.node(d - 1)] + [SEQE]
        out = [map_(a, t, impl, style)]
        for _ in range(n):
            out += self.node(d - 1 if r.random() < .3 else 0) + self.node(d - 1)
        return out + [MAPE]

    def document(self):
        r = self.r
        self.names = []
        tags, version = [], None
        if r.random() < .25:
            for h in r.sample(HANDLES, r.randint(1, 3)):
                tags.append((h, r.choice(PREFIXES)))
        if r.random() < .15:
            version = (1, r.choice([1, 2]))
        return [doc(r.randint(0, 1), version, tags)] + self.node(r.randint(0, self.depth)) + [doce(r.choice([0, 1, 1]))]

    def stream(self, docs=None):
        out = [ss(self.r.choice([0, 0, 1]))]
        for _ in range(docs if docs is not None else self.r.choice([0, 1, 1, 1, 1, 2, 2, 3])):
            out += self.document()
        return out + [SE]


def grown(rng, ops):
    """Now and then a document is put deep into collections, or is one of many, or has long names."""
    y = rng.random()
    if y > .94:
        return enlarged(rng, ops)
    if y > .06:
        return ops
    at = [i for i, o in enumerate(ops) if o["k"] == "DOC"]
    if not at:
        return ops
    i = rng.choice(at)
    j = next(x for x in range(i, len(ops)) if ops[x]["k"] == "DOCE")
    body = ops[i + 1:j]
    x = rng.random()
    if x < .6:
        style = rng.choice([[1], [2], [0, 1], [1, 2], [1, 1, 1, 2]])
        for _ in range(rng.choice([5, 8, 12, 20, 40])):
            y, n = rng.random(), rng.choice(style)
            if y < .4:
                body = [seq(style=n)] + body + [SEQE]
            elif y < .5:
                body = [seq(style=n), scalar("a")] + body + [SEQE]
            elif y < .8:
                body = [map_(style=n), scalar("k")] + body + [MAPE]
            elif y < .9:
                body = [map_(style=n), scalar("k"), scalar("v"), scalar("l")] + body + [MAPE]
            else:
                body = [map_(style=n)] + body + [scalar("v"), MAPE]
        return ops[:i + 1] + body + ops[j:]
    if x < .8:
        return ops[:i] + ops[i:j + 1] * rng.choice([3, 6, 15]) + ops[j + 1:]
    n = rng.choice([10, 30, 80])
    if rng.random() < .5:
        body = [seq(style=rng.randint(1, 2))] + (body * n)[:max(len(body), n // len(body) * len(body))] + [SEQE]
    else:
        body = [map_(style=rng.randint(1, 2))] + [e for q in range(n) for e in (scalar("k%d" % q, style=rng.choice([0, 1, 3])), scalar(rng.choice(CALM)))] + [MAPE]
    return ops[:i + 1] + body + ops[j:]


MANY = [7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 80, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 600, 1000]


def longname(rng):
    return "".join(rng.choice("abzAZ09_-") for _ in range(3)) + rng.choice("aZ0_-") * rng.choice(MANY)


def longhandle(rng):
    return "!" + longname(rng) + "!"


def enlarged(rng, ops):
    """Longer names than usual, or more directives."""
    ops = [{"k": o["k"], "s": list(o["s"]), "n": list(o["n"])} for o in ops]
    what = rng.choice(["names", "handles", "prefixes", "tags", "directives", "everything"])
    new = {}

    def renamed(a):
        k = txt(a)
        if k not in new:
            new[k] = longname(rng) if rng.random() < .6 else k
            if rng.random() < .2 and new:
                # Alike for long
                new[k] = rng.choice(list(new.values())) + rng.choice(["a", "b", "0", "-"])
        return cps(new[k])
    prefixes = []
    for o in ops:
        if o["k"] == "DOC":
            prefixes = []
            t = [tuple(o["s"][i:i + 2]) for i in range(0, len(o["s"]), 2)]
            if what in ("directives", "everything"):
                names = rng.sample(range(100), rng.choice([3, 4, 5, 8, 10, 15, 20, 33]))
                t += [(cps("!d%d!" % q), cps(rng.choice(["tag:e,2000:%d" % (q % 5), "!m%d-" % (q % 3), "x" * (q % 7 + 1)]))) for q in names]
            if what in ("handles", "everything"):
                t = t[:2] + [(cps(longhandle(rng)), cps(rng.choice(PREFIXES)))] + t[2:]
            if what in ("prefixes", "everything"):
                t = t[:1] + [(cps("!lp!"), cps(rng.choice(PREFIXES) + rng.choice(["a", "\u00e9", ",", "x/"]) * rng.choice(MANY)))] + t[1:]
            if rng.random() < .3:
                rng.shuffle(t)
            o["s"] = [list(x) for u in t for x in u]
            prefixes = [txt(u[1]) for u in t]
        elif o["k"] == "ALIAS":
            if what in ("names", "everything"):
                o["s"] = [renamed(o["s"][0])]
        elif o["k"] in ("SCALAR", "SEQ", "MAP"):
            if what in ("names", "everything") and o["s"][0]:
                o["s"][0] = [renamed(o["s"][0][0])]
            if o["s"][1] or rng.random() < .2:
                x = rng.random()
                t = None
                if prefixes and x < .4:
                    t = rng.choice(prefixes) + rng.choice(["x", "", "y/z", "\u00e9"])
                elif what in ("tags", "everything") and x < .8:
                    t = rng.choice(TAGS) + rng.choice(["a", "\u00e9", "a,", "%", "!", ":"]) * rng.choice(MANY)
                if t:
                    o["s"][1] = opt(t)
                    if rng.random() < .7:
                        o["n"] = ([0, 0] + o["n"][2:]) if o["k"] == "SCALAR" else [0] + o["n"][1:]
    return ops


def randevent(rng):
    k = rng.randint(0, 9)
    return [ss(), SE, doc(rng.randint(0, 1)), doce(rng.randint(0, 1)), alias("a"), scalar(rng.choice(["", "x", "a: b"])), seq(style=rng.randint(0, 2)), map_(style=rng.randint(0, 2)), SEQE, MAPE][k]


def broken(rng, ops):
    """Something out of place."""
    ops = list(ops)
    for _ in range(rng.choice([1, 1, 1, 2])):
        x = rng.random()
        i = rng.randint(0, len(ops))
        j = min(i, len(ops) - 1)
        if not ops:
            ops = [randevent(rng)]
        elif x < .25:
            ops.insert(i, randevent(rng))
        elif x < .45:
            ops[j] = randevent(rng)
        elif x < .55:
            del ops[j]
        elif x < .62:
            k = rng.randint(0, len(ops) - 1)
            ops[j], ops[k] = ops[k], ops[j]
        elif x < .66:
            ops = ops[:j + 1]
        elif x < .7:
            ops += [randevent(rng) for _ in range(rng.randint(1, 3))]
        else:
            # Properties and directives that are not acceptable
            cand = [n for n, o in enumerate(ops) if o["k"] in ("SCALAR", "SEQ", "MAP", "ALIAS", "DOC")]
            if not cand:
                continue
            n = rng.choice(cand)
            o = {"k": ops[n]["k"], "s": list(ops[n]["s"]), "n": list(ops[n]["n"])}
            if o["k"] == "DOC":
                y = rng.random()
                if y < .3:
                    o["n"] = [o["n"][0], 1] + list(rng.choice([(1, 3), (1, 0), (2, 1), (0, 1), (-1, 1), (1, -1), (2, 2), (1, 11)]))
                elif y < .6:
                    o["s"] = o["s"] + [cps(badhandle(rng)), cps("x")]
                elif y < .75:
                    o["s"] = [cps(rng.choice(HANDLES)), []] + o["s"]
                else:
                    h = cps(rng.choice(HANDLES))
                    o["s"] = o["s"] + [h, cps("p")] + [v for q in range(rng.choice([0, 0, 0, 1, 1, 2, 3, 5, 9, 17])) for v in (cps("!d%d!" % q), cps("x"))] + [h, cps(rng.choice(["p", "q"]))]
                    if rng.random() < .2:
                        o["s"] += [cps("!z!"), cps("z")]
            elif o["k"] == "ALIAS":
                o["s"] = [cps(badname(rng))]
            else:
                y = rng.random()
                if y < .5:
                    o["s"][0] = opt(badname(rng))
                elif y < .75 or o["k"] != "SCALAR":
                    o["s"][1] = opt("")
                    o["n"][0] = rng.randint(0, 1)
                else:
                    o["s"][1] = []
                    o["n"][0] = o["n"][1] = 0
            ops[n] = o
    return ops


def emit_case(ops, cfg, mode="emit"):
    return {"mode": mode, "cfg": dict({"d": 0, "ek": "Other", "wild": 0}, **cfg), "ops": ops}


def txt(v):
    return "".join(map(chr, v))


def describe(c):
    """A compact rendering of an emitting case."""
    out = []
    for o in c["ops"]:
        k, s, n = o["k"], o["s"], o["n"]
        if k in ("SCALAR", "SEQ", "MAP"):
            w = k
            if s[0]:
                w += " &" + txt(s[0][0])
            if s[1]:
                w += " <" + txt(s[1][0]) + ">"
            if k == "SCALAR":
                w += " " + (repr(txt(s[2])) if len(s[2]) < 200 else "%d chars" % len(s[2])) + " pi=%d qi=%d style=%d" % tuple(n)
            else:
                w += " impl=%d style=%d" % tuple(n)
        elif k == "ALIAS":
            w = "*" + txt(s[0])
        elif k == "DOC":
            w = "DOC %s %s" % (n, [txt(x) for x in s])
        else:
            w = k + (str(n) if n else "")
        out.append(w)
    return {"mode": c["mode"], "settings": {k: v for k, v in c["cfg"].items() if v != PLAIN_SETTINGS.get(k, v)}, "ops": out}
