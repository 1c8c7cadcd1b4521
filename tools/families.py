"""Families of cases: how they are generated and which specification judges them."""
import itertools
import json
import vt
from gen import *
from writer import DIMENSIONS, Writer

ALL = list("mvpfegxy")


class Family:
    dir = "trace"
    module = "InputTrace"

    def __init__(self, make, describe=None, module=None, dir=None):
        self.make = make
        if describe:
            self.describe = describe
        if module:
            self.module = module
        if dir:
            self.dir = dir

    def execute(self, inp, out, n):
        vt.run_harness(inp, out, n)

    def cases(self, rng, n, prop, k):
        return self.make(rng, n, prop, k)

    def describe(self, c):
        if "sessions" in c:
            return [self.describe(s) for s in c["sessions"]]
        d = {"mode": c.get("mode")}
        if "b" in c:
            try:
                d["text"] = bytes(c["b"]).decode("utf8")
            except UnicodeDecodeError:
                d["bytes"] = c["b"]
        for x in c:
            if x not in ("b", "o", "id", "mode", "cmp", "ek") and c[x] not in ([], -1, 0):
                d[x] = c[x]
        return d


FAMILIES = {}


def family(name, **kw):
    def deco(fn):
        FAMILIES[name] = Family(fn, **kw)
        return fn
    return deco


def case(text, mode, cmp, enc=0, ch=(), cut=-1):
    b = text if isinstance(text, bytes) else text.encode("utf8", "surrogatepass")
    return {"mode": mode, "b": list(b), "enc": enc, "ch": list(ch), "cut": cut, "cmp": list(cmp), "ops": [], "ek": "Other"}


# What each property looks at in a result
ASPECTS = {"P01": "", "P02": "v", "P03": "pg", "P04": "vpfe", "P05": "xy", "P07": "my", "P08": "evpxy", "P09": "mvpfegxy",
           "P11": "gvpfm", "P10": "vpfg", "P19": "xyd", "P20": "mvpfegxy"}
MODES = {"P01": ["scan"], "P02": ["scan", "parse", "load"], "P03": ["scan", "parse", "parse", "load"], "P04": ["parse"], "P05": ["scan", "parse", "load"],
         "P07": ["scan", "parse", "load"], "P08": ["scan", "parse"], "P09": ["scan", "parse", "load"], "P10": ["parse", "load"], "P11": ["load"], "P19": ["scan", "parse", "load"]}


@family("text")
def text(rng, n, prop, k):
    """Random texts: fragments strung together, structured streams, and mutated streams."""
    g = Gen(rng)
    seen = set()
    for _ in range(n):
        t = g.short_text(220)
        for _ in range(20):
            if t not in seen:
                break
            t = g.short_text(220)
        seen.add(t)
        yield case(t, rng.choice(MODES[prop]), ASPECTS[prop])


# The characters that decide how text is cut into tokens
ALPHABETS = ["a-:\n []", "a:{},? ", "a'\"\\\n ", "-?: \n", "a|>-\n #", "a&*!: ", "a: \n#\t", "a.-\n%:", "[]{},:?a", "'\":a,[ ", "a\n  -:", "!<>ae:\n"]


@family("short")
def short(rng, n, prop, k):
    """All short strings over small alphabets, one block of n strings per batch."""
    out = 0
    start = k * n
    i = 0
    mode = MODES[prop]
    for ln in range(0, 9):
        for a in ALPHABETS:
            al = sorted(set(a))
            size = len(al) ** ln
            if i + size <= start:
                i += size
                continue
            for j in range(max(0, start - i), size):
                s, x = "", j
                for _ in range(ln):
                    s += al[x % len(al)]
                    x //= len(al)
                yield case(s, mode[j % len(mode)], ASPECTS[prop])
                out += 1
                if out == n:
                    return
            i += size


# What lines of block structure are made of
LINES = ["-", "?", ":", "a:", "b", "- a", "? a", ": a", "a: b", "- -", "? -", ": -", "- ?", "a: -", "- a:", "? ?", ": ?", "- :"]
MORE_LINES = LINES + ["- a: b", "&x", "!t", "- &x", "? !t", "a: &x", ": &x", "- [a]", "a: {b: c}", "*x", "- *x", "? *x", "*x : a", "a: |", "- >", "- 'a", "'a': b", "? |",
                      "---", "...", "--- -", "--- a:", "--- ?", "#c", "- #c", "a: #c", "[", "]", "- [", "a: [", "{", "}", ",", ", a", "a,", "? a : b", "- - - a", "- ? a", "a: b: c", "&x a: b", "!t - a", "%YAML 1.1"]


@family("lines")
def lines(rng, n, prop, k):
    """Lines of block structure: all of up to three lines of a small set, in the order of their number, and random ones."""
    modes = MODES[prop]
    basis = [" " * i + l for i in (0, 1, 2) for l in LINES]
    m = len(basis)
    start = k * (n // 2)
    for j in range(start, start + n // 2):
        # A permutation of the numbers, so that few batches sample evenly
        x = j * 104729 % (m + m ** 2 + m ** 3)
        ln = 1 if x < m else 2 if x < m + m * m else 3
        x -= 0 if ln == 1 else m if ln == 2 else m + m * m
        out = []
        for _ in range(ln):
            out.append(basis[x % m])
            x //= m
        yield case("\n".join(out) + rng.choice(["", "\n"]), modes[j % len(modes)], ASPECTS[prop])
    for _ in range(n - n // 2):
        out, ind = [], 0
        for _ in range(rng.choice([2, 3, 4, 4, 5, 6, 8])):
            ind = rng.choice([0, ind, ind, ind, ind + 1, ind + 2, ind + 2, max(0, ind - 2), max(0, ind - 1)])
            out.append(" " * ind + rng.choice(LINES if rng.random() < .7 else MORE_LINES))
        yield case("\n".join(out) + rng.choice(["", "\n"]), rng.choice(modes), ASPECTS[prop])


FLOW = ["[", "]", "{", "}", ",", "? ", ": ", "a", "a ", "&x ", "!t ", "*x ", "'b'", " ", "\n", ":", "?", "-", "- "]


@family("flows")
def flows(rng, n, prop, k):
    """Flow collections strung together from their parts."""
    modes = MODES[prop]
    for _ in range(n):
        x = rng.random()
        parts = [rng.choice(FLOW[:9] if x < .5 else FLOW) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 8, 10]))]
        if x < .7:
            # Mostly balanced
            s, stack = rng.choice(["[", "{", "[[", "{a: [", "- [", "? {", "[{", "a: {", "--- ["]), []
            stack = [{"[": "]", "{": "}"}[q] for q in s if q in "[{"]
            for q in parts:
                if q in "]}":
                    if not stack:
                        break
                    q = stack.pop()
                elif q in "[{":
                    stack.append({"[": "]", "{": "}"}[q])
                s += q
            s += "".join(reversed(stack)) if rng.random() < .95 else ""
        else:
            s = "".join(parts)
        yield case(s + rng.choice(["", "\n", ": v", " : v\n", "\n: v"]), rng.choice(modes), ASPECTS[prop])


def longish(rng):
    """Texts around the limits: key length, version length, nesting, line lengths."""
    x = rng.random()
    if x < .35:
        # Simple keys of about 1024 bytes
        n = 1024 + rng.choice([-3, -2, -1, 0, 0, 1, 1, 2, 3])
        body = rng.choice(["a", "\u00e9", "\u20ac", "\U0001f600"])
        w = len(body.encode())
        kind = rng.choice(["plain", "sq", "dq", "flow", "anchor", "alias", "tag", "blank"])
        if kind == "plain":
            s = body * (n // w) + "b" * (n % w)
        elif kind in ("sq", "dq"):
            q = "'" if kind == "sq" else '"'
            s = q + body * ((n - 2) // w) + "b" * ((n - 2) % w) + q
        elif kind == "flow":
            s = "[" + body * ((n - 2) // w) + "b" * ((n - 2) % w) + "]"
        elif kind == "anchor":
            s = "&a " + body * ((n - 3) // w) + "b" * ((n - 3) % w)
        elif kind == "alias":
            s = "*" + "a" * (n - 1)
        elif kind == "tag":
            s = "!t " + body * ((n - 3) // w) + "b" * ((n - 3) % w)
        else:
            s = body + " " * (n - w)
        pre = rng.choice(["", "- ", "x:\n  ", "[", "{", "? ", "&q ", "!t ", "- - ", "k: v\n", "\ufeff"])
        s = pre + s + rng.choice([": v\n", " : v\n", ":\n", " :", "\n: v", ": v}", ": v]"])
        return s
    if x < .45:
        d = rng.randint(5, 60)
        o, cl = rng.choice([("[", "]"), ("{a: ", "}"), ("- ", ""), ("? ", ""), ("[{", "}]"), ("a:\n", None)])
        if cl is None:
            return "".join(" " * i + "a:\n" for i in range(d)) + rng.choice(["", " " * d + "b", "c: d", " " * (d // 2) + "x: y\n"])
        return o * d + rng.choice(["x", "", "a: b", "*a"]) + cl * rng.choice([d, d, d - 1, d + 1]) + rng.choice(["\n", "\nb", "", " : c"])
    if x < .6:
        w = rng.randint(60, 400)
        g = Gen(rng)
        words = []
        while sum(map(len, words)) < w:
            words.append(g.word())
        sep = rng.choice([" ", "\n ", "\n\n ", " \n  "])
        return rng.choice(["", "- ", "a: ", "'", '"', "[", ">\n ", "|\n "]) + sep.join(words) + rng.choice(["", "\n", "'", '"', "]"])
    if x < .75:
        return "---\n".join(Gen(rng).document(1) for _ in range(rng.randint(2, 9)))
    if x < .85:
        k = rng.randint(8, 40)
        return "".join("%s%d: %s\n" % (rng.choice(["k", "key ", "&a", "'q'"]), i, rng.choice(["v", "[a, b]", "*a1", "\n  x: y", "|\n  t", "{c: d}", ""])) for i in range(k))
    if x < .93:
        k = rng.randint(1, 30)
        return rng.choice(["a:", "- x", "'a", '"a', "[", "|", "a\n", "---\n"]) + rng.choice(["\n", " \n", "\r\n", "\u2028", "\t\n", "# c\n", "\u0085"]) * k + rng.choice(["b", "", " b", "'", '"', "]", "- c", "...", ": d"])
    return Gen(rng).stream() * rng.randint(2, 5)


@family("long")
def long(rng, n, prop, k):
    """Texts around the limits: keys of about 1024 bytes, deep nesting, many documents, long lines."""
    for _ in range(n):
        yield case(longish(rng)[:2600], rng.choice(MODES[prop]), ASPECTS[prop])


CONTEXTS = [("", -1), ("", -1), ("--- ", -1), ("- ", 0), ("a: ", 0), ("- - ", 2), ("a:\n  b: ", 2), ("? ", 0), ("- a: ", 2), ("a:\n - ", 1), ("--- # c\n", -1),
            ("!t ", -1), ("&a ", -1), ("k: v\nl: ", 0), ("a:\n    b:\n        c: ", 8), ("- x\n- ", 0), ("---\n", -1), ("a:\n  ", 0), ("-\n  ", 0)]


@family("scalars")
def scalars(rng, n, prop, k):
    """Scalars of every style in block and flow contexts, keys included."""
    g = Gen(rng)
    for _ in range(n):
        pre, ind = rng.choice(CONTEXTS)
        x = rng.random()
        if x < .4:
            s = g.block(ind)
            if not s.endswith("\n"):
                s += "\n"
        elif x < .6:
            s = g.double(ind + 1)
        elif x < .75:
            s = g.single(ind + 1)
        else:
            s = g.plain(ind + 1, False)
        if x >= .4 and rng.random() < .3:
            o = rng.choice(["[", "{", "[a, ", "{a: ", "{? ", "[? "])
            s = o + s + rng.choice(["", " ", ": z", ", b"]) + {"[": "]", "{": "}"}[o[0]]
        t = pre + s + rng.choice(["", "\n", "\n", "\n" + " " * max(ind, 0) + "z: y\n", "\n- w\n", "\n...\n", " # c\n", ": v\n", "\n---\nq\n", "\n" + " " * (ind + 1) + "r\n"])
        if rng.random() < .1:
            t = g.mutate(t)
        yield case(t, rng.choice(MODES[prop]), ASPECTS[prop])


@family("tags")
def tags(rng, n, prop, k):
    """Streams of documents with directives, tags, anchors and aliases."""
    g = Gen(rng)
    handles = ["!", "!!", "!e!", "!m!", "!a-b!", "!x!"]
    prefixes = ["tag:e,2000:", "!my-", "!", "x", "tag:yaml.org,2002:", "a%20b", "%C3%A9", "[,]", "tag:x,2000:%41"]
    suffixes = ["a", "str", "int", "b%21c", "%C3%A9", "x/y", "a:b", "%E2%82%AC", "%F0%9F%98%80", "a;b", "~", "a'b", "p(q)", "1"]
    bads = ["%41%", "%4", "%C3", "%C3%28", "a,b", "a[b", "{", "^", ""]
    for _ in range(n):
        s = ""
        names = []
        for i in range(rng.choice([1, 1, 2, 2, 3])):
            explicit = False
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                x = rng.random()
                if x < .2:
                    s += rng.choice(["%YAML 1.1\n", "%YAML 1.2\n", "%YAML 1.1 # v\n", "%YAML 1.1\r\n"])
                elif x < .9:
                    s += "%TAG " + rng.choice(handles) + rng.choice([" ", " ", "  ", "\t"]) + rng.choice(prefixes) + rng.choice(["", "", "", " ", " # c"]) + "\n"
                else:
                    s += rng.choice(BAD_DIRECTIVES)
                explicit = True
            if explicit or rng.random() < .6 or i:
                s += "---" + rng.choice(["\n", " "])

            def tag():
                x = rng.random()
                if x < .4:
                    return rng.choice(handles) + (rng.choice(suffixes) if rng.random() < .94 else rng.choice(bads))
                if x < .6:
                    return "!<" + rng.choice(["tag:yaml.org,2002:", "!", "x:", "", "tag:a,[b]:"]) + rng.choice(suffixes) + ">"
                if x < .7:
                    return "!"
                if x < .93:
                    return "!" + rng.choice(suffixes)
                return rng.choice(BAD_TAGS)

            def node(d):
                p = ""
                x = rng.random()
                nm = rng.choice(["a", "b", "c1", "-", "_x", "long-name_9"])
                if x < .25:
                    p = tag() + " "
                elif x < .45:
                    p = "&" + nm + " "
                elif x < .55:
                    p = "&" + nm + " " + tag() + " "
                elif x < .65:
                    p = tag() + " &" + nm + " "
                elif x < .75 and names:
                    return "*" + rng.choice(names)
                if "&" in p:
                    names.append(nm)
                x = rng.random()
                if d <= 0 or x < .5:
                    return p + rng.choice(["x", "'y'", '"z"', "", "1", "~"])
                if x < .7:
                    return p + "[" + ", ".join(node(d - 1) for _ in range(rng.randint(0, 3))) + "]"
                return p + "{" + ", ".join(node(0) + rng.choice([": ", " : "]) + node(d - 1) for _ in range(rng.randint(0, 2))) + "}"
            x = rng.random()
            if x < .3:
                s += rng.choice(["\n", ""]) + "".join("- " + node(1) + "\n" for _ in range(rng.randint(1, 4)))
            elif x < .5:
                s += "".join(rng.choice(["k%d" % j, node(0) + " "]) + ": " + node(1) + "\n" for j in range(rng.randint(1, 3)))
            else:
                s += node(2) + "\n"
            s += rng.choice(["", "", "...\n", "... # c\n"])
            if rng.random() < .5:
                names = []
        if rng.random() < .08:
            s = g.mutate(s)
        yield case(s, rng.choice(MODES[prop]), ASPECTS[prop])


@family("malformed")
def malformed(rng, n, prop, k):
    """Streams broken by mutation, and with ill-formed directives, tags, escapes and indicators."""
    g = Gen(rng)
    for _ in range(n):
        x = rng.random()
        long = rng.random() < .12
        t = Writer(rng).stream() if long else g.stream()
        if x < .6:
            t = g.mutate(g.mutate(t) if rng.random() < .5 else t)
        elif x < .7:
            t = rng.choice(BAD_DIRECTIVES) + rng.choice(["", "---\n", "--- "]) + t
        elif x < .8:
            q = rng.choice(['"a', '"', '- "', 'k: "\n ', '["'])
            t = q + rng.choice(["", "b ", "\\n"]) + rng.choice(BAD_ESCAPES) + rng.choice(['"', 'x"', '00"', "", "\n"])
        elif x < .9:
            i = rng.choice([0, t.find("\n") + 1, t.rfind("\n") + 1])
            t = t[:i] + rng.choice(["", "- ", "a: ", "["]) + rng.choice(BAD_TAGS + ["&", "*", "&é", "*a*", "&a &b", "!a !b", "*a x", "&a *b", "!t *b", "|x\n", ">0\n", "|10\n", "|1\n\ta\n", "|\n    \n a\n", "@a", "`a", "%a", "[}", "{]", "]", "}", ",", "a: b: c", "a\nb: c", "a: - b", "- a: b\n c: d", "? a: b: c", "'a", "- [a", "{a, b", "[a: b: c]", "{a b: c\n d}", "\tx: y", "a:\n\t- b"]) + rng.choice(["", "\n", " x", ": y\n"]) + t[i:]
        else:
            t = t + rng.choice(["...\nx", "--- x\n%YAML 1.1\n", "%TAG", "...\n%YAML 1.1\n", "---\n%a\n", "... x", "--- |x", "'", '"', "[", "{", "- ", "?", "a\nb:", "&a", "!", "*"])
        yield case(t if long else t[:260], rng.choice(MODES[prop]), ASPECTS[prop])


BAD_BYTES = [b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\x80", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3", b"\x00", b"\x07", b"\x7f", b"\xef\xbf\xbf",
             b"\xef\xbb\xbf", b"\xf8", b"\xe0\x80\x80", b"\xc2\x80", b"\xef\xbf\xbe", b"\x00\xd8", b"\xd8\x00", b"\xdc\x00", b"\xef", b"\xc1\xbf", b"\xe0\x9f\xbf",
             b"\xf0\x8f\xbf\xbf", b"\xf5\x80\x80\x80", b"\xed\xbf\xbf", b"\xc2\x85", b"\xc2\x9f", b"\x1b", b"\xd8\x3d\xde\x00", b"\x3d\xd8\x00\xde", b"\xf4\x8f\xbf\xbf",
             b"\xfe\xff", b"\xff\xfe", b"\xdb\xff\xdf\xff", b"\xff\xdb\xff\xdf", b"\xff\xff", b"\xfd\xff", b"\xff\xfd", b"\x0b", b"\x0c", b"\x08", b"\x1f"]
NICE_CHARS = ["\u00a0", "\u0085", "\u2028", "\ud7ff", "\ue000", "\ufffd", "\ufeff", "\U00010000", "\U0010ffff", "\U0001f600", "\u07ff", "\u0800", "\uffee", "\uf000", "~", "\t", "\u00ff", "\u0100", "\uefff", "\ufdd0", "\U0002ffff", "\U000fffff", "\U00100000"]


def encoded(rng, g, limit=120, badness=.3):
    t = Writer(rng).stream() if limit > 100 and rng.random() < .1 else g.short_text(limit)
    if rng.random() < .5:
        for _ in range(rng.randint(1, 3)):
            i = rng.randint(0, len(t))
            t = t[:i] + rng.choice(NICE_CHARS) + t[i:]
    e = rng.choice(["utf-8", "utf-8", "utf-16-le", "utf-16-be"])
    b = t.encode(e)
    enc = 0
    x = rng.random()
    if e == "utf-8":
        if x < .3:
            b = b"\xef\xbb\xbf" + b
        elif x < .5:
            enc = 1
            if x > .47:
                b = b"\xef\xbb\xbf" + b
    else:
        bom = b"\xff\xfe" if e == "utf-16-le" else b"\xfe\xff"
        if x < .6:
            b = bom + b
        elif x < .9:
            enc = 2 if e == "utf-16-le" else 3
        if x > .85:
            b = bom + b
    if rng.random() < badness:
        i = rng.randint(0, len(b))
        b = b[:i] + rng.choice(BAD_BYTES) + b[i + rng.choice([0, 0, 1, 2]):]
    if rng.random() < .08:
        b = b[:rng.randint(0, len(b))]
    return b, enc


@family("encodings")
def encodings(rng, n, prop, k):
    """Texts in all encodings, with and without byte order mark, with ill-formed sequences."""
    g = Gen(rng)
    for _ in range(n):
        b, enc = encoded(rng, g)
        yield case(b, rng.choice(MODES[prop]), ASPECTS[prop], enc=enc)


@family("chars")
def chars(rng, n, prop, k):
    """Every boundary character and every short byte sequence in a fixed text."""
    bounds = [0, 8, 9, 10, 11, 12, 13, 14, 31, 32, 126, 127, 128, 132, 133, 134, 159, 160, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xefff,
              0xf000, 0xfdd0, 0xfefe, 0xfeff, 0xff00, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1fffe, 0xffffd, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0x110000, 0x1fffff]
    for i in range(n):
        cp = rng.choice(bounds) + rng.choice([0, 0, 0, -1, 1]) if rng.random() < .7 else rng.randint(0, 0x110010)
        cp = max(0, cp)
        pre, post = rng.choice([("", ""), ("a", "b"), ("- ", "\n"), ("'", "'"), ("\"", "\""), ("# ", "\n"), ("&a ", ""), ("x: ", ""), ("\u00e9", ""), ("", "\u20ac"), ("|\n ", "\n"), ("\n", "\n")])
        e = rng.choice([0, 0, 1, 2, 3])
        enc, bom = e, b""
        if e == 0:
            e = rng.choice([1, 1, 2, 3])
            bom = {1: rng.choice([b"", b"\xef\xbb\xbf"]), 2: b"\xff\xfe", 3: b"\xfe\xff"}[e]
        if e == 1:
            if cp < 0x80:
                m = bytes([cp])
            elif cp < 0x800:
                m = bytes([0xc0 | cp >> 6, 0x80 | cp & 63])
            elif cp < 0x10000:
                m = bytes([0xe0 | cp >> 12, 0x80 | cp >> 6 & 63, 0x80 | cp & 63])
            else:
                m = bytes([0xf0 | cp >> 18 & 7, 0x80 | cp >> 12 & 63, 0x80 | cp >> 6 & 63, 0x80 | cp & 63])
            if rng.random() < .15:
                m = m[:rng.randint(0, len(m))]
            if rng.random() < .1:
                m = bytes([rng.choice([0xc0, 0xc1, 0xe0, 0xf0, 0xf8, 0xfc, 0xc2])]) + m
            b = bom + pre.encode() + m + post.encode()
        else:
            if cp < 0x10000:
                us = [cp]
            else:
                us = [0xd800 + ((cp - 0x10000 & 0xfffff) >> 10), 0xdc00 + (cp - 0x10000 & 0x3ff)]
            if rng.random() < .15:
                us = us[:1] if rng.random() < .5 else us[::-1]
            m = b"".join(u.to_bytes(2, "little" if e == 2 else "big") for u in us)
            if rng.random() < .1:
                m = m[:-1]
            c = "utf-16-le" if e == 2 else "utf-16-be"
            b = bom + pre.encode(c) + m + post.encode(c)
        yield case(b, rng.choice(MODES[prop]), ASPECTS[prop], enc=enc)


def schedule(rng, b):
    m = rng.choice([1, 1, 2, 3, 7, 30])
    x = rng.random()
    if x < .3:
        return [1] * len(b)
    if x < .5:
        at = rng.randint(0, len(b))
        return [max(1, at)] + ([0] * rng.randint(0, 2))
    return [rng.randint(0, m) for _ in range(len(b) + 5)]


@family("delivery")
def delivery(rng, n, prop, k):
    """Byte streams delivered in pieces, with interruptions, and failing at any point."""
    g = Gen(rng)
    for _ in range(n):
        b, enc = encoded(rng, g, 120, .15)
        cut = rng.randint(0, len(b)) if rng.random() < .3 else -1
        ch = schedule(rng, b) if rng.random() < .85 else []
        yield case(b, rng.choice(MODES[prop]), ASPECTS[prop], enc=enc, ch=ch, cut=cut)


@family("cuts")
def cuts(rng, n, prop, k):
    """One input, split or failing at each of its positions in turn."""
    g = Gen(rng)
    out = 0
    while out < n:
        b, enc = encoded(rng, g, 60, .1)
        mode = rng.choice(MODES[prop])
        for i in range(len(b) + 1):
            if out >= n:
                return
            if rng.random() < .5:
                yield case(b, mode, ASPECTS[prop], enc=enc, ch=[max(i, 1)] + [0] * rng.randint(0, 2) + [1] * rng.randint(0, 4))
            else:
                yield case(b, mode, ASPECTS[prop], enc=enc, ch=schedule(rng, b) if rng.random() < .5 else [], cut=i)
            out += 1


@family("graphs")
def graphs(rng, n, prop, k):
    """Documents with anchors and aliases, shared and self-containing collections."""
    g = Gen(rng)
    for _ in range(n):
        names = []
        cnt = [0]

        def node(d, key=False):
            x = rng.random()
            if names and x < .25:
                return "*" + rng.choice(names) + (" " if key else "")
            p = ""
            if rng.random() < .45:
                cnt[0] += 1
                nm = "n%d" % cnt[0] if rng.random() < .93 or not names else rng.choice(names)
                names.append(nm)
                p = "&" + nm + " "
            if rng.random() < .15:
                t = rng.choice(["!", "!!str", "!!int", "!t", "!!map", "!!seq", "!<x>"]) + " "
                p = t + p if rng.random() < .5 else p + t
            x = rng.random()
            if d <= 0 or x < .35:
                return p + rng.choice(["x", "y", "'q'", "\"r\"", "", "1", "é"])
            if x < .7:
                return p + "[" + ", ".join(node(d - 1) if rng.random() < .85 else node(0) + ": " + node(0) for _ in range(rng.randint(0, 4))) + "]"
            return p + "{" + ", ".join(node(d - 1, True) + rng.choice([": ", " : "]) + node(d - 1) if rng.random() < .9 else node(0) for _ in range(rng.randint(0, 3))) + "}"

        def block(d, ind):
            x = rng.random()
            if d <= 0 or x < .3:
                return " " + node(1) + "\n"
            p = ""
            if rng.random() < .5:
                cnt[0] += 1
                names.append("n%d" % cnt[0])
                p = " &n%d" % cnt[0]
            if rng.random() < .15:
                p += rng.choice([" !t", " !!map", " !"])
            if x < .65:
                return p + "\n" + "".join(" " * ind + "-" + block(d - 1, ind + 2) for _ in range(rng.randint(1, 3)))
            return p + "\n" + "".join(" " * ind + node(0, True) + ":" + block(d - 1, ind + 2) for _ in range(rng.randint(1, 3)))
        s = ""
        for i in range(rng.choice([1, 1, 1, 2, 3])):
            if rng.random() < .8:
                names.clear()
            if rng.random() < .2:
                s += rng.choice(["%YAML 1.1\n", "%TAG !e! x\n", "%YAML 1.2\n%TAG ! y\n"])
                s += "---"
            elif i or rng.random() < .3:
                s += "---"
            else:
                s += rng.choice(["", "---"])
            s += block(rng.randint(0, 3), 0) if s.endswith("---") else block(rng.randint(0, 3), 0).lstrip(" ")
            s += rng.choice(["", "", "...\n"])
        if rng.random() < .06:
            s = g.mutate(s)
        yield case(s[:400], rng.choice(MODES[prop]), ASPECTS[prop])


STREAM_LINES = ["---", "---", "--- a", "--- # c", "--- |", "--- >-", "--- &x", "--- !t", "--- 'q'", "--- [a,", "--- - a", "--- a: b", "---a", "----", "--- ---", "--- ...", "..", "....", "...a",
                "...", "...", "...", "...", "... # c", "... ", "...\t", "... a", "", "", "# c", " # c", "%YAML 1.1", "%YAML 1.2", "%YAML 1.3", "%TAG ! !a", "%TAG !e! x:", "%", "%FOO",
                "a", "a", "b", "- a", "-", "a: b", "k:", "[a]", "]", "b]", "{a: b}", "'q", "q'", '"', " l", " l", "  m", "\ufeff", "\ufeffa", "\ufeff---", "&x y", "*x", "!e!t z", "!t", "?", ": v",
                "a ---", "a ...", " ---", " ...", "\t---", "@", "\t"]


def stream_text(rng):
    lines = STREAM_LINES
    x = rng.random()
    if x < .3:
        lines = ["...", "...", "---", "a", "# c", ""]
    elif x < .5:
        lines = ["...", "---", "--- a", "%YAML 1.1", "%TAG !e! x:", "!e!t z", "# c", "b", "--- |", " l"]
    s = ""
    for _ in range(rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 10] if rng.random() < .97 else [30, 60])):
        s += rng.choice(lines) + (rng.choice(["\n"] * 12 + ["\r\n", "\r", "\u0085", "\n\n", "\u2028"]))
    return s[:-1] if rng.random() < .25 else s


@family("written")
def written(rng, n, prop, k):
    """Valid streams of several documents, deep and with every combination of properties, styles and layout."""
    for _ in range(n):
        yield case(Writer(rng).stream(), rng.choice(MODES[prop]), ASPECTS[prop])


def spoilt(rng, t):
    """One character or line of a text is not what it was."""
    x = rng.random()
    if x < .5:
        j = rng.randint(0, len(t))
        return t[:j] + rng.choice(["", "\t", ":", "'", "\"", "]", "@", "\n", " ", "&", "}", ",", "%", "!", "\u00e9", "\x07"]) + t[j + rng.randint(0, 1):]
    lines = t.split("\n")
    i, j = rng.randrange(len(lines)), rng.randrange(len(lines))
    directives = [l for l in lines if l.startswith("%")]
    if x < .65 and directives:
        lines.insert(min(j, len(directives)), rng.choice(directives))
    elif x < .75:
        lines.insert(j, lines[i])
    elif x < .85:
        del lines[i]
    elif lines[i].startswith(" ") and x < .92:
        lines[i] = lines[i][1:]
    else:
        lines[i] = rng.choice([" ", "\t", "  "]) + lines[i]
    return "\n".join(lines)


@family("overgrown")
def overgrown(rng, n, prop, k):
    """Valid streams with much of one thing: long names, many entries, deep nesting, wide indentation."""
    for i in range(n):
        d = DIMENSIONS[(i + k) % len(DIMENSIONS)]
        for _ in range(200):
            w = Writer(rng, grow=d)
            t = w.stream()
            if len(t) > (100 if d in ("depth", "documents", "directives") else 250) and len(t) < 5000:
                break
        if rng.random() < (.5 if prop == "P05" else .1):
            t = spoilt(rng, t)
        yield case(t, rng.choice(MODES[prop]), ASPECTS[prop])


@family("streams")
def streams(rng, n, prop, k):
    """Documents one after another, their markers, directives, comments and byte order marks."""
    for _ in range(n):
        yield case(stream_text(rng), rng.choice(MODES[prop]), ASPECTS[prop])


def filler(rng, n):
    """About n octets of nothing in particular, after which anything can follow."""
    u = rng.choice(["c", "c", "\u00e9", "\u20ac", "\U0001f600", "d e "])
    w = len(u.encode())
    x = rng.random()
    if x < .3:
        s = "#" + u * ((n - 2) // w)
    elif x < .5:
        s = "- " + u * ((n - 3) // w)
    elif x < .6:
        s = "- '" + u * ((n - 5) // w) + "'"
    elif x < .7:
        s = "- \"" + (u + "\\t") * ((n - 5) // (w + 2)) + "\""
    elif x < .8:
        s = "- |\n" + (" " + u * 20 + "\n") * ((n - 4) // (20 * w + 2)) + " z"
    elif x < .9:
        s = "- " + (u * 30 + "\n  ") * ((n - 3) // (30 * w + 3)) + "z"
    else:
        s = "- [" + ("k: [" + u * 40 + "], ") * ((n - 5) // (40 * w + 7)) + "]"
    return s + "x" * max(0, n - 1 - len(s.encode())) * (s[-1] not in "'\"]") + "\n"


@family("huge")
def huge(rng, n, prop, k):
    """Positions above what 16 bits hold, and then something whose position tells."""
    g = Gen(rng)
    for i in range(n):
        size = rng.choice([65534, 65535, 65536, 65537, 66000])
        t = rng.choice(["a: b\n", "[c, 'd\n e']\n", "- |\n x\n", "\"\\q\"", "'", "[a", "- - b\n- c\n", "&a [*a]\n", "&b\n*c\n", "!e!x y\n", "? a\n: b\n"]) if rng.random() < .7 else g.short_text(80)
        x = (i + k) % 6
        if x == 0:
            s = "\n" * (size - 1) + t
        elif x == 1:
            s = "[" + " " * (size - 1) + rng.choice(["a, 'b', c: [d]]\n", "a, &x b, *x, {c: \"\\x41\"}]\n", "a: b: c]", "\"\\q\"]", "!e!x y]", "&x b, 'c\n d']\n"])
        elif x == 2:
            s = "- '" + rng.choice(["a", "\u00e9", "\u20ac", "\U0001f600"]) * size + "'\n"
            s += t if t[0] == "-" else "- b\n"
        elif x == 3:
            s = "# " + "\u00e9" * (size // 2) + rng.choice(["\n", "\r\n", "\u0085", "\u2028"]) + t
        elif x == 4:
            s = "- |\n" + (" b" + rng.choice(["\n", "\r\n"])) * (size // 3) + rng.choice(["- c\n", " d\n", "e", "\t"])
        else:
            s = rng.choice(["- ", "- \"", "- >\n "]) + "c" * (size // 2)
            s += "\"\n" if s[2] == "\"" else "\n"
            s += rng.choice(["- e\n", "- 'f'\n", "g", "- [h\n"])
        if prop in ("P08", "P09") and rng.random() < .6:
            s = s[:rng.choice([len(s), size + 3])] + rng.choice(["\x07", "\u20ac", "", "\x00"])
        u = rng.choice(["utf-16-le", "utf-16-be", "utf8", "utf8"])
        b = s.encode(u, "surrogatepass")
        yield case(b, rng.choice(MODES[prop]), ASPECTS[prop], enc={"utf-16-le": 2, "utf-16-be": 3, "utf8": 0}[u],
                   ch=[16384] * (len(b) // 16384 + 1) if prop == "P09" else ())


@family("big")
def big(rng, n, prop, k):
    """Texts around the sizes of the buffers, with something at their boundaries."""
    g = Gen(rng)
    for _ in range(n):
        size = rng.choice([4096, 8192, 8192, 16384, 16384, 16384, 32768])
        x = rng.random()
        t = g.short_text(100) if x < .5 else stream_text(rng) if x < .7 else g.document(1)
        i = rng.randint(0, min(len(t), 30))
        s = filler(rng, max(40, size - len(t[:i].encode()) + rng.choice([-3, -2, -1, 0, 0, 0, 1]))) + t
        if rng.random() < .2:
            s += "\n" + filler(rng, rng.choice([4000, 8192, 16384])) + g.short_text(60)
        if prop in ("P08", "P09") and rng.random() < .5 and not any(0xd800 <= ord(ch) < 0xe000 for ch in s):
            u = rng.choice(["utf-16-le", "utf-16-be"])
            b, enc = s.encode(u), 2 if u == "utf-16-le" else 3
        else:
            b, enc = s.encode("utf8", "surrogatepass"), 0
        ch, cut = (), -1
        if prop == "P09":
            m = rng.choice([1024, 4096, 8192, 8191, 16384, 16383, 100, size])
            ch = [m] * (len(b) // m + 2) if rng.random() < .8 else [rng.choice([0, 1, 2, m]) for _ in range(len(b) // 2 if m < 8192 else 60)]
            if rng.random() < .3:
                cut = min(len(b), size + rng.randint(-5, 5))
        yield case(b, rng.choice(MODES[prop]), ASPECTS[prop], enc=enc, ch=ch, cut=cut)
