"""Families for the command line tools: texts told as events, and events told to be emitted."""
import json
import os
import subprocess
import vt
from families import FAMILIES, Family, case
from histories import ASSORTED
import emitgen
import outfamilies

ESCAPES = {"\\": "\\\\", "\0": "\\0", "\b": "\\b", "\n": "\\n", "\r": "\\r", "\t": "\\t"}


class ToolFamily(Family):
    tool = ""

    def execute(self, inp, out, n):
        """Runs the tool on each case."""
        binary = os.path.join(vt.TOOLS, "release", self.tool)
        hung = 0
        with open(inp) as s, open(out, "w") as d:
            for l in s:
                c = json.loads(l)
                path = inp + ".case"
                with open(path, "wb") as f:
                    f.write(self.content(c))
                try:
                    r = subprocess.run([binary] + [path] * c["times"], stdin=subprocess.DEVNULL, capture_output=True, timeout=10, preexec_fn=vt.limits)
                    c["o"] = self.observations(r)
                except subprocess.TimeoutExpired:
                    hung += 1
                    c["o"] = [{"k": "OUT", "s": [], "n": [], "x": ""}, {"k": "HANG", "s": [], "n": [], "x": ""}]
                d.write(json.dumps(c) + "\n")
                if hung > 4:
                    return

    def exit(self, r):
        says = r.stderr.decode("utf8", "replace")
        return {"k": "EXIT", "s": [ord(x) for x in says], "n": [r.returncode], "x": says}


class Tells(ToolFamily):
    tool = "run-parser-test-suite"
    module = "TellTrace"

    def content(self, c):
        return bytes(c["b"])

    def observations(self, r):
        lines = r.stdout.split(b"\n")
        o = [{"k": "LINE", "s": list(l), "n": [], "x": ""} for l in lines[:-1]]
        if lines[-1]:
            o.append({"k": "PART", "s": list(lines[-1]), "n": [], "x": ""})
        return o + [self.exit(r)]


class Tolds(ToolFamily):
    tool = "run-emitter-test-suite"
    module = "ToldTrace"

    def content(self, c):
        return ("\n".join("".join(map(chr, l)) for l in c["told"]) + ("\n" if c["nl"] else "")).encode("utf8", "surrogatepass")

    def observations(self, r):
        return [{"k": "OUT", "s": list(r.stdout), "n": [], "x": ""}, self.exit(r)]

    def describe(self, c):
        return {"lines": ["".join(map(chr, l)) for l in c["told"]], "nl": c["nl"]}


def tells(rng, n, prop, k):
    """The texts of all the other families."""
    names = [x for x in ASSORTED if x != "cuts"]
    share = n // len(names) + 1
    for i, name in enumerate(names):
        for c in FAMILIES[name].make(rng, min(share, n - i * share), "P04", rng.randrange(20)):
            if len(c["b"]) < (500 if rng.random() < .95 else 20000):
                c = case(bytes(c["b"]), "parse", [])
                c["times"] = rng.choice([1, 1, 1, 1, 2, 3])
                yield c


def line(rng, e):
    """An event in the notation."""
    k, s, n = e["k"], e["s"], e["n"]
    txt = lambda v: "".join(map(chr, v))
    if k in ("SS", "SE"):
        return ("+" if k == "SS" else "-") + "STR"
    if k in ("DOC", "DOCE"):
        return ("+DOC" + rng.choice([" ---", " ---", ""]) if k == "DOC" else "-DOC" + rng.choice(["", "", " ..."]))
    if k == "ALIAS":
        return "=ALI *" + txt(s[0])
    if k in ("SEQE", "MAPE"):
        return "-" + k[:3]
    p = ""
    if s[0] and s[0][0]:
        p += " &" + txt(s[0][0])
    if s[1] and s[1][0]:
        p += " <" + txt(s[1][0]).replace(" ", "_").replace(">", ")") + ">"
    if k == "SCALAR":
        return "=VAL" + p + " " + rng.choice(":'\"|>:") + "".join(ESCAPES.get(ch, ch) for ch in txt(s[2]))
    return "+" + k + rng.choice(["", "", "", " []" if k == "SEQ" else " {}"]) + p


VALUES = ["a", "", "b c", "x & y", "&x", "<x>", "a <b> c", "*x", "it's", "l\nm\n", "tab\there", "\\", "a\\nb", "\r", "\0", "\x08", "q \"r\"", " lead", "trail ", ": :", "' ", "| >", "-", "---", "...",
          "\u00e9", "# c", "&a <b> :c", "a: b", "\u2028", "\x85", "\ufeff", "!", "\n", "\n\n", "=VAL :x", "long words that go on and on until they have to be folded somewhere after the eightieth column"]
TAGS = ["!t", "tag:yaml.org,2002:str", "!a&b", "!", "tag:e,2000:x*y", "!a:b", "!'q'", "tag:yaml.org,2002:map"]


def tolds(rng, n, prop, k):
    """Event sequences in the notation, some with lines out of place or unknown."""
    for _ in range(n):
        e = emitgen.Events(rng, props=rng.choice([0, .3, .5]), depth=rng.choice([1, 2, 3]), undefined=.02,
                           values=None if rng.random() < .3 else lambda: rng.choice(VALUES))
        ops = [o for o in e.stream() if o["k"] != "FLUSH"][:80]
        for o in ops:
            if o["k"] in ("SCALAR", "SEQ", "MAP") and o["s"][1] and rng.random() < .6:
                o["s"][1] = emitgen.opt(rng.choice(TAGS))
        ls = [line(rng, o) for o in ops]
        if rng.random() < .003:
            # More than is read at a time
            at = rng.choice([i for i, l in enumerate(ls) if l.startswith("=VAL")] or [0])
            if at:
                ls[at] += rng.choice(["x", "\u00e9", "x "]) * rng.choice([1000, 4200, 8300])
        whole = ls[-1:] == ["-STR"]
        if rng.random() < .12:
            whole = False
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randrange(len(ls) + 1)
                x = rng.random()
                if x < .4:
                    ls.insert(i, rng.choice(["", "FOO", "+ABC", "=", " +SEQ", "+str", "-", "=VA", "\u00e9", "'", "+MA P"]))
                elif x < .6:
                    del ls[i:i + 1]
                elif x < .8:
                    ls[i:i] = ls[i:i + 1]
                else:
                    ls.insert(i, rng.choice(["+SEQ", "-SEQ", "+MAP", "-MAP", "=VAL :x", "=ALI *x", "+DOC", "-DOC", "-STR", "+STR", "=VAL <> :x", "+SEQ <>", "=VAL &a$ :x"]))
        ls = [l for l in ls if "\n" not in l]
        if any(0xd800 <= ord(ch) < 0xe000 for l in ls for ch in l):
            continue
        yield {"mode": "told", "times": rng.choice([1, 1, 2, 3]) if whole else 1, "told": [[ord(ch) for ch in l] for l in ls], "nl": 0 if not ls else 1 if not ls[-1] else rng.choice([1, 1, 1, 0])}


FAMILIES["tells"] = Tells(tells)
FAMILIES["tolds"] = Tolds(tolds)
