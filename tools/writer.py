"""Valid streams, written with all the liberties that the syntax leaves."""

WORDS = ["a", "b", "key", "value", "x1", "-x", "?y", ":z", "a-b", "a:b", "a#b", "it's", "say\"s", "10:30", "1", "-1", "0x1F", "~", "null", "true", "<<", "=", "\u00e9t\u00e9", "\u20ac", "\U0001f600", "a\\b",
         "%d", "&amp"[1:], "http://x.y/z", "...x", "--", "---x"[1:], "a.b", "@x"[1:], "\u00a0", "n\u0303", "\ufffd", "\u0e01", "zz"]
FLOWSAFE = [w for w in WORDS if w not in ("-x", "?y", ":z", "a:b", "10:30", "http://x.y/z")]
ESCAPED = ["\\0", "\\a", "\\b", "\\t", "\\n", "\\v", "\\f", "\\r", "\\e", "\\ ", "\\\"", "\\/", "\\\\", "\\N", "\\_", "\\L", "\\P", "\\x41", "\\xe9", "\\xE9", "\\u20ac", "\\u20AC", "\\uFEFF", "\\U0001F600",
           "\\U0001f600", "\\x00", "\\\t", "\\U0010FFFF", "\\uD7FF", "\\uE000", "\\x7f", "\\x0A"]
BREAKS = ["\n"] * 30 + ["\r\n", "\r\n", "\r", "\u0085", "\u2028", "\u2029"]
CORE = ["!!str", "!!int", "!!map", "!!seq", "!!null", "!!float", "!!set", "!!binary"]
LOCAL = ["!", "!a", "!t", "!a-b_1", "!%41", "!x:y", "!a.b/c?d", "!%e2%82%ac", "!%C3%A9x", "!<!x>", "!<tag:yaml.org,2002:str>", "!<tag:x,2000:y[1],(z)>", "!<u%20v>", "!a~*'()"]


# What there can be much of
DIMENSIONS = ["name", "suffix", "directives", "prefix", "entries", "fentries", "depth", "blanks", "comment", "step", "folds", "flines", "empty", "spaces", "word", "words", "escapes", "documents", "ends", "after",
              "handle", "parts", "lines", "trailing", "width", "spread"]
SIZES = [7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 20, 31, 32, 33, 40, 50, 63, 64, 65, 70, 80, 81, 99, 100, 101, 127, 128, 129, 150, 200, 254, 255, 256, 257, 300]
LARGE = [400, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025, 1100, 2000]


class Writer:
    def __init__(self, r, breaks=None, grow=None):
        self.r = r
        self.grow = grow
        self.breaks = breaks or (["\n"] if r.random() < .6 else BREAKS)
        self.names = []
        self.count = 0
        self.handles = []
        self.left = 0

    def chance(self, p):
        return self.r.random() < p

    def size(self, what, usual):
        """How many: in the dimension that grows, now and then more than usual."""
        if self.grow == what and self.chance(.3):
            n = self.r.choice(SIZES if what in ("entries", "fentries", "depth", "documents", "directives") or self.chance(.85) else LARGE)
            if what in ("depth", "documents", "directives", "fentries", "entries"):
                self.grow = None
                self.left += n
            return n
        return usual

    def nl(self):
        """The end of a line, and lines that say nothing."""
        s = ""
        if self.chance(.06):
            s += self.r.choice([" ", "  ", "\t", " # c", "\t# \u00e9", " #", " \t# a: b", "   # 'x"])
            s += "y" * self.size("comment", 0) if "#" in s else " " * self.size("after", 0)
        s += self.r.choice(self.breaks)
        more = self.size("blanks", 0)
        while self.chance(.05) or more > 0:
            more -= 1
            s += self.r.choice(["", " ", "# x", "   # y", "        ", "#"]) + self.r.choice(self.breaks)
        return s

    # ------------------------------------------------------------ properties
    def properties(self, scalar=True):
        """Anchor and tag, in any order, followed by a space."""
        p = []
        if self.chance(.12):
            self.count += 1
            n = self.r.choice(["a", "b", "x-", "n_", "id00", "0", "-", "_"]) + str(self.count) if not self.names or self.chance(.95) else "n" + str(self.count)
            n += "z" * self.size("name", 0)
            self.names.append(n)
            p.append("&" + n)
        if self.chance(.12):
            x = self.r.random()
            p.append(self.r.choice(CORE) if x < .35 else self.r.choice(LOCAL) if x < .6 or not self.handles else self.r.choice(self.handles) + self.r.choice(["t", "x1", "%41", "a:b", "y"]))
            if p[-1][-1:] not in "!>":
                p[-1] += self.r.choice(["s", "s", "%C3%A9"]) * self.size("suffix", 0)
        if len(p) == 2 and self.chance(.5):
            p.reverse()
        return "".join(x + self.r.choice([" ", " ", " ", "  ", "\t"]) for x in p)

    # ---------------------------------------------------------------- scalars
    def phrase(self, flow, n=None):
        n = n or self.r.choice([1, 1, 1, 1, 2, 2, 3, 5])
        ws = FLOWSAFE if flow else WORDS
        out = self.r.choice(ws)
        out += self.r.choice(["w", "w", "\u20ac", "-", "x:y"[:1]]) * self.size("word", 0)
        for _ in range(self.size("words", n - 1)):
            out += self.r.choice([" ", " ", " ", "  ", "\t", " \t "]) + " " * self.size("spaces", 0) + self.r.choice([w for w in ws if w[0] != "#"] + (["-", "?", "'q'", "\"", "&x", "*y", "!", "|", ">", "%", "@", "a,b", "[z]", "{", "}"] if not flow else ["-", "'q'", "\"", "&x", "*y", "!", "|", ">", "%", "@"]))
        return out

    def folding(self, ind, blanks=True):
        """A line break inside a scalar, and the indentation after it."""
        s = self.r.choice(["", "", " ", "\t"]) if blanks and self.chance(.3) else ""
        for _ in range(self.size("empty", self.r.choice([1, 1, 1, 2, 3]))):
            s += self.r.choice(self.breaks) + (self.r.choice(["", " ", "  "]) if self.chance(.15) else "")
        s = s.rstrip(" ") if not blanks else s
        k = len(s)
        while k and s[k - 1] == " ":
            k -= 1
        return s[:k] + " " * (ind + self.size("width", self.r.choice([0, 0, 0, 1, 3])))

    def plain(self, ind, flow, key=False):
        s = self.phrase(flow)
        if s[0] == "%" and ind <= 1:
            s = "a" + s
        if not key:
            more = self.size("folds", 0)
            while self.chance(.12) or more > 0:
                more -= 1
                s += self.folding(ind) + (self.r.choice(FLOWSAFE[:4]) + " " + self.phrase(flow) if ind <= 0 or flow else self.phrase(flow))
        return s

    def single(self, ind, key=False):
        s = ""
        for i in range(self.size("parts", self.r.choice([0, 1, 1, 2, 3, 5]))):
            s += self.r.choice(["a", "b c", "''", " ", "  ", "\t", "\"", "#", ": ", "\\", "\\n", "\u00e9", "'' ''", "[,]", "-", "- ", "{", "x ", " y", "%", "\U0001f600", "\ufeff"] + ([] if key else [None, None, None])) or self.folding(ind)
        return "'" + s + "'"

    def double(self, ind, key=False):
        s = ""
        for i in range(self.size("escapes", self.r.choice([0, 1, 1, 2, 3, 5, 8]))):
            x = self.r.random()
            if x < .35:
                s += self.r.choice(ESCAPED)
            elif x < .8 or key:
                s += self.r.choice(["a", "b c", " ", "  ", "\t", "'", "#", ": ", "\u00e9", "\u20ac", "]", ",", "- ", "''", "\U0001f600", "x ", " y"])
            elif x < .9:
                s += self.folding(ind)
            else:
                s += self.r.choice(["", " ", "  "]) + "\\" + self.folding(ind, False)
        return '"' + s + '"'

    def block(self, ind):
        """A literal or folded scalar; ind is the least indentation of its text."""
        n = max(ind, 1) + self.size("step", self.r.choice([0, 0, 0, 1, 2, 4]))
        lines = []
        for _ in range(self.size("lines", self.r.choice([0, 1, 1, 2, 3, 4, 6]))):
            lines.append(self.r.choice(["a", "b c", "word word word", "- h", "i: j", "\u00e9", "k ", "l  ", "'", "%", "#x"[1:], "x\ty", "# g", "\U0001f600 z", "---", "...", "\"q\\n\"", "", "", " d", "  e", "\tf", " - g", "\ufeffx"[1:]]))
        lead = 0
        while lead < len(lines) and not lines[lead]:
            lead += 1
        if lead < len(lines) and lines[lead][0] == "\t":
            lines[lead] = "x" + lines[lead]
        first = lines[lead] if lead < len(lines) else ""
        hint = ""
        given = n - max(ind - 1, 0) if ind > 0 else n
        if first.startswith(" ") or self.chance(.2):
            # The indicator counts from the indentation of the parent
            if 1 <= given <= 9:
                hint = str(given)
            else:
                lines = [x.lstrip(" ") for x in lines]
        chomp = self.r.choice(["", "", "-", "+"])
        head = self.r.choice("|>") + (hint + chomp if self.chance(.5) else chomp + hint) + (self.r.choice([" ", " # c", "\t# c", "  #"]) if self.chance(.1) else "")
        body = self.r.choice(self.breaks)
        for i, x in enumerate(lines):
            if not x:
                body += self.r.choice(["", "", " " * n, " " * max(n - 1, 0)]) if hint or i > lead else self.r.choice(["", " " * min(n, 1)])
            else:
                body += " " * n + x
            body += self.r.choice(self.breaks)
        for _ in range(self.size("trailing", self.r.choice([0, 0, 0, 1, 2]))):
            body += self.r.choice(self.breaks)
        return head + body

    # ---------------------------------------------------------------- flow
    def space(self, ind):
        """Space between the parts of a flow collection."""
        if self.chance(.75):
            return self.r.choice(["", "", " "])
        return self.nl() + " " * (ind + self.size("flines", self.r.choice([0, 1, 2])))

    def flow_scalar(self, ind, key=False):
        x = self.r.random()
        if self.names and x < .12:
            return "*" + self.r.choice(self.names) + (" " if key else "")
        p = self.properties()
        x = self.r.random()
        if x < .5:
            return p + self.plain(ind, True, key)
        if x < .7:
            return p + self.single(ind, key)
        if x < .9:
            return p + self.double(ind, key)
        return p if p and not key else p + "''"

    def flow(self, d, ind):
        self.left -= 1
        if d <= 0 or self.chance(.45) or self.left < 0:
            return self.flow_scalar(ind)
        p = self.properties()
        seq = self.chance(.5)
        s = "[" if seq else "{"
        n = self.size("fentries", self.r.choice([0, 1, 2, 2, 3, 4]))
        for i in range(n):
            s += self.space(ind)
            x = self.r.random()
            if seq and x < .7:
                s += self.flow(d - 1, ind)
            elif x < .75:
                s += "? " + self.flow(d - 1, ind) + self.space(ind) + " : " + self.flow(d - 1, ind)
            elif x < .8:
                s += "? " + self.flow(d - 1, ind)
            elif not seq and x < .88:
                s += self.flow(d - 1, ind)
            else:
                k = self.flow_scalar(ind, True) if self.chance(.9) else self.r.choice(["[a]", "{}", "[]", "{a: b}", "[[]]"])
                s += k + self.r.choice([": ", ": ", " : ", ":  ", ":\t"]) + (self.flow(d - 1, ind) if self.chance(.93) else "")
            s += self.space(ind)
            if s[-1] not in " \n\r\u0085\u2028\u2029\t" and self.chance(.3):
                s += " "
            if i < n - 1 or self.chance(.12):
                s += ","
        s += self.space(ind) + ("]" if seq else "}")
        return p + s

    # ---------------------------------------------------------------- block
    def key(self):
        x = self.r.random()
        if self.names and x < .06:
            return "*" + self.r.choice(self.names) + " "
        p = self.properties()
        x = self.r.random()
        if x < .65:
            return p + self.plain(1, False, True)
        if x < .78:
            return p + self.single(1, True)
        if x < .92:
            return p + self.double(1, True)
        if x < .97:
            return p + self.r.choice(["[a, b]", "{}", "[]", "{a: b}", "[[a], {b: c}]", "[a: b]"])
        return p + "''" if not p else p + "e"

    def end(self, s):
        return s if s[-1:] in ("\n", "\r", "\u0085", "\u2028", "\u2029") else s + self.nl()

    def node(self, d, ind, where):
        """A node whose text starts on the current line; its lines are indented by
        at least ind.  Where: doc, entry, key, value."""
        self.left -= 1
        x = self.r.random()
        if self.names and x < .06:
            return self.end("*" + self.r.choice(self.names))
        if d > 0 and self.left > 0 and x < .62:
            if where in ("entry", "key") and self.chance(.3):
                # in-line
                sp = self.r.choice([1, 1, 1, 2, 3])
                return " " * (sp - 1) + self.collection(d, ind + sp, True)
            n = ind if ind <= 0 else ind + self.size("step", self.r.choice([0, 0, 1, 1, 2, 3]))
            n = max(n, 0)
            seq = None
            if where == "value" and self.chance(.35):
                n, seq = ind - 1, True
            p = self.properties().rstrip(" \t") if where != "doc" or self.chance(.7) else ""
            return p + self.nl() + self.collection(d, n, False, seq)
        p = self.properties()
        x = self.r.random()
        ind = max(ind, 1) if where == "doc" and self.chance(.5) else ind
        if x < .35:
            return self.end(p + self.plain(ind, False))
        if x < .47:
            return self.end(p + self.single(ind))
        if x < .62:
            return self.end(p + self.double(ind))
        if x < .8:
            return self.end(p + self.block(ind))
        if x < .87:
            return self.end(p)
        return self.end(self.flow(2, max(ind, 1)))

    def collection(self, d, n, inline, seq=None):
        s = ""
        if seq is None:
            seq = self.chance(.45)
        for i in range(self.size("entries", self.r.choice([1, 1, 2, 2, 3, 4]))):
            if i:
                if self.left < 0:
                    break
            pad = "" if inline and not i else " " * n
            if seq:
                g = self.r.choice([1, 1, 1, 2])
                s += self.end(pad + "-" + " " * g + self.node(d - 1, n + g, "entry"))
            elif self.chance(.12):
                s += self.end(pad + "? " + self.node(d - 1, n + 1, "key"))
                if self.chance(.85):
                    s += self.end(" " * n + ": " + self.node(d - 1, n + 1, "key"))
            else:
                s += self.end(pad + self.key() + self.r.choice([": ", ": ", ": ", ":  ", " : ", ":\t"]) + " " * self.size("spread", 0) + self.node(d - 1, n + 1, "value"))
        return s

    # ---------------------------------------------------------------- streams
    def document(self, first, after_end):
        self.names, self.handles = [], []
        s = ""
        directives = (first or after_end) and self.chance(.3)
        if directives:
            ds = []
            if self.chance(.5):
                ds.append(self.r.choice(["%YAML 1.1", "%YAML 1.2", "%YAML\t1.1", "%YAML  1.1 # c"]))
            for h in self.r.sample(["!", "!!", "!e!", "!x-1!", "!_!"], self.r.choice([0, 1, 1, 2, 3])):
                if len(h) > 2:
                    h = h[:-1] + "h" * self.size("handle", 0) + "!"
                ds.append("%TAG " + h + self.r.choice([" ", "  "]) + self.r.choice(["tag:e,1:", "!", "!p-", "x", "tag:yaml.org,2002:", "%41:", "[a],", "!e!"]) + "p" * self.size("prefix", 0))
                self.handles.append(h)
            for i in range(self.size("directives", self.r.choice([0] * 9 + [2, 5, 9]))):
                ds.append("%%TAG !h%d! tag:h,%d:" % (i, i))
                self.handles.append("!h%d!" % i)
            self.r.shuffle(ds)
            for x in ds:
                s += self.end(x)
        self.left = self.r.choice([1, 5, 12, 25, 40])
        d = self.size("depth", self.r.choice([0, 1, 2, 3, 4, 6]))
        if directives or not first or self.chance(.4):
            s += "---"
            if self.chance(.5):
                x = self.r.random()
                if x < .2:
                    return s + self.r.choice([" ", "\t"]) + self.end(self.block(0) if self.chance(.7) else self.flow(3, 1))
                return s + " " + self.node(0, self.r.choice([0, 1]), "doc")
            s += self.nl()
        if self.chance(.75) and d:
            return s + self.collection(d, 0 if self.chance(.85) else self.r.choice([1, 2, 4]), False)
        if self.chance(.4):
            return s + self.end(self.flow(d + 1, self.r.choice([0, 1])))
        return s + self.node(0, 1, "doc").lstrip("\n\r\u0085\u2028\u2029")

    def stream(self, documents=None):
        s = ""
        if self.chance(.04):
            s = "\ufeff"
        if self.chance(.08):
            s += self.r.choice(["# c", "", " # d", "#"]) + self.r.choice(self.breaks)
        ended = False
        for i in range(documents or self.size("documents", self.r.choice([1, 1, 2, 2, 3, 4, 7]))):
            s += self.document(i == 0, ended)
            ended = self.chance(.4)
            if ended:
                for _ in range(self.size("ends", self.r.choice([1, 1, 1, 1, 2]))):
                    s += self.end("..." + self.r.choice(["", "", " ", " # c", "\t"]))
                while self.chance(.1):
                    s += self.end(self.r.choice(["# x", "", " "]))
        if self.chance(.1):
            s = s.rstrip("\n")
        return s
