"""Generators of inputs: YAML text, well-formed and not, and byte streams."""
import random

ANCHORS = ["a", "b", "x1", "anchor", "-", "_", "0"]
TAGS = ["!", "!!str", "!!int", "!foo", "!<tag:yaml.org,2002:str>", "!<!x>", "!e!bar", "!e!a%21b", "!a%C3%A9",
        "!<tag:x,[1]>", "!!map", "!!seq", "!<x:%e2%82%ac>", "!m!", "!e!%F0%9F%98%80", "!<%41>", "!a-b!c", "!b;c:d"]
BAD_TAGS = ["!<>", "!<a", "!e!", "!%", "!%zz", "!%C3", "!%C3%28", "!%ff", "!a,b", "!a]b", "!<a b>", "!x}", "!%80",
            "!<a>b", "!a{", "!%ED%A0%80", "!%C0%80", "!%F4%90%80%80", "!u!x", "!!", "!!a!b", "!\u00e9"]
PLAIN = ["a", "b", "key", "foo bar", "x", "-1", "1.5", "a#b", "a:b", "-a", "?a", ":a", "a\tb", "\u00e9t\u00e9", "null", "~",
         "a'b", "a\"b", "<<", "=", "\u4e2d\u6587", "a/b", "\U0001f600", "%a", "a%", "a!b", "a&b", "...a", "---a", "a,b", "a]",
         "--", "..", "a@", "-\u00e9", "\u2028x", "x\u0085y", "a  b", "\ufeffz", "q\u00a0", "0x1F", "aa bb cc dd", "@", "`", "a: b", "-", "?", ":", ""]
ESCAPES = ["\\0", "\\a", "\\b", "\\t", "\\\t", "\\n", "\\v", "\\f", "\\r", "\\e", "\\ ", "\\\"", "\\/", "\\\\", "\\N", "\\_",
           "\\L", "\\P", "\\x41", "\\xe9", "\\u20ac", "\\uFEFF", "\\U0001F600", "\\x00", "\\uffff", "\\U0010ffff"]
BAD_ESCAPES = ["\\", "\\q", "\\x", "\\x4", "\\xg0", "\\u12", "\\u123g", "\\ud800", "\\U00110000", "\\UFFFFFFFF", "\\U0000DFFF",
               "\\U0001", "\\'", "\\X41", "\\u00", "\\U80000000", "\\U0010FFFG", "\\x4z"]
BREAKS = ["\n", "\n", "\n", "\n", "\r\n", "\r", "\u0085", "\u2028", "\u2029"]
DIRECTIVES = ["%YAML 1.1\n", "%YAML 1.2\n", "%TAG ! tag:x,2000:\n", "%TAG !e! tag:e,2000:\n", "%TAG !! !my-\n",
              "%TAG !m! !m-\n", "%YAML 1.1 # c\n", "%TAG !e! %C3%A9\n", "%TAG !a-b! x,[]\n", "%YAML  1.1\t\n", "%YAML 01.01\n"]
BAD_DIRECTIVES = ["%YAML 1.3\n", "%YAML 2.0\n", "%YAML 1\n", "%YAML 1.\n", "%YAML .1\n", "%FOO bar\n", "%TAG ! \n", "%TAG\n",
                  "%TAG !e tag:x\n", "%\n", "%YAML1.1\n", "%YAML 1.1a\n", "%YAML 1111111111.1\n", "%YAML 1.1234567890\n",
                  "%TAG e! x\n", "%TAG !e!x\n", "%TAG !e! x y\n", "%YAML 1.1 x\n", "%TAG !! x\n%TAG !! y\n",
                  "%YAML 1.1\n%YAML 1.1\n", "%YAML 999999999.1\n", "%TAG !e! %\n", "%TAG !\u00e9! x\n", "%Y@\n", "%TAG !e! x{\n",
                  "%YAML 1.999999999\n", "%YAML 1.0\n", "%YAML 0.1\n", "%YAML 11.1\n"]
COMMENTS = ["# c", " # c", "#", " #x: y", "  # \u00e9", " # [", "#\t"]
TOKENS = ["- ", "? ", ": ", "a", "b: ", "[", "]", "{", "}", ", ", ",", "&a ", "*a ", "*a", "!t ", "!!str ", "|\n", ">\n", "'a'", "\"b\"",
          "\n", "\n", "\n ", "\n  ", "\n    ", " ", "  ", "\t", "# c\n", "---\n", "...\n", "--- ", "... ", "%YAML 1.1\n",
          "a b", ":", "-", "?", "'", "\"", "|", ">", "!", "&", "*", "@", "`", "%", "\r\n", "\r", "\u0085", "\u2028", "\ufeff", "|-\n",
          ">+\n", "|2\n", ">1-\n", "|+1 # c\n", "- - ", "? - ", ": - ", "a:\n", "- a\n", "a: b\n", "  c: d\n", "\u00e9", "\U0001f600",
          "''", "\"\"", "a:", "\\n", "- a: b\n", "  - ", "]: ", "}: ", "*a : ", "\"x\": ", "\"x\":", "'y' : ", "{}", "[]", "!<x> "]


class Gen:
    def __init__(self, rng):
        self.r = rng

    def pick(self, xs):
        return self.r.choice(xs)

    def chance(self, p):
        return self.r.random() < p

    # ---------------------------------------------------------------- soup
    def soup(self, n=None):
        n = n or self.r.randint(1, 14)
        return "".join(self.pick(TOKENS) for _ in range(n))

    # ---------------------------------------------------- structured documents
    def word(self):
        return self.pick(PLAIN) if self.chance(0.6) else "".join(
            self.pick("abz09-_ .#:,'\"é\t") for _ in range(self.r.randint(1, 8)))

    def plain(self, ind, flow):
        s = self.pick(PLAIN[:40])
        if self.chance(0.25):
            for _ in range(self.r.randint(1, 3)):
                s += self.pick(["\n", "\n", "\n\n", " \n", "\n\n\n", "\t\n", "\r\n", "\u2028", "\u0085", "\n \n"])
                s += " " * (ind + self.r.choice([0, 1, 1, 2, 3])) + (self.pick(PLAIN[:30]) if self.chance(.9) else self.pick(["\tx", "# c", "- x", "a: b"]))
        return s

    def single(self, ind):
        s = ""
        for _ in range(self.r.randint(0, 4)):
            s += self.pick(["a", "b c", "''", "''''", " ", "  ", "\t", "\"", "#", ": ", "\\", "\\n", "é", "'' ", "\ufeff", "[,]", "-", "\u2028", "\u2029"])
            if self.chance(0.3):
                s += self.pick(["\n", "\n\n", " \n ", "\n\n\n  ", "\t\n\t", "\r\n", "\u2029", "\n" + " " * ind, "\n--- ", "\n...\n", "\n---a"] if self.chance(.3) else ["\n", "\n\n", " \n" + " " * ind])
        return "'" + s + "'"

    def double(self, ind):
        s = ""
        for _ in range(self.r.randint(0, 5)):
            x = self.r.random()
            if x < .4:
                s += self.pick(["a", "b c", " ", "  ", "\t", "'", "#", ": ", "é", "\u20ac", "]", "---", "''", "\ufeff", "\U0001f600"])
            elif x < .75:
                s += self.pick(ESCAPES)
            elif x < .79:
                s += self.pick(BAD_ESCAPES)
            else:
                s += self.pick(["\n", "\n\n", " \n ", "\\\n", "\\\n  ", " \\\n", "\n\n\n", "\\\n\n", "\r\n", "\\\r\n", "\u2028", "\\\u2029x", "\n" + " " * ind, "\\ \n", "\\t\n", "\n\t"])
        return '"' + s + '"'

    def block(self, ind):
        """A block scalar: the text starts after the current position."""
        head = self.pick("|>")
        hint = self.pick(["", "", "", "", "-", "+", "1", "2", "+1", "2-", "3+", "0", "-0", "9"])
        head += hint + self.pick(["", "", "", " ", " # c", "#c", "x", "\t", " #"] if self.chance(.4) else [""])
        n = ind + self.r.choice([1, 1, 2, 2, 3])
        body = self.pick(["\n", "\n", "\n", "\r\n", "\u2028"] if self.chance(.3) else ["\n"])
        if self.chance(.15):
            body += self.pick(["\n", " \n", "    \n", "\t\n", "\n\n", " " * n + "\n", " " * (n + 1) + "\n"])
        for _ in range(self.r.randint(0, 5)):
            body += " " * n + self.pick(["a", "b c", "", " d", "  e", "\tf", "# g", "- h", "i: j", "é", "k ", "l  ", "'", "%", "\ufeff", "---", " \t", "x\ty"])
            body += self.pick(BREAKS) if self.chance(.3) else "\n"
            if self.chance(.3):
                body += self.pick(["\n", "\n\n", " \n", " " * n + "\n", "\t\n", " " * (n - 1) + "\n", "\r", "\u2029"])
        if self.chance(.1):
            body = body.rstrip("\n")
        elif self.chance(.2):
            body += self.pick(["# c\n", " # c\n", "\n\n", "  ", " " * n, "\t", "...\n"])
        return head + body

    def props(self):
        s = ""
        x = self.r.random()
        anchor = "&" + self.pick(ANCHORS) + str(self.r.randint(0, 9) if self.chance(.5) else "")
        tag = self.pick(TAGS) if self.chance(.93) else self.pick(BAD_TAGS)
        if x < .1:
            s = anchor
        elif x < .2:
            s = tag
        elif x < .25:
            s = anchor + " " + tag
        elif x < .3:
            s = tag + "  " + anchor
        elif x < .305:
            s = self.pick(["&", "& ", "&é", "&a&b", "&a,", "!a !b", "&a &b", "&a\tb"])
        if s and self.chance(.08):
            s += self.pick(["\n ", " # c\n  ", "\n", "\t"])
        return s

    def comment(self):
        return self.pick(COMMENTS) if self.chance(.06) else ""

    def flow(self, d, ind):
        p = self.props()
        p = p + " " if p else ""
        x = self.r.random()
        if d <= 0 or x < .5:
            x = self.r.random()
            if x < .5:
                return p + self.pick(["a", "b", "c d", "é", "-x", "a#b", "a:b", "-", "?x", "\U0001f600"]) if self.chance(.8) else p + self.plain(ind, True)
            if x < .65:
                return p + self.single(ind)
            if x < .8:
                return p + self.double(ind)
            if x < .9:
                return "*" + self.pick(ANCHORS)
            return p
        ws = lambda: self.pick(["", "", " ", "\n " + " " * ind, " # c\n" + " " * ind + " "]) if self.chance(.4) else ""
        if x < .75:
            items = []
            for _ in range(self.r.randint(0, 3)):
                y = self.r.random()
                if y < .6:
                    items.append(self.flow(d - 1, ind))
                elif y < .8:
                    items.append(self.flow(d - 1, ind) + self.pick([": ", ":", " : "]) + self.flow(d - 1, ind))
                elif y < .9:
                    items.append("? " + self.flow(d - 1, ind) + self.pick(["", " : " + self.flow(0, ind)]))
                else:
                    items.append(self.pick([": x", "?", ":", "? ", ""]))
            s = "[" + ws() + (ws() + "," + self.pick(["", " ", " "]) + ws()).join(items) + self.pick(["", "", "", ","]) + ws() + "]"
        else:
            items = []
            for _ in range(self.r.randint(0, 3)):
                y = self.r.random()
                if y < .65:
                    items.append(self.flow(d - 1, ind) + self.pick([": ", ": ", " : ", ":"]) + self.flow(d - 1, ind))
                elif y < .75:
                    items.append(self.flow(d - 1, ind))
                elif y < .9:
                    items.append("? " + self.flow(d - 1, ind) + self.pick(["", " : " + self.flow(0, ind)]))
                else:
                    items.append(self.pick([": x", "?", ":", "", "? : a"]))
            s = "{" + ws() + (ws() + "," + self.pick(["", " ", " "]) + ws()).join(items) + self.pick(["", "", "", ","]) + ws() + "}"
        if self.chance(.03):
            s = s[:-1] + self.pick(["", "}", "]", ")"])
        return p + s

    def nl(self):
        return self.comment() + (self.pick(BREAKS) if self.chance(.08) else "\n") + (self.pick(["\n", "# x\n", "  # y\n", "\n\n", "\t\n"]) if self.chance(.07) else "")

    def node(self, d, ind, inline=True):
        """A block node at indentation ind; text follows on the same line."""
        p = self.props()
        x = self.r.random()
        sp = lambda: self.pick(["", "", "", " ", "\t"]) if self.chance(.05) else ""
        if d > 0 and x < .6:
            if x < .28:
                step = self.r.choice([1, 2, 2, 4])
                n = ind + step if not self.chance(.25) else ind
                s = p + self.nl()
                for _ in range(self.r.randint(1, 3)):
                    s += " " * n + "-" + self.pick([" ", " ", "  "]) + self.node(d - 1, n + 1)
                    if not s.endswith("\n") and not self.chance(.01):
                        s += self.nl()
                return s
            if x < .56:
                n = ind + self.r.choice([1, 2, 2, 4])
                s = p + self.nl()
                for _ in range(self.r.randint(1, 3)):
                    y = self.r.random()
                    if y < .7:
                        k = self.pick(["a", "b", "key", "x y", "'q'", "\"r\"", "&k k", "*a ", "!t t", "[a]", "{b: c}", "é", "", "1"])
                        s += " " * n + k + self.pick([": ", ": ", ":  ", " : ", ":\t"] if self.chance(.2) else [": "]) + self.node(d - 1, n)
                    elif y < .85:
                        s += " " * n + "? " + self.node(d - 1, n + 1)
                        if not s.endswith("\n"):
                            s += self.nl()
                        if self.chance(.8):
                            s += " " * n + ": " + self.node(d - 1, n + 1)
                    else:
                        s += " " * n + self.pick([": x", "? ", "a:", "?", ":", "a", "- b", "  c: d", "'e' f: g"])
                    if not s.endswith("\n") and not self.chance(.01):
                        s += self.nl()
                return s
            # compact
            return self.pick(["- ", "? ", "a: ", ": "]) + self.node(d - 1, ind + 2)
        p = p + " " if p else ""
        if x < .7:
            return p + self.plain(ind + 1, False) + sp()
        if x < .76:
            return p + self.single(ind + 1) + sp()
        if x < .83:
            return p + self.double(ind + 1) + sp()
        if x < .92:
            return p + self.block(ind)
        if x < .94:
            return "*" + self.pick(ANCHORS)
        if x < .96:
            return p
        return p + self.flow(2, ind + 1)

    def document(self, d=None):
        d = self.r.randint(0, 3) if d is None else d
        s = ""
        if self.chance(.15):
            for _ in range(self.r.randint(1, 2)):
                s += self.pick(DIRECTIVES) if self.chance(.85) else self.pick(BAD_DIRECTIVES)
            s += "---" + self.pick(["\n", " "]) if self.chance(.95) else ""
        elif self.chance(.3):
            s += "---" + self.pick(["\n", " ", " # c\n", "\t"])
        x = self.r.random()
        if x < .75:
            body = self.node(d, -1)
        else:
            body = self.flow(d + 1, 0)
        s += body
        if not s.endswith("\n"):
            s += "\n"
        if self.chance(.2):
            s += self.pick(["...\n", "... # c\n", "...\n...\n", "... x\n"] if self.chance(.2) else ["...\n"])
        return s

    def stream(self):
        s = ""
        if self.chance(.05):
            s += self.pick(["# c\n", "\n", " \n", "\t\n", "...\n"])
        for i in range(self.pick([1, 1, 1, 1, 2, 3])):
            if i and not self.chance(.1) and not s.endswith("...\n"):
                s += "---" + self.pick(["\n", " "])
            s += self.document()
        if self.chance(.1):
            s = s.rstrip("\n")
        return s

    def mutate(self, s):
        for _ in range(self.pick([1, 1, 1, 2, 3])):
            i = self.r.randint(0, len(s))
            x = self.r.random()
            if x < .3:
                s = s[:i] + s[i + self.r.randint(1, 3):]
            elif x < .6:
                s = s[:i] + self.pick(TOKENS) + s[i:]
            elif x < .8:
                s = s[:i] + self.pick(list(" \t\n-?:,[]{}#&*!|>'\"%@`ab\\\u0085\u2028\ufeff\r")) + s[i + 1:]
            elif x < .9:
                j = self.r.randint(0, len(s))
                a, b = min(i, j), max(i, j)
                s = s[:b] + s[a:b] + s[b:]
            else:
                s = s[:i]
        return s[:400]

    def text(self):
        x = self.r.random()
        if x < .2:
            return self.soup()
        if x < .75:
            return self.stream()
        return self.mutate(self.stream())

    def short_text(self, limit=160):
        while True:
            s = self.text()
            if len(s) <= limit:
                return s
