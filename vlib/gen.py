"""Generators of inputs.  They say nothing about the expected result."""
import itertools, random

NAMES = ["a", "b", "c", "aa", "ab", "r", "r1", "x-y", "_", "A", "Z9", "é", "α.β", "a·",
         "ǹͯ", "\U00010000n", "日本", "xmlns", "xml", "b.", "a-", "rr"]
PLAIN = ["a", "b", "c", "d"]
PREFIXES = ["p", "q", "r", "xml", "xmlns", "zz", "p1"]
URIS = ["u", "v", "w", "http://x/y", "", "u#1", "é"]
SPACES = [" ", "\n", "\t", "\r\n", "  ", "\n\n", " \n ", " ", " ", "\u0085", "　", "\x0b", " "]
SOUP = list("#####aabrpx::==\"\"''{{}};;\n\n   \t\\&<>-._09/") + \
       ["é", "̀", " ", " ", "€", "\U0001f600", "\U000f0000", "\x00", "￾", "퟿",
        "\x7f", "·", ";", " "]
WIDE = "é€\U0001f600 "


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


def soup(rng, n):
    return "".join(pick(rng, SOUP) for _ in range(n))


def space(rng, w):
    r = rng.random()
    if r < 0.6:
        return " "
    if r < 0.8:
        return "\n"
    return "".join(pick(rng, SPACES) for _ in range(rng.randint(1, w)))


class Doc:
    """A random, mostly well-formed document"""

    DEFAULT = dict(items=12, tag=5, box=2, close=2, attr=3, decl=0, string=2, comment=1.5, blank=0.5, fault=0.03,
                   prefix=0.0, names=NAMES, deep=0.05, spaces=2, multiline=True, near=0.03)

    def __init__(self, rng, **o):
        self.rng = rng
        self.o = dict(self.DEFAULT, **o)
        self.out = []
        self.boxes = [(0, None)]  # current depth in each open box, and the tag that opened it
        self.ready = False        # a tag has been written and takes attributes

    def emit(self, s):
        self.out.append(s)

    def sep(self, must):
        if must or self.rng.random() < 0.7:
            self.emit(space(self.rng, self.o["spaces"]))

    def name(self, declared=True):
        rng = self.rng
        n = pick(rng, self.o["names"])
        if rng.random() < self.o["prefix"]:
            n = pick(rng, PREFIXES[:2] if rng.random() < 0.85 else PREFIXES) + ":" + n
        return n

    def tag(self):
        rng = self.rng
        d, _ = self.boxes[-1]
        if rng.random() < self.o["deep"]:
            depth = d + 1 + rng.randint(1, 2)
        else:
            depth = rng.randint(1, d + 1) if rng.random() < 0.6 else d + 1
        box = rng.random() < self.o["box"] / (self.o["tag"] + self.o["box"])
        n = self.name()
        self.sep(True)
        self.emit("#" * depth + n + ("{" if box else ""))
        self.boxes[-1] = (depth, self.boxes[-1][1])
        if box:
            self.boxes.append((0, ("#" * depth + n, depth)))
        self.sep(True)
        self.ready = True

    def close(self):
        rng = self.rng
        if len(self.boxes) > 1 and rng.random() > self.o["fault"] * 2:
            _, (t, depth) = self.boxes.pop()
            self.boxes[-1] = (depth - 1, self.boxes[-1][1])
            if rng.random() < self.o["near"]:
                t = near(rng, t)
        else:
            t = "#" * rng.randint(1, 3) + self.name()
        self.sep(True)
        self.emit(t + "}")
        self.sep(True)
        self.ready = False

    def value(self):
        rng = self.rng
        r = rng.random()
        if r < 0.35:
            return "".join(pick(rng, list("abc/#='\"{}:;") + list(WIDE[:3])) for _ in range(rng.randint(1, 5))) \
                .lstrip("'\"") or "v"
        q = pick(rng, "'\"")
        other = "'\""["'\"".index(q) ^ 1]
        return q + "".join(pick(rng, list("ab #=;\\&\t") + [other] + list(WIDE)) for _ in range(rng.randint(0, 6))) + q

    def attr(self):
        self.sep(not self.ready)
        self.emit(self.name() + "=" + self.value())
        self.sep(True)

    def decl(self):
        rng = self.rng
        self.sep(False)
        p = pick(rng, PREFIXES[:3] if rng.random() < 0.9 else PREFIXES)
        n = "xmlns" if rng.random() < 0.35 else "xmlns:" + p
        self.emit("%s='%s'" % (n, pick(rng, URIS)))
        self.sep(True)

    def string(self):
        rng = self.rng
        self.sep(True)
        self.emit(string(rng, self.o["multiline"]))
        self.sep(False)
        self.ready = False

    def comment(self):
        self.sep(False)
        self.emit(comment(self.rng))
        self.ready = False

    def fault(self):
        r = self.rng.random()
        if r < 0.5:
            self.emit(soup(self.rng, self.rng.randint(1, 2)))
        elif r < 0.7:
            self.emit("#" + self.name() + pick(self.rng, ["{{", "}x", "{}", "=", "\"", "#", ":", "::", "/"]))
        elif r < 0.85:
            self.attr()
        else:
            self.emit(pick(self.rng, ["'", '"', "#'", 'r"', "a", "a=", "p:", "a:b", "#", "##", "#a:", "r#", "a=\n"]))

    def text(self):
        rng, o = self.rng, self.o
        for i in range(rng.randint(1, o["items"])):
            if rng.random() < o["fault"]:
                self.fault()
                continue
            w = [("tag", o["tag"] + o["box"]), ("close", o["close"] if len(self.boxes) > 1 else o["close"] * 0.02),
                 ("attr", o["attr"] * (3 if self.ready else 0.02)), ("decl", o["decl"] * (3 if self.ready else 0.02)),
                 ("string", o["string"] if i else 0.1), ("comment", o["comment"]), ("blank", o["blank"])]
            if i == 0 and rng.random() < 0.9:
                k = "tag"
            else:
                k = rng.choices([x[0] for x in w], [x[1] for x in w])[0]
            if k == "blank":
                self.emit("".join(pick(rng, SPACES) for _ in range(rng.randint(1, 3))))
            else:
                getattr(self, k)()
        s = "".join(self.out)
        return s if rng.random() < 0.8 else s.strip()


def near(rng, tag):
    """A tag that is not quite the one given"""
    h = tag[:len(tag) - len(tag.lstrip("#"))]
    p, _, n = ("" if ":" in tag else ":").join(["", tag[len(h):]]).rpartition(":")
    k = rng.randrange(6)
    if k == 0:
        return h + n if p else h + "p:" + n
    if k == 1:
        return h + pick(rng, PREFIXES[:3]) + ":" + n
    if k == 2:
        return tag + pick(rng, "a1")
    if k == 3:
        return h + (p + ":" if p else "") + (n[:-1] or "z")
    if k == 4:
        return "#" + tag
    return tag[1:] if len(h) > 1 else h + (p + ":" if p else "") + n.swapcase()


def string(rng, multiline=True):
    """A quoted string, now and then closed by the wrong thing"""
    raw = "r" if rng.random() < 0.4 else ""
    h = rng.choices([0, 1, 2, 3, 5], [5, 4, 2, 1, 0.3])[0]
    q = pick(rng, "'\"")
    body = "".join(rng.choices([q, "'", '"', "#", "\n", "a", " ", "\\", ";", "é", "€", "\U0001f600", "\\n", "&amp;",
                                "\r", q + "#" * max(0, h - 1), "\\" + q],
                               [1, 1, 1, 3, 1 if multiline else 0, 3, 2, 1, 0.5, 1, 0.5, 0.5, 0.5, 0.5, 0.2, 2, 0.5])[0]
                   for _ in range(rng.randint(0, 7)))
    if h == 0 and rng.random() < 0.9:
        body = body.replace(q, "").replace("\n", " ")
    end = q + "#" * h
    if rng.random() < 0.03:
        end = q + "#" * max(0, h - 1)
    return raw + "#" * h + q + body + end


def comment(rng):
    out = []
    for i in range(rng.choices([1, 2, 3, 4], [5, 3, 2, 1])[0]):
        ind = "".join(pick(rng, [" ", "\t", " ", " ", "\r"])
                      for _ in range(rng.choices([0, 1, 3], [3, 2, 1])[0]))
        body = "".join(pick(rng, list("ab ;#'\"{}=\t\\") + list(WIDE)) for _ in range(rng.choices([0, 1, 4, 9], [3, 2, 4, 1])[0]))
        nl = "\n" if rng.random() < 0.95 else pick(rng, ["\r\n", "\n\n", "\n \n", "", "\n\t\n"])
        out.append(ind + ";" + body + nl)
    return "".join(out)


def mutate(rng, s):
    """A small edit of a text"""
    s = list(s)
    for _ in range(rng.randint(1, 2)):
        r = rng.random()
        i = rng.randrange(len(s) + 1)
        if r < 0.35:
            s.insert(i, pick(rng, SOUP))
        elif r < 0.6 and s:
            del s[i % len(s)]
        elif r < 0.75 and s:
            s[i % len(s)] = pick(rng, SOUP)
        elif r < 0.9:
            s = s[:i]
        elif s:
            j = min(len(s), i + rng.randint(1, 6))
            s[i:i] = s[i:j]
    return "".join(s)


def stretch(rng, s):
    """A text with one of its characters repeated many times"""
    i = rng.randrange(len(s))
    c = s[i] if rng.random() < 0.6 else pick(rng, ["é", "€", "日", "\U00010000", "a", "#", " ", "\n", "-"])
    return s[:i] + c * pick(rng, [9, 17, 33, 40, 65, 70, 100, 129, 257, 300]) + s[i:]


def steep(rng, deepest, decl):
    """A document that goes far down and up again, with declarations on the way"""
    out, d, top = [], 0, rng.randint(2, deepest)
    boxes = []
    for _ in range(top * 2):
        d = d + 1 if rng.random() < 0.9 else rng.randint(max(1, d - 3), d + 1) if d else 1
        if d > top:
            d = rng.randint(1, d - 1)
        n = pick(rng, ["a", "b", "p:a", "q:b", "p:c"] if decl else ["a", "b", "c"])
        out.append("#" * d + n)
        if rng.random() < 0.03:
            out[-1] += "{"
            boxes.append((d, "#" * d + n + "}"))
            d = 0
        if decl and rng.random() < 0.15:
            out.append(pick(rng, ["xmlns:p=u", "xmlns:q=v", "xmlns:p=w", "xmlns=x", "xmlns=''", "q:x=1", "p:x=1 y=2"]))
        if rng.random() < 0.1:
            out.append(pick(rng, ["'x'", "r'y'", "\n;c\n", "'' ''"]))
        if boxes and rng.random() < 0.05:
            d, t = boxes.pop()
            d -= 1
            out.append(t)
    head = ["#a xmlns:p=u xmlns:q=v"] if decl else ["#a"]
    # one level further down, below a root that declares what is used
    return " ".join(head + ["#" + x if x.startswith("#") and not boxed else x for x, boxed in inside(out)])


def inside(out):
    """Whether each part is inside a box, where the depth does not change"""
    n = 0
    for x in out:
        if x.endswith("}"):
            n -= 1
        yield x, n > 0
        if x.endswith("{"):
            n += 1


def docs(rng, n, mut=0.2, **o):
    res = []
    for _ in range(n):
        t = Doc(rng, **o).text()
        if rng.random() < mut:
            t = mutate(rng, t)
        res.append(t)
    return res


def exhaustive(alphabet, upto, start=1):
    for n in range(start, upto + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield "".join(t)


def extreme():
    """Documents beyond the sizes that counters of one byte hold"""
    n = 270
    deep = "".join("#" * i + "a " for i in range(1, n))
    yield deep + "#" * (n - 1) + "b{ #c ##d " + "#" * (n - 1) + "b} " + "#" * (n - 2) + "e ## f"
    yield deep + "#" * (n + 1) + "b"
    yield "".join("#a%d{ " % i for i in range(n)) + "#b ##c " + "".join("#a%d} " % i for i in reversed(range(n))) + "#z"
    yield "".join("#a%d{ #b%d ##b{ " % (i, i) for i in range(n))
    yield "#a " + "#" * n + "'x'" + "#" * (n - 1) + " y'" + "#" * n + " 'z'"
    yield "#a " + "#" * 256 + "'x' y'" + "#" * 256 + " 'z'"
    yield "#a " + " ".join("x%d=%d" % (i, i) for i in range(n)) + " 'y'"
    yield "#a " + " ".join("xmlns:x%d=%d" % (i, i) for i in range(n)) + "\n##x0:b\n##x%d:c\n" % (n - 1)
    yield "#a\n" + "".join(";%d\n" % i for i in range(n)) + "'x'"
    yield "#a\n;" + "c" * n + "\n;" + "é" * n + "\n"
    yield "#a " + "'" + "s" * 66000 + "' b=c"
    yield "#a " + "#" * 66000 + "b"
    yield "#a " + "#" * 66000
    yield "#a " + "\n" * 66000 + "'x' \n;y\n '"
    n = 1100
    yield "#a " + " ".join("x%d=%d" % (i, i) for i in range(n)) + " ; c\n'y' z=1"
    yield "#a\n" + "".join(";%d\n" % i for i in range(n)) + "##b"
    yield "#a " + " ".join("xmlns:x%d=%d" % (i, i) for i in range(n)) + "\n##x0:b\n##x%d:c\n" % (n - 1)
    yield "#a " + "##b 'c' " * n + "###d #e} "
    yield "#a{ " + "#b{ 'c' #b} " * n + "#d #a} #e} "
    n = 270
    yield "#a\n" + " " * n + "\n" * n + "'x' \n;y\n '"
    yield "#" + "n" * n + ":" + "m" * n + " " + "k" * n + "=" + "v" * n


def runs(rng, most, width=250):
    """Runs of characters: all of the basic plane and as many of the others"""
    low = [range(a, min(a + width, 0x10000)) for a in range(0, 0x10000, width)]
    high = [range(a, min(a + width, 0x110000)) for a in range(0x10000, 0x110000, width)]
    for r in low + rng.sample(high, min(most, len(high))):
        s = [chr(c) for c in r if not 0xd800 <= c < 0xe000]
        if s:
            rng.shuffle(s)
            yield "".join(s)


def every(rng, places, most):
    """Every character at some places; a place is a text with %s and the characters to leave out there"""
    for i, s in enumerate(runs(rng, most)):
        for place, out in places:
            yield place.replace("%s", "".join(c for c in s if not (c in out or (" " in out and c.isspace()))))


# characters that programs tend to treat specially
SPECIAL = [chr(c) for c in list(range(0x180)) + [0x1680, 0x180e, 0x300, 0x37e, 0x61c, 0xad, 0xd7ff, 0xe000, 0xfb01, 0xfeff, 0xffef]
           + list(range(0x2000, 0x2070)) + list(range(0x3000, 0x3004)) + list(range(0xfdd0, 0xfdd2)) + list(range(0xfff9, 0x10002))
           + [0x1d173, 0x1f600, 0x1fffe, 0xe0001, 0xeffff, 0xf0000, 0x10fffe, 0x10ffff]]


def edges(places):
    """Special characters alone, first, last and doubled; a place is as for every()"""
    for place, out in places:
        for c in SPECIAL:
            if not (c in out or (" " in out and c.isspace())):
                yield place % (c, c + "b", "b" + c, c + c, "b" + c + c + "b")


def some(rng, n):
    """A text of any characters"""
    top = rng.choice([0x80, 0x250, 0x3000, 0xd800, 0x110000])
    return "".join(c for c in (chr(rng.randrange(top)) for _ in range(n)) if not 0xd800 <= ord(c) < 0xe000)


PLACES = ["#%s x", "#a{ #%s} ", "#%s{ #%s}", "#%s:a", "#a %s=1", "#a x=%s", "#a x='%s' y", "#a x=\"%s", "#a '%s'", "#a r#'%s'# '",
          "#a ;%s\n;x\n;%s", "#a '' %s=1", "#a '' p:%s=1", "#a '' %s:p=1", "#a %s:b=c", "#a xmlns:%s=u %s:b=c\n##%s:c", "#a %s",
          "#a '' %s", "#a #%s", "###%s", "#a xmlns=%s b=c\n##d", "#a xmlns:p=%s p:b=c", "%s", "#a x=1%s y=", "#%s}"]


def long(lengths, shifts=(0, 1, 2, 3)):
    """Something long, in characters of every width, at each place"""
    for place in PLACES:
        for c in "aé€\U00010000":
            for n in lengths:
                for k in shifts if c != "a" else (0,):
                    yield place.replace("%s", "a" * k + c * n)
