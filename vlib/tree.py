"""Different ways to write one tree."""
import json, random
from . import core, gen, reader

NAMES = ["a", "b", "c", "r", "rr", "x-y", "é", "a·", "日本", "xml", "_", "A9"]
PREF = ["p", "q", "r"]
URIS = ["u", "v", "http://x/y", "w#1"]


def body(rng, chars, n):
    if n > 4 and rng.random() < 0.1:
        # any characters, except where lines may not be broken
        return "".join(c for c in gen.some(rng, n) if "\n" in chars or c != "\n")
    return "".join(gen.pick(rng, chars) for _ in range(n))


TEXT = list("ab '\"#\\;{}=:\n\t&<") + ["'#", "\"#", "é", "€", "\U0001f600", "'##", "r'", "#a ", "\r"]
VALUE = list("ab '\"#\\;{}=:&<\t") + ["é", "€", "\U0001f600", "'#", " "]
LINE = list("ab ;#'\"{}=\t\\") + ["é", "€", "\U0001f600", " "]


def value(rng):
    """An attribute value that can be written: on one line, and unquoted if it contains both quotes"""
    while True:
        v = body(rng, VALUE, rng.choice([0, 1, 1, 2, 3, 5, 8]) if rng.random() < 0.99 else rng.choice([40, 300]))
        if ways(v):
            return v


def ways(v):
    """The ways to write a value"""
    res = [q + v + q for q in "'\"" if q not in v]
    if v and v[0] not in "'\"" and not any(c.isspace() for c in v):
        res.append(v)
    return res


class Tree:
    def __init__(self, rng, budget, xmlns):
        self.rng, self.budget, self.xmlns = rng, budget, xmlns

    def comment(self):
        rng = self.rng
        return {"k": "c", "d": [body(rng, LINE, rng.choice([0, 1, 4, 9]) if rng.random() < 0.98 else rng.choice([40, 300])) for _ in range(rng.choice([1, 1, 1, 2, 3]))]}

    def text(self):
        rng = self.rng
        return {"k": "t", "raw": rng.random() < 0.4, "d": body(rng, TEXT, rng.choice([0, 1, 2, 4, 8, 20]) if rng.random() < 0.98 else rng.choice([70, 300]))}

    def element(self, scope, depth):
        rng = self.rng
        scope = set(scope)
        at = []
        if self.xmlns:
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                if rng.random() < 0.3:
                    at.append(["", "xmlns", gen.pick(rng, URIS)])
                else:
                    p = gen.pick(rng, PREF)
                    at.append(["xmlns", p, gen.pick(rng, URIS)])
                    scope.add(p)
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            p = gen.pick(rng, sorted(scope)) if scope and rng.random() < 0.3 else ""
            at.append([p, gen.pick(rng, NAMES), value(rng)])
        rng.shuffle(at)
        ch = []
        while self.budget > 0 and rng.random() < (0.8 if depth < 6 else 0.3):
            self.budget -= 1
            r = rng.random()
            ch.append(self.element(scope, depth + 1) if r < 0.55 else self.text() if r < 0.85 else self.comment())
        p = gen.pick(rng, sorted(scope)) if scope and rng.random() < 0.35 else ""
        return {"k": "e", "p": p, "n": gen.pick(rng, NAMES), "at": at, "ch": ch}

    def doc(self):
        rng = self.rng
        res = [self.comment() for _ in range(rng.choice([0, 0, 1, 2]))]
        res.append(self.element((), 1))
        res += [self.comment() for _ in range(rng.choice([0, 0, 0, 1]))]
        return res


class Writer:
    """Writes a tree, choosing at random or, plainly, the same way throughout"""

    def __init__(self, rng, box, plain=False):
        self.rng, self.box, self.plain = rng, box, plain
        self.out = []
        self.last = ""

    def space(self):
        rng = self.rng
        if self.plain:
            return " "
        return "".join(gen.pick(rng, gen.SPACES) for _ in range(rng.choice([1, 1, 1, 2, 3])))

    def put(self, kind, s):
        """Whitespace as needed, then a construct"""
        optional = self.last in ("", "c") or (self.last == "t" and kind in ("t", "c")) or \
            (kind == "c" and self.last == "q")
        if self.last == "c" and kind == "c":
            # comments on neighbouring lines would be one
            self.out.append("\n" + (self.space() if self.rng.random() < 0.5 else ""))
        elif not optional or (not self.plain and self.rng.random() < 0.5):
            self.out.append(self.space())
        self.out.append(s)
        self.last = kind

    def string(self, x):
        rng, d = self.rng, x["d"]
        q = gen.pick(rng, "'\"")
        if self.plain:
            q = "'"
        h = 0
        if q in d or "\n" in d:
            h = 1
            while q + "#" * h in d:
                h += 1
        if not self.plain:
            h += rng.choice([0, 0, 0, 1, 2, 4])
        return ("r" if x["raw"] else "") + "#" * h + q + d + q + "#" * h

    def node(self, x, depth, must):
        rng = self.rng
        if x["k"] == "t":
            return self.put("t", self.string(x))
        if x["k"] == "c":
            s = ""
            for i, l in enumerate(x["d"]):
                ind = "" if self.plain or i == 0 else gen.pick(rng, ["", " ", "\t", "   "])
                s += ind + ";" + l + "\n"
            return self.put("c", s)
        box = must or rng.random() < self.box
        tag = "#" * depth + (x["p"] + ":" if x["p"] else "") + x["n"]
        self.put("o", tag + ("{" if box else ""))
        for p, n, v in x["at"]:
            w = ways(v)
            w = w[0] if self.plain else gen.pick(rng, w)
            self.put("q" if w[:1] in ("'", '"') else "a", (p + ":" if p else "") + n + "=" + w)
        self.nodes(x["ch"], 1 if box else depth + 1)
        if box:
            self.put("o", tag + "}")

    def nodes(self, xs, depth):
        for i, x in enumerate(xs):
            self.node(x, depth, i + 1 < len(xs) and xs[i + 1]["k"] != "e")

    def text(self, xs):
        self.nodes(xs, 1)
        if self.last != "" and not self.plain and self.rng.random() < 0.5:
            self.out.append(self.space())
        return "".join(self.out)


def chain(rng, n):
    """A tree that is deep and narrow"""
    x = {"k": "e", "p": "", "n": "a", "at": [], "ch": []}
    for i in range(n):
        e = lambda: {"k": "e", "p": "", "n": gen.pick(rng, NAMES), "at": [], "ch": []}
        x = dict(e(), ch=[e() for _ in range(rng.choice([0, 0, 1]))] + [x] + [e() for _ in range(rng.choice([0, 0, 1, 2]))])
    return [x]


def wire(x):
    """A tree with code points for texts"""
    if isinstance(x, str):
        return [ord(c) for c in x]
    if isinstance(x, list):
        return [wire(y) for y in x]
    return {k: (v if k in ("k", "raw") else wire(v)) for k, v in x.items()}


def p13(rep):
    for a in ("plain", "scopes"):
        rep.model(core.tlc("MC_Tree.tla", "MC_Tree_%s_%s.cfg" % (a, rep.tier), rep.work, timeout=3000, heap="8g"))
    rng = random.Random("P13-%d" % rep.seed)
    exe = core.build("h")
    trees, lines = [], []
    for i in range(reader.size(rep, 2500, 25000)):
        xmlns = 1 if rng.random() < 0.8 else 0
        t = Tree(rng, rng.choice([1, 3, 6, 12, 30]) if i % 50 else 150, xmlns).doc() if i % 250 else chain(rng, rng.choice([30, 50, 70]))
        ws = [Writer(rng, 0, True), Writer(rng, 1), Writer(rng, 0), Writer(rng, 0.5), Writer(rng, 0.3)]
        texts = [w.text(t) for w in ws]
        c = {"tree": t, "text": texts, "line": []}
        for x in texts:
            c["line"].append(reader.case_line(len(lines), x, xmlns=xmlns))
            lines.append(c["line"][-1])
        trees.append(c)
    recs = core.run_harness(exe, "read", lines, rep.work)
    by = {json.loads(r)["id"]: r for r in recs}
    grouped, k = [], 0
    for i, c in enumerate(trees):
        runs = [by.get(k + j) for j in range(len(c["line"]))]
        k += len(runs)
        if None not in runs:
            grouped.append('{"id":%d,"tree":%s,"runs":[%s]}' % (i, json.dumps(wire(c["tree"])), ",".join(runs)))
    rep.add("trees", len(grouped))
    rep.add("renderings", sum(len(c["line"]) for c in trees))
    for i in (0, len(trees) // 2):
        rep.samples.append({"texts": [t[:160] for t in trees[i]["text"][:3]]})
    reader.count_events(rep, recs)
    reader.judge(rep, grouped, "Trace_Tree.tla", "Trace_Tree.cfg", trees, reader.describe)


CHECKS = {"P13": p13}
