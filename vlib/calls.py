"""Properties of the tables of names and of the namespace stack: histories of calls."""
import json, random
from . import core, gen, reader

STRS = ["", "a", "b", "c", "p", "q", "u", "v", "xml", "xmlns", "A", "a ", " ", "é", "e\u0301", "\U0001f600", "aa", "ab",
        "http://x/y", "http://x/y/", "http://www.w3.org/2000/xmlns/", "http://www.w3.org/XML/1998/namespace", "a-b", "0"]
# texts that differ only far inside
LONG = [c * n + e for c in "xé" for n in (15, 31, 63, 254, 300) for e in ("", "a", "b")] + ["a" + "x" * 300, "b" + "x" * 300]
LOCALS = ["a", "b", "", "c", "é", "x.y", "xmlns", "xml", "a b", "\U0001f600", "n1"]
PRE = ["p", "q", "", "xml", "xmlns", "r", "é"]
URI = ["u", "v", "", "http://x/y", "w"]
TEXTS = ["a", "p:a", "q:b", ":a", "p:", ":", "", "::", "p:a:b", "p::a", "a:b:", ":a:", "p:a:", "é:é", "p :a", "xml:a", "r:x",
         "xmlns:p", "\U0001f600", "::a", "p:q:r:s"]


def op(name, *args):
    return ",".join([name] + [core.cps(a) for a in args])


class History:
    """A random history of calls that the interface allows"""

    def __init__(self, rng, xmlns, weights):
        self.rng, self.w = rng, weights
        self.xmlns = xmlns
        self.out = []
        self.extra = ["x%d" % rng.randrange(1000) for _ in range(3)]
        # one history in eight has long texts
        self.long = rng.sample(LONG, 6) if rng.random() < 0.125 else []

    def s(self):
        r = self.rng
        if self.long and r.random() < 0.5:
            return gen.pick(r, self.long)
        return gen.pick(r, STRS) if r.random() < 0.7 else gen.pick(r, self.extra) + str(r.randrange(4))

    def pre(self):
        return gen.pick(self.rng, PRE) if self.rng.random() < (0.5 if self.long else 0.93) else self.s()

    def uri(self):
        return gen.pick(self.rng, URI) if self.rng.random() < (0.5 if self.long else 0.9) else self.s()

    def local(self):
        return gen.pick(self.rng, LOCALS) if self.rng.random() < (0.5 if self.long else 0.85) else self.s()

    def attr(self):
        p, n = self.pre(), self.local()
        # whether a refused attribute still declares something is left open
        return (p, n or "a") if p == "xmlns" else (p, n)

    def text(self):
        r = self.rng
        if r.random() < 0.5:
            return gen.pick(r, TEXTS)
        if r.random() < 0.7:
            return self.pre() + ":" + self.local()
        return "".join(gen.pick(r, ["a", ":", "p", "q", "é", "b"]) for _ in range(r.randint(0, 5)))

    def stack_part(self, n):
        r, out = self.rng, self.out
        out.append("stack")
        depth, ids = 0, False
        kinds, weights = zip(*self.w.items())
        for _ in range(n):
            k = r.choices(kinds, weights)[0]
            if k == "pop":
                # now and then the first frame as well
                if depth < 0 or (depth == 0 and r.random() > 0.1):
                    continue
                depth -= 1
            elif k == "push":
                if depth > 30:
                    continue
                depth += 1
            elif depth < 0 and k in ("null", "xml", "add", "addif", "byid", "byidif", "top", "attr", "attrs"):
                # these need a frame
                continue
            if k in ("push", "pop", "null", "xml", "iter", "top", "strs"):
                out.append(k)
            elif k in ("add", "addif"):
                out.append(op(k, self.pre(), self.uri()))
                ids = True
            elif k in ("byid", "byidif"):
                if ids:
                    out.append("%s,%d,%d" % (k, r.randrange(50), r.randrange(50)))
            elif k == "find":
                out.append(op(k, self.pre() if r.random() < 0.8 else self.s()))
            elif k == "name":
                out.append(op(k, self.s()))
            elif k in ("new", "tag"):
                out.append(op(k, self.pre(), self.local()))
            elif k == "local":
                out.append(op(k, self.local()))
            elif k == "str":
                out.append(op(k, self.text()))
            elif k == "attr":
                out.append(op(k, *self.attr(), self.s()))
            elif k == "attrs":
                out.append(op(k, *self.attr(), self.s(), self.s()))
        out.append("strs")
        out.append("iter")
        if depth >= 0:
            out.append("top")
        out.append("drop")

    def table_part(self, n):
        r = self.rng
        for _ in range(n):
            k = gen.pick(r, ["findn", "findp", "findu", "findn", "findp", "findu", "addmap", "dflt", "xmlns", "doc"])
            if k == "addmap":
                self.out.append(op(k, self.s(), self.s()))
            elif k == "doc":
                names, text = [], ""
                for i in range(r.randint(1, 4)):
                    p, u, t = gen.pick(r, ["p", "q", "x"]), gen.pick(r, ["u", "v", "w"]), gen.pick(r, ["a", "b", "c", "é"])
                    names += [p, u, t]
                    text += "#" * r.randint(1, 2) + t + " " if r.random() < 0.4 else "#%s:%s xmlns:%s='%s' %s:b='c' " % (p, t, p, u, p)
                self.out.append(op(k, text, "b", "", "xmlns", "xml", *names))
            elif k == "xmlns":
                self.out.append(k)
            else:
                self.out.append(op(k, self.s() if r.random() < 0.7 else gen.pick(r, PRE + URI + LOCALS)))

    def line(self, i):
        return "\t".join([str(i), str(self.xmlns), "|".join(self.out)])


IDS = dict(push=2, pop=1.5, null=0.2, xml=0.3, add=6, addif=2, byid=1, byidif=1, find=4, name=8, new=5, tag=1, local=3,
           str=3, attr=2, attrs=0.5, strs=3)
FRAMES = dict(push=4, pop=3.5, null=0.6, xml=0.8, add=6, addif=4, byid=2, byidif=2, find=6, iter=4, top=3, name=0.3, new=0.3)
NAMES = dict(push=2, pop=1.5, null=0.4, xml=0.3, add=4, addif=0.5, byid=0.5, byidif=0.2, find=0.2, name=0.2, new=8, tag=4,
             local=4, str=12, attr=4, attrs=3)

PROBE = [op("find", p) for p in ["p", "q", "", "xml", "xmlns"]] + ["iter", "top"]


def model_histories(rep, limit, rng):
    """Histories from the specification, each with everything observed after every call"""
    t = core.tlc("MC_Calls.tla", "MC_Calls_%s.cfg" % rep.tier, rep.work, timeout=3000, heap="8g")
    rep.model(t)
    got = sorted(s[5:] for s in t.lines if s.startswith("CASE "))
    if len(got) > limit:
        got = rng.sample(got, limit)
    res = []
    for s in got:
        out = ["stack"] + PROBE
        frames = 1
        for o in json.loads(s):
            out.append(op(o["op"], *["".join(map(chr, a)) for a in o["a"]]))
            frames += {"push": 1, "pop": -1}.get(o["op"], 0)
            out += PROBE if frames else PROBE[:-1]
        res.append("|".join(out))
    rep.add("model_derived_histories", len(res))
    return res


def very_many(rep, cases):
    """More texts than two bytes can number; looking them up may well be slow, which is not judged here"""
    first = len(cases)
    for size in (300, 66000):
        for out in (["stack", op("name", "n"), op("manyn", "n", str(size)), "strs", "drop", op("findn", "n")],
                    [op("addmap", "n", "n"), op("manyp", "n", str(size)), op("findp", "n"), op("findu", "n")],
                    [op("addmap", "n", "n"), op("manyu", "n", str(size)), op("findp", "n"), op("findu", "n")]):
            cases.append({"line": "%d\t0\t%s" % (len(cases), "|".join(out))})
    recs = core.run_harness(core.build("o"), "names", [c["line"] for c in cases[first:]], rep.work, seconds=150)
    kept = [r for r in recs if json.loads(r).get("fatal") != "hang"]
    rep.cov["histories_of_very_many_texts"] = len(kept)
    return kept


def calls_check(weights, cfg, steps, many=False, deep=False):
    def check(rep):
        rng = random.Random("%s-%d" % (rep.prop, rep.seed))
        cases = []
        for o in model_histories(rep, reader.size(rep, 6000, 30000), rng):
            cases.append({"line": "%d\t1\t%s" % (len(cases), o)})
        n = reader.size(rep, 4000, 40000)
        for k in range(n):
            h = History(rng, 1 if rng.random() < 0.7 else 0, weights)
            for _ in range(rng.randint(1, 3)):
                if rng.random() < 0.5:
                    h.table_part(rng.randint(0, 6))
                h.stack_part(rng.randint(1, steps))
            h.table_part(rng.randint(0, 8))
            cases.append({"line": h.line(len(cases))})
        if deep:
            # more frames than a call could be nested
            for size in (1, 100, 60000):
                out = ["stack", op("add", "q", "w"), op("deep", "p", "u", str(size))] + PROBE
                out += ["push", op("add", "p", "v"), op("deep", "", "u", str(size))] + PROBE + ["pop"] + PROBE
                cases.append({"line": "%d\t%d\t%s" % (len(cases), size % 2, "|".join(out))})
        if many:
            rep.model(core.tlc("MC_Table.tla", "MC_Table_%s.cfg" % rep.tier, rep.work, timeout=3000))
            # many different texts: tables that have to grow
            for size in (10, 100, reader.size(rep, 600, 3000)):
                for k in range(3):
                    out = ["stack"]
                    for i in range(size):
                        out.append(op("name", "n%d" % i))
                        out.append(op("add", "p%d" % i, "u%d" % i))
                    out.append("strs")
                    for i in rng.sample(range(size), min(size, 30)):
                        out += [op("name", "n%d" % i), op("find", "p%d" % i), op("new", "p%d" % i, "n%d" % i)]
                    out += ["strs", "drop"]
                    for i in rng.sample(range(size), min(size, 20)):
                        out += [op("findn", "n%d" % i), op("findp", "p%d" % i), op("findu", "u%d" % i), op("findn", "p%d" % i),
                                op("findu", "n%d" % i)]
                    cases.append({"line": "%d\t%d\t%s" % (len(cases), k % 2, "|".join(out))})
        rep.add("generated_histories", len(cases) - rep.cov["model_derived_histories"])
        for i in (0, len(cases) // 2, len(cases) - 1):
            rep.samples.append(cases[i]["line"][:300])
        exe = core.build("h")
        recs = core.run_harness(exe, "names", [c["line"] for c in cases], rep.work)
        if many:
            recs += very_many(rep, cases)
        ops = {}
        for r in recs:
            for o in json.loads(r).get("ops", []):
                ops[o["op"]] = ops.get(o["op"], 0) + 1
        rep.cov["recorded_calls"] = dict(sorted(ops.items()))
        reader.judge(rep, recs, "Trace_Calls.tla", cfg, cases, lambda c: {"mode": "names", "line": c["line"]})
    return check


CHECKS = {
    "P15": calls_check(IDS, "Trace_Calls_P15.cfg", 40, many=True),
    "P16": calls_check(FRAMES, "Trace_Calls_P16.cfg", 40, deep=True),
    "P17": calls_check(NAMES, "Trace_Calls_P17.cfg", 25),
}
