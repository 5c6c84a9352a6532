"""Reading from sources of the client's own: several texts, errors, ends."""
import json, random
from . import core, gen, reader

PROFILE = dict(attr=3, decl=0.6, string=3, comment=2, tag=5, box=2, close=2, prefix=0.1, fault=0.01, deep=0.01)
# Alphabet of MC_Source
ALPHABET = ["#a ", "##b{ ", "##b} ", "x=1 ", "xmlns:q=u ", "'t' ", "; c\n", "##q:c "]
BLANK, FAULT, STOP = 0, 100, 200
KINDS = ["io", "empty", "unmapped", "bad", "tagname", "space", "char", "indent", "close", "beyond", "attr", "newline",
         "equals", "eof"]
NAMES = ["", "a", "p", "xmlns", "é", "a b"]


def text(t, blank="k"):
    return "T%s,%s" % (blank, core.cps(t))


def fault(rng):
    return "E%s,%s,%s,%s,%d" % (gen.pick(rng, KINDS), core.cps(gen.pick(rng, NAMES)), core.cps(gen.pick(rng, NAMES[1:])),
                                core.cps(gen.pick(rng, "a=\n€")), gen.pick(rng, [0, 1, 7]))


def pieces(rng, t):
    """A text in parts, most of which begin where a token does"""
    cuts = [i for i in range(1, len(t)) if t[i - 1] in " \n" and t[i] not in " \n"]
    some = set(rng.sample(cuts, min(len(cuts), rng.choice([0, 1, 2, 5, len(cuts)]))))
    res, last = [], 0
    for i in sorted(some):
        res.append(t[last:i])
        last = i
    return res + [t[last:]]


def source(rng, ts):
    """A source of some texts"""
    items = []
    blank = rng.choice("kkdt")
    errors = rng.choice([0, 0, 0.1, 0.3, 0.6])
    for t in ts:
        for p in pieces(rng, t):
            while rng.random() < errors:
                items.append(fault(rng))
            items.append(text(p, blank if rng.random() < 0.8 else rng.choice("kdt")))
            if rng.random() < 0.01:
                items.append("N")
    while rng.random() < errors:
        items.append(fault(rng))
    if rng.random() < 0.3:
        items += ["N"] + [fault(rng) if rng.random() < 0.3 else text(gen.pick(rng, ALPHABET)) for _ in range(3)]
    return "|".join(items) or "N"


def p27(rep):
    t = core.tlc("MC_Source.tla", "MC_Source_%s.cfg" % rep.tier, rep.work, timeout=3000, heap="8g")
    rep.model(t)
    rng = random.Random("P27-%d" % rep.seed)
    hists = sorted(json.loads(s[5:]) for s in t.lines if s.startswith("CASE "))
    hists = rng.sample(hists, min(len(hists), reader.size(rep, 8000, 60000)))
    rep.add("model_derived_inputs", len(hists))
    cases = []
    for h in hists:
        cases.append((1, "|".join(text(" ") if i == BLANK else fault(rng) if i == FAULT else "N" if i == STOP
                                  else text(ALPHABET[i - 1], "d") for i in h)))
    n = reader.size(rep, 6000, 60000)
    docs = list(gen.docs(rng, n, 0.05, **PROFILE))
    for d in docs:
        ts = [d] if rng.random() < 0.6 else [d] + [gen.pick(rng, docs) for _ in range(rng.choice([1, 1, 2, 4]))]
        cases.append((1 if rng.random() < 0.85 else 0, source(rng, ts)))
    # an error before every token of some documents, and the end there
    for d in docs[::max(1, n // reader.size(rep, 150, 1500))]:
        ps = [p for p in d.split(" ") if p]
        for i in range(len(ps)):
            a, b = text(" ".join(ps[:i]) + " "), text(" ".join(ps[i:]))
            cases += [(1, a + "|" + fault(rng) + "|" + b), (1, a + "|N|" + b)]
    rep.add("generated_inputs", len(cases) - len(hists))
    lines = ["%d\t%d\t%s" % (i, x, c) for i, (x, c) in enumerate(cases)]
    recs = core.run_harness(core.build("t"), "src", lines, rep.work)
    given = {}
    for r in recs:
        for x in json.loads(r).get("src", []):
            k = x["k"] if x["k"] != "er" else "er:" + x["e"]
            given[k] = given.get(k, 0) + 1
    rep.cov["items_given"] = dict(sorted(given.items()))
    reader.count_events(rep, recs)
    rep.samples += lines[len(lines) // 3::len(lines) // 3][:3]
    reader.judge(rep, recs, "Trace_Source.tla", "Trace_Source.cfg", lines, lambda l: {"mode": "src", "line": l})


CHECKS = {"P27": p27}
