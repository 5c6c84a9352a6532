"""Errors made by hand and by reading."""
import json, random
from . import core, gen, reader

KINDS = ["io", "iores", "empty", "unmapped", "bad", "tagname", "space", "char", "lexer", "indent", "close", "beyond",
         "attr", "newline", "equals", "eof", "all", "pass", "m-empty", "m-unmapped", "m-bad"]
TEXTS = ["a", "b", "p", "xmlns", "a:b:c", "é", "\U0001f600", "x" * 200, "a b", "{}", "'", "%s", "none", "0"]
CHARS = ["a", "=", "'", "\"", "\n", "\\", " ", "\x00", "é", "€", "\U0001f600", "\U0010ffff", "́", "{", "\t", "\x7f"]
DEPTHS = [0, 1, 2, 9, 10, 11, 99, 100, 255, 256, 65536, 2 ** 31 - 2]
FAULTY = dict(fault=0.2, deep=0.2, prefix=0.2, close=3, attr=4, decl=0.2)


def p26(rep):
    rep.model(core.tlc("MC_Error.tla", "MC_Error.cfg", rep.work))
    exe = core.build("h")
    rng = random.Random("P26-%d" % rep.seed)

    def pos():
        return "".join(rng.choice("ccn") for _ in range(rng.randrange(12))) or "c"
    lines = []
    for i in range(reader.size(rep, 8000, 80000)):
        k = KINDS[i % len(KINDS)]
        n = gen.pick(rng, TEXTS) if rng.random() < 0.8 else gen.some(rng, rng.choice([1, 5, 40, 300])) or "a"
        p = gen.pick(rng, TEXTS + [""] * 8)
        lines.append("\t".join([str(len(lines)), k, core.cps(p), core.cps(n), core.cps(gen.pick(rng, CHARS) if rng.random() < 0.5 else gen.some(rng, 1) or "a"),
                                str(gen.pick(rng, DEPTHS)), pos(), pos()]))
    rep.add("errors_made", len(lines))
    ts = reader.texts(rep, FAULTY, reader.size(rep, 4000, 60000), 0.6, 0.5, [], 0, ["general"])
    texts = sorted({t[0] if isinstance(t, tuple) else t for t in ts})
    lines += ["%d\tread\t%s" % (len(lines) + i, core.cps(t)) for i, t in enumerate(texts)]
    recs = core.run_harness(exe, "err", lines, rep.work)
    seen = {}
    for r in recs:
        d = json.loads(r)
        if d.get("kind") == "read":
            k = d["er"][0]["e"] if d["er"] else "none"
            seen[k] = seen.get(k, 0) + 1
    rep.cov["errors_of_readings"] = dict(sorted(seen.items()))
    rep.samples += lines[:3]
    reader.judge(rep, recs, "Trace_Error.tla", "Trace_Error.cfg", lines, lambda l: {"mode": "err", "line": l})


CHECKS = {"P26": p26}
