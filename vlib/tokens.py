"""The lexer alone: texts in, tokens out."""
import json, random
from . import core, gen, reader

PROFILE = dict(attr=4, string=3, comment=2, tag=4, box=2, close=2, blank=1, prefix=0.2, fault=0.03, spaces=4)


def p25(rep):
    for a in ("tags", "attributes", "mixed"):
        rep.model(core.tlc("MC_Tokens.tla", "MC_Tokens_%s_%s.cfg" % (a, rep.tier), rep.work, timeout=3000))
    rng = random.Random("P25-%d" % rep.seed)
    ts = reader.texts(rep, PROFILE, reader.size(rep, 6000, 60000), 0.3, 0.3, [], 0,
                      ["general", "strings", "comments", "tags", "attributes"])
    # what follows a token does not depend on what came before it
    for t in gen.docs(rng, reader.size(rep, 20, 300), 0.0, **dict(PROFILE, fault=0.0)):
        ts += [t[i:] for i in range(1, len(t))]
    exe = core.build("t")
    texts = sorted({t[0] if isinstance(t, tuple) else t for t in ts})
    cases = [{"text": t, "line": "%d\t%s" % (i, core.cps(t))} for i, t in enumerate(texts)]
    recs = core.run_harness(exe, "tok", [c["line"] for c in cases], rep.work)
    kinds = {}
    for r in recs:
        for t in json.loads(r).get("toks", []):
            kinds[t["k"]] = kinds.get(t["k"], 0) + 1
    rep.cov["recorded_tokens"] = dict(sorted(kinds.items()))
    for c in cases[::max(1, len(cases) // 3)][:3]:
        rep.samples.append({"text": c["text"][:200]})
    reader.judge(rep, recs, "Trace_Tokens.tla", "Trace_Tokens.cfg", cases,
                 lambda c: {"mode": "tok", "text": c["text"], "line": c["line"]})


CHECKS = {"P25": p25}
