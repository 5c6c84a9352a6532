"""Conversion to XML events, and events made by hand."""
import json, random
from . import core, gen, reader

NAMES = ["a", "b", "xml", "é", "x-y", "\U00010000", "n1"]
PREF = ["", "", "p", "q", "xml", "é"]
URIS = ["", "u", "v", "http://x/y", "é"]
DATA = ["", "a", "\n", " \t\n", "<&>'\"", "]]>", "--", "a\nb\n\nc", "é€\U0001f600", "\x00", "?>", "a" * 300]
KINDS = ["sd", "ed", "se", "ee", "cm", "cr", "ci", "cw", "pi"]
VERSIONS = [100, 110, 100, 110, 0, 1, 99, 101, 109, 111, 10, 11, 200, 1000, 2 ** 31, 2 ** 63 - 1]


def mk_line(rng, i, kind):
    def pos():
        return "".join(rng.choice("ccn") for _ in range(rng.randrange(12))) or "c"
    def data():
        return gen.pick(rng, DATA) if rng.random() < 0.8 else gen.some(rng, rng.choice([1, 5, 40, 300]))
    attrs = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 8]) if rng.random() < 0.98 else rng.choice([20, 70, 300])):
        attrs.append(",".join(core.cps(x) for x in
                              (gen.pick(rng, PREF), gen.pick(rng, URIS), gen.pick(rng, NAMES), data())))
    return "\t".join([str(i), kind, str(gen.pick(rng, VERSIONS) % (2 ** 31 - 1)), core.cps(gen.pick(rng, PREF)), core.cps(gen.pick(rng, URIS)),
                      core.cps(gen.pick(rng, NAMES)), core.cps(data()), str(rng.randrange(2)),
                      ";".join(attrs) or "-", pos(), pos()])


def made(rep, n):
    """Events of every kind made by hand"""
    rng = random.Random("%s-made-%d" % (rep.prop, rep.seed))
    lines = [mk_line(rng, i, KINDS[i % len(KINDS)]) for i in range(n)]
    rep.add("events_made", len(lines))
    return lines


def p21(rep):
    rep.model(core.tlc("MC_Xml.tla", "MC_Xml_%s.cfg" % rep.tier, rep.work))
    exe = core.build("h")
    ts = reader.texts(rep, dict(reader.SCOPES, attr=4, string=2, comment=2, fault=0.003), reader.size(rep, 3000, 40000), 0.05, 0.02,
                      ["mixed"], reader.size(rep, 2000, 20000), [],
                      [("#a x='%s' '%s' ;%s\n", "'\n")])
    rng = random.Random("P21-v-%d" % rep.seed)
    cases, seen = [], set()
    for t in ts:
        text, ns, given = (t + ((),))[:3] if isinstance(t, tuple) else (t, 1, ())
        if (text, ns, given) not in seen and "xmlns:xmlns" not in text:
            seen.add((text, ns, given))
            v = rng.choice([100, 110]) if rng.random() < 0.9 else gen.pick(rng, VERSIONS) % (2 ** 31 - 1)
            cases.append({"text": text, "line": reader.case_line(len(cases), text, xmlns=ns, ver=v, post=0, given=given)})
    recs = core.run_harness(exe, "xml", [c["line"] for c in cases], rep.work)
    reader.sample(rep, cases, recs)
    reader.count_events(rep, recs)
    reader.judge(rep, recs, "Trace_Xml.tla", "Trace_Xml_P21.cfg", cases,
                 lambda c: {"mode": "xml", "text": c["text"], "line": c["line"]})
    lines = made(rep, reader.size(rep, 3000, 30000))
    recs = core.run_harness(exe, "mk", lines, rep.work)
    reader.judge(rep, recs, "Trace_Xml.tla", "Trace_Xml_P21.cfg", lines, lambda l: {"mode": "mk", "line": l})


def p24(rep):
    rep.model(core.tlc("MC_Event.tla", "MC_Event.cfg", rep.work))
    exe = core.build("h")
    lines = made(rep, reader.size(rep, 9000, 90000))
    rep.samples += lines[:3]
    recs = core.run_harness(exe, "mk", lines, rep.work)
    reader.judge(rep, recs, "Trace_Xml.tla", "Trace_Xml_P24.cfg", lines, lambda l: {"mode": "mk", "line": l})


CHECKS = {"P21": p21, "P24": p24}
