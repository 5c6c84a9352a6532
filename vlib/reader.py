"""Properties of the reader: texts in, recorded events judged by the specification."""
import json, os, random, re
from . import core, gen

QUICK = "quick"


def case_line(i, text, lexer="lc", xmlns=1, ver=100, post=2, probes=None, given=(), listed=False):
    """given: frames of mappings (prefix, URI) that there are before reading"""
    pr = "-" if probes is None else "+" * listed + ";".join(core.cps(p) for p in probes)
    gv = "|".join(";".join(core.cps(p) + "," + core.cps(u) for p, u in f) for f in given)
    return "\t".join([str(i), lexer, str(xmlns), str(ver), str(post), pr, core.cps(text), gv])


# ClientMaps of MC_Parser
CLIENT_MAPS = ((('p', 't'), ('', 'd')),)


def model_inputs(rep, alphas, limit, rng):
    """Check the reader's specification and take one text per transition"""
    res = []
    for a in alphas:
        t = core.tlc("MC_Parser.tla", "MC_Parser_%s_%s.cfg" % (a, rep.tier), rep.work, timeout=3000, heap="8g")
        rep.model(t)
        got = []
        for s in t.lines:
            if s.startswith("CASE "):
                d = json.loads(s[5:])
                got.append(("".join(map(chr, d["t"])), 1 if d["x"] else 0, CLIENT_MAPS if d["m"] else ()))
        got.sort()
        rep.add("model_derived_inputs", min(len(got), limit))
        if len(got) > limit:
            got = rng.sample(got, limit)
        res += got
    return res


def model_texts(rep, alphas):
    """Check what the specification says of all short texts"""
    for a in alphas:
        rep.model(core.tlc("MC_Text.tla", "MC_Text_%s_%s.cfg" % (a, rep.tier), rep.work, timeout=3000, heap="8g"))


def chunks(recs, most=60000, size=60 << 20):
    """Records in groups that fit into the memory of one run"""
    part, n = [], 0
    for r in recs:
        if part and (len(part) == most or n + len(r) > size):
            yield part
            part, n = [], 0
        part.append(r)
        n += len(r)
    if part:
        yield part


def judge(rep, recs, module, cfg, cases, describe, heap="8g"):
    """Validate records (JSON texts) with a Trace_ module"""
    path = os.path.join(rep.work, "cases.ndjson")
    bad, dev = [], []
    for part in chunks(recs):
        with open(path, "w") as f:
            f.write("\n".join(part) + "\n")
        t = core.tlc(module, cfg, rep.work, env={"CASES": path}, timeout=3000, heap=heap)
        if t.initial != len(part):
            raise core.ToolError("%d cases but %d behaviours" % (len(part), t.initial))
        rep.add("trace_states", t.states)
        bad += t.bad
        dev += t.dev
        rep.traces += len(part) - len({b["id"] for b in t.bad})
    os.remove(path)
    for b in sorted(bad, key=lambda b: b["id"]):
        rep.violations.append(dict(describe(cases[b["id"]]), mismatch=b))
    return dev


def describe(c):
    return {"mode": "read", "text": c["text"], "line": c["line"]}


def make_cases(texts, **kw):
    """texts: (text, xmlns, mappings) or (text, xmlns) or texts, without repetitions"""
    cases, seen = [], set()
    for t in texts:
        text, ns, given = (t + ((),))[:3] if isinstance(t, tuple) else (t, 1, ())
        if (text, ns, given) in seen:
            continue
        seen.add((text, ns, given))
        i = len(cases)
        cases.append({"text": text, "line": case_line(i, text, xmlns=ns, given=given, **kw)})
    return cases


def sample(rep, cases, recs, n=3):
    step = max(1, len(cases) // n)
    for i in range(step // 2, len(cases), step)[:n]:
        try:
            r = json.loads(recs[i])
            rep.samples.append({"text": cases[i]["text"][:200], "events": [e["k"] for e in r.get("evs", [])][:40]})
        except (IndexError, ValueError):
            pass


def count_events(rep, recs):
    """What the recorded events contain; measured, to show what was exercised"""
    n = {}
    for r in recs:
        for e in json.loads(r).get("evs", []):
            k = e["k"] if e["k"] != "er" else "er:" + e["e"]
            n[k] = n.get(k, 0) + 1
    rep.cov["recorded_events"] = dict(sorted(n.items()))


def run(rep, texts, module, cfg, mode="read", **kw):
    exe = core.build("h")
    cases = make_cases(texts, **kw)
    recs = core.run_harness(exe, mode, [c["line"] for c in cases], rep.work)
    sample(rep, cases, recs)
    count_events(rep, recs)
    return judge(rep, recs, module, cfg, cases, describe)


# ------------------------------------------------------------ what is generated
STRUCT = dict(attr=1, decl=0.2, string=1, comment=1, tag=8, box=1.5, close=2, deep=0.03, fault=0.01)
BOXES = dict(attr=0.5, string=1, comment=0.5, tag=4, box=5, close=5, deep=0.02, fault=0.02, names=gen.PLAIN,
             decl=0.7, prefix=0.2, near=0.15)
SCOPES = dict(attr=2, decl=3, string=0.5, comment=0.5, tag=5, box=2, close=2, prefix=0.4, fault=0.005, deep=0.01,
              names=gen.PLAIN + ["xmlns", "xml"], items=14)
ATTRS = dict(attr=10, decl=1, string=1, comment=1, tag=4, box=1, prefix=0.1, fault=0.03)
STRINGS = dict(string=12, attr=1, tag=3, box=1, comment=1, fault=0.02, deep=0.01)
COMMENTS = dict(comment=10, tag=4, string=1, attr=1, blank=3, fault=0.01, deep=0.01)
FAULTS = dict(fault=0.15, deep=0.1, prefix=0.1)
POSITIONS = dict(comment=3, string=4, blank=2, spaces=5, prefix=0.05, decl=0.3)

# mappings the client may have made before reading
GIVEN = [((("p", "t"),),), ((("p", "t"), ("q", "s"), ("r", "t")),), ((("", "d"),),), ((("p", "t"),), (("p", "s"),)),
         ((), (("q", "t"), ("", "d"))), ((("p", ""),),), ((("xmlns", "x"),),), ((("p", "t"),), (("q", "t"),), ()),
         ((("xml", "y"), ("zz", "z")),)]

SMALL = list("#a'{}=:;\n r") + ["\u00e9"]
# alphabets of texts that are all tried: (characters, length in quick and thorough)
ALPHABETS = {
    "general": (SMALL, 3, 4),
    "strings": (list("#r'\"\na") + ["\u20ac"], 5, 6),
    "comments": (list(";\n a\t") + ["\u00e9"], 5, 6),
    "tags": (list("#ab{} "), 5, 6),
    "attributes": (list("a:='\"\n "), 5, 6),
}


def texts(rep, profile, n, mut=0.2, soup=0.1, alphas=(), per_alpha=4000, exhaust=(), places=(), edges=()):
    rng = random.Random("%s-%d" % (rep.prop, rep.seed))
    res = list(model_inputs(rep, alphas, per_alpha, rng))
    k = len(res)
    for t in gen.docs(rng, n, mut, **profile):
        given = gen.pick(rng, GIVEN) if rng.random() < (0.3 if profile.get("decl", 0) > 2 else 0.05) else ()
        res.append((t, 1 if rng.random() < 0.85 else 0, given))
    for _ in range(int(n * soup)):
        res.append(gen.soup(rng, rng.randint(0, 24)))
    # a few longer documents
    for t in gen.docs(rng, n // 50, 0.02, **dict(profile, items=120, fault=0.0005, deep=0.001)):
        res.append(t)
    for t in gen.docs(rng, n // 20, 0.1, **profile):
        if t:
            res.append(gen.stretch(rng, t))
    for i in range(n // 150):
        res.append(gen.steep(rng, [12, 40, 90][i % 3] if i % 25 else 300, i % 2))
    res.extend(gen.extreme())
    res.extend(gen.long([70, 140], [rng.randrange(4)]))
    rep.add("generated_inputs", len(res) - k)
    k = len(res)
    res.extend(gen.every(rng, places, size(rep, 20, 4096)))
    res.extend(gen.edges(edges))
    rep.add("texts_of_every_character", len(res) - k)
    for a in exhaust:
        k = len(res)
        alphabet, q, t = ALPHABETS[a]
        res.extend(gen.exhaustive(alphabet, size(rep, q, t), 0))
        rep.add("exhaustive_inputs", len(res) - k)
    return res


def size(rep, quick, thorough):
    return quick if rep.tier == QUICK else thorough


def reader_check(profile, module, cfg, alphas, mut=0.2, soup=0.1, short=("general",), model=(), places=(), edges=(), **kw):
    """A check by replay: alphas names the token alphabets of MC_Parser, short
    the alphabets of which all short texts are read, model those on which the
    specification itself is checked"""
    def check(rep):
        model_texts(rep, model)
        ts = texts(rep, profile, size(rep, 6000, 60000), mut, soup, alphas, size(rep, 4000, 40000), short, places, edges)
        return run(rep, ts, module, cfg, **kw)
    return check


def p01(rep):
    dev = reader_check(STRUCT, "Trace_Stream.tla", "Trace_Stream.cfg", ["structure", "boxes"], mut=0.3, post=3)(rep)
    known = core.known_findings("P01")
    for d in dev:
        c = d["class"]
        if c in known:
            what, n = rep.known.get(c, (known[c], 0))
            rep.known[c] = (what, n + 1)
        else:
            rep.violations.append({"mode": "read", "mismatch": d})


PROBES = ["", "p", "q", "r", "xml", "xmlns", "zz"]



def p11(rep):
    """Totality: also texts that are long, deep or otherwise extreme"""
    model_texts(rep, ["general"])
    rng = random.Random("P11-%d" % rep.seed)
    ts = texts(rep, dict(FAULTS, prefix=0.1, decl=0.5), size(rep, 5000, 50000), 0.6, 0.5, ["mixed"],
               size(rep, 4000, 40000), ["general", "strings"])
    extreme = []
    for n in (1, 2, 3, 10, 100, size(rep, 400, 3000)):
        for unit in ["#", "'", "\"", ";", "; \n", "a", "a:", "#a ", "#a{ ", "{", "}", "=", "\n", " ", "r#", "\u20ac", "#'",
                     "'\n", "a=", "a='b' ", "#a{ b='c' ", "\\", "\x00", "\U0010ffff", "r'' ", ";\u00e9", "\u2028", "\n;"]:
            extreme += [unit * n, "#a " + unit * n, "#a '" + unit * n, unit * n + "#a} ", "#a " + unit * n + "\u00e9"]
        extreme.append("".join("#" * i + "a " for i in range(1, min(n, 200))))
        extreme.append("".join("#a%d{ " % i for i in range(n)) + "".join("#a%d} " % i for i in reversed(range(n))))
        extreme.append("#" * n + "'x'" + "#" * n)
        extreme.append("#a " + "#" * n + "'x'" + "#" * (n - 1))
        extreme.append("#a " + " ".join("x%d=%d" % (i, i) for i in range(n)))
        extreme.append("#" + "a" * n + ":" + "b" * n + "{ ")
    # more tokens for one event than calls could be nested
    extreme.append("#a " + "x=1 " * 30000)
    # every prefix of some documents: the text ends anywhere
    for t in gen.docs(rng, size(rep, 15, 200), 0.0, **dict(FAULTS, fault=0.01, deep=0.0)):
        extreme += [t[:i] for i in range(len(t))]
    extreme += gen.long([14, 30, 67, 131, 300])
    rep.add("extreme_inputs", len(extreme))
    # one lexer checks every position it is asked for, the other is the usual one
    exe = core.build("h")
    cases = []
    for lexer in ("own", "lc"):
        seen = set()
        for t in ts + extreme:
            text = t[0] if isinstance(t, tuple) else t
            if text not in seen:
                seen.add(text)
                i = len(cases)
                cases.append({"text": text, "line": case_line(i, text, lexer=lexer, post=6)})
    recs = core.run_harness(exe, "read", [c["line"] for c in cases], rep.work)
    sample(rep, cases, recs)
    count_events(rep, recs)
    judge(rep, recs, "Trace_Total.tla", "Trace_Total.cfg", cases, describe)


VARIANTS = ["lc", "us", "sb", "lr", "own", "ru", "il", "th", "lc"]


def p12(rep):
    """The same text with every position type, lexer and state of the tables"""
    exe = core.build("h")
    ts = texts(rep, dict(SCOPES, string=2, comment=2, fault=0.02), size(rep, 2500, 25000), 0.2, 0.2, ["mixed"],
               size(rep, 1500, 15000), [])
    cases, lines = [], []
    for c in make_cases(ts, probes=PROBES):
        f = c["line"].split("\t")
        cases.append({"text": c["text"], "line": []})
        for v in VARIANTS:
            l = "\t".join([str(len(lines)), v] + f[2:])
            lines.append(l)
            cases[-1]["line"].append(l)
    recs = core.run_harness(exe, "read", lines, rep.work)
    if len(recs) != len(lines):
        # some process gave up after crashes; keep what can be grouped
        by = {json.loads(r)["id"]: r for r in recs}
    else:
        by = dict(enumerate(recs))
    k = len(VARIANTS)
    grouped = []
    for i, c in enumerate(cases):
        runs = [by[j] for j in range(i * k, i * k + k) if j in by]
        if len(runs) == k:
            # the text is the same in all of them
            grouped.append('{"id":%d,"runs":[%s]}' % (i, ",".join(re.sub(r'"text":\[[^]]*\],', "", r) for r in runs)))
    rep.add("readings", len(grouped) * k)
    for i in (0, len(cases) // 2):
        rep.samples.append({"text": cases[i]["text"][:200], "variants": VARIANTS})
    judge(rep, grouped, "Trace_Same.tla", "Trace_Same.cfg", cases, describe)


READ = "Trace_Read.tla"
CHECKS = {
    "P01": p01,
    "P02": reader_check(STRUCT, READ, "Trace_Read_P02.cfg", ["structure"], short=["tags"], model=["tags"]),
    "P03": reader_check(BOXES, READ, "Trace_Read_P03.cfg", ["boxes", "structure", "closings"], short=["tags"]),
    "P04": reader_check(SCOPES, READ, "Trace_Read_P04.cfg", ["scopes"], mut=0.1, short=[]),
    "P05": reader_check(SCOPES, READ, "Trace_Read_P05.cfg", ["scopes"], mut=0.1, short=[], probes=PROBES, listed=True),
    "P06": reader_check(ATTRS, READ, "Trace_Read_P06.cfg", ["mixed", "scopes"],
                        places=[("#a x='%s' y=1", "'\n"), ("#a x=\"%s\" y=2", "\"\n"), ("#a x=1%s y=2", " ")],
                        edges=[("#a x='%s' y='%s' z='%s' x='%s' y='%s'", "'\n"), ("#a x=%s y=%s z=%s x=%s y=%s", " \"'")]),
    "P07": reader_check(STRINGS, READ, "Trace_Read_P07.cfg", ["structure"], short=["strings"], model=["strings"],
                        places=[("#a '%s' 'x'", "'\n"), ("#a r##\"%s\"## 'x'", "\"")],
                        edges=[("#a '%s' '%s' '%s' '%s' '%s'", "'\n"), ("#a #'%s'# r#'%s'# #'%s'# r#'%s'# #'%s'#", "'"),
                               ("#a r\"%s\" \"%s\" r\"%s\" \"%s\" r\"%s\"", "\"\n")]),
    "P08": reader_check(COMMENTS, READ, "Trace_Read_P08.cfg", ["structure"], short=["comments"], model=["comments"],
                        places=[("#a ;%s\n;x%s", "\n")],
                        edges=[("#a ;%s\n;%s\n;%s\n'' ;%s\n'' ;%s\n", "\n"), ("%s;\n#a%s;\n #b %s;\n;%s\n ;%s", "\n")]),
    "P09": reader_check(POSITIONS, READ, "Trace_Read_P09.cfg", ["structure", "mixed"], mut=0.3,
                        short=["general", "comments"], model=["general"],
                        places=[("#a #'%s'# 'x'", "'"), ("#a ;%s\n'x' y", "\n")]),
    "P10": reader_check(FAULTS, READ, "Trace_Read_P10.cfg", ["mixed", "boxes"], mut=0.5, soup=0.3, model=["general"]),
    "P11": p11,
    "P12": p12,
    "P14": reader_check(POSITIONS, READ, "Trace_Read_P14.cfg", ["mixed"], mut=0.2, lexer="own", model=["general"]),
}
