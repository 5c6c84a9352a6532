#!/usr/bin/env python3
"""binding.py PROPERTY...: shows that the traces decide.

Runs the quick check of each property with every recorded trace corrupted in
one place and says how many of the corrupted traces the specification rejects,
by kind of corruption.  A corruption outside of what the property is about is
accepted, and so it should be; P12 and P13 are left out of the count of single
values where several readings are one trace."""
import collections, json, os, random, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vlib import core, props, reader
from vlib import calls, chars, convert, escapes, tree, xmls

SKIP = {"id", "text", "cfg", "xmlns", "ver", "pr", "arg", "op", "tree"}
kinds = {}


def leaves(d, path=()):
    """Paths of the recorded values"""
    if isinstance(d, dict):
        for k, v in d.items():
            if (path and k not in ("a", "text", "pr")) or (not path and k not in SKIP):
                yield from leaves(v, path + (k,))
    elif isinstance(d, list):
        for i, v in enumerate(d):
            yield from leaves(v, path + (i,))
    elif isinstance(d, int):
        yield path


def corrupt(rng, rec):
    d = json.loads(rec)
    ls = [k for k in d if isinstance(d[k], list) and k not in SKIP and k != "ops" and d[k] and isinstance(d[k][0], dict)]
    kind = rng.choice(["value", "value", "drop", "double"])
    if kind != "value" and ls:
        k = rng.choice(ls)
        i = rng.randrange(len(d[k]))
        if kind == "drop":
            what = "drop %s.%s" % (k, d[k][i].get("k", ""))
            del d[k][i]
        else:
            what = "double %s.%s" % (k, d[k][i].get("k", ""))
            d[k].insert(i, d[k][i])
    else:
        p = list(leaves(d))
        if not p:
            return None
        p = rng.choice(p)
        x = d
        for k in p[:-1]:
            x = x[k]
        x[p[-1]] += 1
        what = "value " + ".".join(str(k) for k in p if not isinstance(k, int))
    return what, json.dumps(d)


def judge(rep, recs, module, cfg, cases, describe, heap="8g"):
    rng = random.Random("binding-%s" % rep.prop)
    recs = rng.sample(recs, min(len(recs), 3000))
    new = []
    for r in recs:
        c = corrupt(rng, r)
        if c:
            d = json.loads(c[1])
            kinds[d["id"]] = c[0]
            new.append(c[1])
    before = len(rep.violations)
    dev = real(rep, new, module, cfg, cases, lambda c: {}, heap)
    bad = {v["mismatch"]["id"] for v in rep.violations[before:]} | {d["id"] for d in dev or []}
    n, ok = collections.Counter(), collections.Counter()
    for r in new:
        i = json.loads(r)["id"]
        n[kinds[i]] += 1
        ok[kinds[i]] += i in bad
    print("%s %s: %d of %d corrupted traces rejected" % (rep.prop, module, sum(ok.values()), sum(n.values())))
    for k, c in n.most_common(40):
        print("    %-30s %d of %d" % (k, ok[k], c))
    return []


real = reader.judge
for m in (reader, calls, chars, convert, escapes, tree, xmls):
    if hasattr(m, "judge"):
        m.judge = judge

for p in sys.argv[1:] or sorted(props.CHECKS):
    rep = core.Report(p, "quick", 1)
    rep.work += "-binding"
    os.makedirs(rep.work, exist_ok=True)
    try:
        props.CHECKS[p](rep)
    except core.ToolError as e:
        print(p, "ERROR", str(e)[:600])
