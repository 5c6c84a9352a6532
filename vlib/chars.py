"""What every character does at the places of a document."""
import json, random
from . import core, gen, reader

# X is the place of the character
PLACES = [
    "#X 'c'", "#aX 'c'", "#X:b xmlns:X=u 'c'", "#aX:b xmlns:aX=u 'c'", "#p:X xmlns:p=u", "#p:bX xmlns:p=u",
    "#a X=v 'c'", "#a bX=v 'c'", "#a b=X 'c'", "#a b=vXw=z", "#a X:b=v xmlns:X=u", "#aX'c'", "#a 'c'X'd'",
    "X#a", "#aXb 'c'", "#aX{", "#a{X#a}", "#a{ #aX}", "#a{ #a}X", "#a p:X=v xmlns:p=u", "#a p:bX=v xmlns:p=u",
    "#a bX:c=v xmlns:bX=u", "#a Xb=v", "#a b=vX'c'", "#a b='X' c=d", "#a b='v'Xc=d", "#a bX'c'", "#a 'c'Xb=v", "#a; c\nX; d\n",
    "#a ;X\nb=c", "#XX #XX", "##X", "#a\n##X", "rX'c'", "#a r'X'", "#a 'X'", "#a #'X'#", "X", "#a X", "#a X=X", "#a b=XX=c",
]
CHUNK = 1 << 14
# characters that stand for their classes
STANDS = {"ws": "\u00a0", "both": "\u1680", "start": "\u00e9", "name": "\u00b7", "other": "\u00d7"}


def boundaries():
    """Characters next to a change of class, or of their length"""
    ends = [0x80, 0x85, 0xa0, 0xb7, 0xc0, 0xd6, 0xd8, 0xf6, 0xf8, 0x2ff, 0x300, 0x36f, 0x370, 0x37d, 0x37f, 0x7ff, 0x1680, 0x1fff,
            0x2000, 0x200a, 0x200c, 0x200d, 0x2028, 0x2029, 0x202f, 0x203f, 0x2040, 0x205f, 0x2070, 0x218f, 0x2c00, 0x2fef,
            0x3000, 0x3001, 0xd7ff, 0xe000, 0xf900, 0xfdcf, 0xfdf0, 0xfffd, 0xffff, 0x10000, 0xeffff, 0xf0000, 0x10ffff, 0x180e,
            0x200b, 0x2060, 0xfeff]
    res = set()
    for e in ends:
        res |= {c for c in (e - 1, e, e + 1) if 0 <= c < 0x110000 and not 0xd800 <= c < 0xe000}
    return res


def p23(rep):
    rep.model(core.tlc("MC_Chars.tla", "MC_Chars_%s.cfg" % rep.tier, rep.work))
    exe = core.build("h")
    rng = random.Random("P23-%d" % rep.seed)
    # every ASCII character and the boundaries at every place, compared with the specification
    chars = sorted(set(range(128)) | boundaries() | {ord(c) for c in STANDS.values()} |
                   {rng.choice([rng.randrange(0x80, 0xd800), rng.randrange(0xe000, 0x110000)]) for _ in range(reader.size(rep, 20, 400))})
    texts = [p.replace("X", chr(c)) for p in PLACES for c in chars]
    rep.add("characters_compared_with_the_reader", len(chars))
    rep.add("places", len(PLACES))
    reader.run(rep, texts, "Trace_Read.tla", "Trace_Read_P23.cfg", post=0)
    # every other character does the same as the one that stands for its class
    cases, lines = [], []
    for p in PLACES:
        pieces = ";".join(core.cps(x) for x in p.split("X"))
        for k in range(0, 0x110000, CHUNK):
            i = len(cases)
            cases.append((p, max(128, k), k + CHUNK - 1))
            lines.append("\t".join([str(i), str(max(128, k)), str(k + CHUNK - 1), pieces]))
    recs = core.run_harness(exe, "sweep", lines, rep.work)
    std, res = {}, []
    for r in map(json.loads, recs):
        p, a, b = cases[r["id"]]
        r["from"], r["to"] = a, b
        if "rs" in r and a == 128:
            std[p] = {k: r["os"][next(x[2] for x in r["rs"] if x[0] <= ord(c) <= x[1]) - 1] for k, c in STANDS.items()}
        res.append(r)
    for r in res:
        p = cases[r["id"]][0]
        if p not in std:
            r.setdefault("fatal", "crash")
        r["std"] = std.get(p, {})
    rep.add("characters_swept", len(PLACES) * (0x110000 - 0x800 - 128))
    reader.judge(rep, [json.dumps(r) for r in res], "Trace_Chars.tla", "Trace_Chars.cfg", cases,
                 lambda c: {"mode": "sweep", "place": c[0], "from": c[1], "to": c[2]})


CHECKS = {"P23": p23}
