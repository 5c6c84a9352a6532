"""Escaping, references and backslash escapes: single calls."""
import json, random
from . import core, gen, reader


def run(rep, exe, mode, lines, module, cfg):
    cases = [{"line": l} for l in lines]
    for i in (len(lines) // 7, len(lines) // 2, len(lines) - 2):
        f = lines[i].split("\t")
        text = "" if f[-1] == "-" else "".join(chr(int(x)) for x in f[-1].split())
        rep.samples.append({"call": f[1:-1], "text": text[:120]})
    recs = core.run_harness(exe, mode, lines, rep.work)
    reader.judge(rep, recs, module, cfg, cases, lambda c: {"mode": mode, "line": c["line"]})


ESC = list("&<>\"'\n\r;#") + ["a", " ", "\u00e9", "\u20ac", "\U0001f600", "&amp;", "&#60;", "\x00", "\t", "amp;",
                               "&lt;", "&gt;", "&quot;", "&apos;", "&#xA;", "&#xD;", "lt;", "]]>", "\r\n"]


def p18(rep):
    rep.model(core.tlc("MC_Escape.tla", "MC_Escape_escape_%s.cfg" % rep.tier, rep.work, timeout=2000))
    rng = random.Random("P18-%d" % rep.seed)
    lines = []

    def add(mask, text):
        lines.append("\t".join([str(len(lines)), "esc", str(mask), core.cps(text)]))
    short = list(gen.exhaustive(list("&<>\"'\n\ra") + ["\u00e9"], 2, 0))
    for mask in range(32):
        for t in short:
            add(mask, t)
    for t in gen.exhaustive(ESC, 2, 1):
        for m in (0, 31, rng.randrange(32)):
            add(m, t)
    rep.add("exhaustive_inputs", len(lines))
    k = len(lines)
    # every character below U+0250 and one from every 256 above, alone and in company
    chars = list(range(0x250)) + [c + rng.randrange(256) for c in range(0x300, 0x110000, 256)]
    for c in chars:
        if not 0xd800 <= c < 0xe000:
            for m in (0, 31, rng.randrange(32)):
                add(m, chr(c))
            add(rng.randrange(32), "<" + chr(c) + "&" + chr(c))
    for t in gen.runs(rng, reader.size(rep, 20, 4096)):
        add(rng.randrange(32), t)
    rep.add("single_character_inputs", len(lines) - k)
    k = len(lines)
    for _ in range(reader.size(rep, 12000, 150000)):
        add(rng.randrange(32) if rng.random() < 0.98 else rng.randrange(32, 256),
            "".join(gen.pick(rng, ESC) for _ in range(rng.choice([1, 3, 6, 12, 40]))))
    for n in (1000, reader.size(rep, 5000, 20000)):
        for m in (0, 31):
            add(m, "a" * n + "<" + "\u20ac" * 10)
            add(m, "".join(gen.pick(rng, ESC) for _ in range(n // 10)))
    rep.add("generated_inputs", len(lines) - k)
    run(rep, core.build("h"), "esc", lines, "Trace_Escape.tla", "Trace_Escape.cfg")


NUMS = ["0", "1", "9", "a", "f", "F", "A", "10", "41", "65", "FFFF", "D7FF", "D800", "DFFF", "E000", "10FFFF", "110000", "1114111",
        "1114112", "55296", "57343", "57344", "4294967296", "4294967361", "100000041", "FFFFFFFF", "00000000000000000041", "-1", "+65",
        " 65", "6 5", "65 ", "g", "x41", "X41", "8364", "20AC", "20ac", "128512", "1F600", "10ffff", "AAAAAAAAAA", "\u0666", "6\u00e9"]
NAMED = ["amp", "lt", "gt", "apos", "quot", "AMP", "LT", "GT", "APOS", "QUOT", "Amp", "nbsp", "am", "ampx", " amp", "amp ", "", "#", "#x",
         "#amp", "l", "\u00e9", "quo", "apo", "copy", "a"]
PIECES = ["&", ";", "#", "x", "a", "1", "&amp;", "&#65;", "&#x41;", "&lt;", "&bad;", "\u00e9", "\U0001f600", " ", "&#38;", "&#x26;", "amp;",
          "&#", "&#x", "&a", "lt", "#38;", "&&", ";;", "&;", "&#;", "&#x;", "\n", "0", "f"]


def p19(rep):
    rep.model(core.tlc("MC_Escape.tla", "MC_Escape_expand_%s.cfg" % rep.tier, rep.work, timeout=2000))
    rng = random.Random("P19-%d" % rep.seed)
    lines = []

    def add(arg, text):
        lines.append("\t".join([str(len(lines)), "ent", str(arg), core.cps(text)]))
    # every short text over the characters of references
    for t in gen.exhaustive(list("&#x;1a"), reader.size(rep, 5, 6), 0):
        add(1, t)
    for t in gen.exhaustive(list("&#x;1a") + ["\u00e9"], 3, 0):
        for arg in (0, 2, 3):
            add(arg, t)
    rep.add("exhaustive_inputs", len(lines))
    k = len(lines)
    for num in NUMS:
        for pre in ("#", "#x", "#X", "", "##", "#xx", "x#", "#0", "#x0"):
            for w in ("&%s;", "a&%s;b", "&%s;&%s;", "&%s", "&&%s;", "&lt;&%s;", "&%s;;"):
                add(rng.randrange(2), w.replace("%s", pre + num))
    for nm in NAMED:
        for w in ("&%s;", "a&%s;b", "&%s;&%s;", "&%s", "&&%s;", "&#65;&%s;", "&%s;;", "&amp%s;"):
            for arg in range(4):
                add(arg, w.replace("%s", nm))
    # every character reachable by number: the borders of all ranges, and a sample
    vals = set()
    for b in [0, 0x20, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000, 1 << 24,
              1 << 28, 1 << 31, 1 << 32, 1 << 36, 1 << 63, 1 << 64, 1 << 65, 10 ** 9, 10 ** 10, 10 ** 20]:
        vals.update(v for v in range(b - 2, b + 3) if v >= 0)
    vals.update(rng.randrange(0x120000) for _ in range(reader.size(rep, 2000, 40000)))
    vals.update((1 << 32) + rng.randrange(0x110000) for _ in range(100))
    vals.update(rng.randrange(1 << rng.randrange(21, 70)) for _ in range(reader.size(rep, 500, 4000)))
    for v in sorted(vals):
        add(0, "&#%d;" % v)
        add(1, "&#x%x;" % v if rng.random() < 0.5 else "&#x%X;" % v)
        if rng.random() < 0.2:
            add(1, "x&#x%s%x;y" % ("0" * rng.randrange(1, 9), v))
    rep.add("directed_inputs", len(lines) - k)
    k = len(lines)
    for _ in range(reader.size(rep, 15000, 150000)):
        add(rng.randrange(4) if rng.random() < 0.4 else 1,
            "".join(gen.pick(rng, PIECES) if rng.random() < 0.85 else "&" + rng.choice(["#", "#x", ""]) + gen.pick(rng, NUMS + NAMED) + ";"
                    for _ in range(rng.choice([1, 2, 3, 5, 8, 20]))))
    for t in gen.runs(rng, reader.size(rep, 20, 4096)):
        add(1, t + "&#x20AC;" + t + "&lt;")
    for n in (30, 100, reader.size(rep, 300, 500)):
        for p in ("&#65;", "&lt;", "&bad;", "a", "\u20ac", "&", "&#x41;\u00e9"):
            add(1, p * n)
            add(1, p * n + "&#x20AC;" + p * n)
    rep.add("generated_inputs", len(lines) - k)
    run(rep, core.build("h"), "esc", lines, "Trace_Escape.tla", "Trace_Escape.cfg")


BACK = ["\\", "\\\\", "\\n", "\\t", "\\r", "\\0", "\\'", "\\\"", "\\x41", "\\x7f", "\\x80", "\\x7F", "\\xg0", "\\x4", "\\u{41}", "\\u{}",
        "\\u{1234567}", "\\u{10FFFF}", "\\u{110000}", "\\u{D800}", "\\u{dfff}", "\\u{E000}", "\\u41", "\\u{41", "\\u{4 1}", "\\u{+41}",
        "\\u{0000041}", "\\u{00041}", "\\U{41}", "\\X41", "\\a", "\\b", "\\N", "a", "n", "x", "u", "{", "}", "0", "4", "f", "\u00e9",
        "\u20ac", "\U0001f600", "'", "\"", "\n", "\\\n", "\\\u00e9", "\\x\u00e9", "\\u{\u00e9}", " ", "\\x-1", "\\x+1", "\\u{1F600}", "\x00"]


def p20(rep):
    rep.model(core.tlc("MC_Backslash.tla", "MC_Backslash_%s.cfg" % rep.tier, rep.work, timeout=2000))
    rng = random.Random("P20-%d" % rep.seed)
    lines, seen = [], set()

    def add(text):
        if text not in seen:
            seen.add(text)
            lines.append("\t".join([str(len(lines)), core.cps(text)]))
    for t in gen.exhaustive(list("\\nxu{}4g") + ["\u00e9"], reader.size(rep, 4, 5), 0):
        add(t)
    for t in gen.exhaustive(BACK, 2, 1):
        add(t)
    for a in range(256):
        add("\\x%02x" % a)
        add("a\\x%02Xb" % a)
    for c in range(0x250):
        add("\\" + chr(c))
        add(chr(c))
        add("\\x" + chr(c) + "1")
        add("\\x1" + chr(c))
        add("\\u" + chr(c) + "1}")
        add("\\u{" + chr(c) + "}")
        add("\\u{1" + chr(c))
    rep.add("exhaustive_inputs", len(lines))
    k = len(lines)
    vals = set(range(0x100))
    for b in [0x7ff, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0xffffff, 0x1000000, 0xfffff]:
        vals.update(range(b - 2, b + 3))
    vals.update(rng.randrange(0x120000) for _ in range(reader.size(rep, 1500, 40000)))
    for v in sorted(vals):
        for w in {0, rng.randrange(1, 9)}:
            add("\\u{%0*x}" % (w, v) if rng.random() < 0.5 else "x\\u{%0*X}y" % (w, v))
    rep.add("directed_inputs", len(lines) - k)
    k = len(lines)
    GOOD = ["\\n", "\\t", "\\\\", "\\x41", "\\u{20AC}", "\\u{1f600}", "\\'", "\\0", "a", "\u00e9", "\u20ac", "u", "x41", "\U0001f600", "\n"]
    for _ in range(reader.size(rep, 12000, 150000)):
        xs = BACK if rng.random() < 0.4 else GOOD
        add("".join(gen.pick(rng, xs) for _ in range(rng.choice([2, 3, 5, 9, 30]))))
    for t in gen.runs(rng, reader.size(rep, 20, 4096)):
        t = t.replace("\\", "")
        add(t)
        add(t + "\\u{20AC}" + t + "\\n")
    for n in (30, 100, reader.size(rep, 300, 500)):
        for p in ("\\n", "\\x41", "a", "\u20ac", "\\u{20AC}", "\\\\"):
            for e in ("", "\\t", "\\", "\\q", "z"):
                add(p * n + e)
    rep.add("generated_inputs", len(lines) - k)
    run(rep, core.build("e"), "dec", lines, "Trace_Backslash.tla", "Trace_Backslash.cfg")


CHECKS = {"P18": p18, "P19": p19, "P20": p20}
