"""The converter program."""
import json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core, gen, reader

VERSIONS = [(None, 100), ("1.0", 100), ("1", 100), ("1.1", 110), ("1.10", 110), ("1.00", 100), ("1.2", 0), ("2", 0)]
PROFILES = [reader.STRUCT, reader.BOXES, reader.ATTRS, reader.STRINGS, reader.COMMENTS, reader.FAULTS, reader.POSITIONS]
TRICKY = ["<", ">", "&", "'", '"', "\n", "\r", "\t", "--", "-", "]]>", "&lt;", "&#60;", "<a>", "</a>", " ", "é", "\U0001f600",
          " ", " ", "<!--", "-->", "<?xml?>", "\x01", "x"]


def tricky(rng):
    """Documents full of what has to be written with care in XML"""
    def s():
        return "".join(rng.choice(TRICKY) for _ in range(rng.randrange(5)))
    t, depth = "", 0
    for _ in range(rng.randrange(1, 9)):
        k = rng.random()
        if k < 0.4 or depth == 0:
            depth = rng.randint(1, depth + 1)
            t += "\n" + "#" * depth + rng.choice("abc")
            for _ in range(rng.choice([0, 0, 1, 2])):
                v = s()
                q = rng.choice("'\"")
                if q not in v and "\n" not in v:
                    t += " %s=%s%s%s" % (rng.choice(["x", "y", "xmlns"]), q, v, q)
        elif k < 0.8:
            v = s()
            h = "#" * rng.choice([1, 2])
            t += " %s%s'%s'%s " % (rng.choice(["", "r"]), h, v.replace("'#", "' #"), h)
        else:
            t += "\n;" + s().replace("\n", "") + "\n"
    return t + rng.choice(["", "\n", " '"])


def run_one(exe, work, c):
    """Run the program on a case; the text may come from a file and the output go to one"""
    i = c["id"]
    args, inp = [exe], None
    if c["ver_arg"] is not None:
        args += [c["flag"], c["ver_arg"]]
    data = c["text"].encode()
    path, to = os.path.join(work, "in%d" % i), os.path.join(work, "out%d" % i)
    if "file" in c["via"]:
        with open(path, "wb") as f:
            f.write(data)
        args.append(path)
    else:
        inp = data
    if "output" in c["via"]:
        if c["old"]:
            # the file exists already; what it holds is replaced
            with open(to, "wb") as f:
                f.write(b"<old/>\n" * c["old"])
        opt = ["--output=" + to] if c["joined"] else ["--output", to]
        args[1:1] = opt if c["old"] % 2 else []
        args += [] if c["old"] % 2 else opt
    kw = {"input": inp} if inp is not None else {"stdin": subprocess.DEVNULL}
    try:
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, cwd=work,
                           preexec_fn=core._limits, env={"PATH": "/usr/bin:/bin"}, **kw)
        code, out, err = r.returncode if r.returncode >= 0 else 1000 - r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        code, out, err = 999, b"", b""
    if "output" in c["via"] and code < 100:
        out += open(to, "rb").read() if os.path.exists(to) else b""
    for p in (path, to):
        if os.path.exists(p):
            os.remove(p)
    rec = {"id": i, "text": [ord(x) for x in c["text"]], "ver": c["ver"], "code": code, "utf8": 1}
    for k, v in (("out", out), ("err", err)):
        try:
            rec[k] = [ord(x) for x in v.decode()]
        except UnicodeDecodeError:
            rec[k], rec["utf8"] = [], 0
    return rec


def p22(rep):
    rep.model(core.tlc("MC_Convert.tla", "MC_Convert_%s.cfg" % rep.tier, rep.work))
    exe = core.build("c")
    rng = random.Random("P22-%d" % rep.seed)
    n = reader.size(rep, 3000, 40000)
    texts = [t if isinstance(t, str) else t[0] for t in reader.model_inputs(rep, ["mixed"], n // 4, rng)]
    for p in PROFILES:
        p = dict(p, prefix=0.02, decl=0.05)
        for t in gen.docs(rng, n // 14, 0.15, **p):
            texts.append(t)
    texts += [tricky(rng) for _ in range(n // 2)]
    for i in range(n // 150):
        texts.append(gen.steep(rng, [12, 40, 90][i % 3], 0))
    texts += [gen.stretch(rng, t) for t in rng.sample(texts, n // 20) if t]
    texts += list(gen.every(rng, [("#a x='%s' '%s'\n;%s\n", "'\n-")], reader.size(rep, 20, 1000)))
    texts += [t for t in gen.extreme() if t.count("\n") < 5000] + list(gen.long([70, 300], [rng.randrange(4)]))
    texts += ["", " ", "\n"]
    cases, seen = [], set()
    for t in texts:
        arg, ver = rng.choice(VERSIONS)
        via = rng.choice(VIA)
        if t not in seen:
            seen.add(t)
            cases.append({"id": len(cases), "text": t, "ver": ver, "ver_arg": arg, "via": via, "flag": rng.choice(["-x", "--xml_version"]),
                          "old": rng.choice([0, 0, 1, 2, 999, 1000]), "joined": rng.random() < 0.3})
    with ThreadPoolExecutor(core.PROCS) as ex:
        recs = list(ex.map(lambda c: run_one(exe, rep.work, c), cases))
    # the library's words for the fault of a text, where it has one
    lines = ["%d\tconvert\t%s" % (c["id"], core.cps(c["text"])) for c in cases]
    for r, e in zip(recs, map(json.loads, core.run_harness(core.build("h"), "err", lines, rep.work))):
        r["msg"] = e["er"][0]["msg"] if e.get("er") and e["id"] == r["id"] else []
    for r in recs:
        r.setdefault("msg", [])
    rep.add("runs_of_the_program", len(recs))
    rep.add("runs_with_a_fault", sum(1 for r in recs if r["err"]))
    rep.samples += [{"text": c["text"][:200], "via": c["via"]} for c in cases[::max(1, len(cases) // 3)]][:3]
    reader.judge(rep, [json.dumps(r) for r in recs], "Trace_Convert.tla", "Trace_Convert.cfg", cases,
                 lambda c: {"mode": "convert", "text": c["text"], "via": c["via"], "version": c["ver_arg"]})


VIA = ["stdin", "file", "stdin-output", "file-output"]
CHECKS = {"P22": p22}
