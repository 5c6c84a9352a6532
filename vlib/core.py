"""Building, running the harness, running TLC, reporting."""
import fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HML_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PROCS = 8


class ToolError(Exception):
    pass


# --------------------------------------------------------------------- build
CRATES = {
    # name: (directory, binary, rustflags)
    "h": ("harness", "hmlh", ""),
    # the same, optimised
    "o": ("harness", "hmlh", ""),
    "e": ("harness_esc", "hmle", "--cfg hml_verif"),
    "c": ("harness_conv", "hmlconvert", ""),
    "t": ("harness_tok", "hmlt", ""),
}


def _digest(dirs):
    h = hashlib.sha256()
    for d in dirs:
        files = [d] if os.path.isfile(d) else sorted(
            f for f in glob.glob(d + "/**", recursive=True) if os.path.isfile(f) and "/target/" not in f)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


CONVERTER = "/src/bin/hmlconvert.rs"


def _manifest(src, target):
    """The manifest of a crate, adapted if the converter's source has been moved"""
    path = os.path.join(src, "Cargo.toml")
    text = open(path).read()
    if CONVERTER not in text or os.path.exists(REPO + CONVERTER):
        return path
    m = re.search(r'\[\[bin\]\](?:(?!\n\[)[\s\S])*?path\s*=\s*"([^"]*)"', open(REPO + "/Cargo.toml").read())
    for p in ([m.group(1)] if m else []) + ["src/bin/hmlconvert/main.rs", "src/main.rs"]:
        if os.path.exists(os.path.join(REPO, p)):
            moved = os.path.join(target, "crate")
            shutil.rmtree(moved, ignore_errors=True)
            shutil.copytree(src, moved)
            with open(os.path.join(moved, "Cargo.toml"), "w") as f:
                f.write(text.replace(REPO + CONVERTER, os.path.join(REPO, p)))
            return os.path.join(moved, "Cargo.toml")
    return path


def build(which):
    """Build a harness crate against /repo's working tree; return its binary."""
    crate, binary, flags = CRATES[which]
    src = os.path.join(VERIF, crate)
    target = os.path.join(TARGET, which)
    os.makedirs(target, exist_ok=True)
    profile = "release" if which == "o" else "debug"
    exe = os.path.join(target, profile, binary)
    with open(os.path.join(target, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, "stamp")
        # the crates share files
        want = _digest([REPO + "/src", REPO + "/Cargo.toml", src, os.path.join(VERIF, "harness", "src")])
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have == want and os.path.exists(exe):
            return exe
        if os.path.exists(stamp):
            os.remove(stamp)
        # Cargo decides by modification times, which say nothing about a
        # working tree that is patched and restored
        for d in glob.glob(os.path.join(target, profile, ".fingerprint/hml*")):
            shutil.rmtree(d)
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true",
                   RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTFLAGS=flags)
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q",
                            "--manifest-path", _manifest(src, target)] + (["--release"] if which == "o" else []),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
        if r.returncode != 0:
            raise ToolError("build of %s failed:\n%s" % (crate, r.stdout.decode(errors="replace")[-4000:]))
        with open(stamp, "w") as f:
            f.write(want)
    return exe


# ------------------------------------------------------------------- harness
def cps(s):
    """The wire form of a text"""
    return " ".join(str(ord(c)) for c in s) if s else "-"


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


MAX_CRASHES = 3


def _run_part(exe, mode, lines, base, timeout, seconds):
    """Run some cases, restarting after a crash; return the records"""
    inp, out, noise = base + ".in", base + ".out", base + ".noise"
    with open(inp, "w") as f:
        f.write("".join(l + "\n" for l in lines))
    open(out, "w").close()
    done, crashes, extra = 0, 0, {}
    end = time.time() + timeout
    while done < len(lines):
        with open(noise, "w") as nz:
            try:
                r = subprocess.run([exe, mode, inp, out, str(done)], stdin=subprocess.DEVNULL, stdout=nz,
                                   stderr=nz, preexec_fn=_limits, timeout=max(1, end - time.time()),
                                   env={"HML_NOISE": noise, "HML_SECONDS": str(seconds), "PATH": "/usr/bin:/bin"})
            except subprocess.TimeoutExpired:
                raise ToolError("harness time-out")
        with open(out) as f:
            recs = f.read().split("\n")[:-1]
        done = len(recs)
        if r.returncode == 0:
            if done != len(lines):
                raise ToolError("harness stopped early")
            break
        if r.returncode == 97:
            extra[done - 1] = "hang"
        else:
            # the case after the last record ended the process
            extra[done] = "crash"
            with open(out, "a") as f:
                f.write('{"crash":%d}\n' % r.returncode)
            done += 1
        crashes += 1
        if crashes >= MAX_CRASHES:
            break
    with open(out) as f:
        recs = f.read().split("\n")[:-1]
    for i, what in extra.items():
        recs[i] = json.dumps({"id": int(lines[i].split("\t")[0]), "fatal": what})
    os.remove(inp), os.remove(out), os.remove(noise)
    return recs


def run_harness(exe, mode, lines, work, timeout=600, procs=PROCS, seconds=20):
    """Run case lines; return JSON texts of the records, in order.

    A case that crashed or hung has the record {"id":…, "fatal":…}; after a few
    of those in one process its remaining cases are left out."""
    # spread neighbouring cases, which often cost the same
    parts = [list(range(k, len(lines), procs)) for k in range(procs)]
    parts = [p for p in parts if p]
    with ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(lambda a: _run_part(exe, mode, [lines[i] for i in a[1]],
                                              os.path.join(work, "part%d" % a[0]), timeout, seconds),
                          enumerate(parts)))
    recs = {}
    for idx, out in zip(parts, res):
        for i, rec in zip(idx, out):
            recs[i] = rec
    return [recs[i] for i in sorted(recs)]


# ----------------------------------------------------------------------- TLC
class Tlc:
    """Result of one TLC run"""

    def __init__(self):
        self.states = self.generated = self.initial = 0
        self.lines = []      # values printed as strings
        self.bad = []
        self.dev = []


def unquote(s):
    """The contents of a TLA+ string as TLC prints it"""
    return re.sub(r'\\(.)', lambda m: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(m.group(1), m.group(1)), s)


def tlc(module, cfg, work, env=None, timeout=600, heap="5g", args=(), expect_error=False):
    meta = os.path.join(work, "tlc-" + os.path.splitext(cfg)[0])
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", TLA_JARS, "tlc2.TLC",
           "-workers", str(PROCS), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module)]
    out = os.path.join(work, "tlc-%s.log" % os.path.splitext(cfg)[0])
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdin=subprocess.DEVNULL,
                               stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC time-out on %s" % cfg)
    shutil.rmtree(meta, ignore_errors=True)
    t = Tlc()
    t.rc = r.returncode
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"'):
                s = unquote(line.rstrip("\n")[1:-1])
                if s.startswith("BAD "):
                    t.bad.append(json.loads(s[4:]))
                elif s.startswith("DEV "):
                    t.dev.append(json.loads(s[4:]))
                else:
                    t.lines.append(s)
                continue
            m = re.match(r"(\d+) states generated.*, (\d+) distinct states found", line)
            if m:
                t.generated, t.states = int(m.group(1)), int(m.group(2))
            m = re.match(r"Finished computing initial states: (\d+) distinct state", line)
            if m:
                t.initial = int(m.group(1))
    if t.rc != 0 and not expect_error:
        tail = open(out, errors="replace").read()
        i = tail.find("Error:")
        raise ToolError("TLC failed (%d) on %s:\n%s" % (t.rc, cfg, tail[i if i >= 0 else -3000:][:3000]))
    return t


# -------------------------------------------------------------------- report
def known_findings(prop):
    """Classes of the known findings of a property: {class: description}"""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


class Report:
    """Collects what a check did and ends it"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.states = self.transitions = self.traces = 0
        self.cov = {}
        self.samples = []
        self.violations = []   # replayable descriptions
        self.known = {}
        self.assumptions = []
        self.work = os.path.join(VERIF, "work", "%s-%s" % (prop, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)

    def model(self, t):
        self.states += t.states
        self.transitions += t.generated

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:5], **self.cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "wall_s": round(time.time() - self.start, 2),
              "violations": len(self.violations)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        path = os.path.join(EVIDENCE, self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)
        for c, (what, n) in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s (%s; %d cases in this run)" % (self.prop, what, c, n))
        rc = 0
        replay = os.path.join(EVIDENCE, self.prop + ".replay.json")
        if os.path.exists(replay):
            os.remove(replay)
        if self.violations:
            with open(replay, "w") as f:
                json.dump(self.violations[:20], f, indent=1, ensure_ascii=True)
                f.write("\n")
            print(json.dumps(self.violations[0])[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            rc = 1
        shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %s in %.1f s (%d model states, %d traces)" % (
            self.prop, self.tier, "violated" if rc else "held", time.time() - self.start,
            self.states, self.traces))
        return rc
