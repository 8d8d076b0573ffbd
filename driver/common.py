"""Common driver code: builds the binary from /repo's working tree, runs it, runs TLC, reports.

The driver only transports: inputs go to the binary, recordings go to TLC, and TLC - evaluating the
specification in /verif/spec - decides whether a recording is allowed.
"""
import atexit, concurrent.futures, fcntl, hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AM_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("AM_BUILD") or os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = 8


class ToolError(Exception):
    pass


def cps(text):
    """text (str or bytes) -> code points"""
    if isinstance(text, bytes):
        text = text.decode("utf-8", "surrogateescape")
    return [ord(c) for c in text]


def uncps(points):
    return "".join(chr(c) for c in points)


# ---------------------------------------------------------------- build
def source_hash():
    h = hashlib.sha256()
    for top in ("Cargo.toml", "Cargo.lock", "cmd", "lib", ".cargo", "rust-toolchain", "rust-toolchain.toml"):
        path = os.path.join(REPO, top)
        files = [path] if os.path.isfile(path) else sorted(
            os.path.join(d, f) for d, ds, fs in os.walk(path) for f in fs if "/target" not in d)
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build():
    """builds basjoofan from /repo's current working tree; returns the path of the binary"""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, "target")
    binary = os.path.join(target, "debug", "basjoofan")
    stamp = os.path.join(BUILD, "stamp")
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = source_hash()
        if os.path.exists(binary) and os.path.exists(stamp) and open(stamp).read() == want:
            return binary
        if os.path.exists(stamp):
            os.remove(stamp)
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        if os.path.exists(binary):      # file times may lie (copies, checkouts): force the two crates
            subprocess.run(["cargo", "clean", "--offline", "-p", "lib", "-p", "cmd"], cwd=REPO, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "basjoofan"], cwd=REPO, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(binary):
            raise ToolError("build failed:\n" + p.stdout[-3000:])
        with open(stamp, "w") as f:
            f.write(want)
        return binary


def shim():
    """compiles the LD_PRELOAD shim"""
    src = os.path.join(VERIF, "shim", "shim.c")
    out = os.path.join(BUILD, "shim-%s.so" % hashlib.sha256(open(src, "rb").read()).hexdigest()[:12])
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + ".%d.%d" % (os.getpid(), threading.get_ident())
        p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", tmp, src, "-ldl", "-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("shim: " + p.stdout)
        os.rename(tmp, out)
    return out


# ---------------------------------------------------------------- scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="am-verif-")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


# ---------------------------------------------------------------- running the binary
STOP = threading.Event()        # set once something hung: what has not begun yet is skipped, the hang is judged
OUTPUT_LIMIT = 1 << 23          # more output than any recording here has: as good as a hang


class Skipped(Exception):
    """something hung before: what has not begun yet is not carried out, the hang is judged"""


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_binary(args, stdin=b"", timeout=20, env=None, cwd=None, again=True):
    """returns (stdout, stderr, end) with end = "ok", "exit N", "signal N" or "timeout" """
    if STOP.is_set():
        raise Skipped()
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "RUST_BACKTRACE": "0"}
    e.update(env or {})
    p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                         cwd=cwd or scratch(), preexec_fn=limit_memory)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        if STOP.is_set():
            raise Skipped()
        if again:                       # confirm: slow machine or really stuck
            return run_binary(args, stdin, timeout * 2, env, cwd, False)
        STOP.set()
        return out[:4000], err[:4000], "timeout"
    end = "ok" if p.returncode == 0 else ("exit %d" % p.returncode if p.returncode > 0 else "signal %d" % -p.returncode)
    return out, err, end


def session(binary, lines, timeout=20, again=True):
    """one REPL session: the lines sent, then end of input"""
    return run_binary([binary], "".join(l + "\n" for l in lines).encode("utf-8"), timeout, again=again)


def parallel(f, items, workers=WORKERS):
    def one(x):
        try:
            return f(x)
        except Skipped:
            return one
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return [r for r in ex.map(one, items) if r is not one]


# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, code, out, wall):
        self.code, self.out, self.wall = code, out, wall
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.cases = re.findall(r'<<\s*"CASE",\s*"(\w+)",\s*(\d+),\s*(\d+)\s*>>', out)
        self.violated = re.findall(r"(?:Invariant|Temporal properties|Action property|Temporal property) ?(\w*)", out) if code in (12, 13) else []

    @property
    def ok(self):
        return self.code == 0


def tlc(module, cfg=None, env=None, workers=WORKERS, timeout=800, args=(), xss="64m", xmx="6g"):
    """runs TLC on spec/<module>.tla; raises ToolError unless it ended with 'ok' or a property violation"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss" + xss, "-Xmx" + xmx, "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", meta, "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult(p.returncode, p.stdout, time.time() - t)
    if p.returncode not in (0, 12, 13, 11):
        raise ToolError("TLC failed on %s (%s), exit %d:\n%s" % (module, cfg, p.returncode, p.stdout[-4000:]))
    return r


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path))["findings"] if f["property"] == prop]


# ---------------------------------------------------------------- one check
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.parts, self.samples, self.violations, self.assumptions = {}, [], [], []
        self.binary = None
        ev = os.path.join(VERIF, "evidence", prop + ".json")
        if os.path.exists(ev):
            os.remove(ev)

    def bin(self):
        if self.binary is None:
            self.binary = build()
        return self.binary

    def note(self, key, value):
        self.parts[key] = value

    def count(self, key, n=1):
        self.parts[key] = self.parts.get(key, 0) + n

    def log(self, text):
        print("[%s %6.1fs] %s" % (self.prop, time.time() - self.t0, text), flush=True)

    # exhaustive check of the design
    def model(self, module, cfg=None, **kw):
        r = tlc(module, cfg, **kw)
        if not r.ok:
            raise ToolError("the specification itself violates a property: %s/%s\n%s" % (module, cfg, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.setdefault("models", []).append(
            {"model": cfg or module, "distinct_states": r.distinct, "states_generated": r.generated, "wall_s": round(r.wall, 1)})
        self.log("model %s: %d distinct states" % (cfg or module, r.distinct))
        return r

    # validation of recordings: cases is a list of JSON-able recordings, each accepted or rejected by TLC
    def validate(self, module, cases, what, cfg=None, chunk=4000, env=None, samples=2, describe=None, **kw):
        opened = 0
        for b in range(0, len(cases), chunk):
            part = cases[b:b + chunk]
            path = os.path.join(scratch(), "cases-%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump(part, f, separators=(",", ":"))
            r = tlc(module, cfg, env=dict(env or {}, CASES=path), **kw)
            self.states += r.distinct
            self.transitions += r.generated
            if r.code == 11:
                raise ToolError("trace specification %s got stuck:\n%s" % (module, r.out[-3000:]))
            bad = sorted({(int(c) - 1, int(l)) for v, c, l in r.cases if v == "bad"})
            opened += len({c for v, c, l in r.cases if v == "open"})
            if r.code != 0 and not bad:
                raise ToolError("TLC reports a violation but no case:\n%s" % r.out[-3000:])
            if bad:
                i, line = bad[0]
                self.violation(what, {"module": module, "cfg": cfg, "env": env or {}, "case": part[i], "position": line,
                                      "explain": (describe or (lambda c, l: ""))(part[i], line)})
            self.traces += len(part) - len(bad)
            if bad:
                break
        self.count("recordings:" + what, len(cases))
        if opened:
            self.count("recordings left open by the specification", opened)
        for c in cases[:samples] if samples else []:
            self.sample((describe or (lambda c, l: c))(c, 0))
        self.log("%s: %d recordings validated" % (what, len(cases)))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s if isinstance(s, str) and len(s) < 600 else json.loads(json.dumps(s))
                                if not isinstance(s, str) else s[:600])

    def violation(self, what, data):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump(dict({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier}, **data), f, indent=1)
        self.violations.append(path)
        if data.get("explain"):
            self.log("rejected (%s): %s" % (what, str(data["explain"])[:1500]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        self.finish()           # one violation decides the check

    def known(self, text):
        print("KNOWN-FINDING: property=%s %s" % (self.prop, text), flush=True)
        self.parts.setdefault("known_findings", []).append(text)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"]}
        cov.update(self.parts)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("done: %d states, %d recordings, %d violations" % (self.states, self.traces, len(self.violations)))
        sys.exit(1 if self.violations else 0)
