"""Runs the harness on cases and TLC on specifications and recorded traces."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
VH = os.path.join(HARNESS, "target", "debug", "vh")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, text, replay):
        super().__init__(text)
        self.text = text
        self.replay = replay


# ---- building ---------------------------------------------------------------
def source_stamp():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


def build():
    env = dict(os.environ, VH_STAMP=source_stamp(), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    env.pop("VH_NOTED", None)
    # if the code keeps the block index in another way than the hook knows, the
    # harness observes what is put into it instead
    for more in ({}, {"VH_NOTED": "1"}):
        r = subprocess.run(
            ["cargo", "build", "--offline", "--quiet"],
            cwd=HARNESS, env={**env, **more}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
        if r.returncode == 0:
            return
    errs = [l for l in r.stdout.splitlines() if not l.startswith("warning")]
    raise ToolError("the harness does not build:\n" + "\n".join(errs[-60:]))


# ---- executing cases --------------------------------------------------------
MAX_CRASHES = 3


def _run_shard(domain, cases, first, workdir, k):
    cfile = os.path.join(workdir, f"{domain}.{k}.cases")
    ofile = os.path.join(workdir, f"{domain}.{k}.out")
    scratch = os.path.join(workdir, f"{domain}.{k}.scratch")
    os.makedirs(scratch, exist_ok=True)
    with open(cfile, "w") as f:
        for c in cases:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
    if os.path.exists(ofile):
        os.remove(ofile)
    start, crashes, out = 0, 0, {}
    while start < len(cases):
        r = subprocess.run(
            [VH, domain, cfile, ofile, str(start), scratch],
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
        )
        out = {}
        if os.path.exists(ofile):
            with open(ofile) as f:
                for line in f:
                    try:
                        o = json.loads(line)
                    except ValueError:
                        continue
                    out[o["i"]] = o
        if r.returncode == 0:
            break
        if r.returncode == 2:
            raise ToolError(f"harness: {r.stderr[-2000:]}")
        # the process ended in the middle of a case: that is an observation
        n = max(out, default=-1)
        if n not in out or out[n].get("crash") != "hang":
            n += 1
            what = f"the process was ended (status {r.returncode})"
            if r.stderr.strip():
                what += ": " + r.stderr.strip().splitlines()[-1][:200]
            rec = {"i": n, "crash": what}
            with open(ofile, "a") as f:
                f.write(json.dumps(rec) + "\n")
            out[n] = rec
        crashes += 1
        start = n + 1
        if crashes >= MAX_CRASHES or out[n]["crash"] == "hang":
            break
    shutil.rmtree(scratch, ignore_errors=True)
    os.remove(cfile)
    if os.path.exists(ofile):
        os.remove(ofile)
    return [(first + i, out[i]) for i in sorted(out)]


def run_cases(domain, cases, workdir, shards=None):
    """Returns the list of (case, observation) for the cases that were executed."""
    if not cases:
        return []
    shards = min(shards or CPUS, len(cases))
    # interleaved, so that expensive cases spread
    parts = [(list(range(k, len(cases), shards)), k) for k in range(shards)]
    res = {}

    def go(p):
        idx, k = p
        got = _run_shard(domain, [cases[i] for i in idx], 0, workdir, k)
        return [(idx[j], o) for j, o in got]

    with ThreadPoolExecutor(shards) as ex:
        for got in ex.map(go, parts):
            for i, o in got:
                res[i] = o
    crashed = any(o.get("crash") for o in res.values())
    slow = any(o.get("slow") for o in res.values())
    if len(res) != len(cases) and not crashed and not slow:
        raise ToolError(f"{len(cases) - len(res)} cases of {domain} were not executed")
    return [(cases[i], res[i]) for i in sorted(res)]


# ---- TLC --------------------------------------------------------------------
class TlcResult:
    def __init__(self):
        self.generated = self.distinct = 0
        self.depth = 0
        self.violated = None      # name of the invariant or property
        self.text = ""
        self.prints = []          # lines printed by the specification
        self.last = {}            # variables of the last state of an error trace


def tlc(spec, config, env=None, workers=None, heap="6g", timeout=800, expect_violation=False,
        extra=(), keep_prints=True):
    """Runs TLC on SPEC/<spec>.tla with the given configuration text."""
    meta = tempfile.mkdtemp(prefix="tlc.", dir=WORK)
    cfg = os.path.join(meta, "M.cfg")
    with open(cfg, "w") as f:
        f.write(config)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
           f"-Djava.io.tmpdir={meta}", "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers or CPUS), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg, *extra, os.path.join(SPEC, spec + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC did not finish on {spec} within {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.text = p.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    for m in re.finditer(r"(\d[\d,]*) states generated.*?, (\d[\d,]*) distinct states found", p.stdout):
        r.generated = int(m.group(1).replace(",", ""))
        r.distinct = int(m.group(2).replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", p.stdout)
    if m:
        r.depth = int(m.group(1))
    if keep_prints:
        r.prints = [l for l in p.stdout.splitlines() if l.startswith("<<")]
    m = re.search(r"Error: Invariant (\w+) is violated", p.stdout)
    if not m:
        m = re.search(r"Error: Temporal propert(?:ies were|y \w+ was) violated|Error: Action property (.*?) is violated"
                      r"|Error: Deadlock reached", p.stdout)
        if m:
            r.violated = m.group(1) or m.group(0)
    else:
        r.violated = m.group(1)
    if r.violated:
        states = re.split(r"\nState \d+:", p.stdout)
        for m in re.finditer(r"^/\\ (\w+) = (.*?)(?=^/\\ \w+ = |^\s*$|\Z)", states[-1], re.S | re.M):
            r.last[m.group(1)] = m.group(2).strip()
        return r
    if "-simulate" in extra and p.returncode == 0:
        m = re.search(r"The number of states generated: ([\d,]+)", p.stdout)
        r.generated = int(m.group(1).replace(",", "")) if m else 0
        return r
    if "Model checking completed. No error has been found." not in p.stdout:
        errs = "\n".join(l for l in p.stdout.splitlines()
                         if not re.match(r"^(Pars|Semantic|Linting|<<\"VEC)", l))
        raise ToolError(f"TLC failed on {spec}:\n" + errs[-3000:])
    return r


def cfg(constants, invariants=(), properties=(), spec="Spec", extra=""):
    out = [f"SPECIFICATION {spec}"]
    if constants:
        out.append("CONSTANTS")
        out += [f"  {k} = {v}" for k, v in constants.items()]
    if invariants:
        out.append("INVARIANTS " + " ".join(invariants))
    if properties:
        out.append("PROPERTIES " + " ".join(properties))
    out.append("CHECK_DEADLOCK FALSE")
    return "\n".join(out) + "\n" + extra + "\n"


def vectors(result):
    """The values printed as <<"VEC", "json">> by a model."""
    out = []
    for l in result.prints:
        m = re.match(r'^<<"VEC", "(.*)">>$', l)
        if m:
            out.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    return out


def tla_set(xs):
    return "{" + ", ".join(str(x) for x in xs) + "}"


# ---- a check ----------------------------------------------------------------
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        os.makedirs(WORK, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=f"{prop}.", dir=WORK)
        self.rng = random.Random(f"{prop}/{SEED}/{TIER}")
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "models": [], "conformance": []}
        self.known_hits = {}
        self.thorough = TIER == "thorough"

    def say(self, *a):
        print(*a, flush=True)

    def violation(self, text, replay_obj):
        d = os.path.join(WORK, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}.json")
        replay_obj = dict(replay_obj, property=self.prop, error=text, seed=SEED)
        with open(p, "w") as f:
            json.dump(replay_obj, f, indent=1)
        raise Violation(text, p)

    # -- design models
    def model(self, name, spec, config, env=None, **kw):
        """Checks a design model; it must satisfy its properties."""
        r = tlc(spec, config, env=env, **kw)
        if r.violated:
            raise ToolError(f"design model {spec} ({name}) violates {r.violated}:\n" + r.text[-3000:])
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["models"].append({"model": name, "spec": spec, "distinct_states": r.distinct,
                                   "depth": r.depth})
        self.say(f"[{self.prop}] model {name}: {r.distinct} states, depth {r.depth}, ok")
        return r

    def mutant(self, name, spec, config, env=None, **kw):
        """A deviating design must be rejected: the invariants are not vacuous."""
        r = tlc(spec, config, env=env, expect_violation=True, **kw)
        if not r.violated:
            raise ToolError(f"the deviating model {name} of {spec} is not rejected")
        self.cov.setdefault("rejected_deviations", []).append(f"{name}: {r.violated}")
        self.say(f"[{self.prop}] deviation {name}: rejected ({r.violated})")

    def simulate(self, name, spec, config, num, depth, env=None, **kw):
        """Random behaviours of a design model; its invariants are checked on them."""
        r = tlc(spec, config, env=env, workers=1,
                extra=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(SEED * 7919 + 11)), **kw)
        if r.violated:
            raise ToolError(f"design model {spec} ({name}) violates {r.violated}:\n" + r.text[-3000:])
        self.cov["transitions"] += r.generated
        self.cov["models"].append({"model": name + " (simulation)", "spec": spec, "behaviours": num,
                                   "states_generated": r.generated})
        self.say(f"[{self.prop}] simulation {name}: {num} behaviours, ok")
        return r

    def apalache(self, name, spec, inv, init="Init", length=0, cinit=None, rejected=False):
        """Checks an invariant symbolically, for unbounded data; rejected: it has to fail."""
        out = tempfile.mkdtemp(prefix="apalache.", dir=self.dir)
        cmd = ["apalache-mc", "check", f"--out-dir={out}", f"--init={init}", f"--inv={inv}",
               f"--length={length}", *([f"--cinit={cinit}"] if cinit else []),
               os.path.join(SPEC, spec + ".tla")]
        e = dict(os.environ, TMPDIR=out, JVM_ARGS=f"-Xmx6g -Djava.io.tmpdir={out}")
        try:
            p = subprocess.run(cmd, cwd=out, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=400)
        except subprocess.TimeoutExpired:
            raise ToolError(f"Apalache did not finish on {spec} ({name})")
        finally:
            shutil.rmtree(out, ignore_errors=True)
        if p.returncode not in (0, 12):
            raise ToolError(f"Apalache failed on {spec} ({name}):\n{p.stdout[-3000:]}")
        if (p.returncode == 12) != rejected:
            raise ToolError(f"Apalache: {spec} ({name}): {inv} " + ("is not rejected" if rejected else "is violated"))
        self.cov.setdefault("symbolic", []).append({"claim": name, "spec": spec, "invariant": inv,
                                                    "length": length, "rejected": rejected})
        self.say(f"[{self.prop}] symbolic: {name}: " + (f"rejected ({inv})" if rejected else "ok"))

    # -- conformance
    def conform(self, name, domain, cases, spec, known=None, env=None, heap="8g", shape=None,
                shards=None, chunk=20000, events=None):
        """Executes the cases and has TLC judge the recorded traces."""
        pairs = run_cases(domain, cases, self.dir, shards)
        if shape:
            pairs = [(c, shape(c, o)) for c, o in pairs]
        total = 0
        for k in range(0, len(pairs), chunk):
            total += self._judge(name, domain, pairs[k:k + chunk], spec, env, heap, events)
        self.cov["traces_validated_against_impl"] += len(pairs)
        self.cov["conformance"].append({"set": name, "domain": domain, "spec": spec,
                                        "traces": len(pairs), "states": total})
        if pairs and len(self.cov["samples"]) < 4:
            s = json.dumps(pairs[self.rng.randrange(len(pairs))][0])
            self.cov["samples"].append({"set": name, "case": s[:1500]})
        self.say(f"[{self.prop}] {name}: {len(pairs)} executions judged, {total} states")
        return pairs

    def _judge(self, name, domain, pairs, spec, env, heap, events):
        tf = os.path.join(self.dir, "traces.ndjson")
        blank = {"ev": [], "runs": [], "raw": False, "w": 0, "vals": [], "nullable": False, "bs": 1,
                 "log": [], "segs": [], "files": [], "ops": [], "kind": "", "type": "", "max": 0,
                 "mode": "free", "size": 0, "cut": True, "len": 0, "expected": 0, "common": 0}
        with open(tf, "w") as f:
            for c, o in pairs:
                o = {k: v for k, v in o.items() if k != "i"}
                if o.get("crash"):
                    o = {**blank, **o}
                f.write(json.dumps(o, separators=(",", ":")) + "\n")
        e = {"TRACE": tf, "PROP": self.prop}
        e.update(env or {})
        r = tlc(spec, "SPECIFICATION Spec\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n", env=e, heap=heap)
        for l in r.prints:
            m = re.match(r'^<<"KNOWN", "(.*)", (\d+)>>$', l)
            if m:
                # a deviation that may be listed as a known finding
                listed = known_findings(self.prop)
                if m.group(1) not in listed:
                    c, o = pairs[int(m.group(2)) - 1]
                    self.violation(f"{name}: {m.group(1)}", {"domain": domain, "spec": spec, "case": c, "observed": o})
                self.known_hits.setdefault(m.group(1), listed[m.group(1)])
        if r.violated:
            t = int(re.match(r"\d+", r.last.get("t", "1")).group(0))
            err = r.last.get("err", "?").strip('"')
            if err.startswith("TOOL"):
                raise ToolError(f"{name}: {err}: {json.dumps(pairs[t - 1])[:2000]}")
            c, o = pairs[t - 1]
            self.violation(f"{name}: {err}", {"domain": domain, "spec": spec, "case": c, "observed": o})
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        # every trace has to be consumed to its end
        if events is not None:
            want = sum(events(o) for _, o in pairs)
            if r.distinct != want:
                raise ToolError(f"{name}: {r.distinct} states instead of {want}: traces were not consumed")
        os.remove(tf)
        return r.distinct

    def finish(self):
        self.write_evidence()
        shutil.rmtree(self.dir, ignore_errors=True)

    def write_evidence(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{self.prop}.json"), "w") as f:
            json.dump({"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
                       "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2)}, f, indent=1)


# ---- known findings ---------------------------------------------------------
def known_findings(prop):
    """token -> text, for the findings recorded (not fixed) for a property"""
    out = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS")) as f:
        for line in f:
            m = re.match(r"^finding: property=(\S+) token=(\S+) (.*)$", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out
