"""Build, run and check: shared machinery of all checks (see DESIGN.md)."""
import fcntl, hashlib, json, os, queue, random, re, resource, shutil, subprocess
import sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
NPROC = 8


class ToolError(Exception):
    """The machinery itself failed: no verdict."""


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["LC_ALL"] = "C.UTF-8"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        files = []
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def _cargo(target, flags):
    e = env()
    e["CARGO_TARGET_DIR"] = target
    e["RUSTFLAGS"] = flags
    return subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "driver"),
                          env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)


def build():
    """Builds the driver from /repo's working tree; returns (path, hooks?)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_java()
        stamp = os.path.join(BUILD, "stamp.json")
        key = tree_hash(os.path.join(REPO, "src"), os.path.join(VERIF, "driver", "src")) + \
            tree_hash_files([os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "driver", "Cargo.toml")])
        target = os.path.join(BUILD, "target")
        binary = os.path.join(target, "debug", "systre-driver")
        old = None
        if os.path.exists(stamp) and os.path.exists(binary):
            old = json.load(open(stamp))
            if old.get("key") == key:
                return binary, old["hooks"]
        if old is not None or os.path.isdir(target):
            # never trust time stamps: forget the crates built from changing sources
            e = env()
            e["CARGO_TARGET_DIR"] = target
            subprocess.run(["cargo", "clean", "--offline", "--quiet", "-p", "rust-systre", "-p", "systre-driver"],
                           cwd=os.path.join(VERIF, "driver"), env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(stamp):
            os.remove(stamp)
        hooks = True
        r = _cargo(target, "--cfg verif_hooks")
        if r.returncode != 0:
            # a hook no longer compiles (private names changed): observe through the public API only
            hooks = False
            r = _cargo(target, "")
        if r.returncode != 0:
            raise ToolError("driver does not build:\n" + r.stdout[-3000:])
        json.dump({"key": key, "hooks": hooks}, open(stamp, "w"))
        return binary, hooks


def tree_hash_files(files):
    h = hashlib.sha256()
    for f in files:
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def build_java():
    src = os.path.join(VERIF, "java")
    out = os.path.join(BUILD, "classes")
    key = tree_hash(src)
    stamp = os.path.join(BUILD, "java.stamp")
    if os.path.exists(stamp) and open(stamp).read() == key:
        return out
    os.makedirs(out, exist_ok=True)
    files = [os.path.join(src, f) for f in os.listdir(src) if f.endswith(".java")]
    r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", out] + files, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("javac: " + r.stdout)
    open(stamp, "w").write(key)
    return out


class Driver:
    """One driver process; restarts after a hang or a crash of the code under test."""

    def __init__(self, binary, timeout=20.0, mem=3 << 30):
        self.binary, self.timeout, self.mem = binary, timeout, mem
        self.p = None

    def start(self):
        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (self.mem, self.mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, preexec_fn=lim, text=True, encoding="utf-8")
        self.q = queue.Queue()
        p, q = self.p, self.q

        def rd():
            for line in p.stdout:
                q.put(line)
            q.put(None)
        threading.Thread(target=rd, daemon=True).start()

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None

    def cpu(self):
        """Processor seconds of the driver process so far."""
        try:
            with open("/proc/%d/stat" % self.p.pid) as f:
                a = f.read().rsplit(")", 1)[1].split()
            return (int(a[11]) + int(a[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return float("inf")

    def call(self, rq):
        """Returns the decoded response, or {"r": "hang"} / {"r": "crash"}."""
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(rq) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        # the limit counts processor time of the driver, so that a busy machine makes no hang;
        # a call that sleeps instead of working has eight times as long
        c0, line = self.cpu(), None
        for _ in range(8):
            try:
                line = self.q.get(timeout=self.timeout)
                break
            except queue.Empty:
                if self.cpu() - c0 >= .9 * self.timeout:
                    self.stop()
                    return {"r": "hang", "v": []}
        else:
            self.stop()
            return {"r": "hang", "v": []}
        if line is None:
            rc = self.p.wait()
            err = self.p.stderr.read()
            self.p = None
            if rc == 97:
                raise ToolError("bad request: " + err + json.dumps(rq)[:500])
            return {"r": "crash", "v": []}
        return json.loads(line)


def run_driver(binary, requests, timeout=20.0, procs=NPROC):
    """Executes all requests on the real code; responses in order."""
    out = [None] * len(requests)
    procs = max(1, min(procs, len(requests) // 20 + 1))
    nxt = iter(range(len(requests)))
    lock = threading.Lock()
    fatal = []

    def work():
        d = Driver(binary, timeout)
        try:
            while not fatal:
                with lock:
                    i = next(nxt, None)
                if i is None:
                    break
                out[i] = d.call(requests[i])
        except Exception as e:
            fatal.append(e)
        finally:
            d.stop()
    ts = [threading.Thread(target=work) for _ in range(procs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if fatal:
        raise fatal[0]
    return out


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, envs=None, workers=1, heap="3g", timeout=800, extra=(), simulate=None):
    """Runs TLC; returns its output text and exit code."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta,
           "-cp", f"{os.path.join(BUILD, 'classes')}:{JARS}", "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [module]
    e = env()
    e.update(envs or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
        return r.stdout, r.returncode
    except subprocess.TimeoutExpired as ex:
        raise ToolError(f"TLC timed out on {module}: " + str(ex.stdout)[-500:])
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def brief(out):
    return "\n".join(x for x in out.splitlines() if not re.match("Parsing file|Semantic processing|Linting|Warning: Please", x))[-3000:]


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")


def stats(out):
    m = None
    for m in STATS.finditer(out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def model_check(module, cfg, workers=NPROC, heap="6g", timeout=800, envs=None, deadlock_ok=True):
    """Exhaustive check of a design-level machine: must succeed on every tree."""
    out, rc = tlc(module, cfg, envs=envs, workers=workers, heap=heap, timeout=timeout,
                  extra=["-deadlock"] if deadlock_ok else [])
    if rc != 0 or "No error has been found" not in out:
        raise ToolError(f"design model {module}/{cfg} fails:\n" + brief(out))
    gen, dist = stats(out)
    return {"module": module, "cfg": cfg, "states": dist, "transitions": gen, "out": out}


# TLC breaks long tuples over several lines
GEN = re.compile(r'^<<\s*"GEN",\s*"((?:[^"\\]|\\.)*)"\s*>>', re.M)


def generated(out):
    found = GEN.findall(out)
    if len(found) != len(re.findall(r'^<<\s*"GEN"', out, re.M)):
        raise ToolError("unreadable generated behaviour:\n" + out[-2000:])
    return [json.loads(re.sub(r"\\(.)", r"\1", x)) for x in found]


REJ = re.compile(r'^<<\s*"REJECT",\s*(\d+),\s*("(?:[^"\\]|\\.)*")\s*>>', re.M)


def small(x):
    """TLC's integers have 32 bits; larger ones become text, which equals no integer."""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x if -(1 << 31) < x < 1 << 31 else "big " + str(x)
    if isinstance(x, (list, tuple)):
        return [small(y) for y in x]
    if isinstance(x, dict):
        return {k: small(y) for k, y in x.items()}
    return x


UNJUDGED = []


def trace_check(module, events, envs=None, heap="3g", timeout=800, chunk=None, weight=None):
    """Validates recorded events against a trace specification.

    `events` is a list of groups; a group (list of event dicts) is never split.
    Returns (rejections, states): rejections = [(group index, event index, clause)].
    """
    groups = [g for g in events if g]
    idx = [i for i, g in enumerate(events) if g]
    if not groups:
        return [], 0
    w = [weight(g) if weight else len(g) for g in groups]
    nchunks = NPROC if chunk is None else max(1, chunk)
    nchunks = min(nchunks, len(groups))
    # longest-processing-time distribution
    order = sorted(range(len(groups)), key=lambda k: -w[k])
    bins = [[] for _ in range(nchunks)]
    load = [0] * nchunks
    for k in order:
        b = load.index(min(load))
        bins[b].append(k)
        load[b] += w[k]

    def job(members):
        members = sorted(members)
        where, rows = [], []
        for k in members:
            for j, e in enumerate(groups[k]):
                where.append((idx[k], j))
                rows.append(e)
        rej, states = [], 0
        base = failures = 0
        while base < len(rows):
            fd, path = tempfile.mkstemp(suffix=".ndjson", dir=BUILD)
            with os.fdopen(fd, "w") as fh:
                for r in rows[base:]:
                    fh.write(json.dumps(small(r)) + "\n")
            ev = dict(envs or {})
            ev["TRACE"] = path
            try:
                out, rc = tlc(module + ".tla", module + ".cfg", ev, workers=1, heap=heap, timeout=timeout)
            finally:
                os.remove(path)
            found = REJ.findall(out)
            if len(found) != len(re.findall(r'^<<\s*"REJECT"', out, re.M)):
                raise ToolError(f"{module}: unreadable rejection:\n" + out[-2000:])
            rej += [where[base + int(k) - 1] + (clause,) for k, clause in found]
            if "No error has been found" in out and rc == 0:
                states += stats(out)[1]
                n = stats(out)[1] - 1
                if n != len(rows) - base:
                    raise ToolError(f"{module}: consumed {n} of {len(rows) - base} events:\n" + out[-2000:])
                break
            # Evaluation failed on one event: the observation lies outside the
            # specification's domain.  That event is rejected; go on behind its group.
            ls = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
            if not ls or "OutOfMemory" in out or "StackOverflow" in out:
                raise ToolError(f"{module}: TLC failed:\n" + brief(out))
            bad = base + max(map(int, ls)) - 1
            if bad >= len(rows):
                raise ToolError(f"{module}: TLC failed:\n" + brief(out))
            msg = " ".join(x for x in out.splitlines() if "Attempted" in x or "rror" in x or "Exception" in x)[:300]
            if "Overflow when computing" in out:
                # beyond TLC's 32 bit integers: no verdict on the rest of this group
                UNJUDGED.append(where[bad])
                failures -= 1
            else:
                rej.append(where[bad] + ("evaluation: " + msg,))
            states += bad - base
            g = where[bad][0]
            while bad < len(rows) and where[bad][0] == g:
                bad += 1
            base = bad
            failures += 1
            if failures >= 8:       # enough is known: the rest is not explored
                break
        return rej, states

    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(job, bins))
    rej = sorted(set(x for r, _ in res for x in r))
    return rej, sum(st for _, st in res)


# ---------------------------------------------------------------- check context

class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.binary, self.hooks = build()
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.models = []
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.violations = []     # (signature, description, replay)
        if not self.hooks:
            self.assumptions.append("hooks did not compile: only public API observed")

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def model(self, module, cfg=None, **kw):
        r = model_check(module + ".tla", (cfg or module) + ".cfg", **kw)
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.models.append({k: r[k] for k in ("module", "cfg", "states", "transitions")})
        return r["out"]

    def drive(self, requests, **kw):
        res = run_driver(self.binary, requests, **kw)
        self.count("driver_calls", len(requests))
        return res

    def validate(self, module, groups, requests=None, label=None, **kw):
        """Trace-check groups; rejected groups become violations (replayable)."""
        rej, states = trace_check(module, groups, **kw)
        self.states += states
        self.transitions += states
        self.traces += len([g for g in groups if g])
        self.count("events:" + (label or module), sum(len(g) for g in groups))
        for g in [groups[len(groups) // 2], groups[len(groups) // 3]] if groups else []:
            if len(self.samples) < 12 and g:
                self.samples.append({"spec": module, "group": _short(g[-4:])})
        if UNJUDGED:
            self.count("unjudged (integer overflow in TLC)", len(UNJUDGED))
            UNJUDGED.clear()
        for gi, ei, clause in rej:
            if clause.startswith('"witness'):
                raise ToolError(f"{module}: certificate refused ({clause}): " + json.dumps(groups[gi])[:3000])
            self.violations.append({
                "spec": module, "clause": clause, "event": groups[gi][ei],
                "request": requests[gi] if requests else None,
            })
        return rej

    def finish(self):
        known = load_known(self.pid)
        fresh, hit = [], {}
        for v in self.violations:
            sig = signature(v)
            for k in known:
                if k["signature"] in sig:
                    hit.setdefault(k["signature"], k)
                    break
            else:
                fresh.append(v)
        for k in hit.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples[:12], "models": self.models, "counts": self.counts,
            },
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(fresh),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        text = json.dumps(ev, indent=1)
        if len(text) > 60000:
            ev["coverage"]["samples"] = [str(x)[:400] for x in self.samples[:6]]
            text = json.dumps(ev, indent=1)
        with open(os.path.join(d, self.pid + ".json"), "w") as fh:
            fh.write(text)
        if fresh:
            rd = os.path.join(d, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.pid}-{self.seed}.json")
            with open(path, "w") as fh:
                json.dump(fresh[:50], fh, indent=1)
            for v in fresh[:5]:
                print(f"  {v['spec']} rejects ({v['clause']}): {json.dumps(v['event'])[:600]}")
            print(f"{len(fresh)} rejected observation(s)")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"{self.pid}: held on everything explored "
              f"({self.states} states, {self.traces} traces, {round(time.time() - self.t0, 1)} s)")
        return 0


def _short(e, n=1800):
    t = json.dumps(e)
    return e if len(t) < n else t[:n] + "..."


def signature(v):
    return f"{v['spec']}|{v['clause']}|{json.dumps(v['event'], sort_keys=True)}"


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k["property"] == pid and k.get("status") == "known":
                    out.append(k)
    return out
