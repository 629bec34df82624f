"""Building the code under test, running cases against it, running TLC, and reporting."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NOBODY = 65534
CPUS = os.cpu_count() or 4
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class ToolError(Exception):
    pass


# ------------------------------------------------------------------------------------ scratch

_scratch = None


def scratch():
    """A directory for this run, removed at exit, in which nothing of value exists."""
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
        if base == "/dev/shm":
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 1 << 30:
                base = "/tmp"
        _scratch = tempfile.mkdtemp(prefix="vp-", dir=base)
        os.chmod(_scratch, 0o755)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def subdir(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


_drop = None
_drop_lock = threading.Lock()


def can_drop():
    """Can processes be started as an unprivileged user?"""
    global _drop
    with _drop_lock:
        if _drop is None:
            ok = False
            if os.geteuid() == 0:
                try:
                    subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[], check=True)
                    ok = True
                except Exception:
                    ok = False
            _drop = ok
        return _drop


def drop_args():
    return dict(user=NOBODY, group=NOBODY, extra_groups=[]) if can_drop() else {}


def own(path):
    """Gives a tree to the unprivileged user."""
    if not can_drop():
        return
    os.chown(path, NOBODY, NOBODY)
    for d, ds, fs in os.walk(path):
        for n in ds + fs:
            os.lchown(os.path.join(d, n), NOBODY, NOBODY)


# ------------------------------------------------------------------------------------ building

def source_hash():
    h = hashlib.sha256()
    for top in ("Cargo.toml", "Cargo.lock", "stuart", "stuart-core"):
        p = os.path.join(REPO, top)
        paths = [p]
        if os.path.isdir(p):
            paths = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", "dist"))
                paths += [os.path.join(d, f) for f in sorted(fs)]
        for q in paths:
            try:
                data = open(q, "rb").read()
            except OSError:
                continue
            h.update(q.encode() + b"\0" + hashlib.sha256(data).digest())
    return h.hexdigest()


def cargo_env(target):
    env = dict(os.environ)
    env.update(
        PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.path.expanduser("~/.cargo/bin"),
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", RUSTC_WRAPPER="", CARGO_TARGET_DIR=target, TZ="UTC",
        RUSTY_V8_ARCHIVE="/opt/vp/v8/librusty_v8.a")
    for k in ("V8_FROM_SOURCE", "V8_FORCE_DEBUG", "GN_ARGS", "RUSTFLAGS"):
        env.pop(k, None)
    return env


def cargo(name, cwd, args, clean):
    """Builds into .build/<name>, making sure that nothing stale is reused when sources changed."""
    target = os.path.join(BUILD, name)
    os.makedirs(target, exist_ok=True)
    env = cargo_env(target)
    stamp = os.path.join(target, "sources.sha256")
    now = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        if os.path.exists(stamp):
            os.remove(stamp)
        for p in clean:
            subprocess.run(["cargo", "clean", "--offline", "-p", p], cwd=cwd, env=env, capture_output=True)
    r = subprocess.run(["cargo", "build", "--offline"] + args, cwd=cwd, env=env, capture_output=True, text=True)
    if r.returncode:
        raise ToolError("build of %s failed:\n%s" % (name, r.stderr[-4000:]))
    with open(stamp, "w") as f:
        f.write(now)
    return os.path.join(target, "debug")


def build_harness():
    t = time.time()
    d = cargo("harness", os.path.join(VERIF, "harness"), [], ["stuart_core", "vharness"])
    log("harness built in %.1fs" % (time.time() - t))
    return os.path.join(d, "vharness")


def build_vcli(js=False):
    """The driver of the command line, as a command (with the command line which it drives)."""
    return [os.path.join(os.path.dirname(build_harness()), "vcli"), build_cli(js)]


def build_cli(js=False):
    t = time.time()
    d = cargo("cli-js" if js else "cli", REPO,
              ["--locked", "-p", "stuart", "--bin", "stuart"] + (["--features", "js"] if js else []),
              ["stuart_core", "stuart"])
    log("stuart built in %.1fs" % (time.time() - t))
    return os.path.join(d, "stuart")


# ------------------------------------------------------------------------------------ harness

def run_cases(exe, cases, env=None, timeout=20.0, shards=None):
    """Runs cases in the real code, in several processes.  A case which kills or hangs its process
    gets the result {"crash": ...}; the others are unaffected.  Returns the results in order."""
    results = [None] * len(cases)
    shards = shards or min(CPUS, max(1, len(cases) // 20))
    locals_ = [list(range(i, len(cases), shards)) for i in range(shards)]
    base = subdir("run")
    errors = []

    def work(k, todo):
        attempt = 0
        try:
            while todo:
                d = os.path.join(base, "s%d_%d" % (k, attempt))
                os.makedirs(d)
                own(d)
                attempt += 1
                done = run_process(exe, d, [cases[i] for i in todo], env or {}, timeout)
                shutil.rmtree(d, ignore_errors=True)
                for i, r in zip(todo, done["results"]):
                    results[i] = r
                n = len(done["results"])
                if n < len(todo):
                    results[todo[n]] = {"id": cases[todo[n]].get("id"), "crash": done["why"], "steps": []}
                    n += 1
                todo = todo[n:]
        except Exception as e:  # noqa
            errors.append(e)

    ts = [threading.Thread(target=work, args=(k, t)) for k, t in enumerate(locals_) if t]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errors:
        raise ToolError("harness: %r" % errors[0])
    return results


def run_process(exe, d, cases, env, timeout):
    exe = exe if isinstance(exe, list) else [exe]
    cmd = [d if x == "{}" else x for x in exe] if "{}" in exe else [exe[0], d, *exe[1:]]
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=d, env=env, **drop_args())
    data = "".join(json.dumps(c) + "\n" for c in cases).encode()
    err = []

    def feed():
        try:
            p.stdin.write(data)
            p.stdin.close()
        except OSError:
            pass

    def drain():
        for line in p.stderr:
            err.append(line)

    ts = [threading.Thread(target=feed, daemon=True), threading.Thread(target=drain, daemon=True)]
    [t.start() for t in ts]
    results = []
    last = [time.time()]
    hung = []

    def watch():
        while p.poll() is None:
            if time.time() - last[0] > timeout:
                hung.append(1)
                p.kill()
                return
            time.sleep(0.2)

    w = threading.Thread(target=watch, daemon=True)
    w.start()
    for line in p.stdout:
        results.append(json.loads(line))
        last[0] = time.time()
    p.wait()
    ts[1].join(1)
    why = "hang" if hung else "exit %s %s" % (p.returncode, b"".join(err)[-300:].decode("utf-8", "replace"))
    if len(results) < len(cases) and p.returncode == 101 and b"harness" in b"".join(err):
        raise ToolError(why)
    return {"results": results, "why": why}


# ------------------------------------------------------------------------------------ TLC

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Tlc:
    """The outcome of one TLC run."""

    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        # Every state generated is the target of a transition, except the initial ones.
        i = re.search(r"Finished computing initial states: (\d+) (?:distinct )?state", out)
        self.initial = int(i.group(1)) if i else 1
        self.violated = re.findall(r"(?:Invariant|Temporal properties|Action property|property) ?(\S*) (?:is|was|were) violated", out)
        self.clean = "Model checking completed. No error has been found." in out

    def lines(self, prefix):
        """What PrintT printed: strings starting with the prefix, unquoted."""
        r = []
        for l in self.out.split("\n"):
            if l.startswith('"' + prefix):
                r.append(unquote(l)[len(prefix):])
        return r

    def json_lines(self, prefix):
        return [json.loads(x) for x in self.lines(prefix)]


def unquote(l):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(m.group(1), m.group(1)), l[1:-1])


def tlc(module, cfg=None, env=None, workers=None, args=(), timeout=800, heap="4g", check=True, fast=False):
    """Runs TLC on /verif/spec/<module>.tla.  With check, anything but a clean end is a ToolError."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    gc = "-XX:+UseParallelGC"
    cmd = ["java", gc, "-XX:TieredStopAtLevel=" + ("1" if fast else "4"), "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + meta, "-Dtlc2.TLC.ide=vp", "-cp", JARS,
           "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers or CPUS),
           "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s: timeout" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode("utf-8", "replace")
    res = Tlc(out, r.returncode)
    log("TLC %s/%s: %d states, %d transitions in %.1fs" % (module, cfg or module, res.distinct, res.generated, time.time() - t))
    if check and not res.clean:
        raise ToolError("TLC on %s/%s did not end cleanly:\n%s" % (module, cfg, out[out.find("Error:"):][:2500]))
    return res


def validate(module, rows, name, per_shard=1500, cfg=None, env=None, heap="3g", timeout=800, most=max(1, CPUS // 4), workers=4):
    """Validates observations (one initial state each) with a few TLC processes (many
    workers contend).  Returns the combined run."""
    n = max(1, min(most, len(rows) // per_shard))
    outs, errors = [None] * n, []

    def work(k):
        try:
            part = rows[k::n]
            path = write_ndjson(os.path.join(scratch(), "%s-%d.ndjson" % (name, k)), part)
            e = dict(env or {})
            e["CASES"] = path
            r = tlc(module, cfg=cfg, env=e, workers=workers, heap=heap, timeout=timeout, fast=True)
            if r.initial != len(part):
                raise ToolError("%s: TLC read %d of %d cases" % (module, r.initial, len(part)))
            outs[k] = r
        except Exception as e:  # noqa
            errors.append(e)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errors:
        raise errors[0]
    total = outs[0]
    for o in outs[1:]:
        total.out += "\n" + o.out
        total.generated += o.generated
        total.distinct += o.distinct
        total.initial += o.initial
    return total


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, ensure_ascii=False) + "\n")
    return path


# ------------------------------------------------------------------------------------ reporting

class Check:
    """One run of the check of one property."""

    def __init__(self, prop, technique_level="model_checking"):
        self.prop, self.level = prop, technique_level
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.known, self.parts = [], [], [], {}
        self.assumptions = []
        self.exhaustive_parts = []
        self.seen = set()

    def model(self, name, res, note=""):
        self.states += res.distinct
        self.transitions += max(0, res.generated - res.initial)
        self.parts[name] = {"states": res.distinct, "transitions": max(0, res.generated - res.initial), "note": note}

    def validated(self, name, n, note=""):
        self.traces += n
        p = self.parts.setdefault(name, {})
        p["cases"] = p.get("cases", 0) + n
        if note:
            p["note"] = note

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, what, replay):
        """Records one violation with everything needed to see it again."""
        key = hashlib.sha256(json.dumps(replay, sort_keys=True, default=str).encode()).hexdigest()[:10]
        if key in self.seen:
            return
        self.seen.add(key)
        for k in known_findings():
            if k["property"] == self.prop and k.get("match") and re.search(k["match"], what):
                if k["what"] not in self.known:
                    self.known.append(k["what"])
                return
        if len(self.violations) < 20:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (self.prop, key))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "what": what, "replay": replay}, f, indent=1, default=str, ensure_ascii=False)
            self.violations.append((what, path))
        else:
            self.violations.append((what, self.violations[0][1]))

    def finish(self):
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "samples": self.samples, "parts": self.parts},
            "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, path in self.violations[:10]:
            print("# " + what.replace("\n", " ")[:400])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        log("%s: %d states, %d transitions, %d traces, %d violations" % (
            self.prop, self.states, self.transitions, self.traces, len(self.violations)))
        sys.stdout.flush()
        return 1 if self.violations else 0


def known_findings():
    """Lines of known-findings.txt: "known: property=<id> match=<regex> what=<what fails>"."""
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*)/ what=(.*)$", l.strip())
            if m:
                r.append({"property": m.group(1), "match": m.group(2), "what": m.group(3)})
    return r
