"""C21-C23: the development server (Dev.tla, DevGen.tla, Serve.tla)."""
import json, os, random, re, subprocess, sys
import core, site_model as site
from site_model import *
from checks_site import ROOT, MDT, T, rng_for, distinct, proper_dirs
from urllib.parse import quote

DRIVER = os.path.join(os.path.dirname(os.path.abspath(__file__)), "dev_driver.py")


def driver():
    """The driver's command line, and how many may run at a time."""
    exe = core.build_vcli()[1]
    own = ["unshare", "-Urn", "--"]
    ok = subprocess.run(own + ["true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **core.drop_args()).returncode == 0
    cmd = [sys.executable, DRIVER, "{}", exe]
    return (own + cmd, core.CPUS) if ok else (cmd, 1)


def run_dev(cases, timeout=120):
    exe, n = driver()
    rs = core.run_cases(exe, cases, env={"PATH": "/usr/bin:/bin"}, timeout=timeout, shards=min(n, len(cases)))
    for c, r in zip(cases, rs):
        if str(r.get("crash", "")).startswith("driver:"):
            raise core.ToolError("%s: %s" % (c["id"], r["crash"]))
    return rs


HOLD = """echo "%(which)s $STUART_ENV %(does)s" >> "$VLOG/builds"
if [ -e "$VLOG/hold-%(which)s" ]; then
  : > "$VLOG/at-%(which)s"
  while [ -e "$VLOG/hold-%(which)s" ]; do sleep 0.01; done
fi
exit %(code)s
"""


def dscript(which, does="ok"):
    o = script(which, does)
    o["text"] = HOLD % {"which": which, "does": does, "code": 3 if does == "fail" else 0}
    return o


def devuniverse(uid, slots, rounds, during=(), browsers=(), out="dist", abs=False, configs=(), **kw):
    """rounds: (acts, slots) pairs."""
    c = site.build(out, env="development", abs=abs)
    o = resolved(([] if abs else PROJ) + c["path"])
    u = universe(uid, slots, [], outs=[o], **kw)
    u["rounds"] = [{"acts": a.split(), "slots": list(s)} for a, s in rounds]
    u.update(dev=c, during=list(during), browsers=list(browsers), most=2, configs=list(configs))
    return u


def resolved(p):
    return [x for x in os.path.normpath("/".join(p)).split("/")]


def outdir(u):
    return "/".join(resolved(([] if u["dev"]["abs"] else PROJ) + u["dev"]["path"]))


def target(path):
    return "/" + "/".join(quote(x) for x in path)


def published(e, u):
    return {tuple(p): s for o, t in e["outs"] if "/".join(o) == outdir(u) for p, s in (t[0] if t else [])}


def requests(e, u, before):
    """Request targets for every published file, in its short form too, and for all which have been published before."""
    now = published(e, u)
    ts = []
    for p in sorted(set(now) | before):
        ts.append((target(p), p))
        if p[-1] == "index.html":
            ts.append((target(p[:-1] + ("",)), p))
    before |= set(now)
    return ts


def dev_case(cid, u, trace, decoys=True, stop=True, watch=False):
    """watch: the browsers are watched while an edit is built, in its scripts and until it is over."""
    ch = list(u["base"])
    args = []
    if outdir(u) != "/".join(PROJ + ["dist"]):
        args = ["-o", ("@/" if u["dev"]["abs"] else "") + "/".join(u["dev"]["path"])]
    cwd = "/".join(PROJ)
    if u.get("elsewhere"):
        args, cwd = args + ["--manifest-path", PROJ[-1] + "/stuart.toml"], "/".join(PROJ[:-1])
    start = {"op": "start", "args": args, "flags": FLAGS[u.get("say", "")], "cwd": cwd, "env": {"VLOG": "@/log"}}
    steps = [place([{"p": d, "dir": True} for d in BASE_DIRS] + ([dict(d, p=p) for p, d in DECOYS.items()] if decoys else [])
                   + u["extra"] + edits_between(u, None, ch))]
    steps.append(start)
    before = set()
    expect = [None, None]

    def add(step, want=None):
        steps.append(step)
        expect.append(want)

    def edit(ops, hot=False):
        add(dict(place(ops), op="edit", stop=not hot and (stop or len(ops) > 1)))

    up, last, conf = [], None, None
    scripted = any(o["k"] == "script" for s in u["slots"] for o in s["opts"])
    for n, e in enumerate(trace):
        if e["a"] == "edit":
            after = next(o for o in trace[n:] if o["a"] == "obs")
            held = [at for at in ("pre", "post") if watch and scripted and after["ok"] and e["plan"] == "" and (hash_(cid) + n) % 3]
            to = list(ch)
            to[e["slot"] - 1] = e["opt"]
            if e["plan"] == "flood":
                add(dict(place(edits_between(u, ch, to)), op="edit", stop=True, flood=outdir(u)))
                ch = to
                continue
            if e["plan"]:
                add({"op": "hold", "at": e["plan"]})
            for k in held:
                add({"op": "hold", "at": k})
            edit(edits_between(u, ch, to))
            ch = to
            for k in held:
                seen = last if k == "pre" else after
                add({"op": "held", "at": k}, "held")
                add({"op": "told"}, "same")
                ts = requests(seen, u, set())
                add({"op": "http", "raw": [t for t, _ in ts]}, ("shown", ts, seen))
                add({"op": "release", "at": k})
            if watch and after["ok"] and e["plan"] == "" and up:
                ts = requests(after, u, set())
                add({"op": "reload", "c": str(up[n % len(up)]), "raw": [t for t, _ in ts]}, ("shown", ts, after))
        elif e["a"] == "two":
            to = list(ch)
            to[e["s"] - 1], to[e["t"] - 1] = e["o"], e["p"]
            edit(edits_between(u, ch, to))
            ch = to
        elif e["a"] == "during":
            to = list(ch)
            to[e["slot"] - 1] = e["opt"]
            add({"op": "held", "at": e["at"]}, "held")
            add({"op": "told"}, "told")
            edit(edits_between(u, ch, to), hot=True)
            add({"op": "release", "at": e["at"]})
            ch = to
        elif e["a"] == "temp":
            add(dict(place([dict(data_of(e["f"]), p="temp/" + "/".join(e["f"]["p"]))]), op="edit"))
            add({"op": "wait"}, "wait")
        elif e["a"] == "config":
            conf = u["configs"][e["k"] - 1]
            add(dict(place([{"p": "stuart.toml", "s": conf} if conf is not None else {"p": "stuart.toml", "rm": True}]), op="edit"))
            add({"op": "wait"}, "wait")
        elif e["a"] == "connect":
            add({"op": "connect", "c": str(e["b"])}, ("connect", e["b"]))
            up.append(e["b"])
        elif e["a"] == "leave":
            how = ("close", "abort", "frame", "half", "silent")[(len(steps) + e["b"] + hash_(cid)) % 5]
            add({"op": "close", "c": str(e["b"]), "how": how})
            up.remove(e["b"])
        elif e["a"] == "obs":
            add({"op": "wait"}, "wait")
            add({"op": "told"}, "told")
            ts = requests(e, u, before)
            add({"op": "http", "raw": [t for t, _ in ts]}, ("http", ts))
            add({"op": "said"}, "said")
            add({"op": "snap"}, ("obs", e, list(ch), conf))
            last = e
    add({"op": "wait"}, "wait")
    add({"op": "stop"})
    return {"id": cid, "steps": steps, "_expect": expect}


def expectations(c, trace):
    """The case's expectations, with another history's observations."""
    obs = iter([e for e in trace if e["a"] == "obs"])
    return dict(c, _expect=[("obs", next(obs)) + w[2:] if isinstance(w, tuple) and w[0] == "obs" else w for w in c["_expect"]])


def hash_(s):
    return sum(s.encode())


def builds_of(snap):
    return dict((p, b) for p, b in snap).get("log/builds", "").splitlines()


def compare_dev(u, trace, case, r, decoys=True):
    """The first disagreement, or None."""
    if "crash" in r:
        return "the driver ended: " + str(r["crash"])
    up, first = {}, {}  # browsers which are connected; successes when they connected
    scripted = any(o["k"] == "script" for s in u["slots"] for o in s["opts"])
    wins = 0
    told = {}
    for k, (st, x, want) in enumerate(zip(case["steps"], r["steps"], case["_expect"])):
        if st["op"] == "start":
            if not x["up"]:
                return "the server does not start: code %s" % x.get("code")
            if not x["idle"]:
                return "the server keeps building after it has started"
        elif want == "wait":
            if not x["alive"]:
                return "the server has ended"
            if not x["idle"]:
                return "the server keeps building"
        elif want == "held":
            if not x["held"]:
                return "no build after an edit"
        elif isinstance(want, tuple) and want[0] == "connect":
            if x is not True:
                return "no web socket: %s" % x
            up[want[1]] = True
            first[want[1]] = None
            told[str(want[1])] = [0, []]
        elif st["op"] == "close":
            up.pop(int(st["c"]), None)
        elif want == "told":
            told = x
        elif want == "said":
            said = x
        elif want == "same":
            for b in up:
                if x[str(b)] != told[str(b)] if str(b) in told else x[str(b)] != [0, []]:
                    return "browser %d has received %s before the build is over" % (b, x[str(b)])
        elif isinstance(want, tuple) and want[0] == "shown":
            d = compare_http(want[1], x, published(want[2], u))
            if d:
                return ("when told to reload: " if st["op"] == "reload" else "while a build is held: ") + d
        elif isinstance(want, tuple) and want[0] == "http":
            now = x
            ts = want[1]
        elif isinstance(want, tuple) and want[0] == "obs":
            e = want[1]
            d = compare_obs(u, e, want[2], x, decoys, want[3])
            if d:
                return d
            if not e["ok"] and "error" not in said:
                return "a build which failed is not reported: %r" % said[-300:]
            d = u.get("say") == "q" and too_loud(e["ok"], "", said)
            if d:
                return d
            pub = published(e, u)
            if {p for _, p in ts} < set(pub):
                return "not requested"
            d = compare_http(ts, now, pub)
            if d:
                return d
            if scripted:
                log = builds_of(x)
                for l in log:
                    if l.split()[1] != "development":
                        return "STUART_ENV is %s" % l
                n = sum(1 for l in log if l.startswith("post ") and l.endswith(" ok"))
                if any(o["k"] == "script" and o["which"] == "post" for s in u["slots"] for o in s["opts"]):
                    for b in up:
                        if first[b] is None:
                            first[b] = wins
                        if told[str(b)][0] != n - first[b]:
                            return "browser %d was told %d times to reload, after %d successful builds" % (b, told[str(b)][0], n - first[b])
                    wins = n
            for b in up:
                if told[str(b)][1]:
                    return "browser %d received %s" % (b, told[str(b)][1])
                if not scripted and first[b] is None:
                    first[b] = 0
                if not scripted:
                    if e["ok"] and told[str(b)][0] <= first[b]:
                        return "browser %d was not told to reload" % b
                    if not e["ok"] and told[str(b)][0] != first[b]:
                        return "browser %d was told to reload after a build which failed" % b
                    first[b] = told[str(b)][0]
        elif st["op"] == "stop" and "panicked" in x["log"]:
            return "panic: " + x["log"][x["log"].find("panicked"):][:300]
    return None


def compare_http(ts, answers, pub):
    if answers is None:
        return "no reload"
    for (t, p), a in zip(ts, answers):
        if p in pub:
            b = norm({"x": pub[p][4:]}) if pub[p].startswith("hex:") else pub[p]
            got = {"x": a["x"]} if "x" in a else a.get("s")
            if a["status"] != 200 or got != b:
                return "GET %s: specified %r, served %s %r" % (t, b, a["status"], got)
        elif a["status"] != 404:
            return "GET %s: specified 404, served %s" % (t, a["status"])
    return None


def compare_obs(u, e, ch, snap, decoys, conf=None):
    o = outdir(u)
    t = {"/".join(p): t for p, t in e["outs"]}[o]
    d = diff(want_tree(t), tree(snap, o))
    if d:
        return "output: " + d
    mtext = dict((p, b) for p, b in snap).get(at("metadata.json"))
    got = None if mtext is None else parse_meta(mtext)
    wm = e["meta"][0] if e["meta"] else None
    if got != wm:
        return "metadata: " + diff_rows(wm, got)
    wt, gt = files_of(e["temp"]), tree(snap, at("temp"))
    if (gt or {}) != wt:
        return "temp: %s" % diff(wt, gt)
    want = {at(p): norm(d) for p, d in sources(u, ch).items()}
    want.update({at(p): norm(d) for p, d in (DECOYS if decoys else {}).items()})
    want.update({at(x["p"]): norm(x) for x in u["extra"] if not x.get("dir")})
    if conf is not None:
        want[at("stuart.toml")] = conf
    rest = {p: b for p, b in snap if b is not None and not p.startswith(o + "/") and not p.startswith("log/")
            and p != at("metadata.json") and not p.startswith(at("temp/"))}
    d = diff(want, rest)
    return "the project: " + d if d else None


def histories(chk, name, universes, drains):
    path = core.write_ndjson(os.path.join(core.scratch(), "%s-%s.ndjson" % (name.replace(" ", "-"), drains)), universes)
    res = core.tlc("DevGen", env={"SITE": path, "DRAINS": drains}, fast=True)
    by = {}
    for h in res.json_lines("HISTORY "):
        by.setdefault((h["id"], key([e for e in h["trace"] if e["a"] != "obs"])), []).append(h["trace"])
    return res, by


LOST = "an edit made while the post-build script runs is not published"


def run(chk, name, universes, note, limit=None, stop=True, watch=False):
    res, by = histories(chk, name, universes, "no")
    chk.model(name, res, note)
    us = {u["id"]: u for u in universes}
    hs = sorted(by.items())
    total = len(hs)
    if limit and total > limit:
        random.Random(core.SEED).shuffle(hs)
        hs = hs[:limit]
    cases = [dev_case("%s/%d" % (i, n), us[i], ts[0], stop=stop or n % 2 == 0, watch=watch) for n, ((i, _), ts) in enumerate(hs)]
    rs = run_dev(cases)
    lossy = None
    for ((i, k), ts), c, r in zip(hs, cases, rs):
        if r.get("skipped"):
            continue
        ds = []
        for t in ts:  # expectations differ only in their observations
            ds.append(compare_dev(us[i], t, expectations(c, t), r))
        if not all(ds):
            continue
        text = "%s: %s" % (c["id"], " / ".join(ds))
        if any(e["a"] == "during" and e["at"] == "post" for e in ts[0]):
            # is it exactly what forgetting such edits gives?
            if lossy is None:
                _, lossy = histories(chk, name, [u for u in universes], "yes")
            for t in lossy.get((i, k), []):
                if not compare_dev(us[i], t, expectations(c, t), r):
                    text = "%s: %s" % (LOST, c["id"])
        c = {k: v for k, v in c.items() if k != "_expect"}
        chk.violation(text, {"case": c, "specified": ts, "observed": r})
    chk.validated(name, len(hs), note + (" (%d of %d, at random)" % (len(hs), total) if len(hs) < total else ""))
    chk.sample({"part": name, "history": hs[len(hs) // 2][1][0][:12]})


# ------------------------------------------------------------------------------------ C21

def dev_slots(scripts=True, meta=True):
    """Sources which build, and failures of every phase."""
    root = [files(ROOT, MDT), files(F("root.html", "R2", env=True), MDT), files(MDT), files(F("root.html", "R", bad="parse"), MDT), files(ROOT, F("md.html", "M", bad="process"))]
    page = [files(F("p.html", "p1")), files(F("p.html", "p2")), NONE, files(F("p.html", "p", bad="process", how="var")), files(F("p.html", "p", bad="parse", how="utf8")),
            files(F("p/index.html", "moved")), files(F("q.html", "p1"))]
    mdp = [files(F("d/m.md", "m1", t="t1")), files(F("d/m.md", "m2", t="t2")), files(F("d/e/n.md", "m1", t="t1")), files(F("d/m.md", "m", t="t", bad="parse", how="front"))]
    data = [files(F("data.json", "j1"), F("z/i.html", "i", imp=True)), files(F("data.json", "j2"), F("z/i.html", "i", imp=True)), files(F("z/i.html", "i", imp=True))]
    stat = [files(F("s.txt", "s1", "static")), files(F("s/t.bin", "hex:00ff", "static")), files(F("p/index.html", "clash", "static")), NONE,
            files(F("temp/m.txt", "m", "static"), F("metadata.json", "{}", "static"), F("stuart.toml", "c1", "static"), F("dist/i.txt", "i", "static")),
            files(F("temp/m.txt", "n", "static"), F("metadata.json", "[]", "static"), F("stuart.toml", "c2", "static"), F("dist/i.txt", "k", "static"))]
    names = [NONE, files(F("temp/m.html", "m"), F("metadata.json", "1"), F("stuart.toml", "c1"), F("d/stuart.toml", "c1"), F("dist/i.txt", "i")), files(F("stuart.toml", "c2")), files(F("d/stuart.toml", "c1")),
             files(F("temp/m.html", "n")), files(F("dist/i.txt", "k"))]
    slots = [[manifest(meta=meta)], root, page, mdp, data, stat, names]
    if scripts:
        slots += [[dscript("pre"), dscript("pre", "fail")], [dscript("post"), dscript("post", "fail")]]
    return slots


CONFIGS = ["[site]\nname = \"other\"\n\n[settings]\nstrip_extensions = false\nsave_data_files = true\n", "not a manifest = [\n", ""]


def C21(chk):
    deep = core.THOROUGH
    slots = dev_slots()
    all_ = list(range(2, len(slots) + 1))
    # the design converges, under all interleavings; forgetting edits does not
    small = [[manifest()], [T], [files(F("p.html", "p1")), files(F("p.html", "p2")), files(F("p.html", "p", bad="process"))], [dscript("pre"), dscript("pre", "fail")], [dscript("post"), dscript("post", "fail")]]
    free = devuniverse("free", small, [], browsers=[1, 2] if deep else [1])
    free["most"] = 4 if deep else 3
    path = core.write_ndjson(os.path.join(core.scratch(), "free.ndjson"), [free])
    res = core.tlc("Dev", cfg="DevFree", env={"SITE": path, "DRAINS": "no"}, fast=True)
    chk.model("convergence", res, "all interleavings of up to %d edits with the server's steps, under weak fairness" % free["most"])
    bad = core.tlc("Dev", cfg="DevFree", env={"SITE": path, "DRAINS": "yes"}, fast=True, check=False)
    if bad.clean:
        raise core.ToolError("Dev: forgetting edits is not detected")
    e = [("edit", all_)]
    us = [devuniverse("edits", slots, e * 2),
          devuniverse("two at once", slots, [("two", all_)] + ([("edit", all_)] if deep else [])),
          devuniverse("while pre-build", slots, [("pre", [2, 3, 6]), ("edit", [3])] if deep else [("pre", [3, 6])], during=[2, 3, 4, 5, 6]),
          devuniverse("while post-build", slots, [("post", [2, 3]), ("edit skip", [3])] if deep else [("post", [3]), ("edit skip", [4])], during=[2, 3, 4] if deep else [3, 4]),
          devuniverse("from a failure", slots, e * 2, base=[1, 3, 4, 1, 1, 1, 1, 1, 1]),
          devuniverse("from a failing script", slots, e * 2, base=[1, 1, 1, 1, 1, 1, 1, 2, 2]),
          devuniverse("the manifest", slots, [("config edit", [3])] * 2 + [("edit", [3, 6])] * (2 if deep else 1), configs=CONFIGS),
          devuniverse("missed events", slots, [("flood", [3, 5, 6]), ("edit", [3])] if deep else [("flood", [3])]),
          ]
    run(chk, "edits", us, "edits which build and which fail in every phase, one after the other, at once, and while scripts run", limit=6000 if deep else 700, stop=False)
    plain = dev_slots(scripts=False)
    temps = [F("t.txt", "t", "temp"), F("u/v.bin", "hex:ff", "temp")]
    out = [devuniverse("output %s" % o, plain, [("edit temp", [2, 3, 6, 7])] * 2, temps=temps, out=o.lstrip("@"), abs=o.startswith("@")) for o in ("dist", "out", "./content/../public", "../site", "@w/w/proj/o", "c", "stat", "scr", "te", "metadata.json.d", "@elsewhere", "@w/w/proj/../x")]
    out[1]["elsewhere"] = out[3]["elsewhere"] = True
    out += [devuniverse("no metadata", dev_slots(False, False), [("edit temp", [2, 3, 6])] * 2, temps=temps)]
    run(chk, "outputs", out, "output directories inside and outside the project, metadata, and temp", limit=2000 if deep else 240)
    chk.assumptions += ["each edit of a file is one renaming: a file which is seen half written is published half written, and may stay so (see the known finding)",
                        "the manifest, the set of scripts and the plugins are those at the start of the server"]


# ------------------------------------------------------------------------------------ C22

NODE = """
const vm = require('vm'), src = JSON.parse(require('fs').readFileSync(0, 'utf8'));
const out = {urls: [], reloads: []};
let n = 0; const socks = [];
class WebSocket { constructor(u) { out.urls.push(u); this.l = {}; socks.push(this); }
  addEventListener(k, f) { (this.l[k] = this.l[k] || []).push(f); } send() {} close() {} }
const location = {host: src.host, hostname: 'h', protocol: 'http:', port: '1', reload() { n++; }};
const window = {location, WebSocket}; const g = {WebSocket, location, window, document: {location}, console, setTimeout() {}, setInterval() {}};
const fire = (k, e) => socks.forEach(s => { if (s['on' + k]) s['on' + k](e); (s.l[k] || []).forEach(f => f(e)); });
try {
  for (const s of src.scripts) vm.runInNewContext(s, g);
  out.reloads.push(n); fire('open', {}); out.reloads.push(n);
  fire('message', {data: 'reload'}); out.reloads.push(n); fire('message', {data: 'reload'}); out.reloads.push(n);
} catch (e) { out.error = String(e); }
console.log(JSON.stringify(out));
"""


def script_run(chk):
    """What a browser does with a served page: the script in it connects, and reloads once per message."""
    u = devuniverse("page", [[manifest()], [T], [files(F("p.html", "<html><body>x</body></html>"))]], [])
    c = dev_case("page", u, [])
    c["steps"][2:2] = [{"op": "wait"}, {"op": "http", "raw": ["/p/"]}]
    r = run_dev([c])[0]
    page = r["steps"][3][0].get("s", "")
    scripts = re.findall(r"<script>(.*?)</script>", page, re.S)
    try:
        o = subprocess.run(["node", "-e", NODE], input=json.dumps({"scripts": scripts, "host": "somewhere:6904"}), capture_output=True, text=True, timeout=60)
    except OSError:
        chk.assumptions.append("Node is not available: the served script is not run")
        return
    if o.returncode:
        raise core.ToolError("node: " + o.stderr[-500:])
    got = json.loads(o.stdout)
    if got != {"urls": ["ws://somewhere:6904/__ws"], "reloads": [0, 0, 1, 2]}:
        chk.violation("the script of a page does not reload it once per message: %s" % got, {"page": page, "observed": got})
    chk.validated("script", 1, "the script of a served page, run with a stand-in for the browser")


def C22(chk):
    deep = core.THOROUGH
    page = [files(F("p.html", "p1")), files(F("p.html", "p2")), files(F("p.html", "p", bad="process"))]
    slots = [[manifest()], [T], page, [dscript("pre"), dscript("pre", "fail")], [dscript("post"), dscript("post", "fail")]]
    free = devuniverse("free", slots[:3] + [slots[3][:1], slots[4]], [], browsers=[1, 2])
    free["most"] = 5 if deep else 4
    path = core.write_ndjson(os.path.join(core.scratch(), "free.ndjson"), [free])
    res = core.tlc("Dev", cfg="DevTold", env={"SITE": path, "DRAINS": "no"}, fast=True)
    chk.model("broadcast", res, "all interleavings of up to %d edits, arrivals and departures with the server's steps" % free["most"])
    any_ = "connect leave edit"
    us = [devuniverse("any", slots, [(any_, [3])] * (7 if deep else 6), browsers=[1, 2, 3]),
          devuniverse("departures", slots, [("connect", [])] * 4 + [("leave", [])] + [("leave edit", [3])] * 2 + [("edit", [3])] * 3, browsers=[1, 2, 3, 4]),
          devuniverse("departures between", slots, [("connect", [])] * 3 + [("leave edit", [3])] * 4 + [("connect", []), ("edit", [3]), ("edit", [3])], browsers=[1, 2, 3]),
          devuniverse("failures", slots, [("connect", [])] + [("edit", [3, 4, 5])] * (5 if deep else 4), browsers=[1]),
          devuniverse("a start which fails", slots, [("connect", [])] + [("edit connect", [3, 4, 5])] * 3, browsers=[1, 2], base=[1, 1, 3, 1, 1]),
          devuniverse("many", slots, [("connect", [])] * 9 + [("leave", [])] * 2 + [("edit", [3])] * 3, browsers=list(range(1, 10))),
          devuniverse("without scripts", slots[:3], [("connect", [])] + [(any_, [3])] * 4, browsers=[1, 2])]
    script_run(chk)
    run(chk, "browsers", us, "browsers which come and go in different ways, and edits which build or fail", limit=8000 if deep else 800, watch=True)


# ------------------------------------------------------------------------------------ C23

TREE = ["index.html", "a.html", "d/index.html", "d/b.css", "d/d/x", "e/c", "f/index.html/y.txt", "é.txt", "a b.txt", "p%61.txt", "q?r.txt", ".h", "a.", "d.d", "%2e%2e", "A.html", "__ws", "stuart.toml/in.txt"]
EXTS = "html htm css js mjs txt bmp gif jpeg jpg png webp svg ico json pdf zip mp4 ogv webm ttf otf woff woff2 HTML xml md wasm tar.gz html.txt x_y unknown".split()
PIECES = ["/", "a", "d", ".html", "..", ".", "%2F", "%2e", "%61", "index.html", "%", "?", "stuart.toml", "é", "e"]
MORE = ["%C3%A9", "%c3", "%00", "%25", "%3F", "%20", "%5c", "\\", ":", "#", "%2f..", ".txt", "p", "c", "x", "%zz", "x/", "%0a", "+", "~"]
BODIES = ["</body>", "</bod", "y>", "<", "x", "</BODY>", "\n", "é", "</body >"]
GARBAGE = ["GET\r\n\r\n", "\r\n\r\n", "FOO / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nbad\r\n\r\n", "GET / HTTP/1.1\r\nContent-Length: x\r\n\r\n",
           "GET / HTTP/1.1\r\nContent-Length: 5\r\n\r\nab", "GET %s HTTP/1.1\r\n\r\n" % ("/a" * 40000), "GET /\xff HTTP/1.1\r\n\r\n", "", "G", "GET / HTTP/1.1\r\nHost:",
           "GET /__ws HTTP/1.1\r\nUpgrade: websocket\r\n\r\n", "GET /__ws HTTP/1.1\r\nUpgrade: websocket\r\nSec-WebSocket-Key: x\r\n\r\n",
           "GET /a.html HTTP/1.1\r\nUpgrade: websocket\r\nSec-WebSocket-Key: x\r\n\r\n", "GET / HTTP/1.1\r\nX-Forwarded-For: nonsense\r\n\r\n", "GET / HTTP/1.1\r\n: \r\n\r\n"]


def served_case(cid, contents, ts, out="dist", extra=()):
    """A project whose static files are the given ones, and requests."""
    fs = [{"p": d, "dir": True} for d in BASE_DIRS] + [dict(d, p=p) for p, d in DECOYS.items()]
    fs += [{"p": "stuart.toml", "s": manifest_text(manifest())}, {"p": "secret.txt", "s": "SECRET"}, {"p": "../../secret.txt", "s": "SECRET"}]
    fs += [dict({"p": "static/" + p}, **({"x": b.hex()} if isinstance(b, bytes) else {"s": b})) for p, b in contents.items()]
    steps = [place(fs), {"op": "start", "args": ["-o", out], "cwd": "/".join(PROJ), "env": {"VLOG": "@/log"}}]
    steps += list(extra)
    steps += [{"op": "http", "raw": list(ts)}, {"op": "wait"}, {"op": "stop"}]
    return {"id": cid, "steps": steps}


def C23(chk):
    deep = core.THOROUGH
    rng = rng_for(chk, "serve")
    some = rng.sample(MORE, 6)
    given = [{"files": [p.split("/") for p in TREE], "pieces": PIECES + some if deep else PIECES, "max": 4, "texts": BODIES, "tmax": 5 if deep else 4},
             {"files": [p.split("/") for p in TREE], "pieces": MORE + ["/", "d", "a", ".html", "é", "%C3", "%A9"] + (PIECES if deep else []), "max": 3, "texts": [], "tmax": 0},
             {"files": [p.split("/") for p in TREE], "pieces": some + ["/", "..", "d", "%2E", "%2f"], "max": 5 if deep else 4, "texts": [], "tmax": 0},
             {"files": [["d", "x." + e] for e in EXTS] + [["d", "X.Y", "z"], ["d", "noext"]], "pieces": ["d", "/"], "max": 2, "texts": [], "tmax": 0}]
    path = core.write_ndjson(os.path.join(core.scratch(), "serve.ndjson"), given)
    res = core.tlc("Serve", env={"SERVE": path})
    chk.model("answers", res, "all request targets of up to %d pieces over an output directory, and all texts of up to %d pieces" % (given[0]["max"], given[0]["tmax"]))
    targets, texts, fs = res.json_lines("TARGET "), res.json_lines("TEXT "), res.json_lines("FILE ")
    byfile = {}
    for f in fs:
        byfile.setdefault(f["i"], []).append(f)
    # content
    def bytes_of(i, p):
        return "file %d %s" % (i, p)
    cases, wants = [], []
    # the script which is inserted, as the server shows it
    probe = run_dev([served_case("probe", {"probe.html": "</body>"}, ["/probe.html"])])[0]
    page = probe["steps"][-3][0].get("s") or ""
    if not (page.endswith("</body>") and page.startswith("<script>") and page.endswith("</script></body>") and page.count("</body>") == 1):
        chk.violation("</body> is served as %r" % page, {"observed": probe})
        return
    mark = page[:-len("</body>")]
    outs = ["dist", "o", "../elsewhere", "content/../p"]
    for i, g in enumerate(given, 1):
        contents = {"/".join(f): bytes_of(i, "/".join(f)) for f in g["files"]}
        mine = [t for t in targets if t["i"] == i]
        per = max(1, (len(mine) + 7) // 8)
        for a in range(0, len(mine), per):
            chunk = mine[a:a + per]
            ts = [("/" + t["t"], t["a"], t["r"]) for t in chunk]
            if a == 0:
                ts += [("/" + f["t"], {"s": 200, "p": f["p"], "type": f["type"]}, False) for f in byfile[i]]
            extra = [{"op": "garbage", "raw": GARBAGE}] if a == 0 else []
            cases.append(served_case("targets %d/%d" % (i, a), contents, [t for t, _, _ in ts], out=outs[(a // per) % len(outs)], extra=extra))
            wants.append([(t, x, r, (bytes_of(i, "/".join(x["p"])) if x["s"] == 200 else None)) for t, x, r in ts])
    # texts: in files of different types
    binary = [b"\xff\x00</body>\xfe</body>", b"\x00" * 70000 + b"</body>" + b"\x80" * 70000, b"", b"<", b"</body", b"\xc3</body>", bytes(range(256)) * 300]
    per = 1500
    texts += [{"b": b} for b in binary]
    for a in range(0, len(texts), per):
        contents, ts = {}, []
        for n, t in enumerate(texts[a:a + per]):
            name = "t%d.%s" % (n, ("html", "txt", "css", "svg", "js")[n % 5] if "b" not in t else "bin")
            b = t["b"] if "b" in t else t["s"]
            contents[name] = b
            if "b" in t:
                j = b.find(b"</body>")
                want = b if j < 0 else b[:j] + mark.encode() + b[j:]
            else:
                want = t["r"][0] if len(t["r"]) == 1 else t["r"][0] + mark + t["r"][1]
            ts.append(("/" + name, {"s": 200, "p": [name]}, False, want))
        cases.append(served_case("texts %d" % a, contents, [t[0] for t in ts]))
        wants.append(ts)
    rs = run_dev(cases)
    n = 0
    for c, r, ws in zip(cases, rs, wants):
        if r.get("skipped"):
            continue
        d = None
        last = r["steps"][-1] if len(r["steps"]) == len(c["steps"]) else {}
        if "crash" in r or len(r["steps"]) < len(c["steps"]):
            d = "the server does not answer: %s" % str(r.get("crash", r["steps"][-1]))[:300]
        elif "panicked" in last["log"]:
            d = "panic: " + last["log"][last["log"].find("panicked"):][:300]
        if d:
            chk.violation("%s: %s" % (c["id"], d), {"case": c, "observed": r})
            continue
        answers = r["steps"][-3]
        for (t, x, refuse, want), a in zip(ws, answers):
            n += 1
            d = compare_answer(t, x, refuse, want, a)
            if d:
                chk.violation("%s: GET %s: %s" % (c["id"], t, d), {"request": t, "files": c["steps"][0]["files"][:40], "args": c["steps"][1]["args"], "specified": x, "observed": a})
    chk.validated("answers", n, "each requested from the real server, over output directories in different places")
    chk.sample({"target": targets[len(targets) // 2]})
    chk.assumptions += ["targets which contain .. or : (decoded) may be refused, even if they lead to a file",
                        "the HTTP library's own handling of malformed requests is not specified, but that it goes on"]


def compare_answer(t, x, refuse, want, a):
    if refuse and a["status"] == 404:
        return None
    if a.get("error"):
        return a["error"]
    if a["status"] != x["s"]:
        return "specified %d, served %d" % (x["s"], a["status"])
    if x["s"] == 301 and a["location"] != x["l"]:
        return "specified a redirection to %s, not to %s" % (x["l"], a["location"])
    if x["s"] == 200:
        got = bytes.fromhex(a["x"]) if "x" in a else a["s"].encode()
        want = want if isinstance(want, bytes) else want.encode()
        if got != want:
            return "specified %r, served %r" % (want[:200], got[:200])
        if "type" in x and (a["type"] or "") != x["type"]:
            return "specified the type %r, served %r" % (x["type"], a["type"])
    return None
