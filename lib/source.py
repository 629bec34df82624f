"""Projects as text: conformance to Source.tla."""
import json, os, re
import core, tmpl
from tmpl import S, Z, clean, out_name

# Characters which are not ASCII, as Rust classifies them.
ALPHA = "éÉßñ日本語ЖאعⅫ٣²ªǅ"
SPACES = "\x0b\x85\u00a0\u1680\u2000\u2003\u2028\u2029\u202f\u205f\u3000"
WIDE = [[c, "a"] for c in ALPHA] + [[c, "w"] for c in SPACES]
# Others which the generators use belong to neither class: punctuation, symbols, marks, joiners.
NEITHER = "😀–“”«»€\u200b\u200d\ufeff\u0301\x00\x01\x7f…→"

VP = [{"name": "vp", "functions": [{"name": m, "mode": m} for m in ("probe", "bind", "fail", "args")]}]


def setup(plugins=VP):
    return {"wide": WIDE, "plugins": [[p["name"], f["name"], f.get("mode", "tag")] for p in plugins for f in p.get("functions", [])]}


def value(x, text=None):
    """A Python value read from JSON, in the encoding of the specification."""
    if isinstance(x, str):
        return S(x)
    if x is None:
        return Z
    if isinstance(x, bool):
        return tmpl.B(x)
    if isinstance(x, (int, float)):
        return tmpl.N(x)
    if isinstance(x, Pairs):
        return {"t": "o", "o": [[k, value(v)] for k, v in x.pairs]}
    return {"t": "a", "a": [value(v) for v in x]}


class Pairs:
    def __init__(self, pairs):
        self.pairs = pairs


def parse_json(text):
    return value(json.loads(text, object_pairs_hook=Pairs))


def kind(path, text):
    ext = os.path.splitext(path)[1]
    if ext in (".html", ".md", ".json"):
        if isinstance(text, bytes):
            try:
                text.decode("utf-8")
            except UnicodeDecodeError:
                return "bad"
        if ext == ".json":
            try:
                parse_json(text)
            except (ValueError, RecursionError):
                return "bad"
        return ext[1:]
    return "other"


def project(id_, files, env="testing", checks=("out", "bag", "at"), md=(), plugins=VP, kinds={}):
    """files: {path: text or bytes}, in the order in which they are created."""
    sf, hf, names = [], [], {}
    for p, text in files.items():
        k = kinds.get(p) or kind(p, text)
        f = {"p": p.split("/"), "k": k, "c": [], "v": Z}
        if k == "json":
            f["v"] = clean(parse_json(text))
        if k in ("html", "md"):
            f["c"] = list(text)
            if p.split("/")[-1] not in ("root.html", "md.html"):
                names[out_name(f)] = p
        sf.append(f)
        hf.append({"p": "content/" + p, "x": text.hex()} if isinstance(text, bytes) else {"p": "content/" + p, "s": text})
    spec = {"id": id_, "files": tmpl.listed(sf), "env": {"t": "o", "o": [["STUART_ENV", S(env)]]}, "checks": list(checks), "md": [list(x) for x in md]}
    run = {"id": id_, "files": hf, "env": env, "config": {"strip": False}, "plugins": plugins}
    return {"spec": spec, "run": run, "names": names}


def rendered(exe, texts):
    """The HTML of markdown texts."""
    texts = sorted(set(texts))
    if not texts:
        return {}
    r = core.run_cases(exe, [{"id": i, "steps": [{"op": "markdown", "texts": texts[i::16]}]} for i in range(16)])
    return {t: h for i in range(16) for t, h in zip(texts[i::16], r[i]["steps"][0]["html"])}


def render_bodies(name, exe, cases, plugins):
    """Gives the specification the HTML of the bodies of the markdown files, whose text it computes itself."""
    todo = [c for c in cases if any(f["k"] == "md" for f in c["spec"]["files"])]
    if not todo:
        return
    path = core.write_ndjson(os.path.join(core.scratch(), "setup-b-%s.ndjson" % name.replace(" ", "-")), [setup(plugins)])
    res = core.validate("SourceConf", [c["spec"] for c in todo], name.replace(" ", "-") + "-bodies", cfg="SourceBodies",
                        env={"SETUP": path}, per_shard=100, most=6, workers=2)
    bodies = {}
    for b in res.json_lines("BODY "):
        bodies.setdefault(b["id"], set()).add(b["s"])
    html = rendered(exe, {t for ts in bodies.values() for t in ts})
    for c in todo:
        c["spec"]["md"] = [[t, html[t]] for t in sorted(bodies.get(c["spec"]["id"], ()))]


def through_library(exe, cases):
    return [tmpl.observe(c, r) for c, r in zip(cases, core.run_cases(exe, [c["run"] for c in cases]))]


def check(chk, name, exe, cases, note="", plugins=VP, through=through_library):
    """Runs projects in the real code, lets TLC validate the outcomes, and records disagreements."""
    render_bodies(name, core.build_harness() if isinstance(exe, list) else exe, cases, plugins)
    rows, bycase = [], {}
    for c, o in zip(cases, through(exe, cases)):
        cid = c["spec"]["id"]
        if isinstance(o, str):
            chk.violation("%s: %s" % (cid, o), {"case": c["run"], "observed": o})
            continue
        row = dict(c["spec"])
        row["checks"] = [x for x in row["checks"] if x != "at" or chk.prop == "C27"]
        row["obs"] = {k: v for k, v in o.items() if not k.startswith("_")}
        rows.append(row)
        bycase[cid] = (c, o)
    if not rows:
        return
    path = core.write_ndjson(os.path.join(core.scratch(), "setup-%s.ndjson" % name.replace(" ", "-")), [setup(plugins)])
    res = core.validate("SourceConf", rows, name.replace(" ", "-"), env={"SETUP": path}, per_shard=100, most=6, workers=2)
    ok = sum(1 for r in rows if r["obs"]["ok"])
    chk.model(name + " (validation)", res, "%s; %d of %d build" % (note, ok, len(rows)))
    chk.validated(name + " (validation)", len(rows))
    import conform
    for m in res.json_lines("MISMATCH "):
        c, o = bycase[m["id"]]
        chk.violation("%s: specified %s, observed %s (%s)" % (m["id"], conform.summary(m), conform.summary(o), o.get("_kind", "")),
                      {"case": c["run"], "specified": m, "observed": o})
    return rows


# ------------------------------------------------------------------------------------ the command line

ANSI = re.compile("\x1b\\[[0-9;]*m")
PLACE = re.compile(r"^\s+(?:-->|at) (.*):(\d+):(\d+)$", re.M)
MANIFEST = '[site]\nname = "N"\n\n[settings]\nstrip_extensions = false\n'


def printed_place(err, case="@", cwd="@/proj"):
    """The file (relative to the case) and line named by an error printed by the command."""
    m = PLACE.search(ANSI.sub("", err))
    if not m:
        return "", 0
    p = m.group(1)
    return os.path.normpath(p if p.startswith("@/") else os.path.join(cwd, p)), int(m.group(2))


QUOTED = re.compile(r"^\s+--> .*\n +\|\n(\d+) \| (.*)\n +\| +\^", re.M)


def printed_quote(err):
    """The line quoted by an error printed by the command: its number and text, or nothing."""
    m = QUOTED.search(ANSI.sub("", err))
    return list(m.groups()) if m else []


def said(r):
    """What is wrong with the way in which a command ended, or nothing."""
    err = ANSI.sub("", r.get("err", ""))
    if r.get("hang"):
        return "hang"
    if r.get("code") not in (0, 1):
        return "exit code %s: %s" % (r.get("code"), err[-300:])
    if r["code"] == 1 and not re.search(r"error: +\S", err):
        return "failed without an error: %r" % err[-300:]
    if r["code"] == 0 and ("error: " in err or "panicked at" in err):
        return "succeeded with an error: %r" % err[-300:]
    return ""


def through_command(vcli, where=lambda i: ("proj", ["build"])):
    """Builds the projects with the command line."""
    def run(exe, cases):
        todo = []
        for i, c in enumerate(cases):
            cwd, args = where(i)
            fs = [dict(f, p="proj/" + f["p"]) for f in c["run"]["files"]]
            todo.append({"id": i, "steps": [
                {"op": "files", "files": fs + [{"p": "proj/stuart.toml", "s": MANIFEST}, {"p": "other", "dir": True}]},
                {"op": "cli", "args": args, "cwd": cwd}, {"op": "snap", "dir": "proj/dist"}]})
        seen = []
        for i, (c, r) in enumerate(zip(cases, core.run_cases(vcli, todo))):
            if r.get("crash"):
                seen.append("crash: " + r["crash"])
                continue
            res, snap = r["steps"][1], r["steps"][2]
            wrong = said(res)
            if wrong:
                seen.append(wrong)
                continue
            o = {"ok": res["code"] == 0, "out": [], "probes": [], "at": ["", 0], "_kind": ANSI.sub("", res["err"])[-300:]}
            if o["ok"]:
                o["out"] = [[c["names"][p], b if isinstance(b, str) else "<bytes>"] for p, b in snap if p in c["names"]]
            else:
                o["quote"] = printed_quote(res["err"])
                path, line = printed_place(res["err"], cwd="@/" + where(i)[0])
                root = "@/proj/content/"
                o["at"] = [path[len(root):] if path.startswith(root) else path, line]
                if snap:
                    seen.append("failed, but wrote %r" % snap[:3])
                    continue
            seen.append(o)
        return seen
    return run
