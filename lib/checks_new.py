"""C19: creating projects (New.tla)."""
import json, os, tomllib
import core, source
from site_model import FLAGS, norm, say_diff

HERE = ["w", "here"]
DEFAULTS = "/repo/stuart/tests/basic"


def node(p, k, s="", to=()):
    return {"p": p.split("/"), "k": k, "s": s, "to": list(to)}


NODES = [node("w", "dir"), node("w/here", "dir"), node("w/here/full", "dir"), node("w/here/full/mine.txt", "file", "mine"),
         node("w/here/empty", "dir"), node("w/here/f.txt", "file", "text"), node("w/here/sub", "dir"), node("w/here/sub/deep", "dir"),
         node("w/here/content", "dir"), node("w/here/content/root.html", "file", "mine {{"), node("w/here/stuart.toml", "file", "[site]\nname = \"mine\"\n"),
         node("w/here/.gitignore", "file", "mine"), node("w/here/dangling", "link", "", ["w", "nowhere"]), node("w/here/loop", "link", "", ["w", "here", "loop"]),
         node("w/here/toempty", "link", "", ["w", "here", "empty"]), node("w/here/tofile", "link", "", ["w", "here", "f.txt"]), node("w/other", "dir")]

NAMES = ["site", "my site", 'a"b', "it's", "back\\slash", "a\\u0041", "é日本😀", "a.b-c_d", "a=b#c", "tab\tline\nend", "'''", '"""', "{{ $x }}", "[site]", "-n", "--no-git", "-",
         "sub/x", "sub/deep/../x", "./site", "site/", "site//", "sub//deep//y", "../site", "../other/é", "../../top", "toempty/x", "empty/x", "full/x", "content/x",
         "full", "empty", "f.txt", "f.txt/", "f.txt/x", "content", "stuart.toml", "dangling", "dangling/", "dangling/x", "loop", "loop/x", "toempty", "tofile", "tofile/x",
         "nope/x", "nope/", "nope/../x", "site/x", "site/content", "site/content/new", "site/static/s/t", "site/dist", "site/.git/x", ".", "..", "", "/", "./.", "sub/..", "sub/.", "dist", "scripts", ".hidden", "x" * 255, "x" * 256,
         "con\x7ftrol\x01", " site", "site ", " ", "\t", "site\n", "\u00a0site", "\ufeffsite", "sub/ x", "sub/x /", '"site"', "'site'", "~", "$HOME", "%s", "3", "true", "SITE", "Full", "full.", "@/w/here/abs", "@/w/here/nope/abs", "@/w/here/full", "@/w/here/sub/../abs", "@/w/here/é \"q\"", "@"]


MISUSE = [["new"], ["new", "--no-git"], ["new", "a", "b"], ["new", "--nope", "a"], ["new", "-n", "a"], ["new", "--git", "a"], ["new", "--no-git=x", "a"], ["create", "a"], ["new", "a", "--", "b"],
          ["-q", "-v", "new", "a"], ["-v", "--quiet", "new", "a"], ["--nope", "new", "a"]]


def arg(raw):
    absolute = raw.startswith("@") or raw.startswith("/")
    parts = raw[1:].lstrip("/") if raw.startswith("@") else raw
    return {"raw": raw, "abs": absolute, "parts": parts.split("/"), "fits": all(len(x.encode()) <= 255 for x in parts.split("/"))}


IDENTITIES = [None, ("Jo Doe", "jo@example.org"), ('Jo "Q" O\\x; é #1', "jo+x@é.org"), ("only name", None), (None, "only@mail"), ("it's ''' me", "a'b@x")]


def gitconfig(who):
    if who is None:
        return ""
    q = lambda s: '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return "[user]\n" + "".join("\t%s = %s\n" % (k, q(v)) for k, v in zip(("name", "email"), who) if v is not None)


def author(who):
    return "%s <%s>" % who if who and all(who) else ""


def files_below(d):
    r = {}
    for at, _, names in os.walk(d):
        for n in names:
            p = os.path.join(at, n)
            b = open(p, "rb").read()
            r[os.path.relpath(p, d)] = b
    return r


def text_of(b):
    x = norm({"x": b.hex()})
    return x if isinstance(x, str) else "hex:" + x["x"]


def expected(n):
    """A node as vcli reports it, and the manifest as it is read."""
    if n["k"] in ("dir", "repo"):
        return None
    if n["k"] == "link":
        return {"link": "/".join(["@"] + n["to"])}
    return norm({"x": n["s"][4:]}) if n["s"].startswith("hex:") else n["s"]


def steps_of(u, trace):
    dirs = [{"p": "/".join(n["p"]), "dir": True} for n in u["nodes"] if n["k"] == "dir"]
    rest = [{"p": "/".join(n["p"]), "link": "/".join(["@"] + n["to"])} if n["k"] == "link" else {"p": "/".join(n["p"]), "s": n["s"]} for n in u["nodes"] if n["k"] in ("file", "link")]
    steps = [{"op": "files", "files": dirs + rest + ([{"p": ".gitconfig", "s": u["config"]}] if u["config"] else [])}]
    for e in trace:
        c = e["c"]
        env = dict(u["run_env"])
        if c["c"] == "new":
            raw = u["args"][c["i"] - 1]["raw"]
            steps.append({"op": "cli", "args": FLAGS[u["say"]] + ["new"] + (["--no-git"] if c["nogit"] else []) + ["--", raw], "cwd": "/".join(u["here"]), "env": env})
        elif c["c"] == "remove":
            steps.append({"op": "files", "files": [{"p": "/".join(c["p"]), "rm": True}]})
        elif c["c"] == "misuse":
            steps.append({"op": "cli", "args": c["args"], "cwd": "/".join(u["here"]), "env": env})
        else:
            steps.append({"op": "cli", "args": FLAGS[u["say"]] + [c["c"]], "cwd": "/".join(c["p"]), "env": env})
        steps.append({"op": "snap", "dir": ".", "skip": [".git"]})
    return steps


def compare(u, trace, case, r):
    if "crash" in r:
        return "the driver ended: " + str(r["crash"])
    k = 1
    for e in trace:
        x, snap = r["steps"][k], r["steps"][k + 1]
        here = " ".join(case["steps"][k].get("args", ["edit"]))
        k += 2
        if x is not None:
            if x["hang"] or x["code"] not in ((0, 1, 2) if e["c"]["c"] == "misuse" else (0, 1)) or "panicked" in x["err"]:
                return "%s: code %s %s" % (here, x["code"], x["err"][-300:])
            if x["ok"] != e["ok"]:
                return "%s: specified %s, observed code %s %s" % (here, "success" if e["ok"] else "failure", x["code"], x["err"][-300:])
            if not x["ok"] and not (x["out"] + x["err"]).strip():
                return "%s: no message" % here
            d = say_diff(e["said"], e["c"], x)
            if d:
                return "%s: %s" % (here, d)
        got = dict((p, b) for p, b in snap if p != ".gitconfig")
        want = {"/".join(n["p"]): n for n in e["fs"]}
        for p in sorted(set(got) | set(want)):
            if p not in want:
                return "after %s: unexpected %s" % (here, p)
            if p not in got:
                return "after %s: missing %s" % (here, p)
            n = want[p]
            if n["k"] == "manifest":
                try:
                    m = tomllib.loads(got[p])
                except Exception as err:  # noqa
                    return "after %s: %s does not parse: %s" % (here, p, err)
                name = n["s"]
                site = {"name": m.get("site", {}).get("name")}
                if "author" in m.get("site", {}):
                    site["author"] = m["site"]["author"]
                w = {"name": name}
                if n["to"]:
                    w["author"] = n["to"][0]
                if set(m) - {"site"} and any(m[x] for x in set(m) - {"site"}):
                    return "after %s: %s holds %s" % (here, p, m)
                if name.startswith("@"):  # which stood for the case's directory
                    if not site["name"].endswith(name[1:]) or not site["name"].startswith("/"):
                        return "after %s: %s holds the name %r" % (here, p, site["name"])
                    site.pop("name"), w.pop("name")
                if site != w:
                    return "after %s: %s holds %r, specified %r" % (here, p, site, w)
            elif got[p] != expected(n) or (n["k"] == "repo" and got[p] is not None):
                return "after %s: %s: specified %r, found %r" % (here, p, expected(n), got[p])
    return None


def basis(defaults, image):
    """What the universes have in common, and numbers of names."""
    args = [arg(n) for n in NAMES]
    number = {n: i + 1 for i, n in enumerate(NAMES)}
    few = [number[n] for n in ("site", "my site", 'a"b', "sub/x", "@/w/here/abs", "full", "nope/x")]
    then = [number[n] for n in ("site", "site/x", "site/content/new", "site/content", "./site", "sub/x", "@/w/here/abs")]
    everything = list(range(1, len(NAMES) + 1))
    base = {"here": HERE, "nodes": NODES, "args": args, "defaults": defaults, "image": image, "ignored": "dist/\n_build/\nmetadata.json\n", "git": True,
            "author": [], "config": "", "run_env": {}, "say": "", "misuse": MISUSE}
    return base, few, then, everything


def replay(chk, exe, name, us, note):
    for u in us:
        for x in u["steps"]:
            x.setdefault("misuse", [])
    path = core.write_ndjson(os.path.join(core.scratch(), name.replace(" ", "-") + ".ndjson"), us)
    res = core.tlc("New", env={"GEN": path}, heap="8g")
    chk.model(name, res, note)
    hs = res.json_lines("HISTORY ")
    cases = [{"id": i, "steps": steps_of(us[h["id"] - 1], h["trace"])} for i, h in enumerate(hs)]
    for h, c, r in zip(hs, cases, core.run_cases(exe, cases, timeout=60)):
        d = compare(us[h["id"] - 1], h["trace"], c, r)
        if d:
            chk.violation("%s: %s" % (name, d), {"case": c, "specified": h, "observed": r})
    chk.validated(name, len(hs))
    return hs


def default_project(chk):
    """The default content, and what it publishes (None if it does not build)."""
    vh = core.build_harness()
    fs = files_below(DEFAULTS)
    # the default content must build as Template.tla says; what it builds to is what new projects publish
    content = {p[len("content/"):]: b.decode() for p, b in sorted(fs.items()) if p.startswith("content/")}
    rows = source.check(chk, "default project", vh, [source.project("default", content, checks=("out",))], "the default content")
    if not rows or not rows[0]["obs"]["ok"]:
        chk.violation("the default project does not build", {"files": content})
        return None
    outs = {n: t for n, t in rows[0]["obs"]["out"]}
    image = [{"p": ["index.html"] if p == "index.html" else [p[:-5], "index.html"], "s": t} for p, t in
             ((p, outs[source.out_name({"p": [p], "k": "html"})]) for p in content if p not in ("root.html", "md.html"))]
    image += [{"p": p.split("/")[1:], "s": text_of(b)} for p, b in sorted(fs.items()) if p.startswith("static/")]
    defaults = [{"p": p.split("/"), "s": text_of(b)} for p, b in sorted(fs.items()) if p != "stuart.toml"]
    return defaults, image


def C19(chk):
    exe = core.build_vcli()
    d = default_project(chk)
    if d is None:
        return
    base, few, then, everything = basis(*d)
    after = {"new": [], "other": ["build"]}
    wrong = list(range(1, len(MISUSE) + 1))
    us = [dict(base, steps=[{"new": few[:1], "other": [], "misuse": wrong}, {"new": few[:2], "other": ["build"], "misuse": wrong}]),
          dict(base, steps=[{"new": everything, "other": []}, {"new": then, "other": ["build", "clean", "remove"]}]),
          dict(base, steps=[{"new": few[:5], "other": []}, {"new": few, "other": ["build", "remove"]}, {"new": few[:3] if core.THOROUGH else [], "other": ["build", "clean", "remove"]}])]
    for who in IDENTITIES[1:]:
        us.append(dict(base, author=[author(who)] if author(who) else [], config=gitconfig(who), steps=[{"new": few, "other": []}, after]))
    # without git
    us.append(dict(base, git=False, run_env={"PATH": "/nowhere"}, steps=[{"new": few, "other": []}, after]))
    if core.THOROUGH:
        us.append(dict(base, steps=[{"new": everything, "other": []}, {"new": everything, "other": []}]))
        us.append(dict(base, steps=[{"new": few[:4], "other": []}, {"new": then, "other": ["build", "remove"]}, {"new": then, "other": ["build", "clean", "remove"]},
                                    {"new": few[:2], "other": ["build"]}]))
    hs = replay(chk, exe, "new", us, "all histories of creating, building, cleaning and removing projects within the steps, for %d names" % len(NAMES))
    chk.sample({"part": "new", "history": [e["c"] for e in hs[len(hs) // 2]["trace"]]})
    chk.assumptions += ["names are valid UTF-8 without NUL", "the repository is recognised by its .git directory", "git is found, or not, on the PATH"]
