"""Plugins: C24 (Resolve.tla, Parsers.tla), C25 (Sources.tla), C26 (JsHost.tla)."""
import json, os
import core, source
from tmpl import A, B, O, S, Z, jsontext
from checks_site import rng_for

ROOT = '{{ begin("main") }}{{ end("main") }}'


def setting(name, value):
    return core.write_ndjson(os.path.join(core.scratch(), name.replace(" ", "-") + ".ndjson"), [value])


def results(exe, cases):
    """The last step of each case, or what stopped it."""
    out = {}
    for c, o in zip(cases, core.run_cases(exe, cases)):
        out[c["id"]] = o if isinstance(o, str) else o["steps"]
    return out


# ------------------------------------------------------------------------------------ C24

BUILTINS = ["begin", "dateformat", "else", "end", "excerpt", "for", "ifdefined", "ifeq", "ifge", "ifgt", "ifle", "iflt", "ifne", "import", "insert", "timetoread"]


def calls(chk, name, exe, plugins, pool, called, maxp, maxf, most, note):
    """Every call of every name with every set of plugins."""
    env = {"RESOLVE": setting("resolve", {"builtins": BUILTINS, "plugins": plugins, "pool": pool, "called": called, "maxp": maxp, "maxf": maxf, "most": most})}
    res = core.tlc("Resolve", env=env, heap="6g")
    chk.model(name, res, note)
    if core.THOROUGH:
        chk.model(name + ", termination", core.tlc("Resolve", cfg="ResolveLive", env=env, heap="6g"), "every name is decided")
    by = {}
    for loaded, call, at, found in res.json_lines("CALL "):
        by.setdefault(json.dumps(loaded), []).append((call, at, found))
    cases, want = [], {}
    tag = lambda n: '{{ %s($env.STUART_ENV, 9) }}' % n
    for k, (loaded, cs) in enumerate(sorted(by.items())):
        loaded = json.loads(loaded)
        ps = [{"name": p["n"], "functions": [{"name": f, "mode": "tag", "as": "%d-%d" % (i + 1, j + 1)} for j, f in enumerate(p["fs"])]} for i, p in enumerate(loaded)]
        cs.sort()
        good = [c for c in cs if c[2] != "none"]
        text = ";".join(tag(c[0]) for c in good)
        out = ";".join("testing" if c[2] == "builtin" else "%d-%d" % tuple(c[1]) for c in good)
        files = {"root.html": "R" + text + '|{{ insert("s") }}', "md.html": '{{ begin("s") }}M' + text + "|{{ $self.content }}{{ end(\"s\") }}",
                 "p.html": '{{ begin("s") }}P' + text + "{{ end(\"s\") }}", "m.md": "---\ntitle: \"t\"\n---\nB" + text}
        run = lambda i, fs: {"id": i, "files": [{"p": "content/" + n, "s": t} for n, t in fs.items()], "config": {"strip": False}, "plugins": ps}
        cases.append(run("%d" % k, files))
        want[cases[-1]["id"]] = (loaded, None, {"p.html": "R%s|P%s" % (out, out), "m.html": "R%s|M%s|<p>B%s</p>\n" % (out, out, out)})
        for n, c in enumerate(c for c in cs if c[2] == "none"):
            broken = dict(files)
            at = sorted(files)[(k + n) % 4]
            broken[at] += tag(c[0])
            cases.append(run("%d-%s" % (k, c[0]), broken))
            want[cases[-1]["id"]] = (loaded, (c[0], at), None)
    got = results(exe, cases)
    chk.validated(name, len(cases))
    chk.sample({"plugins": want[cases[0]["id"]][0], "expected": want[cases[0]["id"]][2]})
    for c in cases:
        loaded, unknown, out = want[c["id"]]
        o = got[c["id"]]
        shown = [[p["n"], p["fs"]] for p in loaded]
        if isinstance(o, str):
            chk.violation("plugins %s: %s" % (shown, o), {"case": c, "observed": o})
        elif unknown:
            b = o[0]
            if b["ok"] or b.get("err") != "parse" or b.get("file") != "content/" + unknown[1]:
                chk.violation("plugins %s: `%s` names no function, but the build gives %s" % (shown, unknown[0], json.dumps(b)[:200]), {"case": c, "observed": o})
        else:
            files = {f["p"]: f.get("s") for f in o[-1].get("files", [])}
            if files != out:
                chk.violation("plugins %s: expected %s, observed %s" % (shown, out, files or o[0]), {"case": c, "expected": out, "observed": o})


EXOTIC = {"A": b"plain text\n", "B": bytes(range(256)), "C": b"", "D": b"{{ nofunction( }}", "E": "é\r\n\x00".encode()}


def content(tokens, label=lambda t: b"[" + t.encode() + b"]"):
    return b"".join(EXOTIC[t] if t in EXOTIC else label(t) for t in tokens)


def blob(b):
    return {"x": b.hex()}


def metadata(entries, at=""):
    """The files of the metadata and whether a plugin processed them."""
    out = []
    for e in entries:
        if e["type"] == "directory":
            out += metadata(e["children"], at + e["name"] + "/")
        else:
            out.append([at + e["name"], {"custom": True, "file": False}.get(e["type"], e["type"])])
    return out


def parsers(chk, name, exe, files, options, configs, maxp, most, maxfiles, maxstatic, note):
    """Every set of files with every set of parsers."""
    given = {"files": [{"p": p.split("/"), "b": b, "s": s} for p, b, s in files], "options": options, "configs": configs,
             "maxp": maxp, "most": most, "maxfiles": maxfiles, "maxstatic": maxstatic}
    path = setting("parsers", given)
    res = core.tlc("Parsers", env={"PARSERS": path}, heap="8g")
    if core.THOROUGH:
        chk.model(name + ", termination", core.tlc("Parsers", cfg="ParsersLive", env={"PARSERS": path}, heap="8g"), "every build ends")
    sites = res.json_lines("SITE ")
    chk.model(name, res, note)
    cases = []
    for k, s in enumerate(sites):
        own = [f - 1 for f in s["files"]]
        fs = [{"p": "content/root.html", "s": ROOT}]
        fs += [dict({"p": "content/" + files[f][0]}, **blob(content([files[f][1]]))) for f in own]
        fs += [dict({"p": "static/" + files[f - 1][0]}, **blob(content([files[f - 1][1]]))) for f in s["static"]]
        fs += [{"p": "static", "dir": True}, {"p": "meta", "dir": True}]
        ps = [{"name": "p%d" % (i + 1), "functions": [], "parsers": [{"exts": q["x"], "mode": q["m"], "as": "%d-%d" % (i + 1, j + 1)} for j, q in enumerate(p)]} for i, p in enumerate(s["plugins"])]
        cases.append({"id": k, "files": fs, "config": s["config"], "plugins": ps,
                      "steps": [{"op": "build"}, {"op": "merge", "dir": "static"}, {"op": "save", "to": "dist"}, {"op": "meta", "to": "meta/m.json"},
                                {"op": "snap", "dir": "dist"}, {"op": "snap", "dir": "meta"}]})
    got = results(exe, cases)
    chk.validated(name, len(cases))
    for k, s in enumerate(sites):
        o = got[k]
        where = "plugins %s, content %s, static %s" % (
            [[(",".join(q["x"]), q["m"]) for q in p] for p in s["plugins"]], [files[f - 1][0] for f in s["files"]], [files[f - 1][0] for f in s["static"]])
        bad = lambda what: chk.violation("%s: %s" % (where, what), {"case": cases[k], "specified": s, "observed": o})
        if isinstance(o, str):
            bad(o)
            continue
        fault = next((x for x in o if not x["ok"]), None)
        if s["res"] != "ok":
            if not fault or fault.get("err") != s["res"]:
                bad("expected to fail (%s), observed %s" % (s["res"], json.dumps(fault)[:200] if fault else "success"))
            continue
        if fault:
            bad("expected to succeed, observed %s" % json.dumps(fault)[:200])
            continue
        want = {"/".join(f["at"]): content(f["b"]) for f in s["out"]}
        seen = {f["p"]: bytes.fromhex(f["x"]) if "x" in f else f["s"].encode() for f in o[4]["files"]}
        if want != seen:
            bad("expected %s, observed %s" % (want, seen))
        if s["config"]["meta"]:
            rows = sorted([["/".join(p), custom] for p, custom in s["meta"]] + [["root.html", False]] + [[files[f - 1][0], False] for f in s["static"]])
            seen = sorted(metadata(json.loads(o[5]["files"][0]["s"])["data"]))
            if rows != seen:
                bad("expected the metadata %s, observed %s" % (rows, seen))
    return sites, cases, got


def fn(name, mode="tag"):
    return {"name": name, "mode": mode}


CROWDS = [
    [{"name": "a", "functions": [fn("import"), fn("t"), fn("vp::bind", "bind"), fn("for", "fail")]},
     {"name": "vp", "functions": [fn("t"), fn("probe", "probe"), fn("bind", "bind"), fn("fail", "fail")]},
     {"name": "b", "functions": [fn("probe", "fail"), fn("t"), fn("end", "bind"), fn("insert", "badparse")]}],
    [{"name": "b", "functions": [fn("t", "tag"), fn("vp::fail", "fail"), fn("u")]},
     {"name": "b", "functions": [fn("t", "fail"), fn("u", "badparse"), fn("import")]},
     {"name": "vp", "functions": [fn("probe", "probe"), fn("probe", "fail"), fn("bind", "bind"), fn("fail", "fail"), fn("begin")]},
     {"name": "a", "functions": [fn("t"), fn("import"), fn("import", "fail")]}],
]


def crowded(chk, n, plugins):
    """Random programs which call functions of several plugins."""
    import checks_template as ct, checks_text
    rng = rng_for(chk, "crowd%d" % len(plugins))
    extra = ["{{ t() }}", "{{ a::t() }}", "{{ b::t() }}", "{{ a::import() }}", "{{a::import($x, 1, k=\"v\")}}", "{{ a::bind($a, \"z\") }}", "{{ vp::bind($a, \"w\") }}",
             "{{ vp::probe(\"w\", $a, $self.title, $env.STUART_ENV) }}"]
    rare = ["{{ b::insert() }}", "{{ u() }}", "{{ b::u() }}", "{{ vp::t() }}", "{{ nope::t() }}", "{{ a::for() }}", "{{ b::end($a, \"v\") }}", "{{ vp::begin(main) }}", "{{ b::import() }}"]
    cases = []
    for c in ct.random_projects(chk, n, ["page", "root", "md", "body"], broken=0.05, size=4):
        files = checks_text.as_text(c)
        for p in sorted(files):
            if not p.endswith((".html", ".md")):
                continue
            t = files[p]
            for f in ("probe", "bind", "fail"):
                parts = t.split(" " + f + "(")
                t = parts[0] + "".join(" " + rng.choice(["", "vp::"]) + f + "(" + x for x in parts[1:])
            head, sep, body = t.partition("\n---\n") if p.endswith(".md") else ("", "", t)
            if p.endswith(".md") and not sep:
                head, body = "", t
            parts = body.split("{{")
            body = parts[0] + "".join((rng.choice(rare) if rng.random() < 0.02 else rng.choice(extra) if rng.random() < 0.3 else "") + "{{" + x for x in parts[1:])
            files[p] = head + sep + body
        cases.append(source.project(c["run"]["id"], files, plugins=plugins))
    return cases


CALLED = ["f", "g", "excerpt", "p", "p::f", "q::f", "p::p", "p::excerpt", "q::p::f", "p::q::f", "F", "p::", "::f", "p:f", "f::p", "P::f"]


def C24(chk):
    exe = core.build_harness()
    deep = core.THOROUGH
    calls(chk, "calls", exe, ["p", "q"], ["f", "g", "excerpt", "p", "q::f"], CALLED, 2, 2, 4, "names called with up to two plugins")
    if deep:
        calls(chk, "more calls", exe, ["p", "q", "f"], ["f", "p::f"], CALLED, 3, 1, 2, "names called with up to three plugins")
    modes = ["rename", "contents", "name", "html", "json", "", "fail", "badparse"]
    option = lambda x, m, most: {"x": x, "m": m, "most": most}
    options = [option(x, m, 2 if m in ("rename", "html", "fail") and x != ["y"] else 1) for x in (["x"], ["x", "y"]) for m in modes]
    options += [option(["y"], m, 2) for m in ("rename", "fail")]
    options += [option(["html", "md", "json", "", "a.x", ".x", "X"], m, 2 if m == "rename" else 1) for m in ("rename", "fail")]
    files = [("a.x", "A", True), ("d/a.y", "B", True), ("a.html", "C", True), ("a", "E", True), (".x", "A", False), ("a.x.x", "D", False), ("d/x", "B", False), ("a.X", "A", False), ("a.x/a.y", "D", True), ("a.", "D", False)]
    configs = [{"strip": False, "data": True, "meta": True}, {"strip": True, "data": False, "meta": True}]
    parsers(chk, "files", exe, files, options, configs if deep else configs[:1], 2, 2, 2, 1, "up to two files and two parsers")
    few = [option(x, m, 1) for x in (["x"], ["y"], ["x", "y"]) for m in modes]
    parsers(chk, "extensions", exe, files, few, configs, 1, 1, 3 if deep else 2, 1, "one parser of any kind, with extensions stripped")
    if deep:
        more = [option(["x"], m, 3) for m in ("rename", "html")] + [option(["y"], "rename", 3), option(["y"], "badparse", 2), option(["x", "y"], "name", 2), option(["x"], "fail", 2)]
        parsers(chk, "more files", exe, files, more, configs[1:], 3, 3, 3, 1, "up to three files and three parsers")
    for k, plugins in enumerate(CROWDS):
        source.check(chk, "crowd %d" % (k + 1), exe, crowded(chk, 2000 if deep else 250, plugins), "random programs calling functions of several plugins with names in common", plugins=plugins)


# ------------------------------------------------------------------------------------ C25

CARGO = r'''#!/bin/sh
# Stands in for cargo: "compiles" by copying the plugin.so of the project.
kind=debug; m=Cargo.toml
while [ $# -gt 0 ]; do
  case "$1" in
    --manifest-path) m="$2"; shift;;
    --manifest-path=*) m="${1#*=}";;
    --release|-r) kind=release;;
  esac
  shift
done
d=$(dirname "$m")
echo "$m" >> "$HOME/cargo.log"
[ -e "$d/fail" ] && exit 101
n=$(sed -n 's/^name *= *"\(.*\)"/\1/p' "$d/Cargo.toml" | head -1 | tr - _)
mkdir -p "$d/target/$kind"
for so in "$d/plugin.so" "$d/../../plugin.so"; do
  [ -e "$so" ] && cp "$so" "$d/target/$kind/lib$n.so" && exit 0
done
exit 0
'''


def js(i, more=""):
    return 'export default { name: "%s", version: "1", functions: [{ name: "only_%s", fn: () => "[%s]" }, { name: "who", fn: () => "[%s]" }] };\n%s' % (i, i, i, i, more)


class Workshop:
    """Files which the cases share: compiled plugins, repositories, and a server."""

    def __init__(self, harness):
        import glob, http.server, threading
        self.dir = core.subdir("workshop")
        self.blank = open(os.path.join(os.path.dirname(harness), "libvplugin.so"), "rb").read()
        assert self.blank.count(b"VPLUGIN-NAME:...") == 1
        self.file("cargo", CARGO.encode(), 0o755)
        self.asked = {}
        shop = self

        class Handler(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                case, _, name = self.path.lstrip("/").partition("/")
                shop.asked.setdefault(case, []).append(name)
                known = {"h1.js": js("h1").encode(), "h2.js": js("h2").encode(), "hs.so": shop.binary("hs"), "bad.js": b"export default {"}
                body = known.get(name)
                # What a case puts there instead.
                for new in glob.glob(os.path.join(core.scratch(), "run*", "s*", "c*", "remote", "web", case, name)):
                    with open(new, "rb") as f:
                        body = f.read() or None
                self.send_response(404 if body is None else 200)
                body = b"<h1>Not found</h1>" if body is None else body
                self.send_header("Content-Length", str(len(body)))
                self.send_header("Connection", "close")
                self.end_headers()
                self.wfile.write(body)

            def log_message(self, *a):
                pass

        # The client only knows port 80: an address of our own, if there is one.
        self.server = None
        for k in range(20):
            self.host = "127.77.%d.%d" % (os.getpid() % 251 + 1, (os.getpid() // 251 + k * 7) % 251 + 1)
            try:
                self.server = http.server.ThreadingHTTPServer((self.host, 80), Handler)
            except OSError:
                continue
            self.server.daemon_threads = True
            threading.Thread(target=self.server.serve_forever, daemon=True).start()
            break

    def file(self, name, data, mode=0o644):
        p = os.path.join(self.dir, name)
        if not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
            os.chmod(p, mode)
        return p

    def binary(self, i):
        tag = b"VPLUGIN-NAME:" + i.encode()
        return self.blank.replace(b"VPLUGIN-NAME:" + b"." * 19, tag + b"." * (32 - len(tag)))

    def so(self, i):
        return self.file("so/%s.so" % i, self.binary(i))

    def repo(self, i, project=True, builds=True, history=()):
        """A repository; history names the plugins of earlier commits."""
        import subprocess
        at = os.path.join(self.dir, "repos", i)
        if os.path.exists(at):
            return at
        os.makedirs(at)
        date = "2020-01-01T00:00:00Z"
        git = lambda *a: subprocess.run(["git", "-c", "user.name=v", "-c", "user.email=v@example.org", "-c", "init.defaultBranch=main"] + list(a), cwd=at, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                        env={"PATH": "/usr/bin:/bin", "HOME": self.dir, "GIT_CONFIG_NOSYSTEM": "1", "GIT_AUTHOR_DATE": date, "GIT_COMMITTER_DATE": date})
        git("init", ".")
        for j in list(history) + [i]:
            files = {"marker-" + (list(history) + [i])[0]: b"", "plugin.so": self.binary(j), "other/Cargo.toml": b'[package]\nname = "other"\n', "other/plugin.so": self.binary("other")}
            if project:
                for d in ("d1", "d2"):
                    files["deep/%s/Cargo.toml" % d] = ('[package]\nname = "%s"\nversion = "0.1.0"\n' % d).encode()
                    if not builds:
                        files["deep/%s/fail" % d] = b""
            for p, b in files.items():
                os.makedirs(os.path.dirname(os.path.join(at, p)), exist_ok=True)
                with open(os.path.join(at, p), "wb") as f:
                    f.write(b)
            git("add", "-A")
            git("commit", "-m", j, "--allow-empty")
        core.own(at)
        return at

    def close(self):
        if self.server:
            self.server.shutdown()


# Every source: how it is written, what it is, and the files it consists of (below the project).
def sources(shop):
    junk = {"syn": "export default {", "thr": js("thr", 'throw new Error("no");'), "nodef": "export const name = 1;", "badfn": js("badfn").replace("() =>", "1 +"),
            "nofns": 'export default { name: "nofns", version: "1" };', "nil": "export default undefined;",
            "symlen": 'export default { name: "symlen", version: "1", functions: { length: Symbol() } };', "longlen": 'export default { name: "longlen", version: "1", functions: { length: 4294967295 } };',
            "getter": 'export default { get name() { throw 1; }, version: "1", functions: [] };', "nofn": 'export default { name: "nofn", version: "1", functions: [null] };',
            "rec": js("rec", "function f() { f(); } f();"), "rej": js("rej", "await Promise.reject(1);")}
    out = {
        "js1": ("p/js1.js", "js", "js1"), "js2": ("./p/../p/js2.js", "js", "js2"), "mjs": ("p/m.mjs", "js", "mjs"), "abs": ("@/abs/abs.js", "js", "abs"),
        "so1": ("p/so1.so", "lib", "so1"), "so2": ("p/so2", "lib", "so2"),
        "none": ("p/none.js", "junkjs", ""), "noneso": ("p/none.so", "none", ""), "empty": ("", "none", ""), "dir": ("p/dir", "none", ""), "space": (" p/js1.js", "junkjs", ""),
        "dll": ("p/x.dll", "foreign", ""), "badso": ("p/bad.so", "junk", ""), "text": ("p/text.txt", "junk", ""),
        "cg1": ("p/cg1", "cargo", "cg1"), "cghy": ("p/cg-hy/", "cargo", "cghy"), "cgfail": ("p/cgfail", "cargo", ""), "cgnolib": ("p/cgnolib", "cargo", ""), "cgws": ("p/cgws", "cargo", ""),
        "g1": ("@/remote/g1", "git", "g1"), "g2": ("@/remote/g2", "git", "g2"), "gno": ("@/remote/gno", "git", ""), "gfail": ("@/remote/gfail", "git", ""),
        "h1": ("http://%s/#/h1.js" % shop.host, "httpjs", "h1"), "h2": ("http://%s/#/h2.js" % shop.host, "httpjs", "h2"), "hs": ("http://%s/#/hs.so" % shop.host, "http", "hs"),
        "h404": ("http://%s/#/nothing" % shop.host, "http", ""), "hbad": ("http://%s/#/bad.js" % shop.host, "httpjs", ""), "hdown": ("http://127.77.0.254/hdown.so", "none", ""),
    }
    if not shop.server:
        out = {s: v for s, v in out.items() if s == "hdown" or not v[0].startswith("http")}
    for k in junk:
        out[k] = ("p/%s.js" % k, "junkjs", "")
    return out, junk


def put(shop, junk, src, name, kind, i, back=False):
    """The edits which make a source what it is."""
    p = lambda rest="": "proj/" + os.path.normpath(src[name][0]) + rest
    if src[name][0].startswith("http"):
        if (kind, i) == src[name][1:] or name == "hdown":
            return [{"p": "remote/web", "rm": True}] if back else []
        at = {"p": "remote/web/#/" + src[name][0].rsplit("/", 1)[1]}
        return [dict(at, rm=True), dict(at, link=shop.so(i)) if kind == "http" and i else dict(at, s="" if kind == "none" else js(i) if i else "export default {")]
    if name in ("empty", "space"):
        return []
    if name in ("none", "noneso") and not i:
        return [{"p": p(), "rm": True}]
    if name == "abs":
        return [{"p": "abs/abs.js", "s": js("abs")}]
    if name in ("g1", "g2", "gno", "gfail"):
        at = "remote/" + name
        if kind == "none":
            return [{"p": at, "rm": True}]
        to = shop.repo("gno", project=False) if name == "gno" else shop.repo("gfail", builds=False) if name == "gfail" else shop.repo(i, history=[name] if i != name else ())
        return [{"p": at, "rm": True}, {"p": at, "link": to}]
    if name in junk:
        return [{"p": p(), "s": junk[name]}]
    if kind == "none" and name != "dir":
        return [{"p": p(), "rm": True}]
    if kind in ("js", "junkjs"):
        return [{"p": p(), "s": js(i) if i else "export default {"}]
    if kind == "lib" or name == "dll":
        return [{"p": p(), "rm": True}, {"p": p(), "link": shop.so(i or "dll")}]
    if name == "dir":
        return [{"p": p("/plugin.js"), "s": js("dir")}, {"p": p("/lib.so"), "link": shop.so("dir")}]
    if kind == "cargo":
        fs = [{"p": p("/Cargo.toml"), "s": "[workspace]\n" if name == "cgws" else '[package]\nname = "%s"\nversion = "0.1.0"\n' % name.replace("cghy", "cg-hy")}]
        if name == "cgfail":
            fs.append({"p": p("/fail"), "s": ""})
        if name != "cgnolib":
            fs.append({"p": p("/plugin.so"), "link": shop.so(i or name)})
        return fs
    return [{"p": p(), "s": "not a plugin"}]


def evidence(shop, src, case, snap, last):
    """The sources which something was seen to be done with."""
    names = {p for p, _ in snap}
    log = dict(snap).get("cargo.log") or ""
    seen = set()
    for s, (text, kind, _) in src.items():
        path = os.path.normpath(text)
        if any(p == "proj/" + path + ".loaded" for p in names):
            seen.add(s)
        if kind == "cargo" and any(path + "/" in l for l in log.split("\n")):
            seen.add(s)
        if kind == "git" and any(os.path.basename(p) == "marker-" + s for p in names):
            seen.add(s)
        if last and text.startswith("http") and text.rsplit("/", 1)[1] in shop.asked.get(case, []):
            seen.add(s)
    return seen


def loading(chk, name, exe, shop, universes, note):
    """All tables of sources: which plugins the commands load, or that they fail before they build."""
    src, junk = sources(shop)
    for u in universes:
        used = sorted(set(u["sources"]) if "sources" in u else {s for t in u["tables"] for l in t for s in l})
        u["world"] = [{"s": s, "k": src[s][1], "id": src[s][2]} for s in used]
        u.setdefault("sources", used)
        u.setdefault("max", [1])
        u.setdefault("changes", [])
    path = core.write_ndjson(os.path.join(core.scratch(), "sources.ndjson"), universes)
    res = core.tlc("Sources", env={"SOURCES": path}, heap="6g")
    chk.model(name, res, note)
    if core.THOROUGH:
        chk.model(name + ", termination", core.tlc("Sources", cfg="SourcesLive", env={"SOURCES": path}, heap="6g"), "every command ends")
    by = {}
    for o in res.json_lines("LOADING "):
        by.setdefault((o["u"], json.dumps(o["table"])), []).append(o["trace"])
    cases, want = [], {}
    for n, ((u, table), traces) in enumerate(sorted(by.items())):
        u, table = universes[u - 1], json.loads(table)
        cid = "%s-%d" % (name.replace(" ", "-"), n)
        used = sorted({s for l in table for s in l})
        edits = [e for s in used for e in put(shop, junk, src, s, src[s][1], src[s][2])]
        far = n % 2
        deps = "".join("d%d = %s\n" % (k + 1, json.dumps(";".join(src[s][0] for s in l).replace("#", cid))) for k, l in enumerate(table))
        edits += [{"p": "bin/cargo", "link": os.path.join(shop.dir, "cargo")},
                  {"p": "proj/stuart.toml", "s": '[site]\nname = "N"\n\n[dependencies]\n' + deps, "at": True},
                  {"p": "proj/content/root.html", "s": '{{ insert("s") }}'}, {"p": "proj/dist/old.txt", "s": "old"},
                  {"p": "proj/scripts/onPreBuild.sh", "s": 'touch "$STUART_MANIFEST_DIR/ran"'},
                  {"p": "else/p/none.js", "s": js("decoy")}, {"p": "else/p/js1.js", "s": js("decoy")}, {"p": "else/p/dir/Cargo.toml", "s": '[package]\nname = "dir"\n'}, {"p": "else/p/dir/plugin.so", "link": shop.so("decoy")}]
        bench = u.get("command") == "bench"
        far = far and not bench
        args = ["bench", "-i", "1"] if bench else ["build"] + (["--manifest-path", "../proj/stuart.toml"] if far else [])
        cli = {"op": "cli", "args": args, "cwd": "else" if far else "proj",
               "env": {"PATH": "@/bin:/usr/bin:/bin"}, "timeout": 30}
        # Which plugins each command loads does not depend on the order of the dependencies.
        rounds = []
        for r in range(len(traces[0])):
            oks = {t[r]["res"] for t in traces}
            assert len(oks) == 1
            ok = oks == {"ok"}
            ids = sorted({i for t in traces for _, i in t[r]["loaded"]}) if ok else []
            rounds.append((ok, ids))
        tried = [{table[d - 1][i - 1] for t in traces for q in t[:r + 1] for d, i in q["tried"]} for r in range(len(rounds))]
        steps = [{"op": "files", "files": edits}]
        for r, (ok, ids) in enumerate(rounds):
            page = '{{ begin("s") }}' + "".join("{{ only_%s() }}" % i for i in ids) + ("{{ who() }}" if ok else "") + '{{ end("s") }}'
            fs = [{"p": "proj/content/p.html", "s": page}, {"p": "proj/ran", "rm": True}]
            if r:
                fs += [dict(e, p=e["p"].replace("#", cid)) for c in u["changes"][r - 1] if c["s"] in used for e in put(shop, junk, src, c["s"], c["k"], c["id"], True)]
            steps += [{"op": "files", "files": fs}, cli, {"op": "snap", "dir": ".", "skip": ["bin", "remote"]}]
        known = {src[s][2] for s in used} | {"decoy"} | ({"dll"} & set(used)) | {c["id"] for cs in u["changes"] for c in cs if c["s"] in used}
        others = sorted(i for i in known - set(rounds[-1][1]) - {""})
        for i in others:
            steps += [{"op": "files", "files": [{"p": "proj/content/p.html", "s": '{{ begin("s") }}{{ only_%s() }}{{ end("s") }}' % i}]}, cli]
        cases.append({"id": cid, "steps": steps})
        want[cid] = (u, table, rounds, tried, others)
    for c, o in zip(cases, core.run_cases(exe, cases, timeout=60)):
        u, table, rounds, tried, others = want[c["id"]]
        bad = lambda what: chk.violation("%s support for JavaScript, sources %s: %s" % ("with" if u["js"] else "without", " | ".join(";".join(l) for l in table), what),
                                         {"case": c, "specified": {"rounds": rounds, "tried": [sorted(t) for t in tried]}, "observed": o})
        if isinstance(o, str) or len(o.get("steps", [])) != len(c["steps"]):
            bad(str(o))
            continue
        judge(shop, src, c, o["steps"][1:], rounds, tried, others, bad)
    chk.validated(name, len(cases))
    chk.sample({"sources": want[cases[-1]["id"]][1], "expected": want[cases[-1]["id"]][2]})


def judge(shop, src, c, steps, rounds, tried, others, bad):
    old = [["old.txt", "old"]]
    for r, (ok, ids) in enumerate(rounds):
        cli, snap = steps[3 * r + 1], steps[3 * r + 2]
        dist = [[p[len("proj/dist/"):], b] for p, b in snap if p.startswith("proj/dist/") and b is not None]
        ran = any(p == "proj/ran" for p, _ in snap)
        said = cli["err"].strip()[-150:]
        if cli["hang"]:
            return bad("command %d hangs" % (r + 1))
        if cli["ok"] != ok:
            return bad("command %d: expected %s, observed exit status %s: %s" % (r + 1, "to load %s" % ids if ok else "to fail", cli["code"], said))
        if cli["code"] not in (0, 1):
            return bad("command %d: exit status %s: %s" % (r + 1, cli["code"], said))
        if ok:
            text = dict(map(tuple, dist)).get("p/index.html")
            if text not in ["".join("[%s]" % i for i in ids) + "[%s]" % w for w in ids]:
                return bad("command %d: expected the plugins %s, observed the page %r" % (r + 1, ids, text))
            old = dist
        elif dist != old:
            return bad("command %d failed, but changed the output: %s" % (r + 1, dist))
        elif ran:
            return bad("command %d ran a script although a plugin did not load" % (r + 1))
        extra = evidence(shop, src, c["id"], snap, r == len(rounds) - 1) - tried[r]
        if extra:
            return bad("command %d tried %s, which is not its turn" % (r + 1, sorted(extra)))
    for k, i in enumerate(others):
        cli = steps[3 * len(rounds) + 2 * k + 1]
        if cli["ok"] or cli["code"] != 1:
            return bad("the plugin %s is loaded as well (exit status %s)" % (i, cli["code"]))


def C25(chk):
    harness = core.build_harness()
    deep = core.THOROUGH
    shop = Workshop(harness)
    src, _ = sources(shop)
    try:
        singles = ("nil", "symlen", "longlen", "getter", "nofn", "rec", "rej")
        everything = sorted(set(src) - (set() if deep else set(singles)))
        usable = [s for s in ("js1", "so1", "cg1", "g1", "h1") if s in src]
        few = usable + ["none", "dll", "badso", "cgfail"]
        pick = lambda want: [s for s in want if s in src]
        vcli = core.build_vcli(js=True)
        loading(chk, "two sources", vcli, shop, [{"js": True, "sources": everything, "max": [2]}], "all lists of up to two sources")
        loading(chk, "broken plugins", vcli, shop, [{"js": True, "tables": [t for s in singles for t in ([[s]], [[s, "js2"]], [["so2", s]], [[s], ["js1"]])]}], "modules which are no plugins")
        loading(chk, "three sources", vcli, shop, [{"js": True, "sources": few if deep else pick(["js2", "so2", "g2", "badso", "none"]), "max": [3]}], "all lists of up to three sources")
        loading(chk, "two plugins", vcli, shop, [{"js": True, "sources": few if deep else pick(["js1", "so1", "g1", "badso"]), "max": [2, 2 if deep else 1]}], "two dependencies, in any order")
        loading(chk, "histories", vcli, shop, histories(src, deep), "sources which change between the builds")
        loading(chk, "bench", vcli, shop, [{"js": True, "sources": few, "max": [2 if deep else 1], "command": "bench"}], "the bench command")
        vcli = core.build_vcli()
        loading(chk, "without JavaScript", vcli, shop, [{"js": False, "sources": everything if deep else pick(["js1", "mjs", "syn", "none", "so1", "g1", "h1", "h2", "dll"]), "max": [2]}],
                "the build without JavaScript support passes over JavaScript plugins")
    finally:
        shop.close()


def histories(src, deep):
    """Worlds which change: what a command loads depends on what is there now, not on earlier commands.
    (Repositories only gain commits: git pull does not follow a rewritten history.)"""
    gone = lambda s: {"s": s, "k": "none", "id": ""}
    back = lambda s: {"s": s, "k": src[s][1], "id": src[s][2]}
    changes = [
        [[{"s": "g1", "k": "git", "id": "g1b"}], [gone("g1")]],
        [[gone("g1"), gone("js1"), gone("so1")], [back("g1"), back("js1"), back("so1")]],
        [[{"s": "none", "k": "js", "id": "none"}, {"s": "noneso", "k": "lib", "id": "noneso"}], [gone("none"), gone("noneso")]],
        [[{"s": "js1", "k": "junkjs", "id": ""}, {"s": "so1", "k": "junk", "id": ""}], [{"s": "js1", "k": "js", "id": "js1x"}, {"s": "so1", "k": "lib", "id": "so1x"}]],
        [[{"s": "cg1", "k": "cargo", "id": "cg1x"}], [gone("cg1")]],
        [[{"s": "h1", "k": "httpjs", "id": "h1x"}, {"s": "hs", "k": "http", "id": "hsx"}], [{"s": "h1", "k": "httpjs", "id": ""}, gone("hs")], [back("h1"), back("hs")]],
    ]
    use = [["g1", "g2", "js1"], ["g1", "js1", "so1"], ["none", "noneso", "js2", "so2"], ["js1", "so1", "g2"], ["cg1", "js1"], ["h1", "hs", "js2"]]
    if "h1" not in src:
        changes, use = changes[:-1], use[:-1]
    return [{"js": True, "sources": u, "max": [3 if deep else 2], "changes": c} for u, c in zip(use, changes)]


# ------------------------------------------------------------------------------------ C26

U = {"t": "u"}
X = {"t": "x"}


def n(x):
    return {"t": "n", "x": str(x), "_text": str(x)}


def odd(src, j, s):
    return {"t": "odd", "j": j, "s": s if isinstance(s, dict) else S(s), "_src": src}


PLAIN = S("[object Object]")
NEST = Z
for _ in range(60):
    NEST = A(NEST)
# JavaScript values which are no JSON values: what they are converted to, and as a string.
ODD = [
    U, odd('Symbol("q")', U, X), odd("10n", U, "10"), odd("(() => 1)", O(), "() => 1"), odd("new Map([[1, 2]])", O(), "[object Map]"),
    odd("new (class Foo { a = 1; #b = 2; get c() { return 3; } })()", O(("a", n(1))), PLAIN),
    odd('{ get a() { throw new Error("no"); } }', X, PLAIN), odd("(() => { const c = {}; c.c = c; return c; })()", X, PLAIN),
    odd("(() => { let d = []; for (let i = 0; i < 300; i++) d = [d]; return d; })()", X, ""),
    odd("(() => { let d = null; for (let i = 0; i < 60; i++) d = [d]; return d; })()", NEST, ""),
    odd("new Proxy({}, { ownKeys() { throw 1; } })", X, PLAIN), odd("new Proxy({ a: 1 }, {})", O(("a", n(1))), PLAIN),
    odd("[1, , 3]", A(n(1), Z, n(3)), "1,,3"), odd("{ a: undefined, b: () => 1 }", O(("a", Z), ("b", O())), PLAIN),
    odd('Object.assign(() => 1, { k: "v" })', O(("k", S("v"))), "() => 1"),
    odd('{ toString() { throw new Error("no"); } }', O(("toString", O())), X), odd('{ toString() { return "custom"; }, x: 1 }', O(("toString", O()), ("x", n(1))), "custom"),
    odd("Object.create(null)", O(), X), odd("Object.create({ inherited: 1 })", O(), PLAIN), odd('Object.defineProperty({}, "hidden", { value: 1 })', O(), PLAIN),
    odd("{ valueOf() { return 7; } }", O(("valueOf", O())), PLAIN), odd("{ [Symbol.toPrimitive]() { throw 2; } }", O(), X), odd("[Symbol()]", A(Z), X), odd("[10n, undefined]", A(Z, Z), "10,"),
    odd("(() => { const a = [1]; a.extra = 2; return a; })()", A(n(1)), "1"), odd("new Error('E')", O(), "Error: E"),
]


def jsval(v):
    t = v["t"]
    if t == "u":
        return "undefined"
    if t == "odd":
        return "(" + v["_src"] + ")"
    if t == "a":
        return "[" + ", ".join(jsval(x) for x in v["a"]) + "]"
    if t == "o":
        return "({" + ", ".join("[%s]: %s" % (json.dumps(k), jsval(x)) for k, x in v["o"]) + "})"
    return jsontext(v)


def stuart(via, f, args):
    if via == "free":
        return "(() => { const { %s } = STUART; return %s(%s); })()" % (f, f, args)
    return "%s.%s(%s)" % (via, f, args)


def jsexpr(e):
    x = e["x"]
    if x == "lit":
        return jsval(e["v"])
    if x == "arg":
        return "args[%d]" % (e["i"] - 1)
    if x == "get":
        return stuart(e["via"], "get", json.dumps(".".join(c["s"] for c in e["k"])))
    if x == "show":
        return "show(%s)" % jsexpr(e["e"])
    return {"count": "n", "glob": "globalThis.%s" % e.get("k"), "proto": "({}).%s" % e.get("k"), "list": "[...list]"}[x]


def jsstmt(s):
    op = s["op"]
    e = jsexpr(s["e"]) if "e" in s else ""
    return {"count": lambda: "n++;", "keep": lambda: "kept = STUART;", "ruin": lambda: "globalThis.STUART = null;", "throw": lambda: 'throw new Error("thrown");',
            "glob": lambda: "globalThis.%s = %s;" % (s["k"], e), "proto": lambda: "Object.prototype.%s = %s;" % (s["k"], e), "push": lambda: "list.push(%s);" % e,
            "ret": lambda: "return %s;" % e, "mut": lambda: 'if (args.length >= %d) args[%d] = change(args[%d], %s);' % (s["i"], s["i"] - 1, s["i"] - 1, json.dumps(s["k"])),
            "set": lambda: stuart(s["via"], "set", "%s, %s" % (json.dumps(s["k"]), e)) + ";",
            "try": lambda: "try { " + " ".join(map(jsstmt, s["body"])) + " } catch (e) {}"}[op]()


PRELUDE = '''
let n = 0, kept, list = [];
const { keys } = Object, { isArray } = Array;
function show(v) {
  if (v === undefined) return "u";
  if (v === null) return "z";
  if (typeof v === "boolean") return v ? "t" : "f";
  if (typeof v === "number") return "#" + v;
  if (typeof v === "string") return "'" + v + "'";
  let out = "";
  if (isArray(v)) { for (let i = 0; i < v.length; i++) out += show(v[i]) + ","; return "[" + out + "]"; }
  for (const k of keys(v)) out += k + ":" + show(v[k]) + ",";
  return "{" + out + "}";
}
function change(v, k) {
  if (isArray(v)) { v.push("changed"); return v; }
  if (v !== null && typeof v === "object") { Object.defineProperty(v, k, { value: "changed", enumerable: true, configurable: true, writable: true }); return v; }
  return "changed";
}
'''


def jsplugin(p):
    fns = ",\n".join('  { name: %s, fn: (...args) => { %s } }' % (json.dumps(f["name"]), " ".join(map(jsstmt, f["body"]))) for f in p["fns"])
    return PRELUDE + 'export default { name: %s, version: "1", functions: [\n%s\n] };\n' % (json.dumps(p["name"]), fns)


def dotted(path):
    return "$" + ".".join(c["s"] for c in path)


def jstoken(t):
    op = t["op"]
    if op == "call":
        args = [dotted(a["p"]) if "p" in a else a.get("w", a["v"].get("x")) if a["v"]["t"] == "n" else '"%s"' % a["v"]["s"] for a in t["args"]]
        return "{{ %s::%s(%s) }}|" % (t["p"], t["f"], ", ".join(args))
    return {"dump": lambda: "{{ native::show(%s) }}|" % dotted(t["p"]), "var": lambda: "{{ %s }}|" % dotted(t["p"]), "end": lambda: "{{ end(%s) }}" % t["of"],
            "loop": lambda: "{{ for($i, $two) }}", "block": lambda: "{{ ifdefined($two) }}"}[op]()


def path(s):
    return [{"s": c, "i": int(c) if c.isdigit() else -1} for c in s.split(".")]


def specified(v):
    """Without what is only needed to write the files."""
    if isinstance(v, dict):
        return {k: specified(x) for k, x in v.items() if k[0] != "_"}
    return [specified(x) for x in v] if isinstance(v, (list, tuple)) else v


def hosting(chk, name, exe, shop, universes, note):
    """All programs of the universes, in builds of the real command line."""
    for u in universes:
        u["data"] = [["two", A(S("A"), S("B"))]] + u.get("data", [])
    given = core.write_ndjson(os.path.join(core.scratch(), "jshost.ndjson"), specified(universes))
    res = core.tlc("JsHost", env={"JSHOST": given}, heap="8g")
    chk.model(name, res, note)
    if core.THOROUGH:
        chk.model(name + ", termination", core.tlc("JsHost", cfg="JsHostLive", env={"JSHOST": given}, heap="8g"), "every build ends")
    by = {}
    for o in res.json_lines("HOSTED "):
        by.setdefault((o["u"], json.dumps(o["site"], sort_keys=True)), []).append((o["res"], ["".join(x + "|" for x in out) for out in o["outs"]]))
    cases, want = [], {}
    for k, ((u, site), outcomes) in enumerate(sorted(by.items())):
        u, site = universes[u - 1], json.loads(site)
        files = [{"p": "content/root.html", "s": '{{ insert("s") }}'}, {"p": "p/native.so", "link": shop.so("native")}, {"p": "dist/old.txt", "s": "old"}]
        files += [{"p": "p/%s.js" % p["name"], "s": jsplugin(p)} for p in u["plugins"]]
        files += [{"p": "content/%s.json" % v, "s": jsontext(x)} for v, x in u["data"]]
        deps = 'native = "p/native.so"\n' + "".join('%s = "p/%s.js"\n' % (p["name"], p["name"]) for p in u["plugins"])
        files.append({"p": "stuart.toml", "s": '[site]\nname = "N"\n\n[dependencies]\n' + deps})
        head = "".join('{{ import($%s, "%s.json") }}' % (v, v) for v, _ in u["data"])
        for i, page in enumerate(site):
            text, kinds = "", []
            for t in page:
                if t["op"] in ("loop", "block"):
                    kinds.append("for" if t["op"] == "loop" else "ifdefined")
                text += jstoken(dict(t, of=kinds.pop()) if t["op"] == "end" else t)
            files.append({"p": "content/%sp%d.html" % ("d/" * (i % 3), i), "s": '{{ begin("s") }}' + head + text + '{{ end("s") }}'})
        c = {"id": "%s-%d" % (name.replace(" ", "-"), k), "steps": [{"op": "files", "files": files}, {"op": "cli", "args": ["build"], "timeout": 30}, {"op": "snap", "dir": "dist"}]}
        cases.append(c)
        want[c["id"]] = (site, u, outcomes)
    for c, o in zip(cases, core.run_cases(exe, cases, timeout=60)):
        site, u, outcomes = want[c["id"]]
        bad = lambda what: chk.violation("plugins %s, pages %s: %s" % (", ".join(p["name"] for p in u["plugins"]), " / ".join("".join(jstoken(dict(t, of="")) for t in p) for p in site)[:200], what),
                                         {"case": c, "specified": outcomes[:6], "observed": o})
        if isinstance(o, str) or len(o.get("steps", [])) != 3:
            bad(str(o))
            continue
        cli, snap = o["steps"][1:]
        got = dict(map(tuple, snap))
        if cli["hang"] or cli["code"] not in (0, 1):
            bad("exit status %s: %s" % (cli["code"], cli["err"].strip()[-200:]))
        elif (cli["code"] == 0) not in {r == "ok" for r, _ in outcomes}:
            bad("expected %s, observed exit status %s: %s" % (outcomes[0], cli["code"], cli["err"].strip()[-200:]))
        elif cli["code"] == 1:
            if got != {"old.txt": "old"}:
                bad("the failed build changed the output")
        else:
            pages = [got.get("%sp%d/index.html" % ("d/" * (i % 3), i)) for i in range(len(site))]
            if pages not in [out for r, out in outcomes if r == "ok"]:
                bad("expected %s, observed %s" % (outcomes[0][1], pages))
    chk.validated(name, len(cases))
    chk.sample({"plugins": [[p["name"], [f["name"] for f in p["fns"]]] for p in u["plugins"]], "pages": want[cases[-1]["id"]][0], "expected": want[cases[-1]["id"]][2][0]})


def call(p, f, *args):
    return {"op": "call", "p": p, "f": f, "args": [a if isinstance(a, dict) else {"p": path(a[1:])} if isinstance(a, str) and a[:1] == "$" else {"v": n(a) if isinstance(a, int) else S(a)} for a in args]}


def written(text, v):
    """A number, as it is written in a call."""
    return {"v": n(v), "w": text}


def func(name, *body):
    return {"name": name, "body": list(body)}


def lit(v):
    return {"x": "lit", "v": v}


def arg(i):
    return {"x": "arg", "i": i}


def get(k, via="STUART"):
    return {"x": "get", "k": path(k), "via": via}


def shown(e):
    return {"x": "show", "e": e}


def st(op, **kw):
    return dict(kw, op=op)


def ret(e):
    return st("ret", e=e)


def set_(k, e, via="STUART"):
    return st("set", k=k, e=e, via=via)


def dump(p):
    return {"op": "dump", "p": path(p)}


def var(p):
    return {"op": "var", "p": path(p)}


END, BLOCK, LOOP = {"op": "end"}, {"op": "block"}, {"op": "loop", "over": [S("A"), S("B")]}
KEYS = ["a", "b", "__proto__", "constructor", "a b", "", "\u00e9\u00df\U0001d11e", "length", "null", "0", "hasOwnProperty", "__defineGetter__"]
TEXTS = ["", "s", "two words", "\u00e9\u00df\U0001d11e", "line\nbreak", "\u2028", "null", "1", "it's \"q\" \\ </script>", "x" * 200, "{{ $x }}"]
NUMBERS = ["0", "1", "-1", "0.5", "-2.25", "123456789", "9007199254740991", "-9007199254740991", "0.1", "1000000000000000"]


def json_value(r, depth):
    x = r.random()
    if depth == 0 or x < 0.5:
        return r.choice([S(r.choice(TEXTS)), n(r.choice(NUMBERS)), B(r.random() < 0.5), Z, A(), O()])
    if x < 0.75:
        return A(*[json_value(r, depth - 1) for _ in range(r.randint(1, 3))])
    return O(*[(k, json_value(r, depth - 1)) for k in r.sample(KEYS, r.randint(1, 3)) if k != "0"] + ([("a", json_value(r, 0)), ("a", json_value(r, 0))] if r.random() < 0.2 else []))


# Each way in and out of JavaScript.
def ways(p="w"):
    return {"name": p, "fns": [
        func("show", ret(shown(arg(1)))), func("seen", ret(shown(get("v")))), func("copy", set_("c", arg(1))), func("copies", set_("c", get("v"))),
        func("same", ret(arg(1))), func("change", st("mut", i=1, k="a"), ret(shown(arg(1)))), func("none"), func("keepit", st("glob", k="it", e=arg(1))), func("it", ret(shown({"x": "glob", "k": "it"})))]}


def js_values(deep, rng):
    vs = [S(x) for x in TEXTS] + [n(x) for x in NUMBERS] + [B(True), B(False), Z, A(), O(), NEST]
    vs += [O((k, S("v"))) for k in KEYS] + [O(("a", O((k, n(1))), ), (k, Z)) for k in KEYS if k != "0"]
    vs += [O(("a", n(1)), ("a", n(2))), A(O(("k", S("1")), ("l", Z), ("k", S("2")), ("l", A()))), A(A(), A(Z), A(Z, S("x"))), A(*[n(i) for i in range(40)])]
    vs += [json_value(rng, 3) for _ in range(700 if deep else 100)]
    out = []
    for v in vs:
        site = [[dump("v"), call("w", "show", "$v"), call("w", "seen"), call("w", "copy", "$v"), dump("c"), BLOCK, call("w", "copies"), dump("c"), END,
                 call("w", "keepit", "$v"), call("w", "change", "$v"), call("w", "it"), dump("v"), call("w", "show", "$v.a"), call("w", "show", "$v.0.k")]]
        out.append({"plugins": [ways()], "sites": [site, [[call("w", "same", "$v")]]], "data": [["v", v]]})
    return out


def js_literals(deep, rng):
    """Arguments which are written in the call, one to three of them."""
    texts = ["", "s", "two words", "\u00e9\u00df\U0001d11e", "line\nbreak", "a, b", "f(x)", "x=1", "$v", "-3", "it's \\ </b>", "}}", "\t", "  x ", "\r\n", "'"]
    nums = [0, 1, -1, -3, 7, 255, 256, -256, 32768, -32769, 65536, 1 << 24, (1 << 30) - 1, 1 << 30, -(1 << 30) - 1, (1 << 31) - 1, -(1 << 31)]
    lits = [{"v": S(x)} for x in texts] + nums
    ways_ = [func("show%d" % i, ret(shown(arg(i)))) for i in (1, 2, 3)] + [func("set%d" % i, set_("x", arg(i))) for i in (1, 2, 3)] + [func("same", ret(arg(1)))]
    def calls(*args):
        r = []
        for i in (1, 2, 3):
            r += [call("w", "show%d" % i, *args)] + ([call("w", "set%d" % i, *args), dump("x")] if i <= len(args) else [])
        return r + [call("w", "same", *args)]
    def odd(text, v):
        t = call("w", "show1", "s")
        return [dict(t, args=[written(text, v)]), dict(t, f="same", args=[written(text, v), {"v": S("s")}])]
    sites = [[calls(x)] for x in lits] + [[calls(x, y)] for x in nums[:6] for y in ("s", "a, b", -3, {"v": S("$v")}, "$v")] + [[odd("007", 7)], [odd("+5", 5)], [odd("-0", 0)], [odd("-08", -8)], [odd("00", 0)]]
    sites += [[calls(*[rng.choice(lits + ["$v", "$v.a"]) for _ in range(3)])] for _ in range(400 if deep else 60)]
    return [{"plugins": [{"name": "w", "fns": ways_}], "sites": sites[i:i + 10], "data": [["v", O(("a", n("-2.25")), ("b", Z))]]} for i in range(0, len(sites), 10)]


def js_odd():
    out = []
    for i, v in enumerate(ODD):
        e = lit(v)
        p = {"name": "o", "fns": [func("ret", ret(e)), func("set", set_("x", e)), func("list", set_("x", lit(A(S("0"), v)))), func("obj", set_("x", lit(O(("k", v), ("l", n(1)))))),
                                  func("tryset", st("try", body=[set_("x", e), st("count")]), set_("y", {"x": "count"})), func("text", ret(lit(A(S("0"), v)))), func("deep", set_("x", lit(O(("k", A(v))))))]}
        sites = [[[call("o", f), dump("x"), dump("y")]] for f in ("ret", "set", "list", "obj", "tryset", "text", "deep")]
        out.append({"plugins": [p], "sites": sites})
    return out


def js_calls():
    """Two plugins which use the same names for everything."""
    both = [func("count", st("count"), ret({"x": "count"})), func("set", set_("x", arg(1))), func("see", ret(shown(get("x")))),
            func("glob", st("glob", k="q", e=arg(1)), st("proto", k="r", e=arg(1))), func("globs", ret(shown({"x": "glob", "k": "q"}))), func("protos", ret(shown({"x": "proto", "k": "r"}))),
            func("throws", st("count"), set_("x", lit(S("late"))), st("throw")), func("catches", st("try", body=[st("count"), set_("x", lit(S("caught"))), st("throw")])),
            func("keep", st("keep"), ret(shown(get("i", "kept")))), func("kept", set_("x", get("i", "kept"), "kept")), func("free", set_("x", get("i", "free"), "free")),
            func("ruin", st("ruin"), st("glob", k="q", e=lit(S("ruined")))), func("after", st("ruin"), set_("x", lit(S("no")))), func("list", st("push", e=get("i")), ret({"x": "list"}))]
    a, b = {"name": "a", "fns": both}, {"name": "b", "fns": both}
    return [a, b]


def js_names():
    """Functions of one plugin with the same name, and plugins which write what they should not know of."""
    say = lambda s: ret(lit(S(s)))
    spoil = [st("glob", k="_stuart_" + k, e=lit(v)) for k, v in (("f", S("spoilt")), ("g", Z), ("toString", n(1)), ("spoil", U))]
    fns = [func("f", st("count"), say("first")), func("g", ret({"x": "count"})), func("f", st("throw")), func("f", st("count"), st("count"), say("third")), func("spoil", *spoil, st("proto", k="_stuart_h", e=lit(S("h"))), say("done")),
           func("toString", say("t")), func("h", set_("x", lit(S("h")))), func("h", set_("x", lit(S("second")))), func("constructor", say("c")), func("__proto__", say("p"))]
    return [{"name": "a", "fns": fns}, {"name": "b", "fns": list(reversed(fns))}]


def nested(depth, inner):
    for _ in range(depth):
        inner = A(inner)
    return inner


def js_sizes(deep):
    """Many functions, arguments, calls, items, plugins and pages, and large values."""
    out = []
    w, (a, b) = ways(), js_calls()
    for k in [9, 17, 33, 65, 129, 257] + ([513] if deep else []):
        vs = [A(*[n(i) for i in range(k)]), O(*[("k%d" % i, n(i)) for i in range(k)]), A(*[O(("a", n(i))) for i in range(k // 2)]), S("\u00e9x" * k * 10), nested(min(k, 120), S("in"))]
        calls = [dump("v"), call("w", "show", "$v"), call("w", "copies"), dump("c"), call("w", "copy", "$v.%d" % (k // 2 - 1))]
        out += [{"plugins": [w], "sites": [[calls], [[call("w", "same", "$v")]]], "data": [["v", v]]} for v in vs]
        many = {"name": "m", "fns": [func("f%d" % i, ret(lit(S("f%d" % i)))) for i in range(k)] + [func("last", ret(shown(arg(k))), ), func("out", set_("x", lit(vs[0])), set_("y", lit(vs[1]))), func("long", ret(lit(vs[3]))), func("vars", *[set_("v%d" % i, lit(n(i))) for i in range(k)])]}
        out.append({"plugins": [many], "sites": [[[call("m", "f%d" % i) for i in range(k)]], [[call("m", "last", *(["x"] * (k - 1) + [j])) for j in ("y", 7, "$i.a")]] if k < 100 else [[call("m", "last")]],
                                                 [[call("m", "out"), dump("x"), dump("y"), call("m", "long")]], [[call("m", "vars"), dump("v0"), dump("v%d" % (k - 1)), dump("v%d" % (k // 2))]]], "data": [["i", O(("a", S("last")))]]})
        out.append({"plugins": [a, b], "sites": [[[call("a", "count") for _ in range(k)] + [call("b", "count")]], [[BLOCK] * min(k, 50) + [call("a", "set", "A"), call("b", "see")] + [END] * min(k, 50) + [call("a", "see")]]]})
        if k <= 65:
            out.append({"plugins": [dict(w, name="p%d" % i) for i in range(k)] + [dict(b, name="q")], "sites": [[[c for i in range(k) for c in (call("p%d" % i, "show", i), call("q", "set", i))] + [dump("x")]]]})
    return out


def js_programs(rng, plugins, n, longest):
    out = []
    while len(out) < n:
        page, depth = [], 0
        for _ in range(rng.randint(2, longest)):
            x = rng.random()
            p, f = rng.choice(plugins)["name"], rng.choice([f["name"] for f in plugins[0]["fns"]])
            if f in ("throws", "after") and rng.random() < 0.8 or f == "kept" and rng.random() < 0.6:
                f = "count"
            if x < 0.2 and depth < 3:
                page.append(rng.choice([BLOCK, LOOP]))
                depth += 1
            elif x < 0.35 and depth:
                page.append(END)
                depth -= 1
            elif x < 0.45:
                page.append(dump(rng.choice(["x", "i", "v", "v.a"])))
            elif x < 0.48:
                page.append(var(rng.choice(["x", "i"])))
            else:
                page.append(call(p, f, *[rng.choice(["s", "t", 3, "$v", "$v.a", "$v"] + (["$x"] if rng.random() < 0.2 else ["$i"] if depth and rng.random() < 0.5 else [])) for _ in range(rng.choice([1, 1, 1, 0, 2]))]))
        out.append(page + [END] * depth)
    return out


def C26(chk):
    harness = core.build_harness()
    deep = core.THOROUGH
    rng = rng_for(chk, "js")
    shop = Workshop(harness)
    vcli = core.build_vcli(js=True)
    try:
        hosting(chk, "values", vcli, shop, js_values(deep, rng), "JSON values by every way in and out")
        hosting(chk, "literals", vcli, shop, js_literals(deep, rng), "arguments which are written in the call")
        hosting(chk, "other values", vcli, shop, js_odd(), "JavaScript values which are not JSON")
        ps = js_calls()
        pool = [call("a", "count"), call("b", "count"), call("a", "set", "A"), call("b", "set", "B"), call("a", "see"), call("a", "glob", "g"), call("b", "globs"), call("b", "protos"), call("a", "ruin"), LOOP, BLOCK, END]
        hosting(chk, "sequences", vcli, shop, [{"plugins": ps, "pool": pool, "max": 4 if deep else 3}], "all sequences of calls and blocks")
        pool = [call("a", "keep"), call("a", "kept"), call("b", "kept"), call("a", "free"), call("a", "after"), call("b", "catches"), call("a", "throws"), call("a", "list"), LOOP, END, dump("x"), call("a", "set", "$nope"), call("b", "count")]
        hosting(chk, "objects kept", vcli, shop, [{"plugins": ps, "pool": pool, "max": 4 if deep else 3}], "all sequences of calls which keep STUART, throw, or need what is not there")
        named = js_names()
        pool = [call("a", "f"), call("a", "g"), call("a", "spoil"), call("a", "h"), call("b", "f"), call("b", "g"), call("b", "spoil"), call("b", "h"), call("a", "toString"), call("a", "constructor"), call("b", "__proto__"), dump("x")]
        hosting(chk, "names", vcli, shop, [{"plugins": named, "pool": pool, "max": 3}], "all sequences of calls of functions with the same names, of plugins which overwrite global variables")
        three = ps + [dict(ps[0], name="c")]
        progs = js_programs(rng, three, 4000 if deep else 700, 14)
        hosting(chk, "programs", vcli, shop, [{"plugins": three, "sites": [[p] for p in progs], "data": [["v", O(("a", S("va")), ("b", A(n(1))))]]}], "random programs over three plugins")
        progs = js_programs(rng, ps, 600 if deep else 90, 6)
        hosting(chk, "sizes", vcli, shop, js_sizes(deep), "many functions, arguments, calls, plugins, and large values")
        hosting(chk, "pages", vcli, shop, [{"plugins": ps, "sites": [progs[i:i + 3] for i in range(0, len(progs), 3)], "data": [["v", O(("a", S("va")))]]}], "several pages, in any order")
    finally:
        shop.close()
