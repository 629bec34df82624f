"""Universes of Site.tla, their bytes, and their histories in the real command line."""
import json, os, re
import core

PROJ = ["w", "w", "proj"]
LOG = "log"


# ------------------------------------------------------------------------------------ descriptions

def F(p, s="", top="content", bad="", how="", imp=False, env=False, t="", raw=None, list=""):
    """A file, at a path below top.  raw overrides its text; s is hexadecimal if it starts with hex: ."""
    path = p.split("/")
    name = path[-1]
    i = name.rfind(".")
    stem, ext = (name[:i], name[i + 1:]) if i > 0 else (name, "")
    f = dict(top=top, p=path, stem=stem, ext=ext, s=s, bad=bad, how=how, imp=imp, env=env, t=t, list=list.split("/") if list else [])
    if raw is not None:
        f["raw"] = raw
    d = data_of(f)
    f["b"] = s if s.startswith("big:") else d["s"] if "s" in d else "hex:" + d["x"]
    return f


def files(*fs):
    return {"k": "files", "files": list(fs)}


NONE = files()


def manifest(strip=True, data=False, meta=False, name="N", author="(none)", ok=True, there=True, how="", written=None):
    """written: the settings which are written down (the others have their defaults)."""
    return {"k": "manifest", "there": there, "ok": ok and there, "strip": strip, "data": data, "meta": meta,
            "name": name, "author": author, "how": how,
            "written": ["strip", "data", "meta"] if written is None else written}


def script(which, does="ok", names=None, how="", linked=False, at=1):
    """how: in which way it does that.  linked: the script is a symbolic link to a file elsewhere.  at: which of them fails, if one does."""
    names = names or ["on%sBuild.sh" % which.capitalize()]
    names = sorted(names)  # ASCII
    return {"k": "script", "which": which, "does": does, "names": names, "n": len(names), "how": how, "linked": linked, "at": at}


def universe(uid, slots, rounds, base=None, temps=(), made=None, outs=(), links=(), plain=(), extra=(), dirs=(), sdirs=()):
    """slots: lists of options.  rounds: dicts of edits, slots (numbers from 1), cmds."""
    for r in rounds:
        r.setdefault("edits", 0)
        r.setdefault("slots", [])
    outs = [list(o) for o in outs] or [PROJ + ["dist"]]
    for o in (PROJ + ["dist"], PROJ + ["_build"]):
        if o not in outs:
            outs.append(o)
    paths = [f["p"] for s in slots for o in s if o["k"] == "files" for f in o["files"]] + [f["p"] for f in list(temps) + [made or MADE]] + [d.split("/") for d in list(dirs) + list(sdirs)]
    order = sorted({n for p in paths for n in p}, key=lambda n: n.encode())
    return {"id": uid, "order": order, "slots": [{"opts": s} for s in slots], "base": base or [1] * len(slots), "temps": list(temps),
            "made": made or MADE, "outs": outs, "links": list(links), "proj": PROJ, "plain": [PROJ + list(p) for p in plain],
            "rounds": rounds, "dirs": [d.split("/") for d in dirs], "sdirs": [d.split("/") for d in sdirs],
            "extra": list(extra) + [{"p": "content/" + d, "dir": True} for d in dirs] + [{"p": "static/" + d, "dir": True} for d in sdirs]}


def build(path="dist", env="production", abs=False, raw=None):
    return {"c": "build", "path": path.split("/"), "abs": abs, "env": env, "n": 1, "raw": raw or path}


def bench(n):
    return {"c": "bench", "path": ["dist"], "abs": False, "env": "benchmark", "n": n}


CLEAN = {"c": "clean"}
FLAGS = {"": [], "q": ["-q"], "v": ["-v"], "both": ["-q", "-v"]}


def saying(c, say):
    return dict(c, say=say)


def misuse(*args, where=""):
    """A command line which makes no sense, or (with where, a directory next to the manifest) none there."""
    return dict({"c": "misuse", "args": list(args)}, **({"where": where} if where else {}))


def about(*args):
    return {"c": "about", "args": list(args)}


def plain_text(s):
    return re.sub("\x1b\\[[0-9;]*m", "", s)


def too_loud(ok, out, err):
    """What a quiet command has said although it should not have, if anything."""
    out, err = plain_text(out), plain_text(err)
    if out:
        return "quiet, but printed %r" % out[:200]
    if ok and err:
        return "quiet, but said %r" % err[:200]
    if not ok and not err.startswith("error: "):
        return "quiet, but said %r before the error" % err[:200]
    return None


def senseless(c):
    return c["c"] == "misuse" or c.get("say") == "both"


def say_diff(said, cmd, r):
    """Whether a command has said what it should."""
    if said["error"]:
        if "error" not in plain_text(r["err"]):
            return "the failure is not reported: %r" % r["err"][-200:]
    elif re.search("^error", plain_text(r["err"]), re.M):
        return "an error is reported, although nothing failed: %r" % r["err"][-200:]
    if said["answer"] and not r["out"].strip():
        return "no answer"
    return None if said["more"] else too_loud(not said["error"], r["out"], r["err"])


# ------------------------------------------------------------------------------------ bytes

def big(s):
    """The text of so many bytes."""
    return ("".join("%07d\n" % i for i in range(int(s[4:]) // 8 + 1)))[:int(s[4:])]


def data_of(f):
    """The bytes of a file, as {"s": text} or {"x": hex}."""
    if "raw" in f:
        return {"s": f["raw"]}
    if f["s"].startswith("hex:"):
        return {"x": f["s"][4:]}
    if f["s"].startswith("big:"):
        return {"s": big(f["s"])}
    if f["top"] != "content":
        return {"s": f["s"]}
    stem, ext, s = f["stem"], f["ext"], f["s"]
    bad = ""
    if f["bad"] == "parse":
        bad = {"": "{{ nofunction() }}", "open": "{{ insert(\"x\"", "var": "{{ $self", "args": "{{ for($v) }}",
               "pos": "{{ for(order=\"asc\", $v) }}"}.get(f["how"], "")
        if f["how"] == "utf8":
            return {"x": (s + "\x00").encode().hex() + "ff"}
    if f["bad"] == "process":
        bad = {"": "{{ end(\"q\") }}", "var": "{{ $nope }}", "open": "{{ begin(\"q\") }}",
               "import": "{{ import($i, \"nope.json\") }}", "else": "{{ else() }}"}[f["how"]]
    if ext == "html" and stem == "root":
        return {"s": s + ("{{ $env.STUART_ENV }}" if f["env"] else "") + "{{ insert(\"x\") }}" + bad}
    if ext == "html" and stem == "md":
        return {"s": "{{ begin(\"x\") }}" + s + "{{ $self.content }}" + bad + "{{ end(\"x\") }}"}
    imp = ("{{ import($d, \"data.json\") }}", "{{ $d.v }}") if f["imp"] else ("", "")
    if ext == "html":
        listing = "{{ for($m, \"%s/\") }}{{ $m.title }};{{ end(for) }}" % "/".join(f["list"]) if f["list"] else ""
        return {"s": "junk%s{{ begin(\"x\") }}%s%s%s%s{{ end(\"x\") }}more" % (imp[0], s, imp[1], listing, bad)}
    if ext == "md":
        if f["bad"] == "parse" and f["how"] == "front":
            return {"s": "---\ntitle: \"%s\"\n" % f["t"]}
        if f["bad"] == "parse" and f["how"] == "entry":
            return {"s": "---\ntitle %s\n---\n%s" % (f["t"], s)}
        return {"s": "---\ntitle: \"%s\"\n---\n%s%s%s%s\n" % (f["t"], imp[0], s, imp[1], bad)}
    if ext == "json":
        if f["bad"] == "parse":
            return {"s": "{\"v\": "}
        return {"s": json.dumps({"v": s}, ensure_ascii=False)}
    return {"s": s}


MADE = F("made/by script.txt", "made", top="temp")


def toml_str(s):
    return json.dumps(s, ensure_ascii=False)


def manifest_text(m):
    how = m["how"]
    if how == "toml":
        return "[site\nname = \"x\"\n"
    if how == "noname":
        return "[site]\nauthor = \"x\"\n"
    if how == "badtype":
        return "[site]\nname = \"x\"\n[settings]\nstrip_extensions = \"yes\"\n"
    r = "[site]\nname = %s\n" % toml_str(m["name"])
    if m["author"] != "(none)":
        r += "author = %s\n" % toml_str(m["author"])
    keys = {"strip": "strip_extensions", "data": "save_data_files", "meta": "save_metadata"}
    if m["written"]:
        r += "\n[settings]\n" + "".join("%s = %s\n" % (keys[k], "true" if m[k] else "false") for k in m["written"])
    if how == "plugin":
        r += "\n[dependencies]\nnope = \"./nope.so;./nope.js\"\n"
    if how == "warns":
        r += "\n[dependencies]\nwarns = \"./warns.js\"\n"
    return r


SCRIPT = """n=$(ls "$VLOG" 2>/dev/null | wc -l)
d="$VLOG/$(printf %%03d "$n")-%(which)s-%(name)s"
mkdir -p "$d"
env | grep '^STUART_' | sed "s|$VROOT|@|g" | sort > "$d/env"
[ -d "$STUART_OUT_DIR" ] && cp -r "$STUART_OUT_DIR" "$d/out"
[ -e "$STUART_TEMP_DIR" ] && cp -r "$STUART_TEMP_DIR" "$d/temp"
[ -e "$STUART_MANIFEST_DIR/metadata.json" ] && cp "$STUART_MANIFEST_DIR/metadata.json" "$d/metadata.json"
%(tail)s
"""


def script_text(o, name, made):
    tail = "exit 0"
    does = "ok" if o["does"] == "fail" and o["names"][o["at"] - 1] != name else o["does"]
    if does == "ok":
        tail = {"": tail,
                "loud": "i=0; while [ $i -lt 3000 ]; do echo 'plenty of output, more than a pipe holds'; echo 'and of complaints, which are more, too' >&2; i=$((i + 1)); done; exit 0",
                "recovers": "false; nosuchcommand; (exit 4); sh -c 'kill -9 $$'; true",
                "reads": "cat > /dev/null; read line; exit 0"}.get(o["how"], tail)
    if does == "fail":
        tail = {"": "echo trouble >&2; exit 3", "killed": "kill -9 $$", "terminated": "kill -15 $$", "last": "false", "quiet": "exit 1", "most": "exit 255",
                "high": "exit 128", "syntax": "if then (((", "latin": "printf '\\377\\376'; printf '\\377' >&2; exit 2"}[o["how"]]
    if does == "temp":
        p = "/".join(made["p"])
        tail = 'mkdir -p "$STUART_TEMP_DIR/%s"; printf %%s %s > "$STUART_TEMP_DIR/%s"' % (os.path.dirname(p), made["s"], p)
    return SCRIPT % {"which": o["which"], "name": name, "tail": tail}


# ------------------------------------------------------------------------------------ projects on disk

def norm(d):
    """The form in which vcli reports bytes."""
    if "x" in d:
        b = bytes.fromhex(d["x"])
        try:
            return b.decode()
        except UnicodeDecodeError:
            return {"x": d["x"]}
    return {"link": d["link"]} if "link" in d else d["s"]


def option_files(u, o):
    """The files of an option, relative to the project: path -> bytes."""
    if o["k"] == "files":
        return {f["top"] + "/" + "/".join(f["p"]): data_of(f) for f in o["files"]}
    if o["k"] == "manifest":
        return {"stuart.toml": {"s": manifest_text(o)}} if o["there"] else {}
    r = {("tools/" if o.get("linked") else "scripts/") + n: {"s": o["text"] if "text" in o else script_text(o, n, u["made"])} for n in o["names"]}
    if o.get("linked"):
        r.update({"scripts/" + n: {"link": "@/" + at("tools/" + n)} for n in o["names"]})
    return r


DECOYS = {"README.md": {"s": "# about this project {{ $x }}\n"}, "notes/todo.txt": {"s": "mine\n"}, ".git/HEAD": {"s": "ref: x\n"},
          "_builds/keep.txt": {"s": "k"}, "dist.txt": {"s": "k"}, "contents/c.html": {"s": "k"}, "templates/root.html": {"s": "k"},
          "scripts/helper.sh": {"s": "echo decoy > \"$VLOG/decoy\"\n"}, "scripts/onPreBuild.bat": {"s": "x"},
          "scripts/onPostBuild.sh.bak": {"s": "x"}, "metadata.json.bak": {"s": "x"}, "content.json": {"s": "{}"}}
BASE_DIRS = ["content", "static"]


def sources(u, ch):
    """All the files of the project with the given choice, relative to the project."""
    r = {}
    for slot, c in zip(u["slots"], ch):
        r.update(option_files(u, slot["opts"][c - 1]))
    return r


def edits_between(u, a, b):
    """The file operations which turn choice a into b."""
    x, y = (sources(u, a) if a else {}), sources(u, b)
    ops = []
    for p in x:
        if p not in y:
            ops.append({"p": p, "rm": True})
    for p in x:
        if p not in y:  # directories which no longer have files
            d = os.path.dirname(p)
            while "/" in d and not any(q.startswith(d + "/") for q in y):
                ops.append({"p": d, "rm": True})
                d = os.path.dirname(d)
    for p, d in y.items():
        if x.get(p) != d:
            ops.append(dict(d, p=p))
    return ops


def raw(*bs):
    """Bytes which are not UTF-8, in a name or in the environment."""
    return "".join(chr(0xf700 + b) for b in bs)


def at(p):
    r = "/".join(PROJ) + "/" + p
    return os.path.normpath(r) if ".." in p else r


def place(ops):
    return {"op": "files", "files": [dict(o, p=at(o["p"])) for o in ops]}


def history_case(cid, u, trace, decoys=True, vary=None):
    """The steps which replay a history: after each command, one snapshot of everything."""
    ch = list(u["base"])
    steps = [place([{"p": d, "dir": True} for d in BASE_DIRS] + ([dict(d, p=p) for p, d in DECOYS.items()] if decoys else [])
                   + u["extra"] + edits_between(u, None, ch)),
             {"op": "files", "files": [{"p": LOG, "dir": True}] + [{"p": "/".join(l["p"]), "link": "/".join(["@"] + l["to"])} for l in u["links"]]}]
    k = 0
    for e in trace:
        if e["a"] == "edit":
            to = list(ch)
            to[e["slot"] - 1] = e["opt"]
            steps.append(place(edits_between(u, ch, to)))
            ch = to
        elif e["a"] == "temp":
            steps.append(place([dict(data_of(e["f"]), p="temp/" + "/".join(e["f"]["p"]))]))
        elif e["a"] == "cmd":
            c = e["c"]
            env = {"VLOG": "@/" + LOG, "VROOT": "@"}
            cwd, args = "/".join(PROJ), []
            k += 1
            if vary and vary(k) == 1:
                env["STUART_ENV"] = "other"
                env["V" + raw(0xff)] = raw(0xfe)
            if c["c"] == "build":
                args = ["build"]
                path = "/".join(c["path"])
                o = ("@/" + path) if c["abs"] else path
                if o != "dist":
                    args += ["-o", o]
                if vary and vary(k) == 2:  # from elsewhere
                    args += ["--manifest-path", "proj/stuart.toml"]
                    cwd = "/".join(PROJ[:-1])
            elif c["c"] == "bench":
                args = ["bench", "-i", str(c["n"])]
            else:
                args = c["args"] if "args" in c else ["clean"]
                cwd = os.path.normpath(cwd + "/" + c.get("where", ""))
            args = FLAGS[c.get("say", "")] + args
            steps.append({"op": "files", "files": [{"p": LOG, "rm": True}, {"p": LOG, "dir": True}]})
            steps.append({"op": "cli", "args": args, "cwd": cwd, "env": env})
            steps.append({"op": "snap", "dir": "."})
    return {"id": cid, "steps": steps, "decoys": decoys}


# ------------------------------------------------------------------------------------ comparison

def rows_of(m):
    """metadata.json as the rows of Site.tla."""
    rows = []

    def walk(nodes, at_):
        for n in nodes:
            p = at_ + [n.get("name")]
            t = n.get("type")
            if t == "directory":
                rows.append([p, t, ""])
                extra = set(n) - {"name", "type", "children"}
                walk(n["children"], p)
            elif t == "markdown":
                v = n.get("value")
                rows.append([p, t, v["title"] if isinstance(v, dict) and set(v) == {"title"} else key(canon(v))])
                extra = set(n) - {"name", "type", "value"}
            elif t == "json":
                v = n.get("value")
                rows.append([p, t, v["v"] if isinstance(v, dict) and set(v) == {"v"} and isinstance(v["v"], str) else key(canon(v))])
                extra = set(n) - {"name", "type", "value"}
            else:
                rows.append([p, t, ""])
                extra = set(n) - {"name", "type"}
            if extra:
                rows.append([p, "unexpected members", sorted(extra)])

    if not isinstance(m, dict) or set(m) != {"name", "author", "data"}:
        return [["metadata", m]]
    rows.append([[], m["name"], "(none)" if m["author"] is None else m["author"]])
    walk(m["data"], [])
    return rows


def key(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=False)


def canon(v):
    """A JSON value with one form for every number."""
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return float(v)
    if isinstance(v, list):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()}
    return v


def tree(snap, at_):
    """The part of a snapshot below a directory: its files, or None if the directory is absent."""
    d = {p: b for p, b in snap}
    if at_ not in d:
        return None
    if d[at_] is not None:
        return {"": d[at_]}
    return {p[len(at_) + 1:]: b for p, b in snap if p.startswith(at_ + "/") and b is not None}


def want_tree(t):
    """A tree printed by the specification: [] (absent) or [[[path, text]...]]."""
    return None if not t else files_of(t[0])


def files_of(rows):
    return {"/".join(p): norm({"x": s[4:]}) if s.startswith("hex:") else big(s) if s.startswith("big:") else s for p, s in rows}


def diff(want, got):
    if want is None or got is None:
        return None if want == got else "specified %s, found %s" % ("nothing" if want is None else sorted(want)[:6],
                                                                     "nothing" if got is None else sorted(got)[:6])
    for p in sorted(set(want) | set(got)):
        if p not in got:
            return "missing %s" % p
        if p not in want:
            return "unexpected %s" % p
        if want[p] != got[p]:
            return "%s: specified %r, found %r" % (p, want[p], got[p])
    return None


def parse_meta(text):
    try:
        return rows_of(json.loads(text))
    except Exception as e:  # noqa
        return [["unreadable", str(e), text]]


SCRIPT_SAYS = {"": ("3", "trouble"), "last": ("1",), "quiet": ("1",), "most": ("255",), "high": ("128",), "latin": ("2", "\ufffd\ufffd\n", "\ufffd\n")}


def report_diff(u, ch, told, snap, err):
    """Whether the report of a failure tells what Told in Site.tla says."""
    err = plain_text(err)
    if told["script"]:
        logs = sorted({p.split("/")[1] for p, b in snap if p.startswith(LOG + "/")})
        name = logs[-1].split("-", 2)[2]
        if name not in err:
            return "the failure of %s is not reported: %r" % (name, err[-200:])
        o = [s["opts"][c - 1] for s, c in zip(u["slots"], ch)]
        o = [x for x in o if x["k"] == "script" and x["which"] == told["script"]][0]
        for x in SCRIPT_SAYS.get(o["how"], ()):
            if not re.search(r"(?<!\d)%s(?!\d)" % x if x.isdigit() else re.escape(x), err):
                return "the report of %s does not show %r: %r" % (name, x, err[-200:])
    if told["clash"]:
        part = lambda p: any("/".join(p[:n]) in err for n in range(2, len(p) + 1))
        if not any(part(a) and part(b) for a, b in told["clash"]):
            return "the report names none of the conflicts, as %s and %s: %r" % ("/".join(told["clash"][0][0]), "/".join(told["clash"][0][1]), err[-200:])
    return None


def compare(u, trace, case, result, reports=False):
    """The first disagreement between a history and its replay, as (aspect, text), or None."""
    if "crash" in result:
        return "exit", "the driver ended: " + str(result["crash"])
    ch = list(u["base"])
    steps = [(s, r) for s, r in zip(case["steps"], result["steps"]) if s["op"] in ("cli", "snap")]
    k = 0
    cmd = None
    decoys = {p: norm(d) for p, d in DECOYS.items()} if case["decoys"] else {}
    for e in trace:
        if e["a"] == "edit":
            ch[e["slot"] - 1] = e["opt"]
        elif e["a"] == "cmd":
            cmd = e["c"]
        if e["a"] != "obs":
            continue
        (cs, cr), (_, snap) = steps[k], steps[k + 1]
        k += 2
        here = " ".join(cs["args"])
        if cr["hang"] or cr["code"] is None or cr["code"] not in ((0, 1, 2) if senseless(cmd) else (0, 1)) or "panicked" in cr["err"]:
            return "exit", "%s: code %s %s" % (here, cr["code"], cr["err"][-300:])
        if cr["ok"] != e["ok"]:
            return "exit", "%s: specified %s, observed code %s %s" % (here, "success" if e["ok"] else "failure", cr["code"], cr["err"][-300:])
        if not cr["ok"] and not (cr["out"] + cr["err"]).strip():
            return "exit", "%s: no message" % here
        d = say_diff(e["said"], cmd, cr)
        if d:
            return "said", "%s: %s" % (here, d)
        d = report_diff(u, ch, e["told"], snap, cr["err"]) if reports else None
        if d:
            return "told", "%s: %s" % (here, d)
        want = {"outs": {"/".join(o): t for o, t in e["outs"]}, "meta": e["meta"]}
        covered = []
        for o, t in sorted(want["outs"].items()):
            d = diff(want_tree(t), tree(snap, o))
            covered.append(o)
            if d:
                return "outs", "after %s: %s: %s" % (here, o[len("/".join(PROJ)) + 1:] if o.startswith("/".join(PROJ)) else o, d)
        mtext = dict((p, b) for p, b in snap).get(at("metadata.json"))
        got = None if mtext is None else parse_meta(mtext)
        wm = want["meta"][0] if want["meta"] else None
        if got != wm:
            return "meta", "after %s: metadata: %s" % (here, diff_rows(wm, got))
        if cmd["c"] != "clean":
            wt = files_of(e["temp"])
            gt = tree(snap, at("temp"))
            if (gt or {}) != wt or (e["ok"] and gt is not None and cmd.get("n", 0) > 0):
                return "temp", "after %s: temp: %s" % (here, diff(wt, gt) or "left in place")
        # everything else is as the user left it
        rest = {p: b for p, b in snap if not any(p == o or p.startswith(o + "/") for o in covered)}
        want_rest = {at(p): norm(d) for p, d in sources(u, ch).items()}
        want_rest.update({at(p): v for p, v in decoys.items()})
        for x in u["extra"]:
            if not x.get("dir"):
                want_rest[at(x["p"])] = norm(x)
        for l in u["links"]:
            want_rest["/".join(l["p"])] = {"link": "/".join(["@"] + l["to"])}
        gr = {p: b for p, b in rest.items() if b is not None and not p.startswith(LOG + "/")
              and p != at("metadata.json") and not p.startswith(at("temp/"))}
        d = diff(want_rest, gr)
        if d:
            return "sources", "after %s: %s" % (here, d)
        for x in BASE_DIRS + [x["p"] for x in u["extra"] if x.get("dir")]:
            if at(x) not in rest:
                return "sources", "after %s: the directory %s is gone" % (here, x)
        d = compare_runs(u, ch, cmd, cs, e, snap)
        if d:
            return "runs", "after %s: %s" % (here, d)
    return None


def diff_rows(a, b):
    if a is None or b is None:
        return "specified %s, found %s" % ("none" if a is None else a, "none" if b is None else b)
    ka, kb = [key(x) for x in a], [key(x) for x in b]
    if sorted(ka) == sorted(kb):
        i = [x == y for x, y in zip(ka, kb)].index(False)
        return "the order differs: specified %s next, found %s" % (ka[i], kb[i])
    return "specified but missing %s; unexpected %s" % ([x for x in ka if x not in kb][:3], [x for x in kb if x not in ka][:3] or (kb if len(kb) != len(ka) else []))


def compare_runs(u, ch, cmd, cs, e, snap):
    """What the scripts saw."""
    names = sorted({p.split("/")[1] for p, b in snap if p.startswith(LOG + "/")})
    if "decoy" in names:
        return "a file which is no build script was run"
    want = e["runs"]
    if cmd["c"] not in ("build", "bench"):
        want = []
    if len(names) != len(want):
        return "scripts run: specified %s, observed %s" % ([w["which"] for w in want], names)
    for n, w in zip(names, want):
        num, which, name = n.split("-", 2)
        if which != w["which"] or name != w["name"]:
            return "order of scripts: specified %s, observed %s" % ([x["name"] for x in want], names)
        base = LOG + "/" + n
        env = dict(l.split("=", 1) for l in dict((p, b) for p, b in snap)[base + "/env"].splitlines())
        proj = "@/" + "/".join(PROJ)
        wenv = {"STUART_MANIFEST_PATH": proj + "/stuart.toml", "STUART_MANIFEST_DIR": proj, "STUART_TEMP_DIR": proj + "/temp",
                "STUART_ENV": w["env"]}
        out = env.pop("STUART_OUT_DIR", None)
        if env != wenv:
            return "%s: environment: %s" % (n, diff(wenv, env))
        if out is None or normal(out) != normal("@/" + "/".join(cmd["path"]) if cmd["abs"] else proj + "/" + "/".join(cmd["path"])):
            return "%s: STUART_OUT_DIR is %s" % (n, out)
        d = diff(want_tree(w["out"]), tree(snap, base + "/out"))
        if d:
            return "%s saw another output: %s" % (n, d)
        wt = files_of(w["temp"])
        gt = tree(snap, base + "/temp")
        if (gt or {}) != wt or (which == "post" and gt is not None):
            return "%s saw another temp: %s" % (n, diff(wt, gt) or "present")
        mt = dict((p, b) for p, b in snap).get(base + "/metadata.json")
        gm = None if mt is None else parse_meta(mt)
        wm = w["meta"][0] if w["meta"] else None
        if gm != wm:
            return "%s saw other metadata: %s" % (n, diff_rows(wm, gm))
    return None


def normal(p):
    return os.path.normpath(p)


# ------------------------------------------------------------------------------------ running

def run(chk, name, exe, universes, note="", vary=None, decoys=True, limit=None, heap="4g", reports=False):
    """Enumerates the histories of the universes with TLC and replays each."""
    path = core.write_ndjson(os.path.join(core.scratch(), name.replace(" ", "-") + ".ndjson"), universes)
    res = core.tlc("SiteGen", env={"SITE": path}, heap=heap, fast=True)
    chk.model(name, res, note)
    by = {u["id"]: u for u in universes}
    groups = {}
    for h in res.json_lines("HISTORY "):
        groups.setdefault((h["id"], key([e for e in h["trace"] if e["a"] != "obs"])), []).append(h["trace"])
    hs = [(i, ts) for (i, _), ts in groups.items()]
    if not hs:
        raise core.ToolError("%s: no histories" % name)
    total = len(hs)
    if limit and total > limit:
        import random
        random.Random(core.SEED).shuffle(hs)
        hs = hs[:limit]
    cases = []
    for n, (i, ts) in enumerate(hs):
        v = (lambda k, n=n: (n * 7 + k) % 4) if vary else None
        cases.append(history_case("%s/%d" % (i, n), by[i], ts[0], decoys, v))
    results = core.run_cases(exe, cases, timeout=60)
    for (i, ts), c, r in zip(hs, cases, results):
        ds = [compare(by[i], t, c, r, reports) for t in ts]
        if all(ds):
            chk.violation("%s: %s" % (c["id"], " / ".join(d[1] for d in ds)), {"case": c, "specified": ts, "observed": r, "aspect": ds[0][0]})
    chk.validated(name, len(hs), note + (" (%d of %d, at random)" % (len(hs), total) if len(hs) < total else ""))
    chk.sample({"part": name, "history": hs[len(hs) // 2][1][0][:12]})
    return hs
