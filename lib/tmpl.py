"""Projects made of template tokens: rendering them to files, running them in the real code, and
recording the outcome in the form in which the specification checks it."""
import json, random, struct

# ------------------------------------------------------------------------------------ values

def S(s, chars=False):
    v = {"t": "s", "s": s}
    if chars:
        v["c"] = [[c, len(c.encode()), ord(c)] for c in s]
    return v


def num(x):
    """A double as three naturals in numeric order."""
    x = float(x)
    if x == 0:
        x = 0.0
    b = struct.unpack(">Q", struct.pack(">d", x))[0]
    b = (~b) & (2**64 - 1) if b >> 63 else b | 1 << 63
    return [b >> 42, (b >> 21) & 0x1FFFFF, b & 0x1FFFFF]


def N(x, text=None):
    return {"t": "n", "n": num(x), "_text": text if text is not None else repr(x)}


def B(b):
    return {"t": "b", "b": b}


Z = {"t": "z"}


def A(*a):
    return {"t": "a", "a": list(a)}


def O(*kv):
    return {"t": "o", "o": [[k, v] for k, v in kv]}


def jsontext(v):
    t = v["t"]
    if t == "s":
        return json.dumps(v["s"], ensure_ascii=False)
    if t == "n":
        return v["_text"]
    if t == "b":
        return "true" if v["b"] else "false"
    if t == "z":
        return "null"
    if t == "a":
        return "[" + ", ".join(jsontext(x) for x in v["a"]) + "]"
    return "{" + ", ".join(json.dumps(k, ensure_ascii=False) + ": " + jsontext(x) for k, x in v["o"]) + "}"


def from_harness(v):
    """A value as the harness reports it, in the encoding of the specification."""
    t = v["t"]
    if t == "n":
        return {"t": "n", "n": num(v["n"]) if v["n"] is not None else [0, 0, 0]}
    if t == "a":
        return {"t": "a", "a": [from_harness(x) for x in v["a"]]}
    if t == "o":
        return {"t": "o", "o": [[k, from_harness(x)] for k, x in v["o"]]}
    return v


def clean(v):
    """Removes what the specification does not need (keys starting with _)."""
    if isinstance(v, dict):
        return {k: clean(x) for k, x in v.items() if not k.startswith("_")}
    if isinstance(v, (list, tuple)):
        return [clean(x) for x in v]
    return v


# ------------------------------------------------------------------------------------ tokens

def P(text):
    """A dotted path."""
    parts = text.split(".")
    return {"v": parts[0], "path": [{"s": c, "i": index(c)} for c in parts[1:]], "_text": text}


def index(c):
    d = c[1:] if c.startswith("+") else c
    return int(d) if d.isascii() and d.isdigit() and len(d) < 9 else -1


def raw(s):
    return {"k": "raw", "s": s}


def var(p):
    return {"k": "var", "p": P(p)}


def begin(l, ident=False):
    return {"k": "begin", "l": l, "_ident": ident}


def end(l):
    return {"k": "endl", "l": l}


def endf(f):
    return {"k": "endf", "f": f}


def else_():
    return {"k": "else"}


def arg(a):
    """An operand: a str starting with $ is a variable, another str a literal, an int an integer."""
    if isinstance(a, int):
        return {"k": "int", "n": num(a), "_text": str(a)}
    if isinstance(a, str) and a.startswith("$"):
        return {"k": "var", "p": P(a[1:])}
    return {"k": "str", "s": a}


def if_(op, a, b):
    return {"k": "if", "op": op, "a": arg(a), "b": arg(b)}


def ifdef(p):
    return {"k": "ifdef", "p": P(p)}


def src(text):
    """A source path as import and for understand it."""
    return {"abs": text.startswith("/"), "comps": text.split("/"), "_text": text}


def for_(v, source, skip=None, limit=None, sortby=None, order=None):
    if source.startswith("$"):
        s = {"k": "var", "p": P(source[1:])}
    else:
        s = {"k": "dir" if source.endswith("/") else "file"}
        s.update(src(source))
    return {"k": "for", "v": v, "src": s,
            "opt": {"sort": sortby is not None, "path": P(sortby)["path"] if sortby else [],
                    "desc": order == "desc", "skip": skip or 0, "limit": -1 if limit is None else limit},
            "_named": [(k, x) for k, x in (("skip", skip), ("limit", limit), ("sortby", sortby), ("order", order))
                       if x is not None]}


def import_(v, path):
    return {"k": "import", "v": v, "path": src(path)}


def insert(l):
    return {"k": "insert", "l": l}


def excerpt(p, n):
    return {"k": "excerpt", "p": P(p), "n": n}


def ttr(p):
    return {"k": "ttr", "p": P(p)}


def probe(id_, *ps):
    return {"k": "probe", "id": id_, "ps": [P(p) for p in ps]}


def bind(v, s):
    return {"k": "bind", "v": v, "s": s}


def fail():
    return {"k": "fail"}


PLUGIN = {"name": "vp", "functions": [{"name": m, "mode": m} for m in ("probe", "bind", "fail")]}


def argtext(a):
    return a["_text"] if a["k"] == "int" else "$" + a["p"]["_text"] if a["k"] == "var" else '"%s"' % a["s"]


def call(t):
    """The name and arguments of a function token."""
    k = t["k"]
    q = lambda s: '"%s"' % s
    if k == "begin":
        return "begin", [t["l"] if t.get("_ident") else q(t["l"])]
    if k == "endl":
        return "end", [q(t["l"])]
    if k == "endf":
        return "end", [t["f"]]
    if k == "else":
        return "else", []
    if k == "if":
        return t["op"], [argtext(t["a"]), argtext(t["b"])]
    if k == "ifdef":
        return "ifdefined", ["$" + t["p"]["_text"]]
    if k == "for":
        s = t["src"]
        named = []
        for n, x in t["_named"]:
            named.append("%s=%s" % (n, x if n in ("skip", "limit") else "$" + x if n == "sortby" else q(x)))
        return "for", ["$" + t["v"], "$" + s["p"]["_text"] if s["k"] == "var" else q(s["_text"])] + named
    if k == "import":
        return "import", ["$" + t["v"], q(t["path"]["_text"])]
    if k == "insert":
        return "insert", [q(t["l"])]
    if k == "excerpt":
        return "excerpt", ["$" + t["p"]["_text"], str(t["n"])]
    if k == "ttr":
        return "timetoread", ["$" + t["p"]["_text"]]
    if k == "probe":
        return "probe", [q(t["id"])] + ["$" + p["_text"] for p in t["ps"]]
    if k == "bind":
        return "bind", ["$" + t["v"], q(t["s"])]
    if k == "fail":
        return "fail", []
    raise ValueError(k)


def render(tokens, rng=None, line=1, newlines=False):
    """The text of a list of tokens; each token's line is recorded in it (ln)."""
    out = []
    for t in tokens:
        if t["k"] == "raw":
            s = t["s"].replace("{{", "\\{{")
            t["ln"] = line
        elif t["k"] == "var":
            w = ["", " ", "  "][rng.randrange(3)] if rng else " "
            s = "{{" + w + "$" + t["p"]["_text"] + w + "}}"
            t["ln"] = line
        else:
            name, args = call(t)
            style = rng.randrange(5) if rng else 0
            if style == 0:
                s = "{{ %s(%s) }}" % (name, ", ".join(args))
            elif style == 1:
                s = "{{%s(%s)}}" % (name, ",".join(args))
            elif style == 2:
                s = "{{  %s ( %s )  }}" % (name, " , ".join(args))
            elif style == 3:
                s = "{{\t%s(\t%s\t) }}" % (name, ",\t".join(args))
            else:
                s = ("{{ %s(%s\n) }}" if newlines else "{{ %s(%s ) }}") % (name, ", ".join(args))
            t["ln"] = line
        line += s.count("\n")
        out.append(s)
    return "".join(out)


# ------------------------------------------------------------------------------------ projects

def html(path, tokens):
    return {"p": path.split("/"), "k": "html", "t": tokens}


def md(path, tokens, fm=None):
    """A markdown file; fm is a list of pairs, or None for no frontmatter."""
    return {"p": path.split("/"), "k": "md", "t": tokens, "fm": fm or [], "_fm": fm}


def jsonf(path, value):
    return {"p": path.split("/"), "k": "json", "v": value}


def other(path, text=""):
    return {"p": path.split("/"), "k": "other", "_s": text}


def dir_(path):
    return {"p": path.split("/"), "k": "dir"}


def fmtext(fm):
    return "---\n" + "".join('%s: "%s"\n' % (k, v) for k, v in fm) + "---\n"


def listed(files):
    """Files in the order in which directories are listed: that of the bytes of their names."""
    return sorted(files, key=lambda f: [c.encode() for c in f["p"]])


def out_name(f):
    """The name under which a page is found in the output directory (extensions are kept)."""
    p = "/".join(f["p"])
    return p[:-3] + ".html" if f["k"] == "md" else p


def project(id_, files, env="testing", checks=("out", "probes"), rng=None, newlines=False, style=True):
    """A project as a case: what the harness is given, in the order in which the files are created, and what the specification is given."""
    hfiles = []
    r = rng if style else None
    for f in files:
        p = "content/" + "/".join(f["p"])
        if f["k"] == "html":
            hfiles.append({"p": p, "s": render(f["t"], r, newlines=newlines)})
        elif f["k"] == "md":
            head = fmtext(f["_fm"]) if f["_fm"] is not None else ""
            body = render(f["t"], r, line=1 + head.count("\n"), newlines=newlines)
            # The body is read line by line: a final newline is not part of it.
            f["raw"] = body[:-1] if body.endswith("\n") else body
            hfiles.append({"p": p, "s": head + body})
            f["fm"] = [[k, S(v)] for k, v in (f["_fm"] or [])]
        elif f["k"] == "json":
            hfiles.append({"p": p, "s": jsontext(f["v"])})
        elif f["k"] == "other":
            hfiles.append({"p": p, "s": f["_s"]})
        elif f["k"] == "dir":
            hfiles.append({"p": p, "dir": True})
    sf = []
    for f in listed(files):
        g = clean(f)
        for k, d in (("t", []), ("fm", []), ("raw", ""), ("v", Z)):
            g.setdefault(k, d)
        sf.append(g)
    spec = {"id": id_, "files": sf, "env": {"t": "o", "o": [["STUART_ENV", S(env)]]}, "checks": list(checks)}
    run = {"id": id_, "files": hfiles, "env": env, "config": {"strip": False}, "plugins": [PLUGIN]}
    names = {}
    for f in files:
        if f["k"] in ("html", "md") and f["p"][-1] not in ("root.html", "md.html"):
            names[out_name(f)] = "/".join(f["p"])
    return {"spec": spec, "run": run, "names": names}


def observe(case, res):
    """The observation of a case from the result of the harness, or a string if it crashed."""
    if res.get("crash"):
        return "crash: " + res["crash"]
    steps = res["steps"]
    obs = {"ok": True, "out": [], "probes": [], "at": ["", 0]}
    for s in steps:
        if s.get("err") == "panic":
            return "panic: " + s["kind"]
        if not s["ok"]:
            obs["ok"] = False
            f = s.get("file", "")
            obs["at"] = [f[len("content/"):] if f.startswith("content/") else f, s.get("line", 0)]
            obs["_kind"] = "%s %s" % (s.get("err"), s.get("kind"))
        for p in s.get("probes", []):
            obs["probes"].append(p if p[1] and isinstance(p[1][0], list) else [p[0], [from_harness(v) for v in p[1]]])
    if obs["ok"]:
        for f in steps[-1]["files"]:
            if f["p"] in case["names"]:
                obs["out"].append([case["names"][f["p"]], f.get("s", "<bytes>")])
    return obs
