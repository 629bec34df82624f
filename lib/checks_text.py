"""C07, C08, C09, C27: reading template files (Lexer.tla, Source.tla)."""
import json, os, random, re
import core, gen, sizes, source, tmpl
import checks_template as ct
from tmpl import *

rng_for = ct.rng_for

ARGS = [{"name": "vp", "functions": [{"name": "args", "mode": "args"}, {"name": "fail", "mode": "fail"}, {"name": "é", "mode": "tag"}]},
        {"name": "args", "functions": [{"name": "args", "mode": "tag"}, {"name": "for", "mode": "tag"}]}]
VARS = O(("b", S("B")), ("n", tmpl.N(1)), ("l", A(S("L0"), S("L1"), A(S("L20")))), ("é", S("E")), ("", S("empty")))
IMPORT = '{{ import($a, "d.json") }}'


# ------------------------------------------------------------------------------------ all texts

def texts(chk, name, exe, pieces, maxlen, before=("",), after="", note="", kinds=False, sample=None, lines=False):
    """All texts of up to maxlen pieces in root.html, read by the specification and by the code."""
    gen = {"pieces": [list(x) for x in pieces], "before": [list(IMPORT + b) for b in before], "after": list(after), "max": maxlen, "kinds": kinds,
           "vars": [["env", O(("STUART_ENV", S("testing")))], ["a", VARS]], "wide": source.WIDE, "plugins": source.setup(ARGS)["plugins"]}
    path = core.write_ndjson(os.path.join(core.scratch(), "lex-%s.ndjson" % name.replace(" ", "-")), [tmpl.clean(gen)])
    res = core.tlc("LexGen", env={"GEN": path}, heap="8g")
    rows = res.json_lines("LEX ")
    if not rows:
        raise core.ToolError("no texts")
    packed = lambda r: not r["bad"] and not r["f"]["at"] and not kinds
    good = [r for r in rows if packed(r)]
    rest = [r for r in rows if not packed(r)]
    chk.model(name, res, "%s; all texts of up to %d of %d pieces, %d well formed, %d malformed" % (
        note, maxlen, len(pieces), sum(1 for r in rows if not r["bad"]), sum(1 for r in rows if r["bad"])))
    if sample and len(rest) > sample:
        rest = random.Random("%s/%s" % (core.SEED, name)).sample(rest, sample)
    full = lambda r: IMPORT + before[r["b"] - 1] + "".join(pieces[k - 1] for k in r["p"]) + after
    data = {"p": "content/d.json", "s": tmpl.jsontext(VARS)}
    cases, owners = [], []
    for i in range(0, len(good), 40):
        part = good[i:i + 40]
        files = [data]
        for j, r in enumerate(part):
            files += [{"p": "content/%d/root.html" % j, "s": full(r)}, {"p": "content/%d/p.html" % j, "s": ""}]
        cases.append({"id": i, "files": files, "config": {"strip": False}, "plugins": ARGS})
        owners.append(part)
    for r in rest:
        cases.append({"id": -1, "files": [data, {"p": "content/root.html", "s": full(r)}, {"p": "content/p.html", "s": ""}],
                      "config": {"strip": False}, "plugins": ARGS})
        owners.append([r])
    for c, rs, r in zip(cases, owners, core.run_cases(exe, cases)):
        o = tmpl.observe({"names": {("%d/p.html" % j if c["id"] >= 0 else "p.html"): j for j in range(len(rs))}}, r)
        if isinstance(o, str):
            chk.violation("%s: %s in %r" % (name, o, [full(x) for x in rs][:3]), {"case": c, "observed": o})
            continue
        if chk.prop == "C08":
            # Anything but a crash is the subject of the other properties.
            continue
        if c["id"] >= 0:
            outs, calls = dict(o["out"]), {}
            for w, args in o["probes"]:
                calls.setdefault(w, []).append(args)
            for j, x in enumerate(rs):
                want = (x["f"]["out"], x["f"]["calls"])
                have = (outs.get(j), calls.get("%d/root.html" % j, [])) if o["ok"] else None
                if o["ok"] and want != have or (not o["ok"] and o["at"][0] in ("%d/root.html" % j, "%d/p.html" % j, "")):
                    chk.violation("%s: %r => specified %r, observed %r" % (name, full(x), want, have or "failure at %r (%s)" % (o["at"], o.get("_kind"))),
                                  {"text": full(x), "specified": x, "observed": o if not o["ok"] else have})
            continue
        x = rs[0]
        parse = o.get("_kind", "").startswith("parse")
        if x["bad"]:
            if o["ok"] or not parse or lines and o["at"] != ["root.html", x["bad"]]:
                chk.violation("%s: %r => specified malformed at line %d, observed %s" % (
                    name, full(x), x["bad"], "ok %r" % o["out"] if o["ok"] else "failure at %r (%s)" % (o["at"], o.get("_kind"))),
                    {"text": full(x), "specified": x, "observed": o})
        elif x["f"]["at"] == -1 or kinds:
            if parse:
                chk.violation("%s: %r => specified well formed, observed %s" % (name, full(x), o.get("_kind")), {"text": full(x), "specified": x, "observed": o})
        elif o["ok"] or parse or lines and o["at"] != ["root.html", x["f"]["at"]]:
            chk.violation("%s: %r => specified failing at line %d, observed %s" % (
                name, full(x), x["f"]["at"], "ok %r" % o["out"] if o["ok"] else "failure at %r (%s)" % (o["at"], o.get("_kind"))),
                {"text": full(x), "specified": x, "observed": o})
    chk.validated(name, len(good) + len(rest))
    chk.sample({"part": name, "text": full(good[-1]) if good else full(rest[-1]), "specified": (good or rest)[-1]})
    return rows


FUNCTIONS = ["begin", "end", "else", "for", "import", "insert", "excerpt", "timetoread", "dateformat", "ifdefined",
             "ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle", "vp::args", "vp::for", "args::for", "For", "ifeqq", "vp:args", "vp::vp::args", "é", "vp::é"]

JUNK = list('{}()$",=\\ \n\r\t.-+_:10ax') + ["{{", "}}", "\\{{", "\\\\{{", "{{{", "args(", "é", "\u00a0", "😀", "\u3000", "日", "٣", "\u200b"]


def mutated(rng, t, n=3):
    for _ in range(rng.randrange(1, n + 1)):
        i = rng.randrange(len(t) + 1)
        k = rng.randrange(4)
        if k == 0:
            t = t[:i] + rng.choice(JUNK) + t[i:]
        elif k == 1:
            t = t[:i] + t[i + 1:]
        elif k == 2:
            t = t[:i] + rng.choice(JUNK) + t[i + 1:]
        else:
            j = min(len(t), i + rng.randrange(1, 6))
            t = t[:i] + t[i:j] * 2 + t[j:]
    return t


def as_text(case):
    """The files of a project made of tokens."""
    return {f["p"][len("content/"):]: f["s"] for f in case["run"]["files"] if "s" in f}


def programs(chk, n, where, chance=0.5, broken=0.3):
    """Projects with random programs, some of whose files are damaged in some characters."""
    rng = rng_for(chk, "texts")
    cases = []
    for c in ct.random_projects(chk, n, where, broken=broken, size=3):
        files = as_text(c)
        for p in sorted(files):
            if p.endswith(".html") and rng.random() < chance:
                files[p] = mutated(rng, files[p])
        cases.append(source.project(c["run"]["id"], files))
    return cases


def documents(chk, n):
    """Pages of plain text of all kinds, escapes and calls with arguments of all kinds."""
    rng = rng_for(chk, "documents")
    plain = list("abc XYZ019.,;:!?'\"()[]<>/=+-*&%$#@^~`|_\\{}\n\r\t") + list(source.ALPHA) + list(source.SPACES) + list(source.NEITHER) + \
        ["\\{{", "\\\\{{", "\\{", "{\\{", "}}", "{ {", "<p>", "</body>", "<!-- -->", "\r\n"]
    cases = []
    for i in range(n):
        def word(k, out=""):
            return "".join(rng.choice(plain) for _ in range(rng.randrange(k)))

        def quoted():
            return '"' + word(8).replace('"', "'") + '"'

        def ws():
            return "".join(rng.choice([" ", "\n", "\t", "\r\n"] + list(source.SPACES)) for _ in range(rng.choice([0, 0, 1, 2])))

        def argument():
            return rng.choice([quoted(), quoted(), "$" + rng.choice(["a", "a.b", "x_1", "é.0", "", "a..b", "."]), str(rng.choice([0, 1, -1, 2147483647, -2147483648])),
                               "+7", "007", "-0", rng.choice(FUNCTIONS[:16])])

        def tag():
            k = rng.randrange(6)
            if k == 0:
                return "{{" + ws() + "$" + rng.choice(["env.STUART_ENV", "a.b", "a.l.0", "a.l.2.0", "a.é"]) + ws() + "}}"
            args = [argument() for _ in range(rng.randrange(4))]
            args += ["%s=%s" % (rng.choice(["k", "skip", "é", "_", "9"]), argument()) for _ in range(rng.choice([0, 0, 1, 2]))]
            sep = "," if rng.random() < 0.9 else ",,"
            return "{{" + ws() + rng.choice(["args", "vp::args"]) + ws() + "(" + sep.join(ws() + a + ws() for a in args) + ")" + ws() + "}}"

        def text():
            out = []
            for _ in range(rng.randrange(1, 6)):
                t = word(25)
                # text alone must not open a tag
                while "{{" in t.replace("\\{{", ""):
                    t = word(25)
                if t.endswith(("{", "\\")):
                    t += "."
                out.append(t)
                if rng.random() < 0.7:
                    out.append(tag())
            return "".join(out)

        root = IMPORT + text() + '{{ insert("s") }}' + text()
        page = "{{ import($a, \"d.json\") }}" + text() + '{{ begin("s") }}' + text() + '{{ end("s") }}' + text()
        if rng.random() < 0.15:
            root = mutated(rng, root)
        if rng.random() < 0.15:
            page = mutated(rng, page)
        cases.append(source.project("%s-doc-%d" % (chk.prop, i), {"root.html": root, "p.html": page, "d.json": tmpl.jsontext(VARS)}, plugins=ARGS))
    return cases


def long_texts(chk, lengths):
    rng = rng_for(chk, "long")
    cases = []
    for n in lengths:
        fill = "".join(rng.choice("ab {}\\é\n") for _ in range(n)).replace("{{", "x{").replace("{{", "xx")
        fill = fill.rstrip("\\{") + "."
        name = "".join(rng.choice("abc_é9") for _ in range(min(n, 300)))
        for i, t in enumerate([fill + "\\{{y", fill + "\\{{y{{ $env.STUART_ENV }}" + fill + "\\{{", "\\{{" * (n // 4) + "{{ $env.STUART_ENV }}", fill + "{{ $env.STUART_ENV }}" + "\\{{" * (n // 4),
                               '{{ args("%s") }}' % fill.replace('"', ""), "{{ args(%s) }}" % ", ".join('"%d"' % k for k in range(min(n, 300))), "{{" + " " * n + "$env.STUART_ENV" + "\n" * 40 + "}}",
                               "{{ $%s }}" % name, "{{ args(%s=1) }}" % name, "{{ %s() }}" % name, "{{ $env.STUART_ENV }}" * min(n, 300)]):
            cases.append(source.project("C07-long-%d-%d" % (n, i), {"root.html": '{{ insert("x") }}', "p.html": '{{ begin("x") }}' + t + '{{ end("x") }}'}, checks=("out", "at", "bag"), plugins=ARGS))
    return cases


def C07(chk):
    exe = core.build_harness()
    deep = core.THOROUGH
    texts(chk, "escapes", exe, ["{", "\\", "}", "a", "\n"], 8 if deep else 6, note="braces and backslashes")
    texts(chk, "tags", exe, ["{{", "}}", "$a.b", "args()", "\\", " ", "x", "\n", "é😀"], 6 if deep else 4, note="whole tags between texts")
    texts(chk, "tag syntax", exe, ["{", "}", "$", "a.b", "args", "(", ")", " ", "\n"], 7 if deep else 5, before=("{{", "a {{ args()", "a{{$a.b"), note="the inside of a tag")
    texts(chk, "arguments", exe, ['"', "=", ",", " ", "a", "$", "1", ")", "-"], 7 if deep else 5, before=("{{args(",), after=")}}", note="the inside of an argument list")
    texts(chk, "argument lists", exe, ['"a, b)=(c"', "$a.b", "-12", "for", "k=", ",", "\n", '""', "2147483648", "{{", "}}"], 5 if deep else 4,
          before=("{{ args(",), after=") }}", note="arguments of all kinds")
    arguments = ['"x.json",', '"d/",', '"",', "$v,", "$v.w.x,", "7,", "-7,", "0,", "for,", "ifeq,", "k=1,"]
    texts(chk, "functions", exe, arguments, 3 if deep else 2, before=["{{ %s(" % f for f in FUNCTIONS], after=") }}", kinds=True, note="all functions and the types of their arguments")
    named = ["skip=1,", "skip=0,", "limit=2,", "limit=-1,", "skip=$v,", 'limit="1",', "sortby=$v.t,", 'sortby="t",', 'order="asc",', 'order="desc",', 'order="x",', "order=$v,", "x=1,", "Skip=1,", "$v,"]
    texts(chk, "loop options", exe, named, 4 if deep else 2, before=('{{ for($v, "x.json",', "{{ for($v, $a,"), after=") }}", kinds=True, note="options of loops")
    source.check(chk, "documents", exe, documents(chk, 4000 if deep else 400), "texts and calls of all kinds, some damaged", plugins=ARGS)
    source.check(chk, "damaged programs", exe, programs(chk, 4000 if deep else 500, ["page", "root", "md"]), "programs damaged in a few characters")
    source.check(chk, "long texts", exe, long_texts(chk, [127, 128, 129, 255, 256, 257, 1023, 1025, 4096] + ([8191, 20000] if deep else [])), "texts, tags, arguments and names of many characters, with escapes at their ends", plugins=ARGS)


# ------------------------------------------------------------------------------------ C09

def markdown_files(chk, name, exe, pieces, maxlen, note="", lines=False, before="", after=""):
    """All markdown files of up to maxlen pieces; what $self is in md.html and in a loop over the directory."""
    gen = {"pieces": [list(x) for x in pieces], "max": maxlen, "before": list(before), "after": list(after), "value": "testing", "wide": source.WIDE, "plugins": source.setup()["plugins"]}
    path = core.write_ndjson(os.path.join(core.scratch(), "md-%s.ndjson" % name.replace(" ", "-")), [gen])
    res = core.tlc("MdGen", env={"GEN": path}, heap="8g")
    rows = res.json_lines("MD ")
    chk.model(name, res, "%s; all files of up to %d of %d pieces, %d well formed, %d malformed" % (
        note, maxlen, len(pieces), sum(1 for r in rows if not r["bad"]), sum(1 for r in rows if r["bad"])))
    good = [r for r in rows if not r["bad"]]
    # the last entry named content is the rendering of the body; the specification gives the body
    get = lambda o, k: next(v for kk, v in o if kk == k)
    html = source.rendered(exe, {get(r["self"], "content") for r in good})
    text = lambda r: before + "".join(pieces[k - 1] for k in r["p"]) + after
    base = [{"p": "content/root.html", "s": '{{ insert("x") }}'}, {"p": "content/md.html", "s": '{{ probe("self", $self) }}{{ begin("x") }}{{ end("x") }}'}]
    cases, owners = [], []
    for i in range(0, len(good), 20):
        files = list(base)
        for j, r in enumerate(good[i:i + 20]):
            files += [{"p": "content/%d/m.md" % j, "s": text(r)},
                      {"p": "content/%d/md.html" % j, "s": '{{ probe("self-%d", $self) }}{{ begin("x") }}{{ end("x") }}' % j},
                      {"p": "content/%d/p.html" % j, "s": '{{ begin("x") }}{{ for($v, "%d/") }}{{ probe("loop-%d", $v, $self) }}{{ end(for) }}{{ end("x") }}' % (j, j)}]
        cases.append({"id": i, "files": files, "plugins": source.VP, "config": {"strip": False}})
        owners.append(good[i:i + 20])
    for r in rows:
        if r["bad"]:
            cases.append({"id": -1, "files": base + [{"p": "content/m.md", "s": text(r)}], "plugins": source.VP, "config": {"strip": False}})
            owners.append([r])
    for c, rs, r in zip(cases, owners, core.run_cases(exe, cases)):
        o = tmpl.observe({"names": {}}, r)
        if isinstance(o, str):
            chk.violation("%s: %s in %r" % (name, o, [text(x) for x in rs][:3]), {"case": c, "observed": o})
            continue
        if chk.prop == "C08":
            continue
        if c["id"] < 0:
            if o["ok"] or lines and o["at"] != ["m.md", rs[0]["bad"]]:
                chk.violation("%s: %r => specified malformed at line %d, observed %s" % (
                    name, text(rs[0]), rs[0]["bad"], "ok" if o["ok"] else "failure at %r (%s)" % (o["at"], o.get("_kind"))), {"text": text(rs[0]), "specified": rs[0], "observed": o})
            continue
        if not o["ok"]:
            chk.violation("%s: failure at %r (%s) in %r" % (name, o["at"], o.get("_kind"), [text(x) for x in rs][:20]), {"case": c, "observed": o})
            continue
        seen = {}
        for w, vs in o["probes"]:
            seen.setdefault(w, []).append(vs)
        for j, x in enumerate(rs):
            done = set()

            def known(k, v):
                # only the first entry of a name is replaced with the content
                first = k == "content" and k not in done
                done.add(k)
                return [k, S(html[v] if first else v)]

            want = {"t": "o", "o": [known(k, v) for k, v in x["self"]]}
            for w, vs in (("self-%d" % j, [want]), ("loop-%d" % j, [want, {"t": "u"}])):
                if seen.get(w) != [vs]:
                    chk.violation("%s: %r => specified %s = %s, observed %s" % (name, text(x), w, json.dumps(vs, ensure_ascii=False), json.dumps(seen.get(w), ensure_ascii=False)),
                                  {"text": text(x), "specified": vs, "observed": seen.get(w)})
    chk.validated(name, len(rows))
    if good:
        chk.sample({"part": name, "text": text(good[-1]), "specified": good[-1]})


FRONT = ["---\n", "---\r\n", "----x\n", "--\n", " ---\n", 'k: "v"\n', ' é x :"a: \\"b\\" \" \n', "k: v\n", "\n", 'content: "c"\n', 'k: ""\r\n', "text"]
BODY = ["---\n", 'k: "v"\n', "text\n", "text", "\n", "{{ $env.STUART_ENV }}", "\\{{", "# h\n", "\r\n", "{{ $"]
MARKDOWN = ["# Title\n\n", "a *b* **c** `d`\n\n", "- x\n- y\n\n", "> quote\n\n", "```\ncode\n```\n\n", "a | b\n--|--\n1 | 2\n\n", "<b>html</b>\n\n", "&amp; & < \"q\" ... --\n\n",
            "[l](/u \"t\")\n\n", "~~s~~\n\n", "- [ ] t\n\n", "x[^1]\n\n[^1]: note\n\n", "    indented\n\n", "line  \nbreak\n\n", "---\n\n", "é日😀\n\n", "# H {#i .c}\n\n", "1. a\n2. b\n\n", "\\* esc\n\n"]


def markdown_sites(chk, n):
    """Sites of markdown files with all kinds of frontmatter and bodies, loops over them, and $self everywhere."""
    rng = rng_for(chk, "markdown")
    cases = []
    keys = ["title", "date", "tags", "é", "a b", "content", "markdown", "title", "x-y", ""]
    vals = ["T", "", "a: b", "x \"y\" z", "2020-01-01", "é日😀", "{{ $x }}", "  sp  ", "---", "<b>", "\\n"]
    for i in range(n):
        files = {"data.json": '["j0", "j1"]', "root.html": 'R{{ insert("x") }}'}
        selfs = ["{{ $self.%s }}" % k for k in ("title", "date", "content", "markdown", "é", "nope", "title.x")]
        probe = lambda t: '{{ probe("%s", $self, $self.title, $self.content.0) }}' % t

        def body():
            b = ""
            for _ in range(rng.randrange(6)):
                k = rng.randrange(12)
                if k < 7:
                    b += rng.choice(MARKDOWN)
                elif k == 7:
                    b += "{{ $env.STUART_ENV }} "
                elif k == 8:
                    b += '{{ for($j, "data.json") }}*{{ $j }}*{{ end(for) }}\n\n'
                elif k == 9:
                    b += '{{ ifdefined($self) }}S{{ else() }}none{{ end(ifdefined) }}\n\n'
                elif k == 10:
                    b += '{{ for($o, "posts/") }}{{ probe("in-%d", $o.title, $o.content, $o.markdown) }}{{ end(for) }}' % i
                elif rng.random() < 0.15:
                    b += rng.choice(selfs)
                else:
                    b += '{{ begin("x") }}*s*{{ end("x") }}'
            if rng.random() < 0.3:
                b = b.rstrip("\n")
            if rng.random() < 0.2:
                b = b.replace("\n", "\r\n")
            return b

        def front():
            k = rng.random()
            if k < 0.15:
                return ""
            es = "".join("%s%s:%s\"%s\"%s\n" % (rng.choice(["", " "]), rng.choice(keys), rng.choice(["", " ", "\t "]), rng.choice(vals), rng.choice(["", " "])) for _ in range(rng.randrange(5)))
            t = "---\n" + es + rng.choice(["---", "---", "----", "---x"]) + "\n"
            if rng.random() < 0.1:
                t = rng.choice([t[:-1], t.replace('"', "", 1), t[:-5], "\n" + t, t.replace("\n", "\r\n"), t.replace(":", "", 1)])
            return t

        for j in range(rng.randrange(1, 4)):
            files["%sm%d.md" % (rng.choice(["", "posts/", "posts/"]), j)] = front() + body()
        md = 'no{{ begin("x") }}'
        for _ in range(rng.randrange(1, 5)):
            s = rng.choice(selfs[:5])
            md += s if rng.random() < 0.2 else "{{ ifdefined(%s) }}%s{{ else() }}-{{ end(ifdefined) }}" % (s.strip("{} "), s)
        md += '{{ probe("md", $self) }}{{ end("x") }}'
        files["md.html"] = md
        if rng.random() < 0.4:
            files["posts/md.html"] = '{{ begin("x") }}P{{ probe("md2", $self) }}{{ ifdefined($self.title) }}{{ $self.title }}{{ end(ifdefined) }}{{ end("x") }}'
        if rng.random() < 0.5:
            files["root.html"] = 'R{{ probe("root", $self) }}{{ insert("x") }}' + (rng.choice(selfs) if rng.random() < 0.1 else "")
        loop = '{{ for($p, "posts/"%s) }}{{ probe("loop", $p, $p.title, $self) }}%s{{ end(for) }}' % (
            rng.choice(["", ", sortby=$p.title", ', order="desc", sortby=$p.title', ", limit=1, sortby=$p.title"]), rng.choice(["", "{{ $p.content }}", "{{ $p.markdown }}"]))
        # the specification only orders ASCII keys
        if not all(t.isascii() for p, t in files.items() if p.startswith("posts/") and p.endswith(".md")):
            loop = re.sub(", sortby=[^,)]*", "", loop)
        files["p.html"] = '{{ begin("x") }}' + (loop if any(p.startswith("posts/") for p in files) else probe("page")) + '{{ end("x") }}'
        order = list(files)
        rng.shuffle(order)
        cases.append(source.project("%s-md-%d" % (chk.prop, i), {k: files[k] for k in order}))
    return cases


def C09(chk):
    exe = core.build_harness()
    deep = core.THOROUGH
    markdown_files(chk, "frontmatter", exe, FRONT, 5 if deep else 4, note="frontmatter of all forms")
    markdown_files(chk, "entries", exe, [":", '"', "k", " ", "\n", "\t\u00a0", "-"], 7 if deep else 5, before="---\nk", after='"\n---\nB', note="entries by their characters")
    markdown_files(chk, "bodies", exe, BODY, 5 if deep else 4, note="bodies and what separates them from the frontmatter")
    source.check(chk, "sites", exe, markdown_sites(chk, 4000 if deep else 500), "markdown of all kinds, with tags in bodies, loops over directories and $self everywhere")
    source.check(chk, "programs", exe, [c for c in programs(chk, 2000 if deep else 200, ["body", "md"], chance=0.1, broken=0.1)], "random programs in bodies and md.html")
    sizes.check(chk, exe, sizes.entries)


# ------------------------------------------------------------------------------------ C27

C27_TOKENS = [raw(""), begin("a"), end("a"), for_("v", "two.json"), for_("v", "none.json"), endf("for"), if_("ifeq", "a", "a"), if_("ifeq", "a", "b"), endf("ifeq"), else_(),
              var("nope"), var("v"), import_("i", "two.json"), insert("nope"), if_("ifeq", "$nope", 1), fail()]

FAULTS = ["{{ $nope }}", "{{ $l }}", '{{ insert("nope") }}', '{{ end("zz") }}', "{{ end(for) }}", "{{ else() }}", '{{ import($k, "missing.json") }}', '{{ for($v, "missing/") }}',
          '{{ for($v, $nope) }}', '{{ begin("open") }}', "{{ ifeq($nope, 1) }}", "{{ excerpt($nope, 3) }}", "{{ timetoread($l) }}", "{{ vp::fail() }}", '{{ import($l, "l.json") }}',
          '{{ dateformat("x", "y") }}', "{{ for($w, $l, skip=1) }}", "{{ nofunction() }}", "{{ $x", "{{ insert(x }}", "{{ }}", '{{ begin(a, b=1, c) }}', "{{ ifdefined($l", "{{ $nope\n}}", "{{\n\n$nope }}",
          '{{ insert(\n"nope"\n) }}', "{{ import($l,\n", "{{ ifeq(1) }}"]


def faulty_sites(chk, n, plugins=True, bodies=True):
    """Sites with something wrong somewhere: tags between many lines of text, in every kind of file."""
    rng = rng_for(chk, "faults%s%s" % (plugins, bodies))
    cases = []
    for i in range(n):
        nl = rng.choice(["\n", "\n", "\r\n"])

        def pad():
            return nl.join(rng.choice(["", "text", "é 日", "} {", "a\rb", "\\{{ x }}", "\t"]) for _ in range(rng.randrange(5)))

        def good():
            k = rng.randrange(5)
            if k == 0:
                return '{{ for($v, "l.json") }}' + pad() + "{{ $v }}" + pad() + "{{ end(for) }}"
            if k == 1:
                return "{{ ifeq(1," + rng.choice(["", "\n", " "]) + rng.choice(["1", "2"]) + ") }}" + pad() + "{{ else() }}" + pad() + "{{ end(ifeq) }}"
            if k == 2:
                return "{{ $env.STUART_ENV }}"
            if k == 3:
                return "{{ ifdefined($self.t) }}" + pad() + "{{ end(ifdefined) }}"
            return '{{ begin("s%d") }}' % rng.randrange(99) + pad() + "{{ end(begin) }}"

        faults = [f for f in FAULTS if plugins or "vp::" not in f]

        def text(fault, imports=True):
            parts = [pad() + good() for _ in range(rng.randrange(4))]
            if imports:
                parts.insert(0, '{{ import($l, "l.json") }}')
            if fault:
                f = rng.choice(faults)
                if rng.random() < 0.3:
                    f = rng.choice(["{{ ifeq(1, 1) }}", "{{ ifeq(1, 2) }}", '{{ for($v, "l.json") }}', '{{ begin("in") }}']) + pad() + f
                parts.insert(rng.randrange(1, len(parts) + 1), pad() + f)
            return "".join(parts) + pad()

        where = rng.choice(["p.html", "root.html", "md.html", "q/m.md", "q/root.html", "q/md.html", "q/p2.html", "d.json", "none", "roots"])
        more = rng.choice(["p.html", "root.html", "q/m.md", "md.html"]) if rng.random() < 0.2 else ""
        bad = lambda p: p == where or p == more
        files = {"l.json": '["x", "y"]', "root.html": pad() + text(bad("root.html")) + '{{ insert("s") }}'}
        files["p.html"] = pad() + '{{ begin("s") }}' + text(bad("p.html")) + '{{ end("s") }}'
        if bodies:
            files["md.html"] = '{{ begin("s") }}' + text(bad("md.html")) + '{{ $self.content }}{{ end("s") }}'
            front = "" if rng.random() < 0.3 else "---" + nl + "".join('k%d: "v"%s' % (j, nl) for j in range(rng.randrange(4))) + "---" + nl
            if front and rng.random() < 0.1:
                front = rng.choice([front.replace('"', "", 1), front[:-4], front.replace(":", "", 1)])
            files["q/m.md"] = front + text(bad("q/m.md"))
        if rng.random() < 0.3:
            files["q/root.html"] = text(bad("q/root.html")) + '{{ insert("s") }}'
        if bodies and rng.random() < 0.3:
            files["q/md.html"] = '{{ begin("s") }}' + text(bad("q/md.html")) + '{{ end("s") }}'
        if rng.random() < 0.3:
            files["q/p2.html"] = '{{ begin("s") }}' + text(bad("q/p2.html")) + '{{ end("s") }}'
        if bad("d.json"):
            files["deep/er/d.json"] = rng.choice(['{"a": ', "[1,]", b"\xff", "", "nul"])
            if rng.random() < 0.3:
                files["q/x%s" % rng.choice([".html", ".md"])] = b"text\n\xc3("
        if where == "roots":
            for p in rng.sample(["root.html", "md.html"], rng.randrange(1, 3)):
                files.pop(p, None)
        order = list(files)
        rng.shuffle(order)
        cases.append(source.project("%s-fault-%d" % (chk.prop, i), {k: files[k] for k in order}, env="testing" if plugins else "production", checks=("out", "at") if plugins else ("out", "at", "quote")))
    return cases


def head(t):
    return {"k": "head", "t": t, "_s": "[%s]" % t}


def kv(key, v):
    ty = {"true": "bool", "false": "bool"}.get(v, "str" if v.startswith('"') else "other")
    return {"k": "kv", "key": key, "ty": ty, "v": v.strip('"'), "_s": "%s = %s" % (key, v)}


def junk(s):
    return {"k": "bad", "_s": s}


MANIFEST = [head("site"), head("settings"), head("dependencies"), kv("name", '"N é"'), kv("name", "3"), kv("author", '"A <a@b>"'), kv("strip_extensions", "false"),
            kv("save_data_files", "true"), kv("save_metadata", "true"), kv("save_metadata", '"true"'), junk("nonsense"), junk("name = "), {"k": "blank", "_s": "# c"}]


def manifests(chk, name, vcli, lines, maxlen, more, note="", places=True):
    """All manifests of up to maxlen of the lines, and of more lines below a valid beginning, given to the command."""
    gen = {"lines": tmpl.clean(lines), "max": maxlen, "before": [1, 4], "more": more}
    path = core.write_ndjson(os.path.join(core.scratch(), "manifests.ndjson"), [gen])
    res = core.tlc("Manifest", env={"GEN": path})
    rows = res.json_lines("MANIFEST ")
    chk.model(name, res, "%s; all manifests of up to %d of %d lines, or %d below a valid beginning, %d well formed, %d not" % (
        note, maxlen, len(lines), more, sum(1 for r in rows if not r["at"]), sum(1 for r in rows if r["at"])))
    text = lambda r: "".join(lines[k - 1]["_s"] + "\n" for k in r["p"])
    content = [{"p": "proj/content/root.html", "s": '{{ insert("s") }}'}, {"p": "proj/content/p.html", "s": '{{ begin("s") }}x{{ end("s") }}'}, {"p": "proj/content/d.json", "s": "[]"},
               {"p": "other", "dir": True}]
    cases = []
    for i, r in enumerate(rows):
        cwd, args = (("proj", ["build"]), ("other", ["build", "--manifest-path", "../proj/stuart.toml"]), ("other", ["build", "--manifest-path", "@/proj/stuart.toml"]))[i % 3]
        cases.append({"id": i, "steps": [{"op": "files", "files": content + [{"p": "proj/stuart.toml", "s": text(r)}]},
                                         {"op": "cli", "args": args, "cwd": cwd}, {"op": "snap", "dir": "proj", "skip": ["content"]}]})
    for c, x, r in zip(cases, rows, core.run_cases(vcli, cases)):
        if r.get("crash"):
            chk.violation("%s: %r: %s" % (name, text(x), r["crash"]), {"manifest": text(x), "observed": r})
            continue
        res, snap = r["steps"][1], dict(r["steps"][2])
        wrong = source.said(res)
        if not wrong and chk.prop == "C08":
            continue
        if not wrong and (res["code"] == 0) != (not x["at"]):
            wrong = "specified %s, observed %s" % ("failure at %r" % x["at"] if x["at"] else "success", "success" if res["code"] == 0 else source.ANSI.sub("", res["err"])[:300])
        if not wrong and x["at"] and places:
            at = source.printed_place(res["err"], cwd="@/" + c["steps"][1]["cwd"])
            if not (at[0] == "@/proj/stuart.toml" and at[1] in x["at"] or at == ("", 0) and 0 in x["at"] and ("manifest" in res["err"] or "plugin" in res["err"])):
                wrong = "specified an error at stuart.toml:%r, observed %r" % (x["at"], source.ANSI.sub("", res["err"])[:300])
        if not wrong and not x["at"]:
            cf = x["config"]
            want = {"dist", "dist/p" if cf["strip"] == "true" else "dist/p.html"} | ({"dist/p/index.html"} if cf["strip"] == "true" else set()) | \
                ({"dist/d.json"} if cf["data"] == "true" else set()) | ({"metadata.json"} if cf["meta"] == "true" else set())
            have = {p for p in snap if p not in ("content", "stuart.toml")}
            if want != have:
                wrong = "specified %r, observed %r" % (sorted(want), sorted(have))
            elif cf["meta"] == "true":
                m = json.loads(snap["metadata.json"])
                if (m["name"], "(none)" if m.get("author") is None else m["author"]) != (cf["name"], cf["author"]):
                    wrong = "specified name and author %r, observed %r" % ((cf["name"], cf["author"]), m)
        if wrong:
            chk.violation("%s: %r: %s" % (name, text(x), wrong), {"manifest": text(x), "specified": x, "observed": r})
    chk.validated(name, len(rows))
    chk.sample({"part": name, "manifest": text(rows[-1]), "specified": rows[-1]})


def C27(chk):
    exe = core.build_harness()
    vcli = core.build_vcli()
    deep = core.THOROUGH
    for kind in ("page", "root", "md", "body"):
        ct.exhaust(chk, "faults", exe, kind, C27_TOKENS, 4 if deep else 3)
    texts(chk, "lines", exe, ["{{", "}}", "\n", "$a.b", "$n", "args(", "nope(", ")", '"\n"', "\r\n"], 6 if deep else 4, lines=True, before=("", "\n{{ args()"), note="tags over several lines")
    texts(chk, "arguments over lines", exe, ["\n", ",", "1", "k=", '"', " "], 6 if deep else 4, lines=True, before=("x\n{{\nargs(", "\n{{nope("), after=")\n}}\n", note="arguments over several lines")
    markdown_files(chk, "frontmatter", exe, FRONT, 5 if deep else 3, lines=True, note="frontmatter of all forms")
    markdown_files(chk, "bodies", exe, BODY, 5 if deep else 4, lines=True, before='---\nk: "v"\n---\n', note="bodies below a frontmatter")
    texts(chk, "far down", exe, ["{{", "}}", "\n", "$n", "nope(", ")"], 5 if deep else 3, lines=True, before=("\n" * 300, "\n" * 254 + "{{ args()"), note="tags below hundreds of lines")
    cases = []
    for n in (100, 254, 255, 256, 32767, 65534, 65535, 65536, 70000):
        for kind in ("page", "root", "md", "body"):
            files, hole, before, after = ct.host(kind)
            for bad in (var("nope"), fail(), begin("open"), import_("i", "none.json")):
                if n > 40000 and bad["k"] != "var" and not deep:
                    continue
                f = [dict(x, t=list(before) + [raw("\n" * n), bad] + list(after)) if x["p"] == hole else x for x in files]
                c = project("C27-down-%d" % len(cases), f, checks=("at",), style=False)
                # each tag has its line; the text between them does not matter here
                c["spec"] = json.loads(json.dumps(c["spec"]).replace(json.dumps("\n" * n)[1:-1], "..."))
                cases.append(c)
    ct.conform.check(chk, "lines below many", exe, cases, "faults below up to 70,000 lines")
    source.check(chk, "faulty sites", exe, faulty_sites(chk, 4000 if deep else 400), "sites with something wrong somewhere")
    where = lambda i: (("proj", ["build"]), ("other", ["build", "--manifest-path", "../proj/stuart.toml"]), ("other", ["build", "--manifest-path", "@/proj/stuart.toml"]),
                       ("proj/content", ["build", "--manifest-path", "../stuart.toml"]))[i % 4]
    source.check(chk, "messages", vcli, faulty_sites(chk, 3000 if deep else 300, plugins=False), "the same with the command line: the place named and the line quoted by its message",
                 plugins=[], through=source.through_command(vcli, where))
    manifests(chk, "manifests", vcli, MANIFEST, 4 if deep else 2, 4 if deep else 3, note="manifests by their lines")


# ------------------------------------------------------------------------------------ C08

def survive(chk, name, exe, projects, note="", plugins=ARGS):
    """Builds projects ({path: text or bytes}); only the two ways in which the machines end are accepted."""
    cases = [{"id": i, "files": [{"p": "content/" + p, "x": t.hex()} if isinstance(t, bytes) else {"p": "content/" + p, "s": t} for p, t in fs.items()],
              "config": {"strip": i % 2 == 0, "data": True, "meta": True}, "plugins": plugins,
              "steps": [{"op": "build"}, {"op": "save", "to": "dist"}, {"op": "meta", "to": "metadata.json"}], "continue": True} for i, fs in enumerate(projects)]
    ok = 0
    for fs, c, r in zip(projects, cases, core.run_cases(exe, cases)):
        bad = r.get("crash") or [s["kind"] for s in r["steps"] if s.get("err") == "panic"]
        if bad:
            chk.violation("%s: %s with %r" % (name, bad, sorted((p, t[:300]) for p, t in fs.items())), {"case": c, "observed": r})
        else:
            ok += r["steps"][0]["ok"]
    chk.validated(name, len(projects), "%s; %d of %d build" % (note, ok, len(projects)))
    chk.sample({"part": name, "files": {p: repr(t)[:200] for p, t in projects[len(projects) // 2].items()}})


# Environments, some of them not UTF-8.
ODD = "".join(chr(0xf700 + b) for b in (0xff, 0xc3, 0x80))
ENVIRONMENTS = [{}, {}, {"V": "a" + ODD}, {"V" + ODD: "", "W": ""}, {"STUART_ENV": ODD, "LANG": ODD}, {"E": "{{ $x }}\n\x01" + "x" * 9000}]


def survive_commands(chk, name, vcli, projects, note=""):
    """The same with the command line; a project may have its manifest."""
    cases, ok = [], 0
    for i, fs in enumerate(projects):
        hf = [{"p": "proj/" + (p if p == "stuart.toml" else "content/" + p), **({"x": t.hex()} if isinstance(t, bytes) else {"s": t})} for p, t in fs.items()]
        if "stuart.toml" not in fs:
            hf.append({"p": "proj/stuart.toml", "s": "[site]\nname = \"N\"\n[settings]\nsave_metadata = true\nsave_data_files = true\n"})
        cases.append({"id": i, "steps": [{"op": "files", "files": hf}, {"op": "cli", "args": (["-v"] if i % 3 == 0 else ["-q"] if i % 3 == 1 else []) + ["build"], "cwd": "proj",
                                          "env": dict(ENVIRONMENTS[i % len(ENVIRONMENTS)])},
                                         {"op": "snap", "dir": "proj", "skip": ["content"]}]})
    for fs, c, r in zip(projects, cases, core.run_cases(vcli, cases)):
        wrong = r.get("crash") or source.said(r["steps"][1])
        if not wrong:
            there = any(p == "dist" for p, _ in r["steps"][2])
            ok += r["steps"][1]["code"] == 0
            if there and r["steps"][1]["code"] != 0:
                wrong = "exit code %d with an output directory" % r["steps"][1]["code"]
        if wrong:
            chk.violation("%s: %s with %r" % (name, wrong, sorted((p, t[:300]) for p, t in fs.items())), {"case": c, "observed": r})
    chk.validated(name, len(projects), "%s; %d of %d build" % (note, ok, len(projects)))


def wild_text(rng, n):
    return "".join(rng.choice(JUNK + ["{{ ", " }}", "$a", "for", "end", "begin", "ifeq", "else()", "---\n", '"k"', ": ", "null", "true", "[", "]", "9" * 12, "-", "\u2028", "\x00"])
                   for _ in range(rng.randrange(n)))


def wild(rng, n):
    """Any bytes, mostly those which mean something."""
    if rng.random() < 0.4:
        return wild_text(rng, n)
    return b"".join(bytes([rng.randrange(256)]) if rng.random() < 0.2 else wild_text(rng, 3).encode() for _ in range(rng.randrange(n)))


BASE = {"root.html": '{{ insert("s") }}', "md.html": '{{ begin("s") }}{{ $self.content }}{{ end("s") }}'}


def nests(depth):
    """Projects nested as deep as promised."""
    blocks = [('{{ begin("s") }}', '{{ end("s") }}'), ('{{ begin("s") }}', "{{ end(begin) }}"), ("{{ ifeq(1, 1) }}", "{{ end(ifeq) }}"), ("{{ ifeq(1, 2) }}", "{{ end(ifeq) }}"),
              ("{{ ifeq(1, 2) }}{{ else() }}", "{{ end(ifeq) }}"), ('{{ for($v, "one.json") }}', "{{ end(for) }}"), ('{{ for($v, "none.json") }}', "{{ end(for) }}"),
              ("{{ ifdefined($v) }}", "{{ else() }}{{ end(ifdefined) }}"), ("{{ ifne($env.STUART_ENV, 1) }}", "{{ end(ifne) }}")]
    base = dict(BASE, **{"one.json": "[1]", "none.json": "[]"})
    out = []
    for k, (o, e) in enumerate(blocks):
        for text in (o * depth + "x" + e * depth, o * depth, e * depth, o * depth + e * (depth - 1), o * depth + e * depth * 2):
            for where in ("p.html", "root.html", "md.html", "m.md"):
                out.append(dict(base, **{"m.md": "m", where: text}))
        o2, e2 = blocks[(k + 1) % len(blocks)]
        out.append(dict(base, **{"p.html": (o + o2) * (depth // 2) + "x" + (e2 + e) * (depth // 2)}))
        out.append(dict(base, **{"p.html": (o + o2) * (depth // 2) + "x" + (e + e2) * (depth // 2)}))
    for o, e in (("[", "]"), ('{"a":', "}"), ('[{"a":', "}]")):
        n = depth if o != '[{"a":' else depth // 2
        for text in (o * n + "1" + e * n, o * n, e * n, o * n + e * n, o * n + '"x' + e * n):
            out.append(dict(base, **{"d.json": text, "p.html": '{{ import($d, "d.json") }}{{ begin("s") }}{{ ifdefined($d%s) }}{{ end(ifdefined) }}{{ end("s") }}' % (".a" * n)}))
    deep = "/".join("d%d" % i for i in range(depth))
    out.append(dict(base, **{deep + "/p.html": '{{ begin("s") }}{{ import($a, "%s/x.json") }}{{ $a }}{{ end("s") }}' % deep, deep + "/x.json": '"v"'}))
    out.append({deep + "/p.html": "", "p.html": ""})
    md = [">" * depth + " x", "- " * depth + "x", "[" * depth + "x" + "](u)" * depth, "*" * depth + "x" + "*" * depth, "`" * depth, "<b>" * depth, "|a" * depth + "\n" + "|-" * depth]
    out += [dict(base, **{"m.md": t}) for t in md]
    return out


WEIRD = ['', '"', '\\', '"a', '[1', '{"a":1,}', '{"a" 1}', "[1 2]", "01", "1.", ".5", "1e999", "-1e999", "1e-999", "9" * 400, "0." + "9" * 400, "-", "+1", "NaN", "Infinity", "tru", "nul", "[]]", "\ufeff[]",
         '"\\u12"', '"\\ud800"', '"\\udc00\\ud800"', '"\\u0000"', '"\\x"', '"\n"', '{"a":1,"a":2}', "[,]", "{,}", "[1]x", "/* */ 1", "'a'", '{1:2}', "\x00", "[" * 63, '"' + "é" * 300 + '"', "\u00a0[]", "1 ", " \t\r\n1",
         '"\\"', '"\\', '"\\u', '"\\uD83D\\uDE00"', '{"a":', '{"a"', "{", '{"', "[[", "-e", "1e", "1e+", "--1"]
WEIRD_BYTES = [b"\xff", b'"\xff"', b'"\xc3"', b"\xed\xa0\x80", b"\xfe\xff\x00[", b"[\x80]", b"\xf4\x90\x80\x80", b"\x00" * 50]
DATES = ["", "2020-13-45", "2020-02-30", "9999999999999999999", "-1", "0", "1", "1e5", "2020", "2020-01-01T25:00:00Z", "99999-01-01", "Tue, 99 Foo 2020", "12:61", "24:00 PM", "é", "\x00", "2020-01-01 00:00:60",
         "1511648546", "May 6 at 9:24 PM", "Feb 29, 2021", "0000-00-00", "10000000000000000000000000", "2021-04-30 21:14 XYZ", "13 Blue 2020"]
FORMATS = ["", "%", "%%", "%Q", "%5", "%-", "%:", "%:z", "%.f", "%3f", "%.10f", "%+", "%Y" * 200, "é%é", "%é", "%E", "%O", "%s%f%j%Z", "%_", "%#z", "\x00"]


def weird():
    page = lambda t: '{{ begin("s") }}' + t + '{{ end("s") }}'
    out = []
    for t in WEIRD + WEIRD_BYTES:
        out.append(dict(BASE, **{"d.json": t, "p.html": page('{{ import($d, "d.json") }}{{ for($v, "d.json") }}{{ end(for) }}')}))
        out += [dict(BASE, **{w: t}) for w in ("p.html", "root.html", "md.html", "m.md", "other.txt")]
        if isinstance(t, str):
            out.append(dict(BASE, **{"m.md": '---\nk: %s\n---\n' % t}))
            out.append(dict(BASE, **{"m.md": '---\n%s: "x"\n---\n' % t, "p.html": page("{{ $self.%s }}" % t)}))
            out.append(dict(BASE, **{"p.html": page("{{ %s }}" % t)}))
            out += [dict(BASE, **{"p.html": page("{{ %s(%s) }}" % (f, t))}) for f in FUNCTIONS[:17]]
    for d in DATES:
        for f in FORMATS[::3] if d not in ("1511648546", "2020-02-30") else FORMATS:
            out.append(dict(BASE, **{"d.json": json.dumps([d]), "p.html": page('{{ import($d, "d.json") }}{{ dateformat($d.0, "%s") }}' % f)}))
    nums = ["0", "-1", "2147483647", "-2147483648", "2147483648", "9" * 30, "-" + "9" * 30, "00", "-0", "+5", "1.5"]
    for n in nums:
        out.append(dict(BASE, **{"d.json": '"a<b>é日😀<"', "p.html": page('{{ import($d, "d.json") }}{{ excerpt($d, %s) }}' % n)}))
        for o in ("skip=%s", "limit=%s", "skip=1, limit=%s", "limit=1, skip=%s", "sortby=%s", "order=%s"):
            out.append(dict(BASE, **{"d.json": '[{"a": "é"}, 1, [], null, {"a": 2}, "x"]', "p.html": page('{{ for($v, "d.json", %s) }}{{ ifdefined($v.a) }}x{{ end(ifdefined) }}{{ end(for) }}' % (o % n))}))
    for s in ("", "x", "<", "<<<<", ">", "<b", "é" * 300, "😀<", "< é >" * 40, "\u0301", " \n\t"):
        for n in range(0, 9):
            out.append(dict(BASE, **{"d.json": json.dumps(s), "p.html": page('{{ import($d, "d.json") }}{{ excerpt($d, %d) }}{{ timetoread($d) }}' % n)}))
    for p in ("", ".", "..", "/", "//", "a//b", "./d.json", "../content/d.json", "d.json/", "d.json/x", "/etc/passwd", "\x00", "é", "a" * 300, "*", "p.html", "m.md", "other.txt", "root.html", "./", "../", "../../", "///"):
        for f in ('{{ import($d, "%s") }}', '{{ for($v, "%s") }}x{{ end(for) }}', '{{ for($v, "%s/") }}{{ $v.content }}{{ end(for) }}'):
            out.append(dict(BASE, **{"d.json": "[]", "m.md": f % p, "other.txt": "o", "p.html": page(f % p)}))
            out.append(dict(BASE, **{"d.json": "[]", "deep/er/p.html": page(f % p), "m.md": "m"}))
    return out


def odd_names():
    """Files whose names are not UTF-8, or strange otherwise."""
    out = []
    for n in (ODD, "a" + ODD, "\n", "\x01\x7f", " ", "{{ $x }}", "\\", "\u202e", "~", "-", "--help", "a" * 250, "\u00e9" * 120, "*", "$x", "&", "'", '"', "<b>", "%00", "...", ". "):
        for ext in ("", ".html", ".md", ".json", ".txt", "/p.html", "/m.md", "/root.html"):
            if len((n + ext.split("/")[0]).encode()) <= 255:
                out.append(dict(BASE, **{n + ext: "1", "l.html": '{{ begin("s") }}{{ for($v, "%s/") }}x{{ end(for) }}{{ end("s") }}' % n if "/" in ext else '{{ import($v, "%s%s") }}' % (n, ext)}))
                out.append(dict(BASE, **{n + ext: "\xff" if ext != ".txt" else b"\xff", "l.html": '{{ begin("s") }}{{ $v'}))
    return out


SITE = '[site]\nname = "x"\n'
MANIFESTS = ["", "[site]\nname = 1", SITE + "author = []", "\ufeff" + SITE, "[" + SITE, "site = 3", 'site = {name = "x"}', 'site.name = "x"', '[site]\nname = "x', "[site]\nname = '''x'''",
             '[site]\nname = "\\u0000"', '[site]\nname = "\\uD800"', (SITE + "[settings]\nsave_metadata = true\n").replace("\n", "\r\n"), "a = " + "[" * 64 + "]" * 64, "a" * 5000, "= 1", "[]", "[.]", "# only",
             b"\xff", b'[site]\nname = "\xff"', b"\x00", '[site]\nname = "{{ $x }}"', '[site]\nname = ""', SITE + "[settings]\nsave_metadata = 1", SITE + "[settings]\nsave_metadata = truee",
             '[site]\nname = "' + "n" * 3000 + '"\n[settings]\nsave_metadata = true'] + \
    [SITE + "[dependencies]\n" + d for d in ('a = ""', 'a = ";;"', 'a = "nope.js"', 'a = "nope.so"', 'a = "/"', 'a = "stuart.toml"', 'a = 7', '"" = "x.so"', 'a = "x.so;y.js;z.dll;./"')]


def C08(chk):
    exe = core.build_harness()
    vcli = core.build_vcli()
    deep = core.THOROUGH
    rng = rng_for(chk, "wild")
    files, hole, before, after = ct.host("page")
    gen.live(chk, "termination", files, hole, C27_TOKENS[:11], 4 if deep else 3, before, after)
    for kind in ("page", "root", "md", "body"):
        ct.exhaust(chk, "programs", exe, kind, C27_TOKENS, 3 if deep or kind == "page" else 2)
    texts(chk, "tags", exe, ["{{", "}}", '"', "(", ")", ",", "=", "$", "a", "args", "for", "\\", "\n", "é", "-", "9"], 4 if deep else 3,
          before=("", "{{ ", "{{ for(", "{{ args(", "{{ args($a, ", "{{ excerpt($a.b, ", "{{ $a", '{{ begin("'), note="pieces of tags")
    markdown_files(chk, "frontmatter", exe, ["---\n", "---", "\n", ":", '"', "k", "é", '"\n', "\r", "\u2028"], 5 if deep else 4, note="pieces of frontmatter")
    deepest, odd = nests(64), weird()
    survive(chk, "nesting", exe, deepest, "blocks, data, directories and markdown nested 64 deep, closed and not")
    survive(chk, "unusual values", exe, odd, "malformed and extreme data, dates, numbers and paths")
    names = ["p.html", "root.html", "md.html", "m.md", "d.json", "x.txt", "q/p.html", "q/m.md", "q/root.html", "index.html", ".html", ".md", ".json", "a.b.md"]
    wilds = []
    for _ in range(20000 if deep else 2500):
        fs = dict(BASE)
        for p in rng.sample(names, rng.randrange(1, 4)):
            fs[p] = wild(rng, 30)
        wilds.append(fs)
    survive(chk, "any bytes", exe, wilds, "random bytes in all files")
    damaged = [{f["p"][len("content/"):]: bytes.fromhex(f["x"]) if "x" in f else f["s"] for f in c["run"]["files"] if "s" in f or "x" in f}
               for c in programs(chk, 4000 if deep else 600, ["page", "root", "md", "body"], chance=0.7) + markdown_sites(chk, 200) + faulty_sites(chk, 300)]
    damaged = [{p: mutated(rng, t) if isinstance(t, str) and rng.random() < 0.08 else t for p, t in fs.items()} for fs in damaged]
    survive(chk, "damaged sites", exe, damaged, "whole sites with damage in some characters", plugins=source.VP)
    tomls = [dict(BASE, **{"stuart.toml": m, "p.html": '{{ begin("s") }}x{{ end("s") }}'}) for m in MANIFESTS]
    for _ in range(300 if deep else 60):
        tomls.append(dict(BASE, **{"stuart.toml": mutated(rng, source.MANIFEST + "[dependencies]\n", 4)}))
    everything = deepest + odd + wilds + damaged
    picked = everything if deep else rng.sample(everything, 2400)
    survive_commands(chk, "names", vcli, odd_names(), "files with strange names, some not UTF-8")
    survive_commands(chk, "commands", vcli, picked + tomls, "some of the above, and damaged manifests, with the command line")
    manifests(chk, "manifests", vcli, MANIFEST, 3 if deep else 2, 3 if deep else 2, note="manifests by their lines", places=False)


# ------------------------------------------------------------------------------------ C18

SPECIFIERS = list("YCymdejuwWGgVHkIlMSDxFvRTXrc+aAbhBpPZzsfnt%") + [":z", ".3f"]
NO_FORMATS = ["%", "%Q", "a %", "%é", "%Y%", "%:", "%E", "%d %!", "%.", "%-", "%3"]


def fitem(f, pad=""):
    return {"f": f, "pad": pad, "l": ""}


def flit(s):
    return {"f": "", "pad": "", "l": s}


def format_text(fmt):
    return "".join(i["l"].replace("%", "%%") if not i["f"] else "%" + i["pad"] + i["f"] for i in fmt)


def C18(chk):
    """Dates walked by the machine, in all notations, formatted by the real code."""
    exe = core.build_harness()
    rng = rng_for(chk)
    deep = core.THOROUGH
    formats = []
    # every specifier, on its own, with its neighbours, and with every way of padding
    for k in range(0, len(SPECIFIERS), 9):
        formats.append([x for f in SPECIFIERS[k:k + 9] for x in (fitem(f), flit("|"))])
    for f in SPECIFIERS:
        formats.append([fitem(f)])
    formats += [[fitem(f, p) for f in "YmdeHkIlMSjWVGgCyuw"] for p in "-_0"]
    formats += [[flit("")], [flit("no date")], [flit("é, (")] + [fitem("d")] + [flit(")= 日😀 ")] + [fitem("B")]]
    for _ in range(400 if deep else 60):
        formats.append([rng.choice([fitem(rng.choice(SPECIFIERS)), flit(rng.choice(["-", " ", "T", ", ", "é", "de ", "Y", "o'clock"]))]) for _ in range(rng.randrange(1, 7))])
    years = list(range(1902, 2100)) if deep else [1904, 1969, 1970, 1999, 2000, 2001, 2004, 2009, 2015, 2016, 2020, 2021, 2024, 2026, 2032, 2037, 2050]
    gen_ = {"years": years, "every": 1 if deep else 3, "formats": formats, "offsets": [0, 60, -300, 330, 765, -720, -210, 1],
            "times": [[0, 0, 0], [23, 59, 59], [12, 0, 0], [0, 0, 1], [11, 59, 59], [12, 34, 56], [1, 2, 3], [20, 5, 9], [13, 0, 0]]}
    path = core.write_ndjson(os.path.join(core.scratch(), "dates.ndjson"), [gen_])
    res = core.tlc("Date", env={"GEN": path}, heap="8g")
    rows = res.json_lines("DATE ")
    chk.model("calendar", res, "%d years walked day by day, %d days in all notations; %d formats" % (len(years), len(rows), len(formats)))
    # one page for each format and 30 days
    byfmt = {}
    for r in rows:
        byfmt.setdefault(r["fmt"], []).append(r)
    cases, owners = [], []
    for f, rs in sorted(byfmt.items()):
        for i in range(0, len(rs), 30):
            part = [(d, o) for r in rs[i:i + 30] for d, o in zip(r["dates"], r["outs"])]
            data = json.dumps([d for d, _ in part])
            page = '{{ begin("s") }}{{ for($d, "d.json") }}<{{ dateformat($d, "%s") }}>{{ end(for) }}{{ end("s") }}' % format_text(formats[f - 1])
            cases.append({"id": len(cases), "files": [{"p": "content/d.json", "s": data}, {"p": "content/root.html", "s": '{{ insert("s") }}'}, {"p": "content/p.html", "s": page}],
                          "config": {"strip": False}})
            owners.append((f, part))
    # the local time zone of the process must not matter
    for tz in ("UTC", "Pacific/Kiritimati", "America/St_Johns"):
        todo = [k for k in range(len(cases)) if ("UTC", "Pacific/Kiritimati", "America/St_Johns")[k % 3] == tz]
        results = core.run_cases(exe, [cases[k] for k in todo], env={"TZ": tz})
        for k, r in zip(todo, results):
            f, part = owners[k]
            o = tmpl.observe({"names": {"p.html": "p"}}, r)
            fmt = format_text(formats[f - 1])
            if isinstance(o, str) or not o["ok"]:
                chk.violation("dates: format %r of dates like %r: %s" % (fmt, part[0][0], o if isinstance(o, str) else "failure at %r" % o["at"]), {"case": cases[k], "observed": o})
                continue
            got = dict(o["out"])["p"]
            if got == "".join("<%s>" % x for _, x in part):
                continue
            pieces = got[1:-1].split("><")
            for (d, want), have in zip(part, pieces):
                if want != have:
                    chk.violation("dates: %r of %r in TZ=%s => specified %r, observed %r" % (fmt, d, tz, want, have), {"date": d, "format": fmt, "specified": want, "observed": have})
                    break
    chk.validated("dates", sum(len(p) for _, p in owners), "the notations of each day, formatted, in three local time zones")
    # what is not a date, or not a format
    good = [r["dates"][i % len(r["dates"])] for i, r in enumerate(rows[:40])]
    wrong = sorted({d for r in rows for d in r["wrong"]})
    wrong = wrong if deep else rng.sample(wrong, min(len(wrong), 400))
    padded = sorted({d for r in rows for d in r["padded"]})
    wrong += padded if deep else rng.sample(padded, min(len(padded), 400))
    wrong += ["", " ", "hello", "2021", "2021-1", "1", "12345", "99999999999", "May", "2021-05-14T", "T10:00:00Z", "14.5", "0", "-1", "é", "2021/13/45", "tomorrow", "now"]
    todo = [(json.dumps(d), "%Y") for d in wrong] + [(json.dumps(good[i % len(good)]), f) for i, f in enumerate(NO_FORMATS)]
    todo += [(v, "%Y") for v in ("1511648546", "null", "true", "[]", "{}", '["2021-01-01"]')]
    cases = [{"id": i, "files": [{"p": "content/d.json", "s": v}, {"p": "content/root.html", "s": '{{ insert("s") }}'},
                                 {"p": "content/p.html", "s": '{{ import($d, "d.json") }}{{ begin("s") }}{{ dateformat($d, "%s") }}{{ end("s") }}' % f}],
              "config": {"strip": False}} for i, (v, f) in enumerate(todo)]
    cases.append({"id": -1, "files": [{"p": "content/root.html", "s": '{{ insert("s") }}'}, {"p": "content/p.html", "s": '{{ begin("s") }}{{ dateformat($nope, "%Y") }}{{ end("s") }}'}]})
    todo.append(("undefined", "%Y"))
    for (v, f), r in zip(todo, core.run_cases(exe, cases)):
        o = tmpl.observe({"names": {"p.html": "p"}}, r)
        if isinstance(o, str) or o["ok"]:
            chk.violation("no dates: %r of %s => specified failure, observed %s" % (f, v, o if isinstance(o, str) else "ok %r" % o["out"]), {"date": v, "format": f, "observed": o})
    chk.validated("no dates", len(cases), "impossible dates, other values, and malformed formats")
