"""C11-C17, C20: the site machine (Site.tla)."""
import itertools, json, random
import core, site_model as site
from site_model import *


def rng_for(chk, salt=""):
    return random.Random("%s/%s/%s" % (chk.prop, core.SEED, salt))


ROOT = F("root.html", "R")
MDT = F("md.html", "M")
T = files(ROOT, MDT)


def opt(*fs):
    """Slots: each of the files is there or not."""
    return [[NONE, files(f)] for f in fs]


CONFLICTS = [
    F("about.html", "h1"), F("about.md", "m1", t="t1"), F("about/index.html", "h2"), F("about/index.md", "m2", t="t2"),
    F("about/x.txt", "x1"), F("about", "plain"), F("index.html", "h3"), F("index.md", "m3", t="t3"), F("d.json", "j1"),
    F("root.md", "m4", t="t4"), F("a b.html", "sp"), F("v1.2.html", "dots"), F("about/root.html", "r2"),
    F("index/x.html", "ix"),
]
MORE = [F("e/index.html", "e1"), F("e/f/g.md", "e2", t="e"), F("e/d.json", "ej"), F("e/f/raw.bin", "hex:00ff80c3"),
        F("e/md.html", "m2"), F("e.txt", "{{ not a tag"), F("root.txt", "rt"), F(".hidden.html", "hid"), F("x.HTML", "{{ up }}"),
        F("e.md.md", "mm", t="tm"), F("e.html.md", "hm", t="th"), F("e.html.html", "hh"), F("e.json.html", "jh"), F("index.html.html", "ii"), F("e.md.html", "mh"),
        F(".html", "{{ no tag"), F("e/.html", "{{"), F(".md", "---"), F(".json", "{"), F("e/.json", "no"), F(".root.html", "rr"), F("e/.index.html", "ei"), F(".d.json", "dj")]
STATICS = [
    F("about.html", "S {{ $x }}", "static"), F("about/index.html", "S2", "static"), F("about", "S3", "static"),
    F("d.json", "S4 {", "static"), F("root.html", "S5{{ insert(\"x\") }}", "static"), F("md.html", "S6", "static"),
    F("page.md", "---\nS7", "static"), F("index.html", "hex:fffe00", "static"), F("about/x.txt/y", "S9", "static"),
    F("new.html", "S10", "static"), F("about.md", "S11", "static"), F("about/root.html", "S12", "static"),
]
TEMPS = [F("about.html", "T1 {{ nope() }}", "temp"), F("about/index.html", "T2", "temp"), F("x.json", "T3", "temp"),
         F("root.html", "T4", "temp"), F("new.html", "hex:80", "temp")]


def one_build(uid, pool, k, settings, fixed=(T,), temps=(), base=False, cmds=None, dirs=(), sdirs=()):
    """Every project made of at most k of the files (and temp files) with each of the settings, built once."""
    us = []
    for n, m in enumerate(settings):
        slots = [[f] for f in fixed] + [[m]] + opt(*pool)
        first = len(fixed) + 2
        us.append(universe("%s/%s" % (uid, n), slots, [dict(edits=k, slots=list(range(first, first + len(pool))), cmds=cmds or [site.build()])],
                           temps=temps, dirs=dirs, sdirs=sdirs))
    return us


def settings(meta=False, data=(True, False)):
    return [manifest(strip=s, data=d, meta=meta) for s in (True, False) for d in data]


def written():
    """Every way of writing down the settings: left out, true, or false each."""
    r = []
    for s, d, m in itertools.product((None, True, False), repeat=3):
        w = [k for k, v in (("strip", s), ("data", d), ("meta", m)) if v is not None]
        r.append(manifest(strip=True if s is None else s, data=bool(d), meta=bool(m), written=w))
    return r


NAMES = ["a", "b", "index", "root", "md", "about", "x.y", "é", "with space", "Index", "a'b&c", "page-1", "-o", "a.md", "a.html", "a.json", "index.html", "md.html", "%41", "日本", "", ".x"]
EXTS = ["html", "md", "json", "txt", "html.bak", "HTML", "htm", "css", "png", ""]


def random_file(rng, top, depth=3, clash=True):
    d = "/".join(rng.choice(["a", "b", "about", "é x", "sub.dir", "index"]) for _ in range(rng.choice([0, 0, 1, 1, 2, depth])))
    stem, ext = rng.choice(NAMES), rng.choice(EXTS)
    name = stem + ("." + ext if ext else "" if stem else ".x")
    p = (d + "/" if d else "") + name
    ext = F(p)["ext"]
    s = "".join(rng.choice("abcé xy") for _ in range(rng.randrange(1, 6))).strip() or "z"
    if top != "content" or ext not in ("html", "md", "json"):
        if rng.random() < 0.3:
            s = "hex:" + bytes(rng.randrange(256) for _ in range(rng.randrange(0, 9))).hex()
        elif rng.random() < 0.3:
            s = rng.choice(["{{ $x }}", "---\ntitle: \"x\"\n---\n", "{{ end(\"a\") }}", "</body>", "", "\r\n"])
    return F(p, s, top, t="t" + s if ext == "md" else "")


def distinct(fs):
    """Files which can be on one disk together: no path twice, or below a file."""
    r = []
    for f in fs:
        if all(f["top"] != g["top"] or not (site_prefix(f["p"], g["p"]) or site_prefix(g["p"], f["p"])) for g in r):
            r.append(f)
    return r


def site_prefix(a, b):
    return len(a) <= len(b) and b[:len(a)] == a


def proper_dirs(fs):
    """No directory named like an output file of a stripped page, or like a template."""
    return [f for f in fs if not any(x in ("index.html", "root.html", "md.html") for x in f["p"][:-1])]


def random_sites(chk, uid, n, meta=False, size=9, temps=0.4):
    rng = rng_for(chk, uid)
    us = []
    for i in range(n):
        fs = [ROOT, MDT] + [random_file(rng, "content") for _ in range(rng.randrange(1, size))]
        fs += [random_file(rng, "static") for _ in range(rng.randrange(0, 5))]
        fs = proper_dirs(distinct(fs))
        # a second template below, sometimes
        ts = proper_dirs(distinct([random_file(rng, "temp") for _ in range(rng.randrange(1, 4))])) if rng.random() < temps else []
        m = rng.choice(written())
        if meta:
            m = dict(m, meta=True, written=sorted(set(m["written"]) | {"meta"}))
        slots = [[files(*fs)], [m]]
        if ts:
            slots += [[script("pre", "temp")]] if rng.random() < 0.3 else []
        some = lambda top: [d + "/hollow" + rng.choice(["", "/in", "/in/it"]) for d in sorted({"/".join(f["p"][:-1]) for f in fs if f["top"] == top and len(f["p"]) > 1}) if rng.random() < 0.2]
        us.append(universe("%s/%d" % (uid, i), slots, [dict(edits=1, cmds=[site.build()])], temps=ts, dirs=some("content"), sdirs=some("static")))
    return us


def C11(chk):
    exe = core.build_vcli()
    k = 4 if core.THOROUGH else 3
    site.run(chk, "content trees", exe, one_build("content", CONFLICTS + MORE[:4], k, settings()),
             "all content trees of at most %d of the files, with all settings" % k, decoys=False)
    site.run(chk, "names", exe, one_build("names", MORE, 2, settings()), "all content trees of at most 2 files with unusual names", decoys=False)
    site.run(chk, "settings", exe, one_build("settings", [CONFLICTS[0], CONFLICTS[1], CONFLICTS[8], MORE[0], MORE[5], MORE[8], STATICS[10]], 2, written()),
             "all ways of writing the settings", decoys=False)
    site.run(chk, "random sites", exe, random_sites(chk, "random", 6000 if core.THOROUGH else 600), "random projects", decoys=False)
    site.run(chk, "large sites", exe, large(chk, "large"), "many files, deep directories, long names and large files", decoys=False)
    chk.assumptions += ["file names are valid UTF-8"]


def C12(chk):
    exe = core.build_vcli()
    k = 4 if core.THOROUGH else 3
    pool = CONFLICTS + STATICS
    site.run(chk, "conflicts", exe, one_build("conflicts", pool, k, settings(data=(True,)), temps=TEMPS),
             "all projects of at most %d of the content, static and temp files" % k, decoys=False, reports=True)
    same = [F(f, "same", top) for f in ("a.txt", "e/b", "c.css") for top in ("content", "static")] + [F("h.html", "S"), F("h.html", "S", "static")]
    site.run(chk, "equal bytes", exe, one_build("same", same, 2, settings(data=(False,)), temps=[F("a.txt", "same", "temp"), F("e/b", "same", "temp")]),
             "all projects of at most two static or content files and a temp file whose bytes are equal", decoys=False, reports=True)
    site.run(chk, "empty directories", exe, one_build("empty", CONFLICTS[:5] + STATICS[:3] + STATICS[8:9], 2, settings(data=(False,)), temps=TEMPS[:2], dirs=["about", "p.html", "s"], sdirs=["d/x", "v"])
             + one_build("more empty", [F("d", "x"), F("d/x", "x"), F("d", "y", "static"), F("v", "z"), F("v/w", "z"), F("p", "z", "static"), F("p.html", "p"), F("p.html", "p", "static"), F("e/d/p", "s", "static")], 2,
                         settings(data=(False,)), temps=[F("p", "t", "temp"), F("v", "t", "temp"), F("e/d", "t", "temp")], dirs=["p/q.html"], sdirs=["w", "q/v"]),
             "all projects of at most two files beside empty directories", decoys=False, reports=True)
    site.run(chk, "static and temp", exe, one_build("verbatim", STATICS + [CONFLICTS[0]], 3, settings(data=(False,)), temps=TEMPS),
             "all projects of static files and at most one temp file", decoys=False, reports=True)
    site.run(chk, "random static", exe, random_sites(chk, "static", 6000 if core.THOROUGH else 500, temps=0.8), "random projects", decoys=False, reports=True)
    r = [site.raw(b) for b in (0x80, 0xff, 0xe9)]
    odd = [F("a%s.txt" % r[0], "1", "static"), F("a%s.txt" % r[1], "2", "static"), F("%s/x" % r[1], "3", "static"), F("a\ufffd.txt", "4", "static"), F("caf%s" % r[2], "5", "static"),
           F("d/%s.html" % r[0], "6", "static"), F("b%s" % r[1], "7"), F("%s/y.css" % r[1], "8"), F("%s/z.txt" % r[0], "9"), F("b\ufffd", "0")]
    site.run(chk, "names which are not UTF-8", exe, one_build("raw", odd, 3, [manifest()], temps=[F("a%s.txt" % r[1], "t", "temp"), F("%s/x" % r[0], "t", "temp"), F("t%s/x" % r[0], "t", "temp")],
                                                            dirs=["v" + r[0]], sdirs=["v" + r[1], "v\ufffd"]), "all projects of at most three files whose names are not UTF-8", decoys=False)
    chk.assumptions.append("trees in which nodes of the same name conflict although nothing is published twice may be refused")


# ------------------------------------------------------------------------------------ failures

def failing(base_page="p"):
    """Slots with a good first option and failures of every phase."""
    ms = [manifest(meta=True), manifest(meta=True, name="Other", author="A"), manifest(strip=False, meta=True)]
    ms += [manifest(ok=False, how=h) for h in ("toml", "noname", "badtype", "plugin")] + [manifest(there=False)]
    root = [files(ROOT), NONE, files(F("root.html", "R", bad="parse")), files(F("root.html", "R", bad="process", how="var")), files(F("root.html", "R2"))]
    mdt = [files(MDT), NONE, files(F("md.html", "M", bad="process")), files(F("md.html", "M", bad="parse", how="open"))]
    page = [files(F("p.html", "p1")), files(F("p.html", "p2")), NONE] + \
        [files(F("p.html", "p", bad="parse", how=h)) for h in ("", "open", "var", "args", "pos", "utf8")] + \
        [files(F("p.html", "p", bad="process", how=h)) for h in ("", "var", "open", "import", "else")]
    mdp = [files(F("d/m.md", "m1", t="t1")), NONE, files(F("d/m.md", "m2", t="t2")), files(F("d/m.md", "m", t="t", bad="process", how="var"))] + \
        [files(F("d/m.md", "m", t="t", bad="parse", how=h)) for h in ("", "front", "entry", "utf8")]
    data = [files(F("data.json", "j1")), files(F("data.json", "j2")), NONE, files(F("data.json", "j", bad="parse"))]
    imp = [files(F("z/i.html", "i", imp=True)), NONE]
    stat = [files(F("s.txt", "s1", "static")), NONE, files(F("p/index.html", "clash", "static")), files(F("d", "clash", "static"))]
    pre = [NONE, script("pre"), script("pre", "fail"), script("pre", "temp")] + [script("pre", "fail", ["onPreBuild", "onPreBuild.sh"], at=k) for k in (1, 2)]
    post = [NONE, script("post"), script("post", "fail"), script("post", "fail", ["onPostBuild", "onPostBuild.sh"], at=1)]
    return [ms, root, mdt, page, mdp, data, imp, stat, pre, post]


def C13(chk):
    exe = core.build_vcli()
    slots = failing()
    all_ = list(range(1, len(slots) + 1))
    b = [site.build()]
    two = 2 if core.THOROUGH else 1
    us = [
        universe("after a success", slots, [dict(cmds=b), dict(edits=2, slots=all_, cmds=b)], temps=[F("t.txt", "t", "temp"), F("p/index.html", "t", "temp")]),
        universe("and again", slots, [dict(cmds=b), dict(edits=1, slots=all_, cmds=b), dict(edits=two, slots=all_, cmds=b)]),
        universe("from nothing", slots, [dict(edits=2 if core.THOROUGH else 1, slots=all_, cmds=b), dict(edits=1, slots=all_, cmds=b)]),
        universe("elsewhere", slots, [dict(cmds=[site.build("out"), site.build()]), dict(edits=1, slots=all_, cmds=[site.build("out"), bench(2)])],
                 outs=[PROJ + ["out"]]),
    ]
    site.run(chk, "failures", exe, us, "edits which make the build fail in every phase, before, between and after successful builds")
    api(chk)


def large(chk, uid, meta=False):
    """Projects with many files, in one directory or in many, deep directories, long names, and large files."""
    us = []
    for i, n in enumerate([17, 33, 65, 129] + ([257, 400] if core.THOROUGH else [])):
        wide = [F("p%d.html" % k, "w%d" % k) for k in range(n)] + [F("i/m%d.md" % k, "m", t="t%d" % k) for k in range(n // 2)]
        rest = [F("f%d.txt" % k, "s%d" % k, "static") for k in range(n)] + [F("i/g%d" % k, "g", "static") for k in range(n // 2)]
        many = [F("d%d/%s" % (k, ("index.html", "p.html", "x.txt", "d.json")[k % 4]), "d") for k in range(n)] + [F("d%d/s.css" % k, "c", "static") for k in range(n)]
        deep = "/".join("d%d" % k for k in range(min(n, 100)))
        down = [F(deep + "/p.html", "p"), F(deep + "/s.css", "s", "static"), F("e/" + deep + "/x.txt", "x"), F("t/" + deep + "/x.txt", "x", "static"), F("d0/root.html", "D"), F(deep + "/m.md", "m", t="t")]
        name = "n" * min(n * 2 - 20, 240)
        long = [F(name + ".html", "p"), F(name + "x.md", "m", t="t"), F(name + "/" + name + ".txt", "x"), F(name + "/" + name + ".css", "c", "static"), F("s" + name, "s", "static")]
        size = (1 << (i * 4 + 9)) + 1
        fat = [F("a.txt", "big:%d" % size), F("b.bin", "big:%d" % (size - 1), "static"), F("c.bin", "big:%d" % (size - 2), "static"), F("p.html", "p")]
        for what, fs in (("wide", wide + rest), ("many", many), ("deep", down), ("long", long), ("fat", fat)):
            if n > 65 and what in ("wide", "many"):
                continue  # more than TLC's stack takes
            ms = [manifest(meta=True)] if meta else [manifest(strip=True, data=True), manifest(strip=False)]
            for k, m in enumerate(ms):
                us.append(universe("%s/%s/%d/%d" % (uid, what, n, k), [[files(ROOT, MDT, *fs)], [m]], [dict(edits=1, cmds=[site.build()])], temps=[F("t.bin", "big:%d" % size, "temp")]))
    return us


def api(chk):
    """The library: output is only available after a successful build."""
    import os
    vh = core.build_harness()
    res = core.tlc("Api", env={"LEN": "6" if core.THOROUGH else "5"}, fast=True)
    chk.model("library calls", res, "all sequences of library calls")
    good = [{"p": "content/p.html", "s": "{{ begin(\"x\") }}V{{ end(\"x\") }}"}]
    bad = [{"p": "content/p.html", "s": "{{ begin(\"x\") }}V"}]
    hs = res.json_lines("CALLS ")
    cases = []
    for i, h in enumerate(hs):
        steps = []
        for c in h:
            if c["c"] == "build":
                f = [dict(x, s=x["s"].replace("V", "v%d" % c["v"])) for x in (good if c["good"] else bad)]
                steps += [{"op": "files", "files": f}, {"op": "build"}]
            elif c["c"] == "save":
                steps += [{"op": "save", "to": "dist"}, {"op": "snap", "dir": "dist"}]
            elif c["c"] == "meta":
                steps += [{"op": "meta", "to": "m.json"}]
            else:
                steps += [{"op": "merge", "dir": "st"}]
        cases.append({"id": i, "files": [{"p": "content/root.html", "s": "{{ insert(\"x\") }}"}, {"p": "st/s%d.txt" % 0, "s": "s"}],
                      "config": {"name": "N", "meta": True}, "steps": steps, "continue": True})
    results = core.run_cases(vh, cases)
    for h, c, r in zip(hs, cases, results):
        d = None
        if "crash" in r:
            d = "crash " + r["crash"]
        else:
            rs = iter(r["steps"])
            for x in h:
                if x["c"] == "build":
                    next(rs)
                o = next(rs)
                if o["ok"] != x["ok"]:
                    d = d or "%s: specified %s, observed %s" % (x["c"], x["ok"], o)
                if x["c"] == "save":
                    snap = next(rs)
                    got = {f["p"]: f.get("s") for f in snap.get("files", [])}
                    want = {} if not x["saved"] else dict({"p/index.html": "v%d" % x["saved"][0]}, **({"s0.txt": "s"} if x["saved"][1] else {}))
                    if got != want:
                        d = d or "saved %s, specified %s" % (got, want)
        if d:
            chk.violation("library calls %s: %s" % ([x["c"] for x in h], d), {"case": c, "specified": h, "observed": r})
    chk.validated("library calls", len(hs))


# ------------------------------------------------------------------------------------ output directories

def C14(chk):
    exe = core.build_vcli()
    good = [[manifest(meta=True)], [T], [files(F("p.html", "p1"), F("d/m.md", "m", t="t"), F("d.json", "j"))],
            [files(F("s.txt", "s", "static"))]]
    scripts = [[script("pre", "temp")], [script("post")]]
    extra = [{"p": "other/mine.txt", "s": "o"}, {"p": "site/old/x.txt", "s": "x"}]
    rel = ["dist", "./dist", "dist/", "other/../dist", "content/../dist", "../proj/dist", "../../w/proj/dist", "out", "contents_", "contentious",
           "static2", "other/dist", "../sibling", "../../up", ".", "..", "../..", "../proj", "./", "content", "content/", "./content", "content/.", "content/d",
           "content/new", "content/d/../..", "static", "static/a", "scripts", "scripts/x", "other/../content", "other/../static/../content/d",
           "../proj/content", "../proj/static", "stuart.toml", "README.md", "README.md/x", "content/p.html", "content/../../proj", "link/content", "link/content/x",
           "ln", "ln/x", "link", "link/other/../content", "../proj-dist", "projdist", "con", "linked/out"]
    cmds = [raw_build(p) for p in rel] + [raw_build("/".join(PROJ) + s, True) for s in ("/dist", "/content", "/static/x", "", "/../proj/content/d", "/../else")] + \
        [raw_build("/".join(PROJ[:-1]), True), raw_build(PROJ[0], True), raw_build("elsewhere", True)]
    links = [{"p": ["lnk"], "to": PROJ}, {"p": PROJ + ["link"], "to": PROJ}, {"p": PROJ + ["ln"], "to": PROJ + ["content"]},
             {"p": PROJ + ["linked"], "to": ["w"]}]
    cmds += [raw_build("lnk/content", True), raw_build("lnk/dist", True), raw_build("lnk", True)]
    outs = [resolve(c, links) for c in cmds]
    keep = [o for o, c in zip(outs, cmds) if not refused(o)]
    us = []
    for n, sl in (("plain", good), ("scripts", good + scripts)):
        plain = [["stuart.toml"], ["README.md"], ["content", "p.html"]]
        cs = cmds if n == "plain" else [c for c, o in zip(cmds, outs) if o[:len(PROJ) + 1][-1] not in ("README.md", "stuart.toml")]
        us.append(universe("-o " + n, sl, [dict(cmds=cs), dict(cmds=cs if core.THOROUGH else [CLEAN, site.build(), bench(2)])],
                           outs=unique(keep), links=links, plain=plain, extra=extra, dirs=["empty", "d/none"]))
    site.run(chk, "output directories", exe, us, "all values of -o, in turn with all commands", vary=True)
    below = [misuse(*a, where=w) for w in ("content", "content/d", "static", "scripts", "content/empty", "dist", "other", "..", "../..")
             for a in (["clean"], ["build"], ["bench"], ["build", "-o", "../dist"], ["build", "-o", "."], ["-q", "clean"])]
    site.run(chk, "commands elsewhere", exe, [universe("elsewhere", [[manifest(meta=True)], [T], [files(F("p.html", "p1"), F("d/m.md", "m", t="t"), F("dist/a.html", "p1"), F("d/dist/b.html", "p2"), F("metadata.json", "j"))],
                                                                    [files(F("dist/s.txt", "s", "static"))], [script("pre")]],
                                                      [dict(cmds=[site.build(), site.build("dist")]), dict(cmds=below), dict(cmds=[CLEAN, site.build()])],
                                                      dirs=["empty"], extra=extra + [{"p": "other/dist/mine.txt", "s": "o"}, {"p": "../dist/mine.txt", "s": "o"}, {"p": "../../dist/mine.txt", "s": "o"}, {"p": "../metadata.json", "s": "o"}])],
             "commands given in other directories than the project's")
    slots = failing()
    site.run(chk, "failing commands", exe, [universe("failing", slots, [dict(edits=1, slots=list(range(1, len(slots) + 1)), cmds=[site.build(), bench(1), raw_build("content"), raw_build("out")]),
                                                                       dict(cmds=[CLEAN, site.build()])], outs=[PROJ + ["out"]],
                                                      extra=extra)], "commands on projects which fail")


def raw_build(path, abs=False):
    c = site.build()
    c["path"] = [x for x in path.split("/")] if path else []
    if not abs and c["path"] == [""]:
        c["path"] = []
    c["path"] = [x for x in c["path"]]
    c["abs"] = abs
    return c


def resolve(c, links):
    """Where -o leads (used only to list the directories to watch; Site.tla resolves by itself)."""
    at = [] if c["abs"] else list(PROJ)
    for x in c["path"]:
        if x in (".", ""):
            continue
        if x == "..":
            at = at[:-1]
        else:
            at = at + [x]
            for l in links:
                if l["p"] == at:
                    at = list(l["to"])
    return at


def refused(o):
    src = [PROJ + [d] for d in ("content", "static", "scripts", "temp")]
    return any(site_prefix(o, d) or site_prefix(d, o) for d in src) or site_prefix(o, PROJ) or \
        any(site_prefix(PROJ + x, o) for x in (["stuart.toml"], ["README.md"]))


def unique(xs):
    r = []
    for x in xs:
        if x not in r:
            r.append(x)
    return r


# ------------------------------------------------------------------------------------ histories

IMP = [F("i.html", "i", imp=True), F("im/b.md", "m", imp=True, t="t")]  # pages which read data.json


def moving():
    """Slots whose options move, rename, replace and reorganise sources."""
    return [
        [manifest(meta=True), manifest(strip=False, meta=True), manifest(data=True), manifest(strip=False, data=True, name="Z")],
        [files(ROOT, MDT), files(F("root.html", "R2", env=True), MDT), files(ROOT, F("md.html", "M2"), F("d/root.html", "R3"))],
        [files(F("a.html", "a1")), files(F("a.html", "a2")), files(F("a.md", "a3", t="t")), files(F("a/index.html", "a4")), files(F("b.html", "a1")), files(F("a/b/c.html", "a5")), NONE],
        [files(F("d/x.md", "x", t="t1"), F("d/y.md", "y", t="t2")), files(F("d/x.md", "x", t="t1")), files(F("d/y.html", "y")), files(F("d", "file")), files(F("e/x.md", "x", t="t1"))],
        [files(F("data.json", "j1"), *IMP), files(F("data.json", "j2"), *IMP), files(*IMP), NONE],
        [files(F("s/t.txt", "s1", "static")), files(F("s/t.txt", "s2", "static"), F("s/u.bin", "hex:00ff", "static")), files(F("s", "s3", "static")), NONE],
        [NONE, script("pre", "temp"), script("pre", "fail")],
        [NONE, script("post", "fail")],
    ]


def C15(chk):
    exe = core.build_vcli()
    slots = moving()
    all_ = list(range(1, len(slots) + 1))
    b = [site.build()]
    us = [
        universe("one edit at a time", slots, [dict(edits=1, slots=all_, cmds=b)] * 2 + [dict(cmds=[site.build(), bench(2)])]),
        universe("two edits", slots, [dict(cmds=[site.build(), bench(2)]), dict(edits=2, slots=all_, cmds=b)], temps=[F("t.txt", "t", "temp")]),
        universe("other outputs", slots[:4], [dict(cmds=[site.build("out"), site.build()]), dict(edits=1, slots=all_[:4], cmds=[CLEAN, site.build("out"), site.build()]),
                                             dict(edits=1, slots=[3], cmds=b)], outs=[PROJ + ["out"]]),
    ]
    if core.THOROUGH:
        us.append(universe("three edits", slots, [dict(edits=1, slots=all_, cmds=b)] * 3))
    rng = rng_for(chk, "long")
    for i in range(300 if core.THOROUGH else 40):
        rounds = []
        for _ in range(rng.randrange(4, 9)):
            rounds.append(dict(edits=1, slots=[rng.choice(all_)], cmds=[rng.choice([site.build(), site.build(), bench(2), CLEAN])]))
        us.append(universe("long/%d" % i, [rng.sample(s, len(s))[:2] for s in slots], rounds))
    # pages which list a directory, whose files come and go
    names = ["p/b", "p/a", "p/B", "p/a-1", "p/\u00e9", "p/b.c"]
    posts = [[files(F(n + ".md", "x", t="t" + n)), files(F(n + ".md", "x", t="u" + n)), NONE, files(F(n + "/q.md", "x", t="v" + n))] for n in names]
    lists = [[manifest(meta=True)], [files(ROOT, MDT, F("l.html", "l", list="p"), F("p/l.html", "m", list="p"))]] + posts
    last = list(range(3, len(lists) + 1))
    listings = [universe("listings", lists, [dict(cmds=b), dict(edits=2, slots=last, cmds=[site.build()]), dict(edits=1, slots=last, cmds=[site.build(), bench(2)])], dirs=("p",)),
                universe("growing listings", lists, [dict(edits=6, slots=last, cmds=b)], base=[1, 1] + [3] * len(posts), dirs=("p",))]
    site.run(chk, "listings", exe, listings, "pages which list a directory whose files come and go", limit=20000 if core.THOROUGH else 1200, decoys=False)
    site.run(chk, "histories", exe, us, "all histories of edits and builds within the rounds", limit=60000 if core.THOROUGH else 3000)
    library_histories(chk)


def library_histories(chk):
    """The same in one process: a Stuart which is built again and again."""
    vh = core.build_harness()
    slots = [[manifest(meta=True)]] + moving()[1:6]
    all_ = [2, 3, 4, 5, 6]
    us = [universe("in one process", slots, [dict(edits=1, slots=all_, cmds=[site.build()])] * (3 if core.THOROUGH else 2) + [dict(cmds=[site.build()])])]
    path = core.write_ndjson(core.scratch() + "/lib.ndjson", us)
    res = core.tlc("SiteGen", env={"SITE": path}, fast=True)
    chk.model("histories in one process", res)
    u = us[0]
    groups = {}
    for h in res.json_lines("HISTORY "):
        groups.setdefault(key([e for e in h["trace"] if e["a"] != "obs"]), []).append(h["trace"])
    hs = list(groups.values())
    cases = []
    for i, ts in enumerate(hs):
        ch = list(u["base"])
        steps = []
        pending = edits_between(u, None, ch)
        for e in ts[0]:
            if e["a"] == "edit":
                to = list(ch)
                to[e["slot"] - 1] = e["opt"]
                pending += edits_between(u, ch, to)
                ch = to
            elif e["a"] == "cmd":
                steps += [{"op": "files", "files": pending}, {"op": "build"}, {"op": "merge", "dir": "static"}, {"op": "save", "to": "dist"},
                          {"op": "meta", "to": "metadata.json"}, {"op": "snap", "dir": "."}]
                pending = []
        cases.append({"id": i, "files": [{"p": "content", "dir": True}, {"p": "static", "dir": True}],
                      "config": {"name": "N", "strip": True, "data": False, "meta": True}, "env": "production", "steps": steps, "continue": True})
    results = core.run_cases(vh, cases)
    for ts, c, r in zip(hs, cases, results):
        ds = [compare_library(t, r) for t in ts]
        if all(ds):
            chk.violation("in one process: " + ds[0], {"case": c, "specified": ts, "observed": r})
    chk.validated("histories in one process", len(hs))


def compare_library(trace, r):
    if "crash" in r:
        return r["crash"]
    k = 0
    for e in trace:
        if e["a"] != "obs":
            continue
        _, b, m, s, t, snap = r["steps"][k:k + 6]
        k += 6
        if not e["ok"]:
            # later calls use what an earlier build left: that is Api.tla's
            return "specified failure, observed success" if b["ok"] and m["ok"] and s["ok"] else None
        if not (b["ok"] and m["ok"] and s["ok"] and t["ok"]):
            return "specified success, observed %s" % [x for x in (b, m, s, t) if not x["ok"]][:1]
        got = {f["p"][5:]: (f["s"] if "s" in f else {"x": f["x"]}) for f in snap["files"] if f["p"].startswith("dist/")}
        want = want_tree(dict((("/".join(o)), t) for o, t in e["outs"])["/".join(PROJ + ["dist"])])
        d = diff(want, got)
        if d:
            return d
        mt = [f["s"] for f in snap["files"] if f["p"] == "metadata.json"]
        if not mt or parse_meta(mt[0]) != e["meta"][0]:
            return "metadata"
    return None


# ------------------------------------------------------------------------------------ metadata

def json_value(rng, depth=3):
    c = rng.randrange(9 if depth else 6)
    if c == 0:
        return None
    if c == 1:
        return rng.choice([True, False])
    if c < 4:
        return rng.choice([0, 1, -1, 2.5, 1e21, 123456789, -0.125, 1e-7, 42.0])
    if c < 6:
        return rng.choice(["", "x", "é\n\"q\" \\", "日本", "</body>", "\u0001\t", "a/b", "type", "𝄞"])
    if c < 8:
        return {rng.choice(["a", "type", "name", "value", "children", "é", ""]): json_value(rng, depth - 1) for _ in range(rng.randrange(4))}
    return [json_value(rng, depth - 1) for _ in range(rng.randrange(4))]


def front(rng):
    keys = ["title", "date", "type", "name", "value", "content", "markdown", "a_b", "é", "children"]
    return {k: rng.choice(["x", "", "2020-01-01", "a: b", "é ~", "{{ x }}", "[1, 2]"]) for k in rng.sample(keys, rng.randrange(1, 6))}


def C16(chk):
    exe = core.build_vcli()
    k = 4 if core.THOROUGH else 3
    pool = CONFLICTS[:2] + CONFLICTS[2:5] + CONFLICTS[7:11] + MORE[:5] + [STATICS[6], STATICS[3], F("s/u.json", "{", "static")]
    site.run(chk, "trees", exe, one_build("trees", pool, k, [manifest(meta=True), manifest(meta=True, strip=False, data=True, name="A \"b\" é", author="Me <me@x>")],
                                          temps=[F("s/t.md", "t", "temp")])
             + one_build("empty", pool, 2, [manifest(meta=True)], temps=[F("s/t.md", "t", "temp")], dirs=["empty", "d/none", "e/d2/f"], sdirs=["s/none", "z"]),
             "all projects of at most %d of the files" % k, decoys=False)
    # values
    rng = rng_for(chk, "values")
    us = []
    for i in range(2000 if core.THOROUGH else 250):
        fs = [ROOT, MDT]
        for j in range(3):
            v = json_value(rng)
            if isinstance(v, dict) and set(v) == {"v"}:
                continue
            d = rng.choice(["", "d/", "d/e/"])
            text = json.dumps(v, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 2]))
            fs.append(F("%sj%d.json" % (d, j), key(canon(v)), raw=text))
        m = front(rng)
        if set(m) != {"title"}:
            fs.append(F("d/p.md", "x", t=key(m), raw="---\n%s---\nx\n" % "".join("%s: \"%s\"\n" % kv for kv in m.items())))
        fs.append(F("d/bare.md", "y", t="{}", raw="y\n"))
        us.append(universe("values/%d" % i, [[files(*fs)], [manifest(meta=True, name=rng.choice(["N", "é \\ \"", ""]), author=rng.choice(["", "(none)", "A", "x\ty"]))]],
                           [dict(cmds=[site.build()])]))
    site.run(chk, "values", exe, us, "random JSON values and frontmatter", decoys=False)
    site.run(chk, "random sites", exe, random_sites(chk, "meta", 3000 if core.THOROUGH else 300, meta=True), "random projects", decoys=False)
    slots = [[manifest(meta=True), manifest(meta=False), manifest(meta=False, written=[]), manifest(meta=True, name="Z")], [T, NONE],
             [files(F("p.html", "p")), files(F("q/p.md", "p", t="t")), NONE], [NONE, script("post", "fail")]]
    r = dict(edits=2, slots=[1, 2, 3, 4], cmds=[site.build()])
    site.run(chk, "switching", exe, [universe("switching", slots, [r, r, dict(edits=1, slots=[1], cmds=[site.build(), CLEAN])] if core.THOROUGH else [r, dict(r, edits=2), dict(cmds=[site.build()])])],
             "switching metadata on and off", limit=None if core.THOROUGH else 3000)
    site.run(chk, "large sites", exe, large(chk, "large", True), "many files, deep directories, long names and large files")


# ------------------------------------------------------------------------------------ scripts

def C17(chk):
    exe = core.build_vcli()
    slots = [[manifest(meta=True), manifest(), manifest(ok=False, how="toml")],
             [files(ROOT, MDT, F("p.html", "p1")), files(ROOT, MDT, F("p.html", "p2"), F("e.html", "", imp=False)), files(F("root.html", "R", env=True), MDT, F("p.html", "p", bad="process"))],
             [NONE, script("pre"), script("pre", "temp"), script("pre", "fail"), script("pre", "ok", ["onPreBuild"]), script("pre", "ok", ["onPreBuild.sh", "onPreBuild"]), script("pre", "temp", ["onPreBuild.sh", "onPreBuild"])]
             + [script("pre", "fail", ["onPreBuild.sh", "onPreBuild"], at=k) for k in (1, 2)],
             [NONE, script("post"), script("post", "fail"), script("post", "ok", ["onPostBuild"]), script("post", "ok", ["onPostBuild.sh", "onPostBuild"])] + [script("post", "fail", ["onPostBuild.sh", "onPostBuild"], at=k) for k in (1, 2)],
             [NONE, files(F("s.txt", "s", "static")), files(F("made/by script.txt", "s", "static"))]]
    all_ = [1, 2, 3, 4, 5]
    temps = [F("t.txt", "t", "temp"), F("made/by script.txt", "stale", "temp")]
    cmds = [site.build(), bench(2), site.build("out")]
    us = [
        universe("scripts", slots, [dict(edits=3, slots=all_, cmds=cmds)], temps=temps, outs=[PROJ + ["out"]]),
        universe("scripts again", slots, [dict(edits=2, slots=all_, cmds=[site.build()]), dict(edits=1, slots=all_, cmds=cmds if core.THOROUGH else cmds[:1])], temps=temps,
                 outs=[PROJ + ["out"]]),
    ]
    site.run(chk, "scripts", exe, us, "all combinations of scripts, sources and commands", vary=True, reports=True, limit=None if core.THOROUGH else 4000)
    # The ways in which a script can end, and be there.
    ways = lambda w: ([NONE] + [script(w, "fail", how=h) for h in ["killed", "terminated", "last", "quiet", "most", "high", "syntax", "latin"]] + [script(w, how=h) for h in ["loud", "recovers", "reads"]]
                      + [script(w, d, linked=True) for d in ["ok", "fail"]] + [script(w, n, names=["on%sBuild" % w.capitalize()], linked=True) for n in ["temp"] if w == "pre"])
    slots = [[manifest(meta=True), manifest()], [files(ROOT, MDT, F("p.html", "p1")), files(ROOT, MDT, F("p.html", "p2"))], ways("pre"), ways("post")]
    us = [universe("endings", slots, [dict(edits=2, slots=[3, 4], cmds=[site.build(), bench(2)])]),
          universe("endings again", slots, [dict(cmds=[site.build()]), dict(edits=3, slots=[2, 3, 4], cmds=[site.build()])]),
          universe("not scripts", slots[:2] + [[NONE, script("pre")], [NONE, script("post")]], [dict(edits=3, slots=[1, 3, 4], cmds=[site.build(), bench(1)])],
                   extra=[{"p": "scripts/onPreBuild", "dir": True}, {"p": "scripts/onPostBuild", "dir": True}, {"p": "scripts/sub/onPreBuild.sh", "s": 'echo > "$VLOG/decoy"'},
                          {"p": "onPreBuild.sh", "s": 'echo > "$VLOG/decoy"'}, {"p": "scripts/onpostbuild.sh", "s": 'echo > "$VLOG/decoy"'}])]
    site.run(chk, "endings", exe, us, "the ways in which a script ends, and is there", reports=True, limit=None if core.THOROUGH else 1500)


# ------------------------------------------------------------------------------------ clean

def C20(chk):
    exe = core.build_vcli()
    slots = [[manifest(meta=True), manifest(), manifest(there=False), manifest(ok=False, how="toml")],
             [files(ROOT, MDT, F("p.html", "p1"), F("dist/x.html", "x")), files(ROOT, MDT, F("p.html", "p", bad="process"))],
             [NONE, files(F("dist/s.txt", "s", "static"), F("_build/s.txt", "s", "static"), F("metadata.json", "s", "static"))]]
    cs = [site.build(), site.build("_build"), site.build("out"), site.build("../dist"), CLEAN]
    r = dict(edits=1, slots=[1, 2, 3], cmds=cs)
    us = [universe("clean", slots, [dict(cmds=cs), r, dict(edits=1, slots=[1], cmds=[CLEAN])], temps=[F("t.txt", "t", "temp")],
                   outs=[PROJ + ["out"], PROJ[:-1] + ["dist"]],
                   extra=[{"p": "sub/dist/keep.txt", "s": "k"}, {"p": "sub/metadata.json", "s": "k"}, {"p": "distribution/k", "s": "k"}], dirs=["empty"]),
          universe("clean only", slots, [dict(edits=2, slots=[1, 2, 3], cmds=[CLEAN]), dict(cmds=cs), dict(cmds=[CLEAN])], outs=[PROJ + ["out"], PROJ[:-1] + ["dist"]])]
    below = [misuse("clean", where=w) for w in ("content", "content/dist", "sub", "sub/dist", "dist", "..", "../..", "scripts", "static/..//sub")]
    below += [misuse(*a, where=w) for w in ("content", "sub", "..") for a in (["bench"], ["build"], ["-v", "build", "-o", "../dist"], ["-q", "clean"], ["bench", "-i", "1"])]
    us += [universe("elsewhere", [s[:1] for s in slots[:2]] + [slots[2]], [dict(cmds=[site.build()]), dict(edits=1, slots=[3], cmds=below), dict(cmds=[CLEAN, site.build()])],
                    extra=[{"p": "sub/dist/keep.txt", "s": "k"}, {"p": "sub/metadata.json", "s": "k"}, {"p": "sub/_build/k", "s": "k"}, {"p": "../dist/k", "s": "k"}, {"p": "../metadata.json", "s": "k"},
                           {"p": "sub/content/root.html", "s": "k"}, {"p": "../content/root.html", "s": "k"}, {"p": "../../dist/k", "s": "k"}])]
    site.run(chk, "clean", exe, us, "clean in every state", limit=None if core.THOROUGH else 5000)
