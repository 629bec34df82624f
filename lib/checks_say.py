"""C29: command lines which make no sense, and what quiet and verbose commands say (Site.tla, New.tla, Dev.tla)."""
import core, site_model as site
import checks_new, checks_dev
from site_model import *
from checks_site import failing, ROOT, MDT, T

WRONG = [(), ("nope",), ("Build",), ("build", "--nope"), ("build", "-o"), ("build", "extra"), ("build", "-o", "a", "-o", "b"), ("bench", "-i"), ("bench", "-i", "x"), ("bench", "-i", "-1"),
         ("bench", "-i", "1.5"), ("bench", "-i", ""), ("bench", "-i", "99999999999999999999999"), ("bench", "2"), ("clean", "dist"), ("clean", "-o", "dist"), ("clean", "--all"), ("build", "clean"),
         ("clean", "build"), ("build", "--manifest-path"), ("build", "--manifest-path", "nope.toml"), ("build", "--manifest-path", "content"), ("build", "--manifest-path", ""), ("-x", "build"),
         ("-q", "-v"), ("-v", "-q", "build"), ("--quiet", "--verbose", "clean"), ("-qv", "bench"), ("-q",), ("dev", "extra"), ("dev", "--port"), ("new",)]
ASKED = [("--help",), ("-h",), ("--version",), ("-V",), ("help",), ("help", "build"), ("build", "--help"), ("clean", "--help"), ("clean", "-h"), ("bench", "--help"), ("new", "--help"), ("dev", "--help")]


def C29(chk):
    exe = core.build_vcli()
    says = ["", "q", "v", "both"]
    slots = failing()
    all_ = list(range(1, len(slots) + 1))
    plain = [site.build(), site.build("content"), bench(0), bench(1), bench(3), CLEAN]
    cmds = [saying(c, s) for c in plain for s in says]
    first = [site.build()]
    us = [
        universe("all", slots, [dict(edits=1, slots=all_, cmds=cmds), dict(cmds=[saying(c, s) for c in (site.build(), CLEAN) for s in ("q", "v")] if core.THOROUGH else [saying(site.build(), "q")])],
                 temps=[F("t.txt", "t", "temp")]),
        universe("after a success", slots, [dict(cmds=first), dict(edits=1, slots=all_, cmds=cmds)]),
        universe("no sense", [s[:1] for s in slots], [dict(cmds=first + [saying(CLEAN, "q")]), dict(cmds=[misuse(*a) for a in WRONG] + [about(*a) for a in ASKED]), dict(cmds=[saying(site.build(), "q"), CLEAN])],
                 temps=[F("t.txt", "t", "temp")], base=[1] * len(slots)),
        universe("no sense elsewhere", [[manifest(there=False)]] + [s[:1] for s in slots[1:]], [dict(cmds=[misuse(*a) for a in WRONG] + [about(*a) for a in ASKED])]),
    ]
    ways = lambda w: [NONE, script(w, how="loud"), script(w, "fail", how="latin"), script(w, "fail"), script(w, "fail", how="killed")]
    us.append(universe("scripts", [[manifest(meta=True)], [files(ROOT, MDT, F("p.html", "p1"))], ways("pre"), ways("post")], [dict(edits=2, slots=[3, 4], cmds=[saying(c, s) for c in (site.build(), bench(2)) for s in says[:3]])]))
    site.run(chk, "what commands say", exe, us, "all commands on all projects with at most one failure, quiet, verbose, both and neither; command lines which make no sense", limit=None if core.THOROUGH else 4000)
    warns = 'export default { name: "warns", version: "1", functions: [{ name: "warn", fn: () => { STUART.set("x", undefined); return "w"; } }] };'
    pages = [files(ROOT, MDT, F("p.html", "p" * n + "w" * n, raw='{{ begin("x") }}%s%s{{ end("x") }}' % ("p" * n, '{{ warn() }}' * n))) for n in (1, 2)]
    us = [universe("a plugin which warns", [[manifest(how="warns", meta=True)], pages], [dict(edits=1, slots=[2], cmds=[saying(c, s) for c in (site.build(), bench(2), CLEAN) for s in says[:3]])],
                   extra=[{"p": "warns.js", "s": warns}])]
    site.run(chk, "what plugins say", core.build_vcli(js=True), us, "a JavaScript plugin which sets variables to undefined")
    d = checks_new.default_project(chk)
    if d:
        base, few, then, _ = checks_new.basis(*d)
        after = {"new": few, "other": ["build", "clean", "remove"]}
        checks_new.replay(chk, exe, "what new says", [dict(base, say=s, steps=[{"new": few, "other": []}, after]) for s in ("q", "v")], "quiet and verbose creation of projects")
    dev = checks_dev.dev_slots()
    us = [dict(checks_dev.devuniverse("quiet %s" % s, dev, [("edit", list(range(2, len(dev) + 1)))] * (2 if core.THOROUGH else 1)), say=s) for s in ("q", "v")]
    checks_dev.run(chk, "what the server says", us, "quiet and verbose development servers", limit=None if core.THOROUGH else 120)
