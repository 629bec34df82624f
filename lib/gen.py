"""Programs enumerated by TLC (TemplateGen.tla), replayed in the real code."""
import json, os
import core, tmpl
from tmpl import *


def numbered(tokens):
    """The text of a program whose i-th token stands on line i."""
    out = []
    for i, t in enumerate(tokens):
        if t["k"] == "raw":
            out.append("%d\n" % (i + 1))
        elif t["k"] == "var":
            out.append("{{ $%s\n}}" % t["p"]["_text"])
        else:
            name, args = call(t)
            out.append("{{ %s(%s)\n}}" % (name, ", ".join(args)))
    return "".join(out)


def enumerate_programs(name, files, hole, alphabet, maxlen, before=(), after=(), workers=None, secs=(), cfg=None, close=False):
    """Runs TLC on all programs up to the given length; returns the run and the outcomes."""
    for f in files:
        if f["k"] in ("html", "md") and f["p"] != hole:
            render(f["t"])
            if f["k"] == "md":
                f["raw"] = render(f["t"])
                f["fm"] = [[k, S(v)] for k, v in (f["_fm"] or [])]
    for t in list(alphabet) + list(before) + list(after):
        t.setdefault("ln", 0)
    spec_files = []
    for f in files:
        g = clean(f)
        for k, d in (("t", []), ("fm", []), ("raw", ""), ("v", Z)):
            g.setdefault(k, d)
        spec_files.append(g)
    hole_i = [f["p"] for f in files].index(hole) + 1
    gen = {"files": spec_files, "env": {"t": "o", "o": [["STUART_ENV", S("testing")]]},
           "alphabet": clean(alphabet), "hole": hole_i, "max": maxlen, "before": clean(list(before)), "after": clean(list(after)), "secs": list(secs), "close": close}
    path = core.write_ndjson(os.path.join(core.scratch(), "gen-%s.ndjson" % name), [gen])
    res = core.tlc("TemplateGen", cfg=cfg, env={"GEN": path}, workers=workers, heap="8g")
    return res, res.json_lines("PROGRAM ")


def replay(chk, name, exe, files, hole, alphabet, outcomes, before=(), after=(), body=False):
    """Runs every enumerated program in the real code and compares the outcomes."""
    cases = []
    fixed = [c for c in tmpl.project("x", [f for f in files if f["p"] != hole], style=False)["run"]["files"]]
    hole_f = [f for f in files if f["p"] == hole][0]
    for n, o in enumerate(outcomes):
        toks = list(before) + [alphabet[k - 1] for k in o["p"]] + o["c"] + list(after)
        text = numbered(toks)
        if hole_f["k"] == "md" and hole_f["_fm"] is not None:
            text = fmtext(hole_f["_fm"]) + text
        cases.append({"id": n, "files": fixed + [{"p": "content/" + "/".join(hole), "s": text}],
                      "config": {"strip": False}, "plugins": [PLUGIN]})
    names = {}
    for i, f in enumerate(files):
        if f["k"] in ("html", "md") and f["p"][-1] not in ("root.html", "md.html"):
            names[out_name(f)] = i
    order = sorted(names, key=lambda k: names[k])
    results = core.run_cases(exe, cases)
    for c, o, r in zip(cases, outcomes, results):
        obs = tmpl.observe({"names": {k: k for k in names}}, r)
        if isinstance(obs, str):
            chk.violation("%s: %s: %s" % (name, c["files"][-1]["s"], obs), {"case": c, "observed": obs})
            continue
        if chk.prop == "C08":
            # Anything but a crash is the subject of the other properties.
            continue
        outs = dict(obs["out"])
        got = [outs.get(k) for k in order] if obs["ok"] else None
        if obs["ok"] != o["ok"] or (o["ok"] and got != o["out"]) or \
                (not o["ok"] and chk.prop == "C27" and list(obs["at"]) not in o["at"]):
            want = "ok %r" % (o["out"],) if o["ok"] else "failure at %r" % (o["at"],)
            have = "ok %r" % (got,) if obs["ok"] else "failure at %r (%s)" % (obs["at"], obs.get("_kind"))
            chk.violation("%s: %s => specified %s, observed %s" % (name, c["files"][-1]["s"], want, have),
                          {"case": c, "specified": o, "observed": obs})
    chk.validated(name, len(cases))
    return cases


def run(chk, name, exe, files, hole, alphabet, maxlen, before=(), after=(), note="", secs=(), close=False, **kw):
    res, outcomes = enumerate_programs(name, files, hole, alphabet, maxlen, before, after, secs=secs, close=close)
    if not outcomes:
        raise core.ToolError("no programs")
    ok = sum(1 for o in outcomes if o["ok"])
    chk.model(name, res, "%s%s; %d programs of up to %d tokens over %d, %d accepted" % (
        note, " (closed after them)" if close else "", len(outcomes), maxlen, len(alphabet), ok))
    cases = replay(chk, name, exe, files, hole, alphabet, outcomes, before, after, **kw)
    for c, o in list(zip(cases, outcomes))[len(cases) // 2::len(cases) // 3 + 1]:
        chk.sample({"part": name, "program": c["files"][-1]["s"], "outcome": {k: o[k] for k in ("ok", "out", "at")}}, 8)
    return len(outcomes), ok


def live(chk, name, files, hole, alphabet, maxlen, before=(), after=()):
    """Every program which is started ends (a liveness property of the machine)."""
    res, _ = enumerate_programs(name, files, hole, alphabet, maxlen, before, after, cfg="TemplateLive")
    chk.model(name, res, "every program of up to %d tokens over %d ends, under weak fairness" % (maxlen, len(alphabet)))
