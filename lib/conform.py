"""Conformance of projects to Template.tla."""
import json, os
import core, tmpl


def check(chk, name, exe, cases, note=""):
    """Runs projects in the real code, lets TLC validate the outcomes, and records disagreements."""
    results = core.run_cases(exe, [c["run"] for c in cases])
    rows = []
    bycase = {}
    for c, r in zip(cases, results):
        o = tmpl.observe(c, r)
        cid = c["spec"]["id"]
        if isinstance(o, str):
            chk.violation("%s: %s" % (cid, o), {"case": c["run"], "observed": o})
            continue
        row = dict(c["spec"])
        # Where a failure is reported is the subject of C27 only.
        row["checks"] = [x for x in row["checks"] if x != "at" or chk.prop == "C27"]
        row["obs"] = {k: v for k, v in o.items() if not k.startswith("_")}
        rows.append(row)
        bycase[cid] = (c, o)
    if not rows:
        return
    res = core.validate("TemplateConf", rows, name)
    chk.model(name + " (validation)", res, note)
    chk.validated(name + " (validation)", len(rows))
    for m in res.json_lines("MISMATCH "):
        c, o = bycase[m["id"]]
        chk.violation("%s: specified %s, observed %s" % (m["id"], summary(m), summary(o)),
                      {"case": c["run"], "specified": m, "observed": o})
    return rows


def summary(m):
    if m.get("ok"):
        return "ok " + json.dumps(m.get("out"), ensure_ascii=False)[:200]
    return "failure " + json.dumps(m.get("errs", m.get("at")), ensure_ascii=False)[:200]
