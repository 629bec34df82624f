"""C01-C06, C10, C28: the template machine (Template.tla)."""
import itertools, os, random
import core, sizes, conform, gen, tmpl
from tmpl import *


def rng_for(chk, salt=""):
    return random.Random("%s/%s/%s" % (chk.prop, core.SEED, salt))


TWO = A(S("p"), S("q"))


def base_files():
    return [jsonf("two.json", TWO), jsonf("none.json", A())]


def host(kind, extra=()):
    """A project with a hole in a page, md.html, root.html or the body of a markdown file."""
    fs = base_files() + list(extra)
    if kind == "page":
        return [html("p.html", []), html("root.html", [insert("pg")])] + fs, ["p.html"], [begin("pg")], [end("pg")]
    if kind == "md":
        return [md("p.md", [raw("w")]), html("md.html", []), html("root.html", [insert("pg")])] + fs, \
            ["md.html"], [begin("pg")], [end("pg")]
    if kind == "root":
        return [html("p.html", [begin("a"), raw("s"), end("a")]), html("root.html", [])] + fs, ["root.html"], [], []
    if kind == "body":
        return [md("p.md", []), html("md.html", [begin("pg"), var("self.content"), end("pg")]),
                html("root.html", [insert("pg")])] + fs, ["p.md"], [], []


def exhaust(chk, name, exe, kind, alphabet, maxlen, extra=(), note="", **kw):
    files, hole, before, after = host(kind, extra)
    return gen.run(chk, "%s (%s)" % (name, kind), exe, files, hole, alphabet, maxlen, before, after,
                   note=note or "all programs in " + kind,
                   secs=[["a", "s"]] if kind == "root" else [], **kw)


# ------------------------------------------------------------------------------------ random programs

class Programs:
    """Random well nested programs, with everything which can be executed in them."""

    def __init__(self, rng, data=None, probes=True, labels=("a", "b", "c"), errors=0.0):
        self.rng, self.probes, self.labels, self.errors = rng, probes, labels, errors
        self.n = 0
        self.data = data or {}

    def text(self):
        self.n += 1
        return raw(self.rng.choice(["t%d ", "<i>%d</i>", "\n%d\n", "é%d~", "} %d )"]) % self.n)

    def operand(self, scope):
        r = self.rng
        c = r.randrange(6)
        if c == 0:
            return r.randrange(-2, 4)
        if c == 1:
            return r.choice(["", "x", "p", "q", "1"])
        v = self.ref(scope, ("s", "n"))
        return "$" + v if v else r.choice([1, "x"])

    def ref(self, scope, kinds):
        """A reference in scope to a value of one of the kinds."""
        c = [p for p, t in self.refs(scope) if t in kinds]
        return self.rng.choice(c) if c else None

    def refs(self, scope):
        seen, out = set(), []
        for frame in reversed(scope):
            for name, v in frame:
                if name in seen:
                    continue
                seen.add(name)
                self.walk(name, v, out, 0)
        return out

    def walk(self, p, v, out, depth):
        out.append((p, v["t"]))
        if depth > 3:
            return
        if v["t"] == "o":
            keys = set()
            for k, x in v["o"]:
                if k not in keys:
                    keys.add(k)
                    self.walk(p + "." + k, x, out, depth + 1)
            out.append((p + ".nokey", "z"))
        elif v["t"] == "a":
            for i, x in enumerate(v["a"]):
                self.walk("%s.%d" % (p, i), x, out, depth + 1)
            out.append(("%s.%d" % (p, len(v["a"])), "z"))

    def lookup(self, scope, p):
        name, *rest = p.split(".")
        for frame in reversed(scope):
            for n, v in frame:
                if n == name:
                    for c in rest:
                        v = self.get(v, c)
                    return v
        return None

    def get(self, v, c):
        if v["t"] == "o":
            for k, x in v["o"]:
                if k == c:
                    return x
        if v["t"] == "a" and 0 <= index(c) < len(v["a"]):
            return v["a"][index(c)]
        return Z

    def block(self, depth, scope, size, secs):
        """A list of tokens; scope is a list of frames of (name, value)."""
        r = self.rng
        out = []
        for _ in range(r.randrange(1, size + 1)):
            c = r.randrange(100)
            if c < 25 or depth <= 0 and c < 45:
                out.append(self.text())
            elif c < 40:
                p = self.ref(scope, ("s",))
                if p:
                    out.append(var(p))
            elif c < 50 and self.data:
                f = r.choice(sorted(self.data))
                name = r.choice(["x", "y", "z"])
                if all(n != name for n, _ in scope[-1]):
                    out.append(import_(name, f))
                    scope[-1].append((name, self.data[f]))
            elif c < 56 and self.probes:
                self.n += 1
                ps = [p for p, _ in self.refs(scope) if p.split(".")[0] != "self"] + ["nope", "x", "y.0"]
                out.append(probe("k%d" % self.n, *[r.choice(ps) for _ in range(3)]))
            elif c < 60 and secs:
                out.append(insert(r.choice(secs)))
            elif c < 64 and r.random() < self.errors:
                out.append(r.choice([var("nope"), insert("nope"), fail(), if_("ifeq", "$nope", 1), end("zz"), else_(),
                                     import_("k", "missing.json"), for_("v", "$nope"), excerpt("nope", 3)]))
            elif depth > 0:
                out += self.compound(depth, scope, size, secs)
        return out

    def compound(self, depth, scope, size, secs):
        r = self.rng
        c = r.randrange(10)
        inner = scope + [[]]
        if c < 3:
            l = r.choice(self.labels)
            body = self.block(depth - 1, inner, size, list(secs))
            if r.random() < 0.2:
                return [begin(l), *body, endf("begin")]
            secs.append(l)
            return [begin(l), *body, end(l)]
        if c < 7:
            if r.random() < 0.3:
                ps = [p for p, _ in self.refs(scope)] + ["nope", "x", "x.y"]
                o, e = ifdef(r.choice(ps)), endf("ifdefined")
            else:
                op = r.choice(["ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle"])
                o, e = if_(op, self.operand(scope), self.operand(scope)), endf(op)
            body = [o] + self.block(depth - 1, inner, size, list(secs))
            if r.random() < 0.6:
                body += [else_()] + self.block(depth - 1, scope + [[]], size, list(secs))
            return body + [e]
        # loops: over an array in scope, or a file
        v = r.choice(["v", "w", "x"])
        opts = {}
        if r.random() < 0.3:
            opts["skip"] = r.randrange(3)
        if r.random() < 0.3:
            opts["limit"] = r.randrange(3)
        if r.random() < 0.2:
            opts["order"] = r.choice(["asc", "desc"])
        p = self.ref(scope, ("a",))
        if p and r.random() < 0.6:
            arr = self.lookup(scope, p)
            s = "$" + p
        else:
            files = [f for f in sorted(self.data) if self.data[f]["t"] == "a"]
            if not files:
                return [self.text()]
            s = r.choice(files)
            arr = self.data[s]
        item = arr["a"][0] if arr["a"] else S("")
        # the body is written for the first item; the other items have the same shape
        body = self.block(depth - 1, scope + [[(v, item)]], max(1, size - 1), list(secs))
        return [for_(v, s, **opts), *body, endf("for")]


def mutate(rng, tokens, n=1):
    """Breaks a program a little: tokens dropped, swapped, doubled, or replaced by another closer."""
    t = list(tokens)
    for _ in range(n):
        if not t:
            return t
        i = rng.randrange(len(t))
        c = rng.randrange(5)
        if c == 0:
            del t[i]
        elif c == 1:
            j = rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif c == 2:
            t.insert(i, dict(t[i]))
        elif c == 3:
            t.insert(i, rng.choice([end("a"), end("b"), endf("for"), endf("ifeq"), endf("ifdefined"), endf("begin"), else_(), begin("a")]))
        else:
            closers = [k for k, x in enumerate(t) if x["k"] in ("endl", "endf")]
            if closers:
                t[rng.choice(closers)] = rng.choice([end("a"), end("b"), endf("for"), endf("ifeq"), endf("begin")])
    return t


def some_data(rng):
    row = lambda: O(("s", S(rng.choice(["p", "q", "é", ""]))), ("n", N(rng.choice([0, 1, 2.5, -1]))),
                    ("l", A(*[S(str(i)) for i in range(rng.randrange(3))])), ("z", Z), ("0", S("zero")))
    return {"rows.json": A(*[row() for _ in range(rng.randrange(4))]),
            "strs.json": A(*[S(x) for x in rng.sample(["p", "q", "r", "s"], rng.randrange(4))]),
            "obj.json": O(("t", S("title")), ("rows", A(row(), row())), ("o", O(("k", S("deep")))), ("t", S("again")))}


def random_projects(chk, n, where, depth=3, size=4, broken=0.5, errors=0.0, checks=("out", "probes", "at")):
    """Projects with a random program in the page, md.html, root.html or a body."""
    rng = rng_for(chk, "random")
    cases = []
    for i in range(n):
        data = some_data(rng)
        g = Programs(rng, data, errors=errors)
        kind = where[i % len(where)]
        files, hole, before, after = host(kind)
        prog = g.block(depth, [[("env", O(("STUART_ENV", S("testing"))))]], size, ["a"] if kind == "root" else [])
        if kind == "body":
            # paragraphs are all the markdown which the specification knows
            prog = [t if t["k"] != "raw" else raw("t%d\n\n" % j) for j, t in enumerate(prog)]
        if rng.random() < broken:
            prog = mutate(rng, prog, rng.randrange(1, 3))
        for f in files:
            if f["p"] == hole:
                f["t"] = [dict(t) for t in before + prog + after]
        files += [jsonf(k, v) for k, v in data.items()]
        cases.append(project("%s-%s-%d" % (chk.prop, kind, i), files, rng=rng, newlines=False,
                             checks=[c for c in checks if c != "probes" or kind != "body"]))
    return cases


# ------------------------------------------------------------------------------------ C01, C02

C01_ALPHABET = [raw(""), begin("a"), begin("b"), end("a"), end("b"), endf("begin"), for_("v", "two.json"),
                if_("ifeq", "a", "a"), if_("iflt", 2, 1), ifdef("x"), else_(), endf("for"), endf("ifeq"),
                endf("iflt"), endf("ifdefined")]
C01_SMALL = [raw(""), begin("a"), end("a"), end("b"), for_("v", "two.json"), for_("v", "none.json"), endf("for"),
             if_("ifeq", "a", "a"), if_("ifeq", "a", "b"), endf("ifeq"), else_()]


# Labels which contain, start or end with each other, or look like the names of other blocks.
C01_LABELS = [raw("")] + [f(l) for l in ("ab", "a", "b", "", "A", "begin:a", "for:v", "ifeq", "base") for f in (begin, end)] + \
    [endf("begin"), for_("v", "two.json"), endf("for"), endf("ifeq")]


# Blocks in conditionals, named like conditionals: an else belongs to the innermost block.
C01_INNER = [if_("ifeq", "a", "a"), if_("ifeq", "a", "b"), ifdef("x"), else_()] + \
    [f(l) for l in ("gif", "if", "ifeq", "else") for f in (begin, end)] + [for_("v", "two.json"), endf("for"), endf("ifeq"), endf("begin")]
C01_CHAIN = [raw(""), if_("ifeq", "a", "a"), if_("iflt", 2, 1), else_(), begin("if"), for_("if", "two.json"), endf("ifeq")]


def C01(chk):
    exe = core.build_harness()
    deep = core.THOROUGH
    exhaust(chk, "blocks", exe, "page", C01_ALPHABET, 4)
    exhaust(chk, "blocks", exe, "page", C01_SMALL, 5 if deep else 4)
    for kind in ("root", "md", "body"):
        exhaust(chk, "blocks", exe, kind, C01_ALPHABET, 4 if deep else 3)
    exhaust(chk, "labels", exe, "page", C01_LABELS, 4 if deep else 3)
    exhaust(chk, "labels", exe, "md", C01_LABELS, 3 if deep else 2)
    exhaust(chk, "inner blocks", exe, "page", C01_INNER, 4 if deep else 3, close=True)
    exhaust(chk, "inner blocks in md.html", exe, "md", C01_INNER, 3 if deep else 2, close=True)
    exhaust(chk, "chains of blocks", exe, "page", C01_CHAIN, 6 if deep else 5, close=True)
    cases = random_projects(chk, 6000 if deep else 800, ["page", "root", "md"], checks=("out", "at"))
    conform.check(chk, "random programs", exe, cases, "random nested programs, half of them broken")
    sizes.check(chk, exe, sizes.blocks)


C02_ALPHABET = [raw(""), if_("ifeq", "a", "a"), if_("ifeq", "a", "b"), else_(), endf("ifeq"), for_("v", "two.json"),
                endf("for"), begin("a"), end("a"), import_("x", "two.json"), ifdef("x"), endf("ifdefined"), var("nope")]


# What stands in parts which are not taken, blocks in blocks; the blocks which are left open are closed.
C02_DEEP = [raw(""), if_("ifeq", "a", "a"), if_("ifeq", "a", "b"), else_(), endf("ifeq"), for_("v", "none.json"), endf("for"), var("nope")]


def C02(chk):
    exe = core.build_harness()
    deep = core.THOROUGH
    exhaust(chk, "branches", exe, "page", C02_ALPHABET, 5 if deep else 4)
    exhaust(chk, "deep branches", exe, "page", C02_DEEP, 6 if deep else 5, close=True)
    exhaust(chk, "else in blocks", exe, "page", C01_CHAIN + [begin("gif"), var("nope")], 5 if deep else 4, close=True)
    exhaust(chk, "branches", exe, "root", C02_ALPHABET, 4 if deep else 3)
    exhaust(chk, "branches", exe, "body", C02_ALPHABET, 4 if deep else 3)
    cases = random_projects(chk, 6000 if deep else 800, ["page", "root", "md"], broken=0.1, errors=0.5)
    conform.check(chk, "random programs", exe, cases, "random nested programs with effects and errors in their branches")
    sizes.check(chk, exe, sizes.branches)


# ------------------------------------------------------------------------------------ C03

OPS = ["ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle"]
NUMBERS = ["0", "-0", "0.0", "-0.0", "1", "1.0", "-1", "2", "10", "9", "1.5", "-1.5", "1.25", "1.0000000000000002", "0.1", "1e0", "100e-2",
           "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "4294967297", "9007199254740992",
           "9007199254740991", "1e18", "1e100", "-1e100", "1.7976931348623157e308", "5e-324", "-5e-324", "0.5", "255", "256", "65536"]
STRINGS = ["", "1", "0", "a", "A", "b", "ab", "a ", " a", "true", "null", "1.0", "é", "e\u0301", "日本", "9", "10", "\U0001f600", "$x", "<b>"]
OTHERS = [Z, B(True), B(False), A(), A(N(1, "1")), O(), O(("a", N(1, "1")))]
INTS = [0, 1, -1, 2, 10, 9, 255, 2147483647, -2147483648]


def C03(chk):
    """Every operand as data and (where it can be written) as a literal, against every other."""
    exe = core.build_harness()
    operands = []  # (value, how it is written in a tag)
    data = []
    for v in [N(float(x), x) for x in NUMBERS] + [S(x) for x in STRINGS] + OTHERS:
        operands.append((v, "$d.%d" % len(data)))
        data.append(v)
    for i in INTS:
        operands.append((N(i, str(i)), str(i)))
    for s in STRINGS:
        operands.append((S(s), '"%s"' % s))
    operands += [({"t": "u"}, "$nothing"), (Z, "$d.999"), (Z, "$d.0.x"), ({"t": "s", "s": "testing"}, "$env.STUART_ENV"),
                 (O(), "$env"), (S("F"), "$self.f"), (Z, "$self.g")]
    if core.THOROUGH:
        rng = rng_for(chk)
        for _ in range(120):
            x = rng.choice([rng.uniform(-3, 3), rng.uniform(-1e10, 1e10), float(rng.randrange(-50, 50)), rng.randrange(-2**53, 2**53) * 1.0,
                            struct_double(rng)])
            operands.append((N(x, repr(x)), "$d.%d" % len(data)))
            data.append(N(x, repr(x)))
    path = core.write_ndjson(os.path.join(core.scratch(), "operands.ndjson"), [clean(v) for v, _ in operands])
    res = core.tlc("Compare", env={"OPERANDS": path}, heap="8g")
    chk.model("truth table", res, "all pairs and triples of %d operands: negation, trichotomy, inclusive orders, symmetry, "
              "transitivity, no order on strings" % len(operands))
    rows = res.json_lines("ROW ")
    if len(rows) != len(operands) ** 2:
        raise core.ToolError("incomplete truth table")
    fixed = [{"p": "content/root.html", "s": '{{ insert("x") }}'}, {"p": "content/d.json", "s": jsontext(A(*data))},
             {"p": "content/md.html", "s": '{{ begin("x") }}%s{{ end("x") }}'}]
    cases, expect = [], []

    def case(tags, want):
        # Operands may be $self: the comparisons stand in md.html.
        fs = [dict(f) for f in fixed]
        fs[2]["s"] = fs[2]["s"] % ('{{ import($d, "d.json") }}' + tags)
        cases.append({"id": len(cases), "files": fs + [{"p": "content/p.md", "s": "---\nf: \"F\"\n---\nx"}], "config": {"strip": False}})
        expect.append(want)

    by_a = {}
    for r in rows:
        if r["ok"]:
            by_a.setdefault(r["a"], []).append(r)
    for a, rs in by_a.items():
        tags, want = "", ""
        for r in sorted(rs, key=lambda r: r["b"]):
            for op, hold in zip(OPS, r["r"]):
                tags += "{{ %s(%s, %s) }}T{{ else() }}F{{ end(%s) }}" % (op, operands[a - 1][1], operands[r["b"] - 1][1], op)
                want += "T" if hold else "F"
        case(tags, want)
    rng = rng_for(chk, "undefined")
    undefined = [r for r in rows if not r["ok"]]
    if not core.THOROUGH:
        # every value which cannot be compared against every other, with one operator each, all operators in turn
        undefined = [(r, [OPS[i % 6]]) for i, r in enumerate(sorted(undefined, key=lambda r: (r["a"] * 7 + r["b"] * 5) % 997))]
    else:
        undefined = [(r, OPS) for r in undefined]
    for r, ops in undefined:
        for op in ops:
            a, b = operands[r["a"] - 1][1], operands[r["b"] - 1][1]
            case("{{ %s(%s, %s) }}T{{ else() }}F{{ end(%s) }}" % (op, a, b, op), None)
    results = core.run_cases(exe, cases)
    pairs = 0
    for c, want, r in zip(cases, expect, results):
        if r.get("crash") or r["steps"][-1].get("err") == "panic":
            chk.violation("comparison crashed", {"case": c, "result": r})
            continue
        last = r["steps"][-1]
        got = None
        if last["ok"]:
            got = [f["s"] for f in last["files"] if f["p"] == "p.html"]
            got = got[0] if got else "?"
        if got != want:
            chk.violation("%s: specified %s, observed %s" % (first_difference(c, want, got), want, got if last["ok"] else "failure " + str(last)),
                          {"case": c, "specified": want, "observed": r})
        pairs += len(want) if want else 1
    chk.validated("truth table replayed", pairs, "comparisons evaluated by the real code")
    chk.sample({"operands": [t for _, t in operands][:20], "row": rows[1]})
    chk.assumptions += ["JSON numbers are those a double can hold (the JSON library reads doubles)"]
    # operands in scope of nested blocks, loops and imports
    conform.check(chk, "random programs", exe, random_projects(chk, 4000 if core.THOROUGH else 500, ["page", "root", "md"], broken=0.0),
                  "comparisons of loop variables, imports and literals in nested programs")


def struct_double(rng):
    import struct, math
    while True:
        x = struct.unpack(">d", struct.pack(">Q", rng.getrandbits(64)))[0]
        if not math.isnan(x) and not math.isinf(x):
            return x


def first_difference(c, want, got):
    if not want or not got or len(want) != len(got):
        tags = c["files"][2]["s"]
        return tags[:200]
    i = [k for k in range(len(want)) if want[k] != got[k]][0]
    return c["files"][2]["s"].split("{{ if")[i + 1].join(["{{ if", ""])


# ------------------------------------------------------------------------------------ C04

def loop_case(n, values, opts, source, path, md=None):
    """One project with one loop per option over the items, which show their position."""
    loops = []
    for skip, limit, sort, order in opts:
        named = []
        if skip is not None:
            named.append("skip=%d" % skip)
        if limit is not None:
            named.append("limit=%d" % limit)
        if sort:
            named.append("sortby=$" + path)
        if order:
            named.append('order="%s"' % order)
        loops.append("{{ for($v, %s) }}{{ $v.id }},{{ end(for) }};" % ", ".join([source] + named))
    files = [{"p": "content/root.html", "s": '{{ insert("x") }}'},
             {"p": "content/p.html", "s": '{{ begin("x") }}' + "".join(loops) + '{{ end("x") }}'}]
    return {"id": n, "files": files, "config": {"strip": False}}


def C04(chk):
    exe = core.build_harness()
    deep = core.THOROUGH
    # what a loop selects
    key = lambda v: O(("k", v))
    kinds = [("none", O()), ("empty", key(S("", True))), ("a", key(S("a", True))), ("b", key(S("b", True))), ("num", key(N(5, "5"))), ("B", key(S("B", True)))]
    more = [("ab", key(S("ab", True))), ("e", key(S("\u00e9", True))), ("null", key(Z)), ("10", key(S("10", True))), ("9", key(S("9", True))), ("twice", O(("k", S("b", True)), ("k", S("a", True))))]
    opts = [(s, l, so, o) for so in (False, True) for o in (None, "asc", "desc") for s in (None, 0, 1, 2, 5) for l in (None, 0, 1, 2, 5)]
    spec_opts = [{"sort": so, "path": P("v.k")["path"], "desc": o == "desc", "skip": s or 0, "limit": -1 if l is None else l} for s, l, so, o in opts]
    for part, ks, n in (("selection", kinds, 4), ("selection of other keys", kinds[:1] + more, 3)) if not deep else \
            (("selection", kinds, 5), ("selection of other keys", kinds + more, 4)):
        path = core.write_ndjson(os.path.join(core.scratch(), "loop.ndjson"), [
            {"items": [clean(dict(v)) for _, v in ks], "max": n, "opts": spec_opts, "path": P("v.k")["path"]}])
        res = core.tlc("Loop", env={"LOOP": path}, heap="8g", fast=True)
        sels = res.json_lines("SEL ")
        chk.model(part, res, "all sequences of up to %d items over %d keys, %d options each" % (n, len(ks), len(opts)))
        cases = []
        for i, r in enumerate(sels):
            items = [O(("id", S(str(j + 1))), *ks[k - 1][1]["o"]) for j, k in enumerate(r["xs"])]
            c = loop_case(i, items, opts, '"d.json"' if i % 2 else "$d.items", "v.k")
            c["files"].append({"p": "content/d.json", "s": jsontext(A(*items) if i % 2 else O(("items", A(*items))))})
            if not i % 2:
                c["files"][1]["s"] = '{{ import($d, "d.json") }}' + c["files"][1]["s"]
            cases.append(c)
        results = core.run_cases(exe, cases)
        for c, r, o in zip(cases, sels, results):
            want = "".join("".join("%d," % k for k in s) + ";" for s in r["sel"])
            compare_page(chk, part, c, o, want)
        chk.validated(part, len(cases) * len(opts), "loops evaluated by the real code")
        chk.sample({"part": part, "items": sels[len(sels) // 2]["xs"], "selected": sels[len(sels) // 2]["sel"][-3:]})
    # long lists: many items of few keys keep their order
    rng = rng_for(chk, "long")
    cases = []
    for i in range(100 if deep else 24):
        n = rng.choice([15, 21, 33, 50, 70] if deep else [21, 33, 45])
        ks = rng.choice([["a", "b"], ["", "a", "b", "c"], ["x"], ["é", "e", "z", "Z"]])
        items = [O(("id", S("%d," % j)), *([("k", S(rng.choice(ks), True))] if rng.random() < 0.9 else [])) for j in range(n)]
        prog = [begin("x")]
        for _ in range(3):
            o = dict(skip=rng.choice([None, 0, 1, n // 2]), limit=rng.choice([None, 1, n // 2, n + 1]), order=rng.choice([None, "asc", "desc"]))
            prog += [raw(";"), for_("v", "l.json", sortby="v.k", **o), var("v.id"), endf("for")]
        cases.append(project("C04-long-%d" % i, [jsonf("l.json", A(*items)), html("root.html", [insert("x")]), html("p.html", prog + [end("x")])], checks=("out",)))
    conform.check(chk, "long lists", exe, cases, "sorting lists of up to 70 items with few keys")
    # a directory's own markdown files, in the order of their names, unless they are sorted
    rng = rng_for(chk, "dirs")
    cases = []
    for i in range(1500 if deep else 250):
        n = rng.randrange(5)
        keys = [rng.choice(["", "a", "b", "c", "B", "10", "9"]) for _ in range(n)]
        names = rng.sample(["m", "m.x", "M", "m-1", "m1", "m10", "m2", "\u00e9", "e\u0301", "z", "_"], n)
        files = [html("root.html", [insert("x")]), html("d/md.html", [begin("x"), end("x")]), html("q.html", []), dir_("d/e"),
                 jsonf("d/j.json", A()), other("d/x.txt", "z"), html("d/h.html", [begin("x"), end("x")])]
        for j, k in enumerate(keys):
            fm = [("id", "m%d" % j)] + ([("k", k)] if k else [])
            rng.shuffle(fm)
            files.append(md("d/%s.md" % names[j], [raw("w%d" % j)], fm))
        files.append(md("d/e/deep.md", [raw("no")], [("id", "no")]))
        prog = [begin("x")]
        for _ in range(4):
            o = dict(skip=rng.choice([None, 0, 1, 3]), limit=rng.choice([None, 0, 1, 2, 9]), sortby=rng.choice(["v.k", "v.k", None]), order=rng.choice([None, "asc", "desc"]))
            prog += [raw(";"), for_("v", rng.choice(["d/", "d//", "./d/"]), **o), var("v.id"), var("v.content"), var("v.markdown"), endf("for")]
        prog += [for_("v", "d/e/"), var("v.id"), endf("for"), end("x")]
        files[2]["t"] = prog
        cases.append(project("C04-dir-%d" % i, files, rng=rng, checks=("out", "at")))
    conform.check(chk, "directories", exe, cases, "loops over the markdown files of a directory")
    # bodies, nested loops and conditionals in them, sources which are not arrays
    rows = A(O(("l", TWO), ("s", S("p"))), O(("l", A()), ("s", S("q"))))
    alpha = [raw(""), for_("v", "rows.json"), for_("v", "none.json"), for_("w", "$v.l"), for_("w", "two.json", skip=1), endf("for"), var("v.s"), var("w"),
             if_("ifeq", "$v.s", "p"), else_(), endf("ifeq")]
    extra = [jsonf("rows.json", rows), jsonf("obj.json", O(("s", S("z")))), jsonf("str.json", S("s"))]
    exhaust(chk, "bodies", exe, "page", alpha, 5 if deep else 4, extra)
    exhaust(chk, "bodies", exe, "root", alpha, 4 if deep else 3, extra)
    chain = [for_("v", "rows.json"), for_("v", "$v.l"), for_("w", "$v.l"), for_("v", "two.json", skip=1), endf("for"), var("v"), var("v.s"), var("w")]
    exhaust(chk, "nested bodies", exe, "page", chain, 6 if deep else 5, extra, close=True)
    bad = [for_("v", "rows.json"), for_("v", "obj.json"), for_("v", "str.json"), for_("v", "missing.json"), for_("v", "missing/"), for_("v", "rows.json/"),
           for_("v", "$nothing"), for_("v", "$env"), for_("v", "$env.STUART_ENV"), endf("for"), raw("")]
    exhaust(chk, "sources", exe, "page", bad, 3, extra)
    exhaust(chk, "sources", exe, "body", bad, 2, extra)
    conform.check(chk, "random programs", exe, random_projects(chk, 5000 if deep else 500, ["page", "root", "md"], broken=0.1), "loops in nested programs")
    sizes.check(chk, exe, sizes.loops)


def compare_page(chk, part, c, r, want, page="p.html"):
    """Compares a page (None: the build must fail)."""
    if r.get("crash") or r["steps"][-1].get("err") == "panic":
        chk.violation("%s: crash %s" % (part, r.get("crash") or r["steps"][-1].get("kind")), {"case": c, "result": r})
        return
    last = r["steps"][-1]
    got = None
    if last["ok"]:
        got = ([f.get("s") for f in last["files"] if f["p"] == page] or ["(no page)"])[0]
    if got != want:
        i = 0
        while want and got and i < min(len(want), len(got)) and want[i] == got[i]:
            i += 1
        j = max(0, i - 40)
        chk.violation("%s: specified %r, observed %r %s" % (part, want and want[j:i + 60], got and got[j:i + 60], "" if last["ok"] else last.get("kind")),
                      {"case": c, "specified": want, "observed": r})


# ------------------------------------------------------------------------------------ C05

C05_ALPHABET = [import_("x", "str.json"), import_("x", "str2.json"), import_("y", "str.json"), for_("x", "two.json"), endf("for"), begin("a"), end("a"),
                var("x"), var("y"), ifdef("x"), endf("ifdefined")]
C05_PLUGIN = [bind("x", "B1"), bind("x", "B2"), for_("x", "two.json"), for_("y", "two.json"), endf("for"), if_("ifeq", 1, 1), else_(), endf("ifeq"), var("x"),
              import_("x", "str.json")]


# Inner bindings of a name hide the outer ones, whatever their values have inside.
C05_SHADOWS = [import_("x", "o1.json"), import_("x", "o2.json"), for_("x", "os.json"), for_("y", "$x.l"), for_("x", "$x.l"), endf("for"), var("x.t"), var("x.u"),
               ifdef("x.t"), endf("ifdefined"), begin("a"), end("a")]


def C05(chk):
    exe = core.build_harness()
    deep = core.THOROUGH
    strs = [jsonf("str.json", S("s1")), jsonf("str2.json", S("s2"))]
    exhaust(chk, "bindings", exe, "page", C05_ALPHABET, 5 if deep else 4, strs)
    for kind in ("root", "md", "body"):
        exhaust(chk, "bindings", exe, kind, C05_ALPHABET, 4 if deep else 3, strs)
    objs = [jsonf("o1.json", O(("t", S("t1")), ("l", A(O(("t", S("t2"))), O(("u", S("u2"))))))), jsonf("o2.json", O(("u", S("u3")), ("t", Z), ("l", A(S("s")))),),
            jsonf("os.json", A(O(("u", S("u4")), ("l", A(O(("t", S("t5"))))))))]
    exhaust(chk, "shadows", exe, "page", C05_SHADOWS, 5 if deep else 4, objs)
    exhaust(chk, "shadows", exe, "root", C05_SHADOWS, 4 if deep else 3, objs)
    exhaust(chk, "nested shadows", exe, "page", C05_SHADOWS, 5 if deep else 4, objs, close=True)
    for kind in ("root", "md", "body"):
        exhaust(chk, "nested shadows", exe, kind, C05_SHADOWS, 4 if deep else 3, objs, close=True)
    exhaust(chk, "plugin bindings", exe, "page", C05_PLUGIN, 5 if deep else 4, strs)
    # paths into values of every shape
    inner = A(S("i0"), A(S("j0"), O(("k", S("jk")))), O(("0", S("o0")), ("k", S("ok"))), Z, N(1, "1"))
    val = O(("k", S("v")), ("0", S("zero")), ("00", S("zz")), ("", S("empty")), ("1", inner), ("é", S("acc")), ("k", S("twice")), ("a", inner),
            ("o", O(("k", A(S("deep"))), ("env", S("e")))), ("t", B(True)), ("n", N(1.5, "1.5")), ("z", Z))
    comps = ["k", "0", "1", "00", "01", "2", "", "é", "a", "o", "z", "t", "x", "4294967296", "-1"]
    comps = [c for c in comps if c != "-1"]
    paths = ["d"] + ["d." + ".".join(t) for n in (1, 2, 3) for t in itertools.product(comps, repeat=n)]
    if not deep:
        paths = [p for i, p in enumerate(paths) if p.count(".") < 3 or i % 3 == core.SEED % 3]
    cases = []
    for arr, v in ((False, val), (True, inner)):
        for n in range(0, len(paths), 150):
            ps = paths[n:n + 150]
            files = [jsonf("v.json", v), html("root.html", [insert("x")]),
                     html("p.html", [import_("d", "v.json")] + [probe("k%d" % i, p) for i, p in enumerate(ps)] + [begin("x"), end("x")])]
            cases.append(project("C05-paths-%s-%d" % (arr, n), files, rng=None))
    conform.check(chk, "paths", exe, cases, "all paths of up to 3 components into an object and an array")
    # what can be inserted
    cases = []
    for i, p in enumerate(paths[:240:1 if deep else 2]):
        cases.append(project("C05-insert-%d" % i, [jsonf("v.json", val), html("root.html", [insert("x")]),
                     html("p.html", [begin("x"), import_("d", "v.json"), var(p), end("x")])], checks=("out", "at")))
    conform.check(chk, "inserted values", exe, cases, "inserting each value")
    # several pages: nothing of one is visible in another, in a template, or the other way round
    cases = []
    rng = rng_for(chk, "leak")
    for i in range(1200 if deep else 250):
        names = ["x", "y", "z", "self", "env"]
        ask = lambda tag: [probe(tag + str(j), n) for j, n in enumerate(names)] + [t for n in names[:3] for t in (ifdef(n), raw("D" + n), endf("ifdefined"))]
        binders = lambda: rng.choice([[import_(rng.choice("xyz"), "str.json")], [bind(rng.choice("xyz"), "q%d" % rng.randrange(9))], [],
                                      [for_(rng.choice("xyz"), "two.json"), *[var(n) for n in "x" if rng.random() < 0], endf("for")]])
        files = strs + base_files()
        files.append(html("root.html", ask("r") + binders() + [insert("a")] + ask("s")))
        files.append(html("md.html", ask("m") + binders() + [begin("a")] + ask("n") + [var("self.t"), end("a")] + ask("o")))
        for j in range(rng.randrange(1, 4)):
            files.append(html("p%d.html" % j, binders() + [begin("a")] + binders() + ask("p%d" % j) + [end("a")] + binders()))
        for j in range(rng.randrange(1, 3)):
            files.append(md("m%d.md" % j, binders() + ask("b%d" % j), [("t", "T%d" % j)]))
        rng.shuffle(files)
        # places in md.html and root.html are executed once per page, in any order of the pages
        cases.append(project("C05-leak-%d" % i, files, rng=rng, checks=("out", "bag", "at")))
    conform.check(chk, "several pages", exe, cases, "bindings made in pages, bodies, md.html and root.html and looked up in all the others")
    conform.check(chk, "random programs", exe, random_projects(chk, 5000 if deep else 600, ["page", "root", "md"], broken=0.0, errors=0.3), "nested scopes")
    sizes.check(chk, exe, sizes.bindings)


# ------------------------------------------------------------------------------------ C06

def C06(chk):
    exe = core.build_harness()
    deep = core.THOROUGH
    # which templates a page gets
    dirs = ["", "a/", "a/b/", "c/"]
    cases = []
    for i, roots in enumerate(itertools.product([0, 1], repeat=4)):
        for j, mds in enumerate(itertools.product([0, 1], repeat=4)):
            tpl = [html(d + "root.html", [raw("R[%s]" % d), insert("x"), raw("/")]) for d, y in zip(dirs, roots) if y]
            tpl += [html(d + "md.html", [raw("no"), begin("x"), raw("M[%s]" % d), var("self.t"), end("x")]) for d, y in zip(dirs, mds) if y]
            pages = []
            for d in dirs:
                pages.append(html(d + "h.html", [raw("no"), begin("x"), raw("H" + d), end("x"), raw("no")]))
                pages.append(md(d + "m.md", [raw("w")], [("t", "T" + d)]))
                if deep:
                    pages.append(html(d + "index.html", [begin("x"), raw("I" + d), end("x")]))
            full = tpl + [p for p in pages if template(tpl, p)]
            cases.append(project("C06-some-%d-%d" % (i, j), full, style=False))
            if deep or (i * 16 + j) % 2 == core.SEED % 2:
                for n, p in enumerate(pages):
                    if not template(tpl, p) and (deep or (n + i + j) % 4 == 0):
                        cases.append(project("C06-lacks-%d-%d-%d" % (i, j, n), full + [p], style=False, checks=("out", "at")))
    for c in cases:
        c["spec"]["checks"] = ["out", "at"]
    conform.check(chk, "templates", exe, cases, "all placements of root.html and md.html in four directories, with pages in each")
    # directories which are called like templates are none, and hide none
    rng = rng_for(chk, "directories")
    cases = []
    for i, (roots, mds) in enumerate(itertools.product(itertools.product([0, 1, 2], repeat=4), itertools.product([0, 1, 2], repeat=4))):
        if 2 not in roots + mds or rng.random() > (0.3 if deep else 0.04):
            continue
        tpl = [html(d + "root.html", [raw("R[%s]" % d), insert("x"), raw("/")]) for d, y in zip(dirs, roots) if y == 1]
        tpl += [html(d + "md.html", [begin("x"), raw("M[%s]" % d), var("self.t"), end("x")]) for d, y in zip(dirs, mds) if y == 1]
        full = list(tpl)
        for d, y, name in [(d, y, "root.html") for d, y in zip(dirs, roots)] + [(d, y, "md.html") for d, y in zip(dirs, mds)]:
            if y == 2:
                full.append(dir_(d + name))
                inner = [html(d + name + "/q.html", [begin("x"), raw("Q" + d), end("x")]), md(d + name + "/n.md", [raw("w")], [("t", "N" + d)]),
                         html(d + name + "/root.html", [raw("I"), insert("x")])]
                full += [f for f in inner if rng.random() < 0.4]
        for d in dirs:
            full += [html(d + "h.html", [raw("no"), begin("x"), raw("H" + d), end("x")]), md(d + "m.md", [raw("w")], [("t", "T" + d)])]
        tpl = [f for f in full if f["k"] == "html" and f["p"][-1] in ("root.html", "md.html")]
        if rng.random() < 0.9:
            full = [f for f in full if f["k"] == "dir" or f in tpl or template(tpl, f)]
        cases.append(project("C06-dirs-%d" % i, full, style=False, checks=("out", "at")))
    conform.check(chk, "directories called like templates", exe, cases, "placements of files and directories called root.html and md.html")
    # templates and pages with nothing in them are there all the same
    rng = rng_for(chk, "empty")
    cases = []
    for i in range(4000 if deep else 500):
        full = []
        for d in dirs:
            r, m = rng.choice([0, 1, 2, 3, 3]), rng.choice([0, 1, 2, 3])
            if r or d == "":
                full.append(html(d + "root.html", [[raw("R[%s]" % d), insert("x")], [raw("R[%s]" % d), insert("x"), raw("/")], [], [raw("T[%s]" % d)]][r]))
            if m or d == "":
                full.append(html(d + "md.html", [[begin("x"), end("x")], [begin("x"), raw("M[%s]" % d), var("self.t"), end("x")], [], [raw("none")]][m]))
            full += [html(d + "h.html", rng.choice([[], [raw("no")], [begin("x"), raw("H" + d), end("x")], [begin("x"), end("x")]])), md(d + "m.md", rng.choice([[], [raw("w")]]), [("t", rng.choice(["", "T" + d]))])]
        tpl = [f for f in full if f["p"][-1] in ("root.html", "md.html")]
        if rng.random() < 0.8:
            # only the pages which are in one of the directories, so that not every project fails
            d = rng.choice(dirs).split("/")[:-1]
            full = tpl + [f for f in full if f not in tpl and f["p"][:-1] == d]
        cases.append(project("C06-empty-%d" % i, full, style=False, checks=("out", "at")))
    conform.check(chk, "empty templates", exe, cases, "templates and pages with nothing in them, in four directories")
    # sections
    alpha = [raw(""), begin("a"), end("a"), begin("b"), end("b"), endf("begin"), insert("a"), import_("v", "two.json")]
    for name, root in (("sections", [raw("("), insert("a"), raw("|"), insert("b"), raw(")")]),
                       ("sections twice", [insert("a"), begin("c"), insert("a"), end("c"), insert("c")])):
        files = [html("p.html", []), html("root.html", root)] + base_files()
        gen.run(chk, name, exe, files, ["p.html"], alpha if deep else alpha[:7], 6 if deep else 5, note="all section structures of a page")
    exhaust(chk, "sections in root.html", exe, "root", [raw(""), begin("a"), end("a"), begin("b"), end("b"), endf("begin"), insert("a"), insert("b")], 5 if deep else 4)
    exhaust(chk, "sections in md.html", exe, "md", [raw(""), begin("a"), end("a"), begin("pg"), end("pg"), insert("a"), insert("pg"), var("self.content")], 5 if deep else 4)
    exhaust(chk, "sections in bodies", exe, "body", [raw(""), begin("a"), end("a"), begin("pg"), end("pg"), insert("a"), insert("pg")], 4 if deep else 3)
    # sections which are made in loops and branches
    files = [html("p.html", []), html("root.html", [insert("a")])] + base_files()
    alpha = [raw(""), begin("a"), end("a"), for_("v", "two.json"), for_("v", "none.json"), endf("for"), var("v"), if_("ifeq", "$v", "q"), else_(), endf("ifeq")]
    gen.run(chk, "sections in blocks", exe, files, ["p.html"], alpha, 5 if deep else 4, note="sections in loops and conditionals", before=(), after=(begin("a"), raw(""), end("a")))
    conform.check(chk, "random programs", exe, random_projects(chk, 4000 if deep else 500, ["page", "root", "md"], broken=0.1), "sections in nested programs")
    # whole sites: many pages in many directories, each with its own sections
    rng = rng_for(chk, "sites")
    cases = []
    for i in range(1500 if deep else 200):
        ds = [""] + rng.sample(["a/", "a/b/", "a/b/c/", "d/", "a/e/"], rng.randrange(1, 5))
        files = base_files()
        for d in ds:
            ss = rng.sample("abc", rng.randrange(1, 4))
            if d == "" or rng.random() < 0.4:
                files.append(html(d + "root.html", [raw("R" + d)] + [t for s in ss for t in (insert(s), raw("|"))]))
            if d == "" or rng.random() < 0.4:
                files.append(html(d + "md.html", [t for s in "abc" for t in (begin(s), raw(s.upper() + d), var("self.content"), end(s))]))
            for j in range(rng.randrange(3)):
                secs = [rng.choice("abc") for _ in range(2)] + (list("abc") if rng.random() < 0.9 else [])
                rng.shuffle(secs)
                files.append(html(d + "p%d.html" % j, [t for k, s in enumerate(secs) for t in (raw("out%d" % k), begin(s), raw("%s%d%s;" % (d, k, s)), end(s))]))
            if rng.random() < 0.5:
                files.append(md(d + "m.md", [raw("body " + d)], [("t", "x")]))
        rng.shuffle(files)
        cases.append(project("C06-site-%d" % i, files, rng=rng, checks=("out", "at")))
    conform.check(chk, "sites", exe, cases, "pages of several directories with their own templates")
    sizes.check(chk, exe, sizes.sections)


def template(tpl, page):
    """Has this page the templates it needs?"""
    def near(name):
        d = page["p"][:-1]
        return any(t["p"][:-1] == d[:len(t["p"]) - 1] and t["p"][-1] == name for t in tpl)
    return near("root.html") and (page["k"] != "md" or near("md.html"))


# ------------------------------------------------------------------------------------ C10

def text_value(chars):
    return {"t": "s", "s": "".join(chars), "c": [[c, len(c.encode()), ord(c)] for c in chars]}


def C10(chk):
    exe = core.build_harness()
    deep = core.THOROUGH
    for part, chars, n, over in (("excerpts", list("ab<> é日😀"), 4, 2), ("markup", list("a<>é"), 7 if deep else 6, 1)) if not deep else \
            (("excerpts", list("ab<>\n é日😀"), 5, 2), ("markup", list("a<>é"), 7, 1)):
        path = core.write_ndjson(os.path.join(core.scratch(), "text.ndjson"), [{"chars": text_value(chars)["c"], "max": n, "over": over}])
        res = core.tlc("Text", env={"TEXT": path}, heap="8g")
        rows = res.json_lines("TEXT ")
        chk.model(part, res, "all strings of up to %d of %d characters, all lengths" % (n, len(chars)))
        cases, wants, total = [], [], 0
        for k in range(0, len(rows), 20):
            part_rows = rows[k:k + 20]
            tags, want = '{{ import($d, "d.json") }}', ""
            for j, r in enumerate(part_rows):
                for m, e in enumerate(r["ex"]):
                    tags += "{{ excerpt($d.%d, %d) }}\x01" % (j, m)
                    want += e + "\x01"
                total += len(r["ex"])
                tags += "{{ timetoread($d.%d) }}\x02" % j
                want += "%d\x02" % r["min"]
            d = A(*[S("".join(chars[i - 1] for i in r["str"])) for r in part_rows])
            cases.append({"id": k, "files": [{"p": "content/root.html", "s": '{{ insert("x") }}'}, {"p": "content/d.json", "s": jsontext(d)},
                                             {"p": "content/p.html", "s": '{{ begin("x") }}' + tags + '{{ end("x") }}'}], "config": {"strip": False}})
            wants.append(want)
        for c, w, o in zip(cases, wants, core.run_cases(exe, cases)):
            compare_page(chk, part, c, o, w)
        chk.validated(part, total, "excerpts cut by the real code")
        chk.sample({"part": part, "string": "".join(chars[i - 1] for i in rows[-7]["str"]), "excerpts": rows[-7]["ex"]})
    # reading times around the multiples of 200 words, with every white space
    rng = rng_for(chk, "words")
    spaces = [" ", "\n", "\t", "\r\n", "  ", "\u00a0", "\u2003", "\u3000", "\u0085", "\u2028", "\x0b", "\x0c"]
    cases = []
    for i, n in enumerate([0, 1, 2, 199, 200, 201, 399, 400, 401, 599, 600, 1000] + ([1399, 1400, 2000, 2001] if deep else [])):
        for kind in range(3 if not deep else 8):
            chars = []
            sp = [" "] if kind == 0 else spaces
            if kind % 2:
                chars += list(rng.choice(sp))
            for j in range(n):
                chars += [rng.choice(["w", "é", "<", "\u200b", ",", "日", "-"])]
                if j < n - 1 or kind % 2:
                    chars += list(rng.choice(sp))
            v = text_value(chars)
            files = [jsonf("v.json", v), html("root.html", [insert("x")]), html("p.html", [begin("x"), import_("d", "v.json"), ttr("d"), excerpt("d", n), end("x")])]
            cases.append(project("C10-words-%d-%d" % (n, kind), files, checks=("out",)))
    # long texts
    for i, n in enumerate([126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 513, 999, 1001, 1025, 2050] + ([4097] if deep else [])):
        chars = [rng.choice("abé<> ") for _ in range(n)] if i % 2 else [c for _ in range(n // 32) for c in "".join(rng.choice("abcé de  f") for _ in range(29)) + "<b>"]
        chars += list("tail")
        size = len("".join(c for c in chars if i % 2 == 0 or c not in "<>").replace("<b>", "").encode())
        ms = sorted({rng.randrange(n), n - 1, n, n + 1, size - 1, size, size + 1, 10**6})
        prog = [begin("x"), import_("d", "d.json")] + [t for m in ms for t in (excerpt("d", m), raw("|"))] + [end("x")]
        cases.append(project("C10-long-%d" % i, [jsonf("d.json", text_value(chars)), html("root.html", [insert("x")]), html("p.html", prog)], checks=("out",)))
    conform.check(chk, "reading times", exe, cases, "word counts around the multiples of 200, all white space")
    # values which are not strings, markdown contents
    cases = []
    for i, v in enumerate([Z, B(True), N(3, "3"), A(S("x")), O(("k", S("x"))), S("ok")]):
        for j, t in enumerate([excerpt("d", 0), excerpt("d", 5), ttr("d"), excerpt("d.k", 1), ttr("d.0"), ttr("nope"), excerpt("nope", 1), excerpt("d.k.k", 2)]):
            cases.append(project("C10-type-%d-%d" % (i, j), [jsonf("v.json", v), html("root.html", [insert("x")]),
                                 html("p.html", [begin("x"), raw("\n"), import_("d", "v.json"), raw("\n"), dict(t), end("x")])], checks=("out", "at")))
    for i in range(400 if deep else 80):
        words = [rng.choice(["alpha", "beta", "<b>", "</b>", "é", "日本", "&", "x"]) for _ in range(rng.randrange(1, 40))]
        fm = [("t", " ".join(rng.choice(["one", "<i>two</i>", "<br"]) for _ in range(rng.randrange(6))))]
        files = [html("root.html", [insert("x")]), html("md.html", [begin("x"), excerpt("self.t", rng.randrange(12)), ttr("self.t"), end("x")]),
                 md("m.md", [raw(" ".join(words))], fm)]
        cases.append(project("C10-self-%d" % i, files, rng=rng, checks=("out", "at")))
    conform.check(chk, "values", exe, cases, "values of every type, and frontmatter")


# ------------------------------------------------------------------------------------ C28

def C28(chk):
    exe = core.build_harness()
    deep = core.THOROUGH
    rng = rng_for(chk, "paths")
    tree = lambda: [jsonf("a.json", A(S("top"))), jsonf("d/a.json", A(S("in d"))), jsonf("d/e/a.json", A(S("in e"))), md("d/m.md", [raw("w")], [("t", "md")]),
                    jsonf("x.json/a.json", A(S("odd"))), html("d/h.html", [begin("x"), end("x")]), other("d/o.txt", "text"), other("d/o.bin", "text"),
                    html("root.html", [insert("x")]), html("md.html", [begin("x"), end("x")]), dir_("empty"), jsonf("A.json", A(S("capital"))),
                    jsonf("b\\c.json", A(S("backslash"))), jsonf("é.json", A(S("composed"))), jsonf("~/a.json", A(S("home")))]
    names = ["a.json", "d", "e", "..", ".", "", "x.json", "m.md", "h.html", "content", "outside.json", "empty", "A.json", "o.txt"]
    texts = set()
    for n in (1, 2, 3):
        for t in itertools.product(names, repeat=n):
            texts.add("/".join(t))
            texts.add("/" + "/".join(t))
            texts.add("/".join(t) + "/")
    # names which are like others, or would be written otherwise elsewhere
    odd = ["D", "A.JSON", "a.json ", " a.json", " d", "d ", "d\\a.json", "..\\outside.json", "\\a.json", "d\\", "%2e%2e", "d%2fa.json", "a%2ejson", "~", "...", "b\\c.json", "a.json.", "é.json", "e\u0301.json", "*.json", "C:", "file:", "$env", "d:a.json"]
    for t in odd:
        for u in ("%s", "%s/a.json", "d/%s", "%s/", "./%s", "%s/../a.json", "%s/d/a.json", "d/%s/", "/%s"):
            texts.add(u % t)
    texts = sorted(texts)
    json_like = [t for t in texts if t.endswith(".json")]
    dir_like = [t for t in texts if t.endswith("/")]
    short = lambda ts: [t for t in ts if t.strip("/").count("/") < 2]
    long_ = lambda ts: [t for t in ts if t.strip("/").count("/") >= 2]
    pick = lambda ts, k: short(ts) + (long_(ts) if deep else rng.sample(long_(ts), k))
    secret = [{"p": "outside.json", "s": '["SECRET"]'}, {"p": "outside.md", "s": "---\nt: \"SECRET\"\n---\nx"}, {"p": "out/secret.md", "s": "---\nt: \"SECRET\"\n---\nx"},
              {"p": "static/a.json", "s": '["SECRET"]'}, {"p": "a.json", "s": '["SECRET"]'}, {"p": "d/a.json", "s": '["SECRET"]'}, {"p": "content.json", "s": '["SECRET"]'}]
    cases = []
    where = ["p.html", "d/p.html", "d/e/f/p.html", "x.json/p.html"]

    def case(tag, toks):
        w = where[len(cases) % len(where)]
        c = project("C28-%s-%d" % (tag, len(cases)), tree() + [html(w, [begin("x")] + toks + [end("x")])], checks=("out", "probes", "at"), style=False)
        c["run"]["files"] += secret
        cases.append(c)

    for t in pick(json_like, 900):
        case("import", [import_("v", t), probe("k", "v", "v.0"), var("v.0")])
    for t in pick(json_like, 500):
        case("for", [for_("v", t), var("v"), endf("for")])
    for t in pick(dir_like, 1500):
        case("dir", [for_("v", t), var("v.t"), endf("for")])
    case("again", [import_("v", "a.json"), var("v.0"), for_("w", "a.json"), var("w"), endf("for"), import_("z", "d/../a.json")])
    conform.check(chk, "source paths", exe, cases, "paths of up to 3 components over names in and out of the content tree, relative and absolute, from pages at several depths")
    # absolute paths of the scratch project itself
    base = core.subdir("abs")
    for n, body in (("s.json", '["SECRET"]'), ("s.md", "---\nt: \"SECRET\"\n---\nx")):
        with open(os.path.join(base, n), "w") as f:
            f.write(body)
    os.chmod(base, 0o755)
    cases, wants = [], []
    for tag in ('{{ import($v, "%s/s.json") }}{{ $v.0 }}' % base, '{{ for($v, "%s/s.json") }}{{ $v }}{{ end(for) }}' % base,
                '{{ for($v, "%s/") }}{{ $v.t }}{{ end(for) }}' % base,
                '{{ import($v, "../../../../../../../../../../../../%s/s.json") }}{{ $v.0 }}' % base,
                '{{ for($v, "../../../../../../../../../../../../%s/") }}{{ $v.t }}{{ end(for) }}' % base):
        cases.append({"id": len(cases), "files": [{"p": "content/root.html", "s": '{{ insert("x") }}'},
                      {"p": "content/p.html", "s": '{{ begin("x") }}' + tag + '{{ end("x") }}'}], "config": {"strip": False}})
    for c, o in zip(cases, core.run_cases(exe, cases)):
        compare_page(chk, "absolute paths", c, o, None)
    chk.validated("absolute paths", len(cases))
    # read as it was loaded by this build: not again from the disk
    cases = []
    for i in range(20):
        cases.append({"id": i, "files": [{"p": "content/root.html", "s": '{{ insert("x") }}'}, {"p": "content/v.json", "s": '["old"]'}, {"p": "content/d/m.md", "s": "---\nt: \"old\"\n---\n"},
                      {"p": "content/md.html", "s": '{{ begin("x") }}{{ end("x") }}'},
                      {"p": "content/p.html", "s": '{{ begin("x") }}{{ import($v, "v.json") }}{{ $v.0 }}{{ for($w, "d/") }}{{ $w.t }}{{ end(for) }}{{ end("x") }}'}],
                      "config": {"strip": False}, "steps": [{"op": "build"}, {"op": "files", "files": [{"p": "content/v.json", "s": '["new"]'}]}, {"op": "save", "to": "dist"}, {"op": "snap", "dir": "dist"}]})
    for c, o in zip(cases, core.run_cases(exe, cases)):
        compare_page(chk, "loaded once", c, o, "oldold")
    chk.validated("loaded once", len(cases))
