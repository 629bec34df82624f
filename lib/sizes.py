"""Programs by their size: what holds for the small ones of the enumerations has to hold beyond any number a
counter, a buffer or a limit in the code could have.  The specification has no such numbers."""
import core, conform
from tmpl import *

# Around powers of two and round numbers.
def sizes(least, most):
    some = [7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025]
    return [n for n in some if least <= n <= most]


def page(prog, *more, root=None, name="p.html"):
    return [html("root.html", root or [insert("x")]), html(name, prog)] + list(more)


def opened(n, kinds):
    """n blocks of the kinds, one in the other."""
    pairs = {"begin": lambda i: (begin("s%d" % i), end("s%d" % i)), "same": lambda i: (begin("s"), end("s")), "for": lambda i: (for_("v%d" % i, "one.json"), endf("for")),
             "none": lambda i: (for_("v", "none.json"), endf("for")), "yes": lambda i: (if_("ifeq", "a", "a"), endf("ifeq")), "no": lambda i: (if_("ifeq", "a", "b"), endf("ifeq")),
             "def": lambda i: (ifdef("env"), endf("ifdefined")), "undef": lambda i: (ifdef("nope"), endf("ifdefined"))}
    return [pairs[kinds[i % len(kinds)]](i) for i in range(n)]


ONE = [jsonf("one.json", A(S("1"))), jsonf("none.json", A())]
KINDS = [["begin"], ["same"], ["for"], ["none"], ["yes"], ["no"], ["def", "undef"], ["begin", "yes", "for", "def"], ["no", "none", "begin"], ["yes", "no"], ["for", "none"]]


def blocks(n, rng):
    """Blocks nested n deep, or n of them in a row: closed, one left open, one closed too often, two exchanged."""
    for kinds in KINDS:
        for how in ("ok", "open", "over", "swap") if n <= 64 else ("row",):
            os = opened(n, kinds)
            ends = [e for _, e in reversed(os)]
            if how == "open":
                ends = ends[:-1]
            elif how == "over":
                ends = ends + [ends[-1]]
            elif how == "swap":
                i = rng.randrange(len(ends) - 1)
                ends[i] = end("other") if rng.random() < 0.5 else endf("begin")
            prog = [o for o, _ in os] + [raw("!")] + ends if how != "row" else [t for o, e in os for t in (o, raw("."), e)]
            yield page([begin("x")] + prog + [end("x")], *ONE), "out"


def branches(n, rng):
    """Conditionals nested n deep, with alternatives; parts which are not taken with n blocks in them."""
    for truth in ("a", "b"):
        for other in ("a", "b"):
            prog = []
            for i in range(min(n, 64)):
                prog.append(if_("ifeq", "a", truth if i % 2 else other))
                if rng.random() < 0.3:
                    prog.append(raw("t%d" % i))
            tail = []
            for i in range(min(n, 64)):
                tail += [else_(), raw("e%d" % i)] if rng.random() < 0.8 else []
                tail.append(endf("ifeq"))
            yield page([begin("x")] + prog + [raw("!")] + tail + [end("x")]), "out"
            inner = [t for i in range(n) for t in (if_("ifeq", "a", "a"), var("nope"), else_(), var("nope"), endf("ifeq"))]
            yield page([begin("x"), if_("ifeq", "a", truth)] + (inner if truth == "b" else [raw("T")]) + [else_()] + (inner if truth == "a" else [raw("E")]) + [endf("ifeq"), end("x")]), "out"


def loops(n, rng):
    """Lists of about n items; numbers to skip and to show around n."""
    def opt():
        return rng.choice([None, 0, 1, n - 1, n, n + 1, 2 * n, 10**9])
    for m in (n - 1, n, n + 1):
        items = A(*[O(("k", S("%s" % rng.choice("abc"), True)), ("i", S("%d," % i))) for i in range(m)])
        prog = []
        for k in range(2):
            o = dict(skip=opt(), limit=opt(), order=rng.choice([None, "asc", "desc"]), sortby="v.k" if m < 80 and rng.random() < 0.3 else None)
            prog += [raw(";"), for_("v", rng.choice(["l.json", "$l"]), **o), var("v.i"), endf("for")]
        yield page([begin("x"), import_("l", "l.json")] + prog + [for_("v", "l.json", skip=n - 1, limit=n), raw("."), endf("for"), end("x")], jsonf("l.json", items)), "out"
    # as many markdown files
    if n <= 130:
        files = [md("d/m%04d.md" % i, [raw("%d" % i)], [("i", "%d," % i)]) for i in range(n)] + [html("d/md.html", [begin("x"), end("x")])]
        yield page([begin("x"), for_("v", "d/", skip=n - 1), var("v.i"), endf("for"), for_("v", "d/", limit=n), var("v.content"), endf("for"), end("x")], *files), "out"


def bindings(n, rng):
    """Paths of n components, n bindings in a block, in n blocks, of one name."""
    v = S("bottom")
    for i in range(min(n, 200)):
        v = O(("a", v)) if i % 3 else A(S("no"), v)
    # the outermost was added last
    comps = ["a" if i % 3 else "1" for i in reversed(range(min(n, 200)))]
    if n <= 64:
        yield page([begin("x"), import_("d", "v.json"), var("d." + ".".join(comps)), for_("e", "$w") if False else raw(""), end("x")], jsonf("v.json", v)), "out"
        yield page([begin("x"), import_("d", "v.json"), var("d." + ".".join(comps + ["a"])), end("x")], jsonf("v.json", v)), "out"
    names = ["n%d" % i for i in range(n)]
    yield page([begin("x")] + [bind(k, "v-" + k) for k in names] + [t for k in (names[0], names[n // 2], names[-1]) for t in (var(k), raw(","))] + [end("x")]), "out"
    yield page([begin("x")] + [import_(k, "s.json") for k in names] + [var(names[-1]), end("x"), raw(""), ifdef(names[-1]), raw("leak"), endf("ifdefined")], jsonf("s.json", S("s"))), "out"
    yield page([begin("x")] + [bind("a", "v%d" % i) for i in range(n)] + [var("a"), end("x")]), "out"
    arr = A(*[S("i%d" % i) for i in range(n)])
    obj = O(*[("k%d" % i, S("o%d" % i)) for i in range(n)])
    yield page([begin("x"), import_("a", "a.json"), import_("o", "o.json"), var("a.%d" % (n - 1)), var("o.k%d" % (n - 1)), ifdef("a.%d" % n), raw("D"), else_(), raw("U"), endf("ifdefined"), end("x")],
               jsonf("a.json", arr), jsonf("o.json", obj)), "out"
    if n <= 64:
        deep = [t for i in range(n) for t in (begin("b%d" % i), bind("a%d" % i, "v%d" % i))]
        ends = [end("b%d" % i) for i in reversed(range(n))]
        yield page([begin("x"), bind("o", "outer")] + deep + [var("a0"), var("a%d" % (n // 2)), var("o"), raw(",")] + ends + [var("o"), end("x")]), "out"
        yield page([begin("x"), bind("o", "outer")] + deep + ends + [var("a%d" % (n - 1)), end("x")]), "out"


def sections(n, rng):
    """Pages with n sections, templates with n insertions, n pages, templates n directories up."""
    names = ["s%d" % i for i in range(n)]
    secs = [t for k in names for t in (begin(k), raw(k + ";"), end(k))]
    some = [names[0], names[n // 2], names[-1]]
    yield page(secs, root=[insert(k) for k in some]), "out"
    yield page(secs, root=[insert(k) for k in reversed(names)]), "out"
    yield page(secs, root=[insert(names[-1]), insert("none")]), "out"
    yield page([t for i in range(n) for t in (begin("x"), raw("%d" % i), end("x"))]), "out"
    yield page([begin("x"), raw("v"), end("x")], root=[insert("x")] * n), "out"
    tpl = [t for k in names for t in (begin(k), var("self.k"), raw(k), end(k))]
    yield [html("root.html", [insert(k) for k in some]), html("md.html", tpl), md("m.md", [raw("b")], [("k", "v")])], "out"
    d = "".join("d%d/" % i for i in range(min(n, 40)))
    up = "d0/d1/" if n > 2 else ""
    yield [html("root.html", [raw("R"), insert("x")]), html(up + "root.html", [raw("U"), insert("x")]), html(up + "md.html", [begin("x"), raw("M"), end("x")]), html("md.html", [begin("x"), raw("m"), end("x")]),
           html(d + "h.html", [begin("x"), raw("H"), end("x")]), md(d + "m.md", [raw("b")], [])], "out"
    yield [html("root.html", [insert("x")])] + [html("p%03d.html" % i, [begin("x"), raw("P%d" % i), end("x")]) for i in range(n)], "out"


def entries(n, rng):
    """Frontmatter of n entries, values of n characters, bodies of n lines."""
    keys = ["k%d" % i for i in range(n)]
    some = [keys[0], keys[n // 2], keys[-1]]
    show = [begin("x")] + [t for k in some for t in (var("self." + k), raw(","))] + [end("x")]
    fm = [(k, "v-" + k) for k in keys]
    yield [html("root.html", [insert("x")]), html("md.html", show), md("m.md", [raw("b")], fm)], "out"
    yield [html("root.html", [insert("x")]), html("md.html", [begin("x"), probe("s", "self"), end("x")]), md("m.md", [raw("b")], fm)], "out probes"
    yield page([begin("x"), for_("v", "d/")] + [var("v." + k) for k in some] + [endf("for"), end("x")], html("d/md.html", [begin("x"), end("x")]), md("d/m.md", [raw("b")], fm)), "out"
    yield [html("root.html", [insert("x")]), html("md.html", [begin("x"), var("self.k"), var("self.content"), end("x")]), md("m.md", [raw("w" * n)], [("k", "v" * n), ("l" * n, "x")])], "out"
    tags = [t for i in range(n) for t in (raw("w%d " % i), bind("b", "%d" % i), var("b"))]
    yield [html("root.html", [insert("x")]), html("md.html", [begin("x"), var("self.content"), end("x")]), md("m.md", tags, [("k", "v")])], "out"


def check(chk, exe, family, least=7, most=300, note=""):
    import checks_template
    rng = checks_template.rng_for(chk, family.__name__)
    cases = []
    for n in sizes(least, 1025 if core.THOROUGH and most >= 300 else most):
        for i, (files, checks) in enumerate(family(n, rng)):
            cases.append(project("%s-%s-%d-%d" % (chk.prop, family.__name__, n, i), files, checks=tuple(checks.split()), style=False))
    conform.check(chk, "sizes", exe, cases, note or family.__doc__)
