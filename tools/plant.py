"""Writes planted bugs into /verif/seeded: bug(id, property, needs, breaks, edits, demo), from a scratch clone.
Used by hand: python3 tools/plant.py FILE, where FILE calls bug()."""
import json, os, subprocess, sys
CLONE = "/tmp/plant/repo"
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
BASE = "8acb603"
LIB = r'''#!/bin/bash
# Exits 0 if the behaviour is right, 1 if it is not.
S=/repo/target/debug/stuart
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
export HOME="$T" GIT_CONFIG_NOSYSTEM=1
put() { mkdir -p "$(dirname "$1")"; printf '%b' "$2" > "$1"; }
build() { timeout 60 "$S" build "$@" >"$T/.log" 2>&1; }
fail() { echo "WRONG: $*"; exit 1; }
put stuart.toml '[site]\nname = "demo"\n'
put content/root.html '{{ insert("x") }}'
put content/md.html '{{ begin("x") }}{{ $self.content }}{{ end("x") }}'
'''


def git(*a):
    return subprocess.run(["git", "-C", CLONE, *a], check=True, capture_output=True, text=True).stdout


def bug(bid, prop, needs, breaks, edits, demo, lib=True):
    git("checkout", "-q", "--", ".")
    git("pull", "-q")
    for path, old, new in edits:
        p = os.path.join(CLONE, path)
        s = open(p).read()
        if s.count(old) != 1:
            git("checkout", "-q", "--", ".")
            return print("MISS", bid, path, s.count(old))
        # every changed line must be the original repository's
        open(p, "w").write(s.replace(old, new))
    d = git("diff")
    mine = changed_own(d)
    if mine:
        git("checkout", "-q", "--", ".")
        print("REFUSED", bid, "changes lines of later commits", mine)
        return
    out = os.path.join(SEEDED, bid)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(d)
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write((LIB if lib else "") + demo.strip("\n") + "\n")
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    git("checkout", "-q", "--", ".")
    print("planted", bid)


def changed_own(diff):
    """Removed lines which are not the original repository's."""
    bad, path, n = [], None, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            path = l[6:]
            blame = subprocess.run(["git", "-C", CLONE, "blame", "-s", "--abbrev=40", "HEAD", "--", path], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            c = blame[n - 1].split()[0].lstrip("^")
            if subprocess.run(["git", "-C", CLONE, "merge-base", "--is-ancestor", c, BASE]).returncode:
                bad.append((path, n, l))
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad


if __name__ == "__main__":
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
