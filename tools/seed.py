#!/usr/bin/env python3
"""Writes and tries the planted bugs of tools/seeds/*.py.

seed.py build [ID...]   writes seeded/<id>/ from the specifications
seed.py try [-a] [-t] [ID...]  also applies each to a copy of /repo, runs the
                        stable tests, the demonstration on both trees and the
                        property's check (-a: every check; -t: thorough)
No check uses this file or seeded/.
"""
import glob, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/seedrepo"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", HOME="/root")

PREAMBLE = open(os.path.join(VERIF, "tools", "seeds", "preamble.go.txt")).read()

DEMO_GO = '''#!/bin/bash
# Runs demo_test.go, which lies beside this file, as a test of ./pkg/scte35.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/go/bin"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/pkg/scte35/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" >"$tmp/overlay.json"
go test %s-vet=off -overlay "$tmp/overlay.json" -run '^TestDemo$' -count=1 -timeout 200s ./pkg/scte35
'''

DEMO_CLI = '''#!/bin/bash
# Builds the command line tool from the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/go/bin"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -buildvcs=false -o "$tmp/scte35" . || exit 2
'''


def load():
    seeds = []
    for f in sorted(glob.glob(os.path.join(VERIF, "tools", "seeds", "*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        seeds += ns["SEEDS"]
    ids = [s["id"] for s in seeds]
    assert len(ids) == len(set(ids)), "duplicate ids"
    return seeds


def run(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **kw), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace")


def fresh():
    shutil.rmtree(COPY, ignore_errors=True)
    shutil.copytree("/repo", COPY, symlinks=True)


def blame_original(path, linenos):
    """True if any of the given lines of HEAD comes from the first commit."""
    out = run(["git", "blame", "-s", path], cwd="/repo").stdout.splitlines()
    return all(out[n - 1].startswith("^") for n in linenos), [n for n in linenos if not out[n - 1].startswith("^")]


def build(s):
    d = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    touched = []
    for path, old, new in s["edits"]:
        p = os.path.join(COPY, path)
        src = open(p).read()
        if src.count(old) != 1:
            raise SystemExit("%s: %d matches in %s of %r" % (s["id"], src.count(old), path, old))
        open(p, "w").write(src.replace(old, new))
    run(["gofmt", "-l", "."], cwd=COPY)
    diff = run(["git", "diff"], cwd=COPY).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    # which removed lines are ours
    path, n = None, 0
    ours = []
    orig = 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            path = l[6:]
            blame = run(["git", "blame", "-s", path], cwd="/repo").stdout.splitlines()
        elif l.startswith("@@"):
            n = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and not l.startswith("---"):
            if blame[n - 1].startswith("^"):
                orig += 1
            else:
                ours.append((path, n))
            n += 1
        elif l.startswith(" "):
            n += 1
    if ours or not orig:
        print("%s: WARNING removes %d original lines, ours: %s" % (s["id"], orig, ours))
    if "demo" in s:
        open(os.path.join(d, "demo_test.go"), "w").write(PREAMBLE + s["demo"])
        run(["gofmt", "-w", os.path.join(d, "demo_test.go")])
        sh = DEMO_GO % ("-race " if s.get("race") else "")
    else:
        sh = DEMO_CLI + s["cli"]
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1, ensure_ascii=False)
    return d


def stable_ok():
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    out = run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd=COPY).stdout
    passed = set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            passed.add(e["Package"] + "/" + e["Test"])
    return sorted(base - passed)


def demo(d):
    t = tempfile.mkdtemp()
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(d, f), t)
    r = run(["bash", os.path.join(t, "demo.sh")], cwd=COPY)
    shutil.rmtree(t)
    return r


def main():
    mode, args = sys.argv[1], sys.argv[2:]
    every = "-a" in args
    tier = "thorough" if "-t" in args else "quick"
    ids = [a for a in args if not a.startswith("-")]
    bad = 0
    for s in load():
        if ids and not any(s["id"] == i or (i.endswith("*") and s["id"].startswith(i[:-1])) for i in ids):
            continue
        fresh()
        d = build(s)
        if mode == "build":
            continue
        msg = []
        r = run(["go", "build", "./..."], cwd=COPY)
        if r.returncode:
            print(s["id"], "DOES NOT BUILD", r.stdout[-800:])
            bad += 1
            continue
        if miss := stable_ok():
            msg.append("BREAKS TESTS %s" % miss[:3])
        r = demo(d)
        if r.returncode == 0:
            msg.append("DEMO PASSES WITH BUG")
        elif "build failed" in r.stdout or "setup failed" in r.stdout:
            msg.append("DEMO DOES NOT BUILD " + r.stdout[-600:])
        detail = r.stdout
        run(["git", "checkout", "--", "."], cwd=COPY)
        r = demo(d)
        if r.returncode:
            msg.append("DEMO FAILS ON CLEAN: " + r.stdout[-800:])
        run(["git", "apply", os.path.join(d, "patch.diff")], cwd=COPY)
        import re
        checks = [s["property"]] if not every else ["C%02d" % i for i in range(1, 25)]
        caught = []
        first = ""
        for c in checks:
            r = run([os.path.join(VERIF, "check.sh"), c, tier], VERIF_REPO=COPY)
            if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                caught.append(c)
                if c == s["property"]:
                    first = "\n".join(r.stdout.strip().splitlines()[:2])[:300]
            elif r.returncode != 0:
                caught.append(c + "?rc=%d" % r.returncode)
                msg.append(r.stdout[-500:])
        state = "caught" if s["property"] in caught else "MISSED"
        if msg or state == "MISSED":
            bad += 1
        rp = os.path.join(VERIF, "tools", "seed-results.json")
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        res[s["id"]] = sorted(set(caught) | (set(res.get(s["id"], [])) - set(checks)))
        json.dump(res, open(rp, "w"), indent=0, sort_keys=True)
        print("%-28s %s %s %s" % (s["id"], state, ",".join(caught), "; ".join(msg)), flush=True)
        if "-v" in args:
            print("   check:", first)
            print("   demo:", detail[:400])
    shutil.rmtree(COPY, ignore_errors=True)
    sys.exit(1 if bad else 0)


main()
