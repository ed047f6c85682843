#!/usr/bin/env python3
"""Plant a bug: reads a description, writes seeded/<id>/, confirms it (build, stable tests, demo both
ways) and runs the check of its property.  /repo is restored whatever happens.

  plant.py ID PROP < description      description: sections introduced by lines starting with '@@'
    @@file src/...        followed by blocks  <<<< old ==== new >>>>   (several @@file allowed)
    @@needs / @@breaks    one paragraph each
    @@demo                C++ program: exit 0 on the right behaviour
  plant.py --again ID...   re-confirm and re-run the checks of planted bugs (default all)
"""
import json, os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
DEMO = """#!/bin/bash
# exit 0 on the right behaviour; run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 99
trap 'rm -rf "$w"' EXIT
g++ -std=c++14 -w -fopenmp %s -I"$PWD/src" "$d/demo.cpp" -o "$w/demo" || exit 98
cd "$w" && timeout 120 ./demo
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def restore():
    sh("git -C %s checkout -- ." % REPO)


def tests():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode:
        return "build failed: " + r.stdout[-800:]
    r = sh("bash /opt/vp/test.sh /tmp/plant.json")
    a, b = json.load(open("/tmp/plant.json")), json.load(open("/opt/vp/BASELINE.json"))
    miss = [x for x in b["stable"] if x not in a["passed"]]
    return "tests fail: %s" % miss[:5] if miss else ""


def confirm(id, check=True):
    d = os.path.join(ROOT, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git -C %s status --porcelain" % REPO).stdout.strip(), "/repo not clean"
    r = sh("bash %s/demo.sh" % d, cwd=REPO)
    if r.returncode:
        return "BAD demo fails on the unchanged tree: %d %s" % (r.returncode, r.stdout[-800:])
    r = sh("git -C %s apply %s/patch.diff" % (REPO, d))
    if r.returncode:
        return "BAD patch does not apply: " + r.stdout[-300:]
    try:
        t = tests()
        if t:
            return "BAD " + t
        r = sh("bash %s/demo.sh" % d, cwd=REPO)
        if r.returncode == 0:
            return "BAD demo passes with the patch"
        if not check:
            return "good"
        r = sh("timeout 900 %s/check %s quick" % (ROOT, prop), env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        v = re.search(r"VIOLATION property=%s " % prop, r.stdout)
        return ("CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode) + "  " + " | ".join(x[:260] for x in r.stdout.splitlines()[:2])
    finally:
        restore()


def main():
    if sys.argv[1] == "--again":
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
        for i in ids:
            print(i, confirm(i), flush=True)
        tests()
        return
    id, prop = sys.argv[1:3]
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    secs = re.split(r"(?m)^@@", sys.stdin.read())[1:]
    meta = {"property": prop}
    flags = ""
    for s in secs:
        head, body = s.split("\n", 1)
        k = head.split()
        if k[0] == "file":
            p = os.path.join(REPO, k[1])
            t = open(p).read()
            for blk in body.split("<<<<\n")[1:]:
                old, new = blk.split("====\n")
                new = new.split(">>>>")[0]
                assert t.count(old) == 1, (t.count(old), old)
                t = t.replace(old, new)
            open(p, "w").write(t)
        elif k[0] == "needs":
            meta["needs"] = (head[5:] + body).strip()
        elif k[0] == "breaks":
            meta["what_it_breaks"] = (head[6:] + body).strip()
        elif k[0] == "flags":
            flags = body.strip()
        elif k[0] == "demo":
            open(d + "/demo.cpp", "w").write(body)
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % REPO).stdout)
    restore()
    open(d + "/demo.sh", "w").write(DEMO % flags)
    json.dump(meta, open(d + "/meta.json", "w"), indent=1)
    print(id, confirm(id))
    tests()


main()
