"""seed(id, property, [(file, old, new), ...], demo C source, needs, breaks, lib=False, run=None): checks the change in a scratch copy
(applies, builds, 12 tests pass, demo passes without and fails with it) and stores it under /verif/seeded/<id>."""
import os, sys, json, subprocess, shutil, tempfile
V = "/verif"
SRC = os.environ.get("SEEDSRC", "/repo")   # a copy of /repo, while something else reads /repo; the suite is then left out


def sh(c, cwd=None, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors="replace")


CSV = open(V + "/rt/inc/csv.h").read()
DEMO = """#!/bin/bash
# exit 0 when the property holds in the case demo.c tries; run in /repo
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cc=%s
mkdir "$t/o"
for f in util/*.c %s; do
  $cc -std=gnu11 -O1 -g -w -D_GNU_SOURCE %s -I. -Iutil -Ilib -Ilib/include -I"$d" -c "$f" -o "$t/o/$(basename "$f").o" || exit 3 &
done
wait
$cc -std=gnu11 -O1 -g -w -D_GNU_SOURCE %s -I. -Iutil -Ilib -Ilib/include -I"$d" "$d/demo.c" "$t"/o/*.o -Wl,--unresolved-symbols=ignore-all -no-pie -lm -lpthread -o "$t/demo" || exit 3
cd "$t"
ASAN_OPTIONS=detect_leaks=0:malloc_fill_byte=190:max_malloc_fill_size=100000 timeout 60 ./demo
"""


def seed(id, prop, edits, demo, needs, breaks, lib=False, asan=True, cc="gcc", e2e=False):
    w = "/tmp/seedwork"
    shutil.rmtree(w, ignore_errors=True)
    sh("mkdir -p %s && cp -a %s %s/repo" % (w, SRC, w))
    r = w + "/repo"
    for f, old, new in edits:
        s = open(r + "/" + f).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(r + "/" + f, "w").write(s.replace(old, new))
    # a line of the original repository must change
    rc, patch = sh("git diff", r)
    orig = False
    for f, old, new in edits:
        base = sh("git show 495a305:" + f, SRC)[1].split("\n")
        for l in patch.split("\n"):
            if l.startswith("-") and l[1:].strip() and l[1:] in base: orig = True
    if not orig:
        print(id, "NOT ORIGINAL LINES"); return False
    d = V + "/seeded/" + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.c", "w").write(demo)
    fl = "-fsanitize=address" if asan else ""
    if lib or e2e:
        open(d + "/csv.h", "w").write(CSV)
    if e2e:
        for f in ("rt/vfs.c", "rt/vfs.h", "rt/sql.h", "rt/e2e.h", "rt/vp.h", "rt/fq.h", "tools/e2edemo/kit.h"):
            shutil.copy(V + "/" + f, d)
        shutil.copy(V + "/tools/e2edemo/build.sh", d + "/demo.sh")
    else:
        open(d + "/demo.sh", "w").write(DEMO % (cc, "lib/*.c" if lib else "", fl, fl))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    rc0, o0 = sh("bash %s/demo.sh" % d, SRC)
    rc1, o1 = sh("bash %s/demo.sh" % d, r)
    if rc0 != 0 or rc1 in (0, 3):
        ok = False
        print(id, "DEMO", rc0, rc1, o0[-1500:], o1[-1500:])
    # the suite, run on the copy: compile check_hashmap against the changed util
    rc, o = (0, "") if SRC != "/repo" else sh("bash /verif/tools/suite.sh " + d + "/patch.diff", t=600)
    if rc:
        ok = False
        print(id, "SUITE", o[-1500:])
    shutil.rmtree(w, ignore_errors=True)
    if not ok:
        shutil.rmtree(d)
    print(id, "ok" if ok else "REJECTED", "demo %s/%s" % (rc0, rc1))
    return ok
