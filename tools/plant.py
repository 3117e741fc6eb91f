"""Plants a bug in /repo, confirms it, and stores it as /verif/seeded/ID (used by hand, by no check).

plant(id, property, needs, breaks, edits, demo) with edits (path, old, new) and demo the source of a Python program that runs in /repo.
"""
import json
import os
import subprocess
import sys
import time

OPT = dict(check=True)


def sh(c, **kw):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **kw)


def undo():
    sh("git -C /repo checkout -- .")


def plant(pid, prop, needs, breaks, edits, demo, demo_sh=None):
    if sys.argv[1:] and not any(pid.startswith(a) for a in sys.argv[1:]):
        return
    d = "/verif/seeded/" + pid
    if os.path.exists(d) and not sys.argv[1:]:
        return
    if sh("git -C /repo status --short").stdout.strip():
        sys.exit("/repo is not clean")
    fresh = not os.path.exists(d)
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.sh", "w") as f:
        f.write(demo_sh or '#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    if demo:
        with open(d + "/demo.py", "w") as f:
            f.write("import sys\nsys.path.insert(0, '.')\n" + demo.lstrip("\n"))
    with open(d + "/meta.json", "w") as f:
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), f, indent=1)
        f.write("\n")
    ok = False
    try:
        for p, a, b in edits:
            s = open("/repo/" + p).read()
            assert s.count(a) == 1, (pid, p, s.count(a))
            open("/repo/" + p, "w").write(s.replace(a, b))
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        base = sh("git -C /repo show 5c246b9:%s" % edits[0][0]).stdout.splitlines()
        orig = all(l in base for l in removed)
        sh("find /repo/tonnikala -name '*.pyc' -delete")  # the size and the time of a source may be the same
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/plant.json").stdout.strip().splitlines()
        bad = sh("cd /repo && bash %s/demo.sh" % d)
        rc = None
        out = ""
        if OPT["check"]:
            t0 = time.time()
            r = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3-vt -W ignore symx/run.py %s quick" % prop)
            rc = r.returncode
            out = " (%ds) " % (time.time() - t0) + " / ".join([l for l in r.stdout.splitlines() if "case" in l or "VIOLATION" in l][:2])[:300]
            if rc not in (0, 1):
                out += r.stdout[-500:] + r.stderr[-300:]
    finally:
        undo()
        sh("find /repo/tonnikala -name '*.pyc' -delete")
    sh("bash /opt/vp/build.sh")
    good = sh("cd /repo && bash %s/demo.sh" % d)
    ok = b.returncode == 0 and t and "132 passed, 0 failed" in t[-1] and bad.returncode != 0 and good.returncode == 0
    print("%s %s: %s build %d tests %s demo bad=%d good=%d orig=%s CHECK rc=%s %s" % ("OK " if ok else "BAD", pid, prop, b.returncode, t[-1:], bad.returncode, good.returncode, orig, rc, out), flush=True)
    if not ok:
        print(b.stderr[-500:], bad.stdout[-300:], bad.stderr[-500:], good.stdout[-300:], good.stderr[-500:])
        if fresh:
            sh("rm -rf " + d)
    with open("/verif/tools/plant.log", "a") as f:
        f.write("%s %s ok=%s check=%s\n" % (pid, prop, ok, rc))
