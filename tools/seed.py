"""Write and confirm planted bugs.  usage: seed.py FILE.py [ID ...]

FILE defines BUGS = [dict(id, prop, file, edits=[(old, new)], needs, breaks,
demo)].  For each: the patch is made in a scratch copy of /repo, the stable
tests are run there, the demonstration has to pass without and fail with it,
and removed lines have to be original ones.
Then the check of the property (and others given) is run on /repo with the
patch applied."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"
BASE = "dbb61bb"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
           OMP_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")


def sh(cmd, cwd, env=None, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True,
                          capture_output=True, env=env or ENV, **k)


def make(b, out):
    d = os.path.join(out, b["id"])
    os.makedirs(d, exist_ok=True)
    w = "/tmp/seed_" + b["id"]
    shutil.rmtree(w, ignore_errors=True)
    sh("git clone -q /repo " + w, "/tmp")
    files = {}
    for e in b["edits"]:
        f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
        p = os.path.join(w, "robuststats", f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            return "edit matches %d times: %r" % (n, old)
        open(p, "w").write(s.replace(old, new))
        files[f] = 1
    diff = sh("git diff", w).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    # removed lines are original
    for f in files:
        orig = set(sh("git show %s:robuststats/%s" % (BASE, f),
                      w).stdout.splitlines())
        cur = [l[1:] for l in sh("git diff -U0 robuststats/" + f,
                                 w).stdout.splitlines()
               if l.startswith("-") and not l.startswith("---")]
        if cur and not all(l in orig for l in cur):
            print("   note: removes lines that are not original:",
                  [l for l in cur if l not in orig][:3])
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        "#!/bin/sh\nexec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"],
                   what_it_breaks=b["breaks"]),
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    env = dict(ENV, PYTHONPATH=w)
    r = sh("PYTHONPATH=/repo %s %s/demo.py" % (PY, d), "/repo")
    if r.returncode:
        return "demo fails on the unchanged tree: " + r.stdout[-300:] + \
            r.stderr[-600:]
    r = sh("%s %s/demo.py" % (PY, d), w, env)
    if r.returncode == 0:
        return "demo passes with the bug"
    if "AssertionError" not in r.stderr and "SystemExit" not in r.stderr:
        print("   note: demo ends by", r.stderr.strip().splitlines()[-1:])
    r = sh("%s -m pytest -q -p no:cacheprovider --timeout=300 -o "
           "junit_family=xunit2 --junitxml=%s/o.xml tests" % (PY, w), w, env)
    import xml.etree.ElementTree as ET
    ok = set()
    for t in ET.parse(w + "/o.xml").getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error") for c in t):
            ok.add(t.get("classname") + "::" + t.get("name"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = [s for s in stable if s not in ok]
    if bad:
        return "stable tests fail: " + ", ".join(bad[:4])
    shutil.rmtree(w, ignore_errors=True)
    return None


def check(b, out, mods):
    """the checks on a scratch copy bound over /repo in a private mount
    namespace; /repo itself is never touched"""
    d = os.path.join(out, b["id"])
    w = "/tmp/seedc_" + b["id"]
    ev = w + "_ev"
    shutil.rmtree(w, ignore_errors=True)
    sh("cp -a /repo " + w, "/tmp")
    sh("git checkout -q -- .", w)
    os.makedirs(ev, exist_ok=True)
    res = []
    a = sh("git apply %s/patch.diff" % d, w)
    if a.returncode:
        return ["does not apply: " + a.stderr]
    for m in mods:
        r = sh("unshare -Urm sh -c 'mount --bind %s /repo && mount --bind %s "
               "/verif/evidence && cd /verif && timeout 900 python3 run.py "
               "%s'" % (w, ev, m), "/verif", env=dict(os.environ))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        last = [l for l in r.stdout.splitlines() if " quick: " in l]
        res.append("%s%s rc=%d viol=%d %s" % (
            "" if r.returncode == 1 and v else "MISSED ", m, r.returncode,
            len(v), last[-1].split(":")[1][:70]
            if last else (r.stdout + r.stderr)[-200:]))
        if not v:
            open("/tmp/miss_%s_%s.out" % (b["id"], m), "w").write(r.stdout)
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(ev, ignore_errors=True)
    return res


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    out = "/verif/seeded"
    bugs = [b for b in m.BUGS if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    from concurrent.futures import ThreadPoolExecutor
    if not os.environ.get("CHECKONLY"):
        with ThreadPoolExecutor(6) as ex:
            errs = list(ex.map(lambda b: make(b, out), bugs))
    else:
        errs = [None if os.path.isdir(os.path.join(out, b["id"])) else
                "not there" for b in bugs]
    good = []
    for b, e in zip(bugs, errs):
        if e:
            print(b["id"], "REJECTED", e)
            shutil.rmtree(os.path.join(out, b["id"]), ignore_errors=True)
            shutil.rmtree("/tmp/seed_" + b["id"], ignore_errors=True)
        else:
            good.append(b)

    def one(b):
        print(b["id"], "confirmed;", "; ".join(
            check(b, out, b.get("mods", [b["prop"].lower()]))), flush=True)
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(one, good))


main()
