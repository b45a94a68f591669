"""Behaviour-preserving edits: every check has to stay quiet on them.
usage: refac.py FILE.py [ID ...]; FILE defines EDITS = [dict(id, mods, file,
edits=[(old, new)])].  Works on a scratch copy bound over /repo in a private
mount namespace."""
import importlib.util
import os
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **k):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               MPLBACKEND="Agg", **k)
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True,
                          capture_output=True, env=env)


def scratch(b):
    w = "/tmp/rf_" + b["id"]
    shutil.rmtree(w, ignore_errors=True)
    sh("cp -a /repo " + w, "/tmp")
    sh("git checkout -q -- .", w)
    for e in b["edits"]:
        f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
        p = os.path.join(w, "robuststats", f)
        s = open(p).read()
        n = s.count(old)
        if n == 0 or n > 1 and not b.get("multi"):
            print(b["id"], "edit matches %d times: %r" % (n, old))
            return None
        open(p, "w").write(s.replace(old, new))
    return w


def run_checks(w, mods, extra=""):
    """checks of /verif on the copy w in place of /repo"""
    out = []
    ev = w + "_ev"
    os.makedirs(ev, exist_ok=True)
    for m in mods:
        r = sh("unshare -Urm sh -c 'mount --bind %s /repo && mount --bind %s "
               "/verif/evidence && cd /verif && timeout 900 python3 run.py "
               "%s %s'" % (w, ev, m, extra), "/verif")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        last = [l for l in r.stdout.splitlines() if " quick: " in l]
        out.append((m, r.returncode, len(v),
                    last[-1].split(":")[1][:70] if last else
                    (r.stdout + r.stderr)[-300:], r.stdout))
    shutil.rmtree(ev, ignore_errors=True)
    return out


def tests(w):
    r = sh("%s -m pytest -q -p no:cacheprovider --timeout=300 tests" % PY,
           w, PYTHONPATH=w)
    return " ".join(l for l in r.stdout.splitlines() if "FAILED" in l or " passed" in l)


def main():
    spec = importlib.util.spec_from_file_location("edits", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.EDITS:
        if sys.argv[2:] and b["id"] not in sys.argv[2:]:
            continue
        w = scratch(b)
        if w is None:
            continue
        if "--notest" not in sys.argv:
            print(b["id"], "tests:", tests(w), flush=True)
        for mod, rc, nv, last, so in run_checks(w, b["mods"]):
            print("   ", "ok " if rc == 0 and " 0 inconcl" in last else "BAD",
                  mod, "rc=%d viol=%d %s" % (rc, nv, last), flush=True)
            if rc or " 0 inconcl" not in last:
                open("/tmp/rf_%s_%s.out" % (b["id"], mod), "w").write(so)
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    main()
