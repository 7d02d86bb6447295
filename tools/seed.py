"""Create and confirm a planted bug (development aid).

usage: seed.py DESCRIPTION.py [...]
A description sets: id, property, needs, breaks, edits = [(file, old, new), ...], demo (python source).
The change is made in a scratch copy of /repo, the stable tests and the demonstration are run there,
and /verif/seeded/<id>/ is written if everything is confirmed.
"""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/seedrepo"
UTIL = open(os.path.join(ROOT, "tools", "demo_util.py")).read()
DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD" JAX_PLATFORMS=cpu MPLBACKEND=Agg
export MPLCONFIGDIR="$(mktemp -d)"
here="$(cd "$(dirname "$0")" && pwd)"
/opt/venv/bin/python "$here/demo.py"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def fresh():
    if not os.path.exists(SCRATCH):
        subprocess.run(["cp", "-a", "/repo", SCRATCH], check=True)
    sh("git checkout -q -- . && git clean -fdq skillmodels && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=SCRATCH)


def tests():
    env = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONPATH": SCRATCH, "JAX_PLATFORMS": "cpu", "MPLBACKEND": "Agg",
           "MPLCONFIGDIR": "/opt/vp/mplconfig"}
    xml = "/tmp/seed_junit.xml"
    r = sh(f"/opt/venv/bin/python -m pytest -q -n 8 -p no:cacheprovider --timeout=300 --continue-on-collection-errors "
           f"-o junit_family=xunit2 --junitxml={xml}", cwd=SCRATCH, env=env)
    if not os.path.exists(xml):
        return ["no report " + r.stdout[-300:]]
    good = set()
    for c in ET.parse(xml).getroot().iter("testcase"):
        if c.find("failure") is None and c.find("error") is None and c.find("skipped") is None:
            good.add("::".join(x for x in (c.get("classname"), c.get("name")) if x))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [s for s in stable if s not in good]


def main(path, check=True):
    d = {}
    exec(open(path).read(), d)
    sid = d["id"]
    out = os.path.join(ROOT, "seeded", sid)
    fresh()
    tmp = f"/tmp/seedout_{sid}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(f"{tmp}/demo.py", "w").write(d["demo"].lstrip("\n"))
    open(f"{tmp}/demo_util.py", "w").write(UTIL)
    open(f"{tmp}/demo.sh", "w").write(DEMO_SH)
    r = sh(f"bash {tmp}/demo.sh", cwd=SCRATCH)
    if r.returncode != 0:
        print(sid, "DEMO FAILS ON CLEAN TREE", r.stdout[-800:], r.stderr[-1500:])
        return False
    for f, old, new in d["edits"]:
        p = f"{SCRATCH}/skillmodels/{f}"
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        s = s.replace("\r\n", "\n")
        if s.count(old) != 1:
            print(sid, "edit does not match once:", f, s.count(old), repr(old[:60]))
            return False
        s = s.replace(old, new)
        open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
    r = sh(f"bash {tmp}/demo.sh", cwd=SCRATCH)
    if r.returncode == 0:
        print(sid, "DEMO PASSES WITH THE BUG", r.stdout[-500:])
        return False
    msg = (r.stderr.strip().splitlines() or [""])[-1][:200]
    bad = tests() if check else []
    if bad:
        print(sid, "TESTS FAIL:", bad[:5])
        return False
    diff = subprocess.run("git diff", shell=True, cwd=SCRATCH, capture_output=True).stdout
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(f"{out}/patch.diff", "wb").write(diff)
    for f in ("demo.py", "demo_util.py", "demo.sh"):
        shutil.copy(f"{tmp}/{f}", f"{out}/{f}")
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
    shutil.rmtree(tmp)
    a = subprocess.run(["git", "-C", "/repo", "apply", "--check", f"{out}/patch.diff"], capture_output=True, text=True)
    if a.returncode:
        print(sid, "PATCH DOES NOT APPLY", a.stderr)
        return False
    # does the property's check see it?
    c = sh(f"/opt/venv/bin/python {ROOT}/engine/check.py {d['property']} --repo {SCRATCH} --no-evidence")
    print(sid, "confirmed;", d["property"], {0: "MISSED", 1: "caught"}.get(c.returncode, c.returncode), "|", msg)
    return True


if __name__ == "__main__":
    for p in sys.argv[1:]:
        main(p)
