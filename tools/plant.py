"""Plant bugs described in /verif/tools/bugs/*.py (development aid; no check uses it).

Each description file defines BUGS: a list of dicts with id, property, edits [(file, old, new)], demo (python source, run with
/repo on sys.path; must exit nonzero with the bug), needs, breaks.  For each bug: make a scratch copy of /repo, apply the edits, write
patch.diff/demo.sh/meta.json to /verif/seeded/<id>, confirm that the demo passes before and fails after, that the stable tests pass,
and run the property's quick check on the scratch copy (MC_REPO).
usage: plant.py FILE [ID-substring] [--nocheck]"""
import json, os, subprocess, sys, shutil, runpy, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

DEMO = """#!/bin/sh
# exit 0 when the property holds in the code of the current directory, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$(pwd)" MPLBACKEND=Agg exec %s "$here/demo.py"
""" % PY


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o = p.communicate(timeout=timeout)[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        return 124, "TIMEOUT"
    return p.returncode, o


def plant(bug, check=True):
    i = bug["id"]
    wt = "/tmp/seedwork/" + i
    if os.path.exists(wt):
        shutil.rmtree(wt)
    shutil.copytree("/repo", wt, symlinks=True)
    out = ["== %s (%s)" % (i, bug["property"])]
    try:
        for f, old, new in bug["edits"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "\n".join(out + ["EDIT DOES NOT APPLY %s: %d occurrences of %r" % (f, s.count(old), old[:60])])
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(VERIF, "seeded", i)
        os.makedirs(d, exist_ok=True)
        rc, diff = sh("git diff -U3", cwd=wt)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(bug["demo"].strip() + "\n")
        for name, src in bug.get("files", {}).items():
            shutil.copy(os.path.join(VERIF, src), os.path.join(d, name))
        json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0, o0 = sh(os.path.join(d, "demo.sh"), cwd="/repo")
        r1, o1 = sh(os.path.join(d, "demo.sh"), cwd=wt)
        out.append("demo: unchanged %d, patched %d %s" % (r0, r1, "OK" if r0 == 0 and r1 else "BAD DEMO\n" + o0 + o1))
        rt, ot = sh("mkdir -p pymnet/tests/figs; %s -m pytest -q -p no:cacheprovider -p pymnet_select -n 4 --timeout=180 --continue-on-collection-errors -W ignore "
                    "-o junit_family=xunit2 -o 'python_files=*_test.py test_*.py' --rootdir=%s --junitxml=%s.xml pymnet/tests" % (PY, wt, wt), cwd=wt,
                    env=dict(PYTHONPATH="/opt/vp:" + wt, MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1"), timeout=240)
        if rt == 124:
            return "\n".join(out + ["tests: TIMEOUT"])
        sh("/usr/bin/python3 /opt/vp/results.py %s.json junit:%s.xml" % (wt, wt))
        missing = sorted(STABLE - set(json.load(open(wt + ".json"))["passed"]))
        os.remove(wt + ".json"); os.remove(wt + ".xml")
        out.append("tests: %s" % ("OK" if not missing else "FAIL %r" % missing[:5]))
        # lines added by own fix commits must not be the ones changed
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        base = sh("git log --format=%h --reverse | head -1", cwd="/repo")[1].strip()
        for f in set(e[0] for e in bug["edits"]):
            orig = sh("git show %s:%s" % (base, f), cwd="/repo")[1].splitlines()
            mine = [l for l in removed if l.strip() and l not in orig]
            if mine:
                out.append("NOTE: removes lines not in the base: %r" % mine[:2])
        if check:
            for pr in [bug["property"]]:
                rc, oc = sh("%s/run.sh %s --tier quick" % (VERIF, pr), env=dict(MC_REPO=wt, MC_EVIDENCE="/tmp/seedwork/ev", VERIF_SEED="1"))
                v = [l for l in oc.splitlines() if l.startswith("VIOLATION")]
                out.append("check %s: rc=%d %s" % (pr, rc, v[:1] or "MISSED " + oc[-300:]))
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    return "\n".join(out)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    subs = [a for a in sys.argv[2:] if not a.startswith("--")]
    with cf.ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "2"))) as ex:
        for f in cf.as_completed([ex.submit(plant, b, "--nocheck" not in sys.argv) for b in bugs if not subs or any(s in b["id"] for s in subs)]):
            print(f.result(), flush=True)
