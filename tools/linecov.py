#!/usr/bin/env python3
"""Which lines of pymnet do the checks execute?  linecov.py [IDs...] prints the lines no check reached
(a tool to find gaps; nothing is decided by it).  Runs one check at a time with 1 hook per worker."""
import ast, glob, os, subprocess, sys, json
HERE = os.path.dirname(os.path.abspath(__file__))
if len(sys.argv) > 2 and sys.argv[1] == "--child":
    import atexit
    out, pid = sys.argv[2], sys.argv[3]
    sys.path.insert(0, os.path.dirname(HERE))
    mon = sys.monitoring
    hit = set()
    mon.use_tool_id(3, "linecov")

    def line(code, n):
        if "/pymnet/" in code.co_filename and "/tests/" not in code.co_filename:
            hit.add((code.co_filename, n))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    from mc import core
    orig = core._worker

    def worker(a):
        r = orig(a)
        with open("%s/%d.%s" % (out, os.getpid(), pid), "w") as f:
            json.dump(sorted(hit), f)
        return r
    worker.__module__, worker.__qualname__ = "mc.core", "_worker"
    core._worker = worker
    core.main("checks." + pid.lower(), "quick", 1, None, None, None)
    with open("%s/%d.%s" % (out, os.getpid(), pid), "w") as f:
        json.dump(sorted(hit), f)
    os._exit(0)
import shutil, tempfile
ids = sys.argv[1:] or ["P%02d" % i for i in range(1, 32)]
tmp = tempfile.mkdtemp()
env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MPLCONFIGDIR="/opt/venv/mplconfig")
for i in ids:
    subprocess.run(["/opt/venv/bin/python", "-W", "ignore", os.path.abspath(__file__), "--child", tmp, i], env=env, cwd=os.path.dirname(HERE), stdout=subprocess.DEVNULL)
hit = {}
for f in glob.glob(tmp + "/*"):
    for p, n in json.load(open(f)):
        hit.setdefault(p.split("/pymnet/", 1)[1], set()).add(n)
shutil.rmtree(tmp)
root = os.environ.get("MC_REPO", "/repo") + "/pymnet/"
for p in sorted(glob.glob(root + "**/*.py", recursive=True)):
    rel = p[len(root):]
    if rel.startswith(("tests", "benchmarks")):
        continue
    src = open(p).read()
    lines = set()

    def walk(code):
        lines.update(l for _, _, l in code.co_lines() if l and l != code.co_firstlineno)
        for c in code.co_consts:
            if hasattr(c, "co_lines"):
                walk(c)
    walk(compile(src, p, "exec"))
    docs = set()
    miss = sorted(lines - hit.get(rel, set()))
    print("%s: %d of %d lines not executed" % (rel, len(miss), len(lines)))
    text = src.splitlines()
    for n in miss:
        print("   %4d %s" % (n, text[n - 1][:140]))
