#!/usr/bin/env python3
"""Apply the behaviour-preserving rewrites of tools/neutral/*.py to a scratch copy of /repo, run the
repository's tests there and then the checks: they have to stay quiet.

usage: neutral.py [rewrite-file-substr] [check ids...]"""
import ast, glob, os, shutil, subprocess, sys, textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
sub = sys.argv[1] if len(sys.argv) > 1 else ""
ids = sys.argv[2:] or ["P%02d" % i for i in range(1, 32)]
DST = "/tmp/neutral_repo_" + (sub or "all")
shutil.rmtree(DST, ignore_errors=True)
shutil.copytree("/repo", DST, symlinks=True)


def locate(tree, name):
    body = tree.body
    parts = name.split(".")
    for i, p in enumerate(parts):
        found = None
        stack = list(body)
        while stack:
            n = stack.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p:
                found = n
                break
            if isinstance(n, (ast.Try, ast.If)):
                stack = list(n.body) + stack
        if found is None:
            raise KeyError(name)
        body = found.body
    return found


for f in sorted(glob.glob(HERE + "/neutral/*.py")):
    if sub not in f:
        continue
    ns = {}
    exec(open(f).read(), ns)
    for path, edits in ns["EDITS"].items():
        p = os.path.join(DST, path)
        for name, new in edits.items():
            src = open(p).read()
            if isinstance(new, tuple):      # plain text replacement
                assert src.count(new[0]) >= 1, (path, name)
                open(p, "w").write(src.replace(new[0], new[1]))
                continue
            n = locate(ast.parse(src), name)
            lines = src.splitlines(True)
            start = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
            new = textwrap.indent(textwrap.dedent(new).strip("\n") + "\n", " " * n.col_offset)
            src = "".join(lines[:start]) + new + "".join(lines[n.end_lineno:])
            ast.parse(src)
            open(p, "w").write(src)
if "tests" in ids or len(ids) > 5:
    r = subprocess.run("cd %s && MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONHASHSEED=0 PYTHONPATH=/opt/vp /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p pymnet_select -n 4 --tb=short -W ignore -o 'python_files=*_test.py test_*.py' --rootdir=%s pymnet/tests 2>&1 | tail -8" % (DST, DST), shell=True, capture_output=True, text=True)
    print(r.stdout)
for i in ids:
    if i == "tests":
        continue
    r = subprocess.run([os.path.join(HERE, "..", "run.sh"), i], capture_output=True, text=True, env=dict(os.environ, MC_REPO=DST))
    print(i, "ok" if r.returncode == 0 else "ALARM rc=%d" % r.returncode, (r.stdout.strip().splitlines() or [""])[-1][-100:] if r.returncode == 0 else "\n".join((r.stdout + r.stderr).strip().splitlines()[-12:]), flush=True)
