"""Run the quick check of its property against every planted bug (development aid): seeded_all.py [ID-substring].
Results are kept in tools/seeded_results.json, and the table in DESIGN.md (between the markers) is rewritten."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = os.path.join(V, "tools", "seeded_results.json")


def table(res):
    lines = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
    for i in sorted(os.listdir(V + "/seeded")):
        m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
        r = res.get(i)
        lines.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], "not run" if r is None else m["property"] if r else "missed by %s" % m["property"]))
    p = V + "/DESIGN.md"
    s = open(p).read()
    if "SEEDED_TABLE" in s:
        s = s.replace("SEEDED_TABLE", "<!-- seeded begin -->\n<!-- seeded end -->")
    a, b = s.index("<!-- seeded begin -->"), s.index("<!-- seeded end -->")
    open(p, "w").write(s[:a] + "<!-- seeded begin -->\n" + "\n".join(lines) + "\n" + s[b:])


def main():
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    sub = sys.argv[1] if len(sys.argv) > 1 else ""
    for i in sorted(os.listdir(V + "/seeded")):
        if sub == "--table" or sub not in i:
            continue
        pr = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
        wt = "/tmp/seedall/" + i
        shutil.rmtree(wt, ignore_errors=True)
        shutil.copytree("/repo", wt, symlinks=True)
        try:
            if subprocess.call(["git", "apply", "%s/seeded/%s/patch.diff" % (V, i)], cwd=wt):
                print(i, "DOES NOT APPLY", flush=True)
                continue
            p = subprocess.run(["%s/run.sh" % V, pr, "--tier", "quick"], env=dict(os.environ, MC_REPO=wt, MC_EVIDENCE="/tmp/seedall/ev", VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res[i] = p.returncode == 1 and ("VIOLATION property=%s" % pr) in p.stdout
            print(i, pr, p.returncode, "caught" if res[i] else "MISSED", flush=True)
        finally:
            shutil.rmtree(wt, ignore_errors=True)
    for i in list(res):
        if not os.path.isdir(V + "/seeded/" + i):
            del res[i]
    json.dump(res, open(RES, "w"), indent=0, sort_keys=True)
    table(res)


main()
