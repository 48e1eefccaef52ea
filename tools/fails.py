"""Development aid: run shards of a check in this process pool and list distinct failures.  fails.py ID [only]"""
import sys, os, re, collections, multiprocessing
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core
core.setup_path()
core.MAX_FAILS_PER_SHARD = 10**6
import importlib


def work(a):
    r = core._worker(a)
    return r


if __name__ == "__main__":
    pid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    name = "checks." + pid.lower()
    mod = importlib.import_module(name)
    sh = [s for s in mod.shards("quick", 1) if only is None or only in repr(s)]
    import inspect
    with multiprocessing.Pool(8) as p:
        rs = p.map(core._worker, [(name, s, "quick", 1) for s in sh], 1)
    c = collections.OrderedDict()
    for r in rs:
        for f in r["fails"]:
            k = re.sub(r"[\d.]+", "#", f["what"])[:160]
            c.setdefault(k, []).append(f)
    for k, v in sorted(c.items(), key=lambda x: -len(x[1])):
        print(len(v), v[0]["what"][:300])
        print("    ", core.short(v[0].get("expected"), 300))
        print("     ", core.short(v[0].get("got"), 300))
