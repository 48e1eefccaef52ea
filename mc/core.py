"""Small explicit-enumeration model-checking driver shared by all checks.

A check module (checks/pNN.py) provides

  ID, TITLE, RULE            identification and a sentence on the enumerated space
  shards(tier, seed)         list of literal (repr-able) shard descriptors; together they are
                             the complete bounded space that the run explores
  run_shard(shard, ctx)      explores one shard completely, calling ctx.case(...) for each
                             execution; OR
  cases(shard, tier)         generator of literal cases of a shard, each decided by
  check(case, ctx)           one execution of the real code compared with the oracle

Every failing execution is written as a replay file holding the literal case.
"""
import os, sys, time, json, ast, signal, traceback, hashlib, resource, importlib, contextlib, tempfile, pprint

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
CASE_SECONDS = float(os.environ.get("MC_CASE_SECONDS", "60"))
MAX_FAILS_PER_SHARD = 12


class Hang(BaseException):
    """Raised inside the code under test when an execution exceeds its horizon."""


class StopShard(BaseException):
    pass


def setup_path():
    sys.dont_write_bytecode = True
    # never trust cached bytecode of a tree that may have been edited within a timestamp tick
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "mc-nopyc-%d" % os.getpid())
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)


def _alarm(signum, frame):
    raise Hang("horizon exceeded")


BETWEEN = [0]      # limit on the time spent outside run_case (code run while exploring, before a case starts)


@contextlib.contextmanager
def horizon(seconds):
    # the timer repeats: the code under test may swallow one Hang (a bare except, a finaliser)
    signal.setitimer(signal.ITIMER_REAL, seconds, 5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, BETWEEN[0], 5 if BETWEEN[0] else 0)


def short(x, n=1500):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "...<%d chars>" % len(s)


class Ctx(object):
    def __init__(self, tier="quick", seed=1, module=None):
        self.tier, self.seed, self.module = tier, seed, module
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.outcomes = set()
        self.fails = []
        self.counts = {}
        self._seen = set()
        self._case = None

    # --- coverage -------------------------------------------------------------
    def state(self, n=1):
        self.states += n

    def new_state(self, key):
        """count `key` as a state if it was not seen before in this shard"""
        h = hash(key)
        if h in self._seen:
            return False
        self._seen.add(h)
        self.states += 1
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, o):
        if len(self.outcomes) < 5000:
            self.outcomes.add(hashlib.md5(repr(o).encode()).hexdigest()[:12])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # --- verdicts ---------------------------------------------------------------
    def fail(self, what, expected=None, got=None, case=None, key=None):
        case = self._case if case is None else case
        k = key if key is not None else repr(case) + " :: " + what
        self.fails.append(dict(key=k, case=repr(case), what=what, expected=short(expected), got=short(got)))
        if len(self.fails) >= MAX_FAILS_PER_SHARD:
            raise StopShard()

    def eq(self, got, expected, what):
        if got != expected or type(got) is bool and type(expected) is not bool:
            self.fail(what, expected, got)
            return False
        return True

    def run_case(self, case, fn=None, seconds=None, key=None):
        """One execution: runs fn(case, self) under the horizon; exceptions are failures."""
        self._case = case
        if len(self.samples) < 2:
            self.samples.append(short(case, 400))
        n0 = len(self.fails)
        try:
            with horizon(seconds or (CASE_SECONDS if self.tier == "quick" else 10 * CASE_SECONDS)):
                (fn or self.module.check)(case, self)
        except StopShard:
            raise
        except Hang:
            self.fail("execution did not terminate within its horizon", key=key)
            raise StopShard()
        except MemoryError:
            self.fail("execution exhausted memory", key=key)
            raise StopShard()
        except RecursionError:
            self.fail("unbounded recursion", key=key)
        except Exception as e:
            tb = traceback.format_exc().strip().splitlines()
            self.fail("exception %s: %s" % (type(e).__name__, e), "no exception", "\n".join(tb[-8:]), key=key)
        return len(self.fails) == n0

    def result(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    samples=self.samples, outcomes=self.outcomes, fails=self.fails, counts=self.counts)


def _worker(args):
    modname, shard, tier, seed = args
    setup_path()
    signal.signal(signal.SIGALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    import random
    random.seed(12345)
    mod = importlib.import_module(modname)
    ctx = Ctx(tier, seed, mod)
    t = time.time()
    BETWEEN[0] = 240 if tier == "quick" else 2400
    signal.setitimer(signal.ITIMER_REAL, BETWEEN[0], 5)
    try:
        if hasattr(mod, "run_shard"):
            mod.run_shard(shard, ctx)
        else:
            for case in mod.cases(shard, tier):
                ctx.run_case(case)
                ctx.trace()
    except StopShard:
        pass
    except Hang:
        ctx.fails.append(dict(key="hang:" + repr(shard), case=repr(("SHARD", shard)), what="shard did not terminate", expected="", got=""))
    except Exception as e:
        ctx.fails.append(dict(key="shard-exception:" + repr(shard), case=repr(("SHARD", shard)),
                              what="exception while exploring: %s: %s" % (type(e).__name__, e), expected="",
                              got=traceback.format_exc()[-1500:]))
    finally:
        BETWEEN[0] = 0
        signal.setitimer(signal.ITIMER_REAL, 0)
    r = ctx.result()
    r["shard"] = repr(shard)
    r["wall"] = time.time() - t
    return r


def load_known(pid):
    """known_findings.txt -> {key: text} of unrepaired findings of this property"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ## ")
                assert key.startswith("key=")
                out[key[4:]] = text
    return out


def main(modname, tier, seed, replay=None, jobs=None, only=None):
    setup_path()
    signal.signal(signal.SIGALRM, _alarm)
    mod = importlib.import_module(modname)
    pid = mod.ID
    if replay:
        txt = open(replay).read()
        body = [l for l in txt.splitlines() if l.startswith("case = ")][0][len("case = "):]
        case = ast.literal_eval(body)
        ctx = Ctx(tier, seed, mod)
        try:
            if isinstance(case, tuple) and case and case[0] == "SHARD":
                r = _worker((modname, case[1], tier, seed))
                ctx.fails = r["fails"]
            else:
                ctx.run_case(case, getattr(mod, "replay", None))
        except StopShard:
            pass
        for f in ctx.fails:
            print("%s\n  expected: %s\n  got: %s" % (f["what"], f["expected"], f["got"]))
        print("REPLAY property=%s %s" % (pid, "FAILS" if ctx.fails else "ok"))
        return 1 if ctx.fails else 0

    t0 = time.time()
    shards = list(mod.shards(tier, seed))
    if only is not None:
        shards = [s for s in shards if only in repr(s)]
    jobs = jobs or min(8, os.cpu_count() or 1)
    results = []
    args = [(modname, s, tier, seed) for s in shards]
    if jobs <= 1 or len(args) <= 1:
        for a in args:
            results.append(_worker(a))
    else:
        import concurrent.futures as cf, multiprocessing as mp
        with cf.ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork")) as ex:
            for r in ex.map(_worker, args, chunksize=1):
                results.append(r)
    fails = []
    for r in results:
        fails.extend(r["fails"])
    known = load_known(pid)
    unknown, hit = [], {}
    for f in fails:
        if f["key"] in known:
            hit[f["key"]] = f
        else:
            unknown.append(f)
    outcomes = set()
    counts = {}
    samples = []
    for r in results:
        outcomes |= r["outcomes"]
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        samples.extend(r["samples"])
    step = max(1, len(samples) // 6)
    cov = dict(states=sum(r["states"] for r in results), transitions=sum(r["transitions"] for r in results),
               traces_validated_against_impl=sum(r["traces"] or r["transitions"] for r in results),  # every transition is an execution of the real code
               samples=samples[::step][:8], shards=len(results), distinct_outcomes=len(outcomes),
               rule=mod.RULE, exhaustive=(not unknown and not counts.get('capped_shards')))
    for k in sorted(counts):
        cov["n_" + k] = counts[k]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
                  "the code runs under CPython 3.12 with the dependencies in /opt/venv",
                  "behaviour outside the stated bounds is not covered"],
              wall_s=round(time.time() - t0, 2), violations=len(unknown))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    if os.environ.get("MC_VERBOSE"):
        for r in sorted(results, key=lambda r: -r["wall"])[:8]:
            print("shard %.1fs states=%d trans=%d %s" % (r["wall"], r["states"], r["transitions"], short(r["shard"], 150)))
    print("%s %s: shards=%d states=%d transitions=%d traces=%d distinct_outcomes=%d %s wall=%.1fs" % (
        pid, tier, len(results), cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
        len(outcomes), " ".join("%s=%d" % kv for kv in sorted(counts.items())), time.time() - t0))
    if unknown:
        unknown.sort(key=lambda f: len(f["case"]))
        f = unknown[0]
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.txt" % (pid, hashlib.md5(f["key"].encode()).hexdigest()[:10]))
        with open(path, "w") as o:
            o.write("# replay with: /verif/run.sh %s --replay %s\n" % (pid, path))
            o.write("# what: %s\n# expected: %s\n# got: %s\n" % tuple(
                x.replace("\n", "\n#   ") for x in (f["what"], f["expected"], f["got"])))
            o.write("case = " + f["case"] + "\n")
        for g in unknown[:3]:
            print("FAIL %s\n  case: %s\n  expected: %s\n  got: %s" % (g["what"], short(g["case"], 600), short(g["expected"], 500), short(g["got"], 900)))
        print("%d failing executions recorded" % len(unknown))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0
