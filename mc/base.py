"""Shared machinery of the checks: loading the code under test, exploring tasks
on all cores, collecting coverage and violations, writing the evidence."""
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback
from functools import lru_cache

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TASK_LIMIT = 240          # processor seconds one exploration task may take before it counts as divergence
WALL_LIMIT = 500
MEM_LIMIT = 5 << 30       # per worker


def load(memo=True):
    """Import schubertpy from the working tree of the repository."""
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if memo:
        # sympy's text parser dominates the running time; it is a pure function
        # of its text, and sympy expressions are immutable, so it is memoised.
        import sympy
        if not hasattr(sympy.parse_expr, "_mc_original"):
            original = sympy.parse_expr
            cached = lru_cache(maxsize=None)(original)

            def parse_expr(*args, **kw):
                if len(args) == 1 and not kw and isinstance(args[0], str):
                    return cached(args[0])
                return original(*args, **kw)
            parse_expr._mc_original = original
            sympy.parse_expr = parse_expr
    import schubertpy
    assert os.path.realpath(schubertpy.__file__).startswith(os.path.realpath(REPO)), schubertpy.__file__
    return schubertpy


CLS = {"Gr": "Grassmannian", "IG": "IsotropicGrassmannian", "OG": "OrthogonalGrassmannian"}


def make(space):
    fam, m, N = space
    return getattr(load(), CLS[fam])(m, N)


def name(space):
    return "%s(%d,%d)" % tuple(space)


def ctor(space):
    return "%s(%d, %d)" % (CLS[space[0]], space[1], space[2])


def kind(space):
    fam, m, N = space
    return {"Gr": "A", "IG": "C"}.get(fam) or ("B" if N % 2 else "D")


def kn(space):
    """(k, n) in the library's notation."""
    fam, m, N = space
    if fam == "Gr":
        return N - m, N
    if fam == "IG":
        return N // 2 - m, N // 2
    if N % 2:
        return (N - 1) // 2 - m, (N - 1) // 2
    return N // 2 - m, N // 2 - 1


def qvars(space):
    fam, m, N = space
    return ("q1", "q2") if fam == "OG" and N % 2 == 0 and N // 2 - m == 1 and m >= 1 else ("q",)


def S(label):
    return "S" + str([list(x) if isinstance(x, tuple) else x for x in label]).replace(" ", "")


class Divergence(BaseException):
    pass


class Ctx:
    """Coverage and findings of one task."""

    def __init__(self):
        self.counts = {}
        self.viol = []
        self.samples = []
        self.seen = set()
        self.full = False
        self.ncall = 0

    def add(self, **kw):
        for k, v in kw.items():
            self.counts[k] = self.counts.get(k, 0) + v

    def distinct(self, key):
        """Remember a case for the distinct count of this task."""
        self.seen.add(key)

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)

    def bad(self, key, msg, repro=""):
        """A violation: `key` names the failing input, `repro` is Python replaying it."""
        if len(self.viol) < 4:
            self.viol.append((str(key), str(msg), repro))
        if len(self.viol) >= 4:
            self.full = True

    def call(self, key, f, *a, repro="", **kw):
        """Run an operation that must succeed; an exception is a violation."""
        try:
            r = f(*a, **kw)
            self.ncall += 1
            if self.ncall in (1, 50, 1000):
                self.sample(f"{key} -> {str(r)[:160]}")
            return True, r
        except Exception as e:
            self.bad(key, f"raised {type(e).__name__}: {str(e)[:200]}", repro)
            return False, None


def quiet(f, *a, **kw):
    try:
        return True, f(*a, **kw)
    except Exception as e:
        return False, e


_FN = None
STOP = int(os.environ.get("MC_STOP", 12))       # violations after which exploring ends


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 3000))


def _alarm(*_):
    raise Divergence()


def _work(task):
    ctx = Ctx()
    # processor time, so that a busy machine makes no difference; the wall
    # clock catches what only waits
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_PROF, TASK_LIMIT)
    signal.alarm(WALL_LIMIT)
    t = time.time()
    try:
        _FN(task, ctx)
    except Divergence:
        ctx.bad(f"divergence {task}", f"exploring {task} did not finish within {TASK_LIMIT} s")
    except MemoryError:
        ctx.bad(f"memory {task}", f"exploring {task} needed more than {MEM_LIMIT >> 30} GiB")
    except (OSError, SystemExit, KeyboardInterrupt):
        return ("error", task, traceback.format_exc())
    except BaseException as e:
        # the harness does not fail on the unchanged tree: the library did
        # something it cannot interpret
        ctx.bad(f"exploring {str(task)[:120]}", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
    return ("ok", task, ctx.counts, ctx.viol, ctx.samples, len(ctx.seen), time.time() - t)


class Report:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        global TASK_LIMIT, WALL_LIMIT
        TASK_LIMIT, WALL_LIMIT = (240, 500) if tier == "quick" else (3600, 7200)
        self.t0 = time.time()
        self.counts = {}
        self.viol = []
        self.samples = []
        self.nseen = 0
        self.assumptions = []
        self.extra = {}
        self.times = []

    def explore(self, fn, tasks, procs=8):
        """Run fn(task, ctx) for every task, in forked workers."""
        global _FN
        import multiprocessing as mp
        _FN = fn
        tasks = list(tasks)
        ctx = mp.get_context("fork")
        with ctx.Pool(min(procs, max(1, len(tasks))), initializer=_init) as pool:
            for r in pool.imap_unordered(_work, tasks, chunksize=1):
                if r[0] == "error":
                    pool.terminate()
                    sys.stderr.write(f"harness error in {r[1]}\n{r[2]}\n")
                    sys.exit(2)
                _, task, counts, viol, samples, nseen, dt = r
                self.times.append((round(dt, 1), str(task)[:80]))
                for k, v in counts.items():
                    self.counts[k] = self.counts.get(k, 0) + v
                self.nseen += nseen
                self.samples += samples if len(self.samples) < 20000 else []
                self.viol += viol
                if len(self.viol) >= STOP or any(v[0].startswith("divergence ") for v in viol):
                    pool.terminate()
                    break

    def merge(self, ctx):
        for k, v in ctx.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.nseen += len(ctx.seen)
        self.samples += ctx.samples
        self.viol += ctx.viol

    def finish(self):
        known = known_findings(self.prop)
        new = [v for v in self.viol if v[0] not in known]
        cov = dict(self.counts)
        cov.update(self.extra)
        cov["samples"] = pick(self.samples, 6)
        if self.level in ("exploration", "fault_enumeration"):
            cov.setdefault("distinct_nontrivial", self.nseen)
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted({v[0] for v in self.viol if v[0] in known}):
            print(f"KNOWN-FINDING: property={self.prop} {known[k]}")
        for key, msg, repro in new[:6]:
            path = write_replay(self.prop, key, msg, repro)
            print(f"{key}: {msg}"[:600])
            print(f"VIOLATION property={self.prop} replay={path}")
        brief = {k: v for k, v in cov.items() if isinstance(v, int)}
        print(f"{self.prop} {self.tier}: {brief} wall={ev['wall_s']}s violations={len(new)}")
        if os.environ.get("MC_TIMES"):
            for t in sorted(self.times, reverse=True)[:12]:
                print("   ", t)
        try:
            sys.stdout.flush()
        except BrokenPipeError:
            pass
        return 1 if new else 0


def pick(xs, n):
    if len(xs) <= n:
        return xs
    return [xs[i * len(xs) // n] for i in range(n)]


def write_replay(prop, key, msg, repro):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{hashlib.sha1(key.encode()).hexdigest()[:10]}.py")
    with open(p, "w") as f:
        f.write("# run with /opt/venv/bin/python, cwd /repo\n")
        f.write(f"# property {prop}: {key}\n")
        for line in msg.splitlines():
            f.write(f"# {line}\n")
        f.write("import sys\nsys.path.insert(0, '/repo')\n")
        f.write(repro or "# (no single-call replay: see the key above)\n")
        f.write("\n")
    return p


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"finding: property={prop} "):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out[key] = text or key
    return out
