"""Runs the parts of a check: sharding, seeding, shrinking, replay, evidence.

A check is a module checks/cNN.py with
    PROPERTY     id of the property
    RULE         what a case is and what makes it non-trivial
    ASSUMPTIONS  list of strings (may be empty)
    PARTS        list of Part

A Part has a Hypothesis strategy producing *plain JSON values* (the case) and a
function check(case, ctx), which drives the code under test with this case and
compares it with the oracle.  A case is therefore a self-contained replay file.
"""
import hashlib
import json
import linecache
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "sudokutools") + os.sep
MODULES = ("actions", "analyze", "coordinates", "dlx", "generate", "notation",
           "shell", "solve", "solvers", "sudoku", "__main__")
SHARDS = 8
SHRINK_SECONDS = 40
CASE_CPU_SECONDS = 25
LINE_BUDGET = 60 * 1000 * 1000
#: a worker stops searching after this time, so that a slow tree gets an answer
DEADLINE = {"quick": 480, "thorough": 3600}
#: inputs of the coverage-guided search in relation to the random cases
#: (slow, since each line counts, so only the parsers are searched like that in quick runs)
GUIDED = {"quick": 0, "thorough": 0.05}


class Violation(AssertionError):
    """The code under test breaks the property."""


class CaseTimeout(BaseException):
    """A case used too much CPU time (not caught by the code under test)."""


class DeadlineReached(BaseException):
    """The search of a part is ended, because it takes too long."""


class BudgetExceeded(BaseException):
    """A case executed more lines of the code under test than allowed."""


class Part(object):
    def __init__(self, name, strategy, check, quick, thorough, setup=None, guided=None):
        """guided: inputs of the coverage-guided search in relation to the random
        cases (0: none, for code which does not run in this process)."""
        self.name = name
        self.guided = GUIDED if guided is None else {"quick": guided, "thorough": guided}
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.setup = setup


class Ctx(object):
    """Handed to check functions: counts events and marks non-trivial cases."""

    def __init__(self):
        self.events = {}
        self.is_nontrivial = False

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    @staticmethod
    def fail(msg):
        raise Violation(msg)

    @staticmethod
    def require(cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def add_repo_to_path():
    import importlib
    sys.path.insert(0, REPO)
    # Never use byte code of another state of the tree.
    old, sys.pycache_prefix = sys.pycache_prefix, "/nonexistent/pycache"
    try:
        import sudokutools
        for name in MODULES:
            importlib.import_module("sudokutools." + name)
    finally:
        sys.pycache_prefix = old
    where = os.path.realpath(os.path.dirname(sudokutools.__file__)) + os.sep
    if where != PKG:
        raise RuntimeError("sudokutools imported from %s, not %s" % (where, PKG))


def load_check(prop):
    import importlib
    return importlib.import_module("checks." + prop.lower())


def in_repo(tb):
    """Does the traceback pass through the code under test?"""
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(PKG):
            return True
        tb = tb.tb_next
    return False


UNUSABLE = (TypeError, AttributeError, LookupError, ValueError)


def exit_called(status):
    """Replaces os._exit(), so the code under test cannot end the worker."""
    raise SystemExit(status)


def run_case(part, case, ctx):
    """Run one case.  Raises Violation, or anything else for harness errors."""
    random.seed(zlib.crc32(canon(case).encode()))
    leave, os._exit = os._exit, exit_called
    try:
        part.check(case, ctx)
    except Violation:
        raise
    except (Exception, SystemExit, KeyboardInterrupt, GeneratorExit) as e:
        if in_repo(e.__traceback__):
            tb = traceback.extract_tb(e.__traceback__)
            last = [f for f in tb if os.path.realpath(f.filename).startswith(PKG)][-1]
            raise Violation("unexpected %s: %s (at %s:%d)" % (
                type(e).__name__, e, last.filename, last.lineno)) from e
        if isinstance(e, UNUSABLE):
            # The check reads what it is given, so this is an answer of
            # another type or form (None instead of a list, ...).
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("unusable answer, %s: %s (at %s:%d)" % (
                type(e).__name__, e, last.filename, last.lineno)) from e
        raise
    finally:
        os._exit = leave


# -- limits -------------------------------------------------------------------

def limit_memory():
    gb = 4 * 1024 ** 3
    resource.setrlimit(resource.RLIMIT_AS, (gb, gb))


def arm(seconds):
    def handler(signum, frame):
        raise CaseTimeout()
    signal.signal(signal.SIGVTALRM, handler)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def disarm():
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def run_case_with_line_budget(part, case, ctx):
    """Deterministic check for termination: counts executed lines of /repo."""
    mon = sys.monitoring
    tool = mon.DEBUGGER_ID
    mon.use_tool_id(tool, "verif")
    count = [0]
    flags = {}

    def on_line(code, line):
        name = code.co_filename
        mine = flags.get(name)
        if mine is None:
            mine = flags[name] = os.path.realpath(name).startswith(PKG)
        if not mine:
            return mon.DISABLE
        count[0] += 1
        if count[0] > LINE_BUDGET:
            count[0] = 0
            raise BudgetExceeded()

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)
    try:
        run_case(part, case, ctx)
    except BudgetExceeded:
        raise Violation("does not terminate (more than %d lines executed)" % LINE_BUDGET)
    finally:
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)


# -- coverage-guided search -----------------------------------------------------

class Coverage(object):
    """Records which lines of the code under test follow each other, and how often."""

    def __init__(self):
        self.mon = sys.monitoring
        self.tool = self.mon.COVERAGE_ID
        self.mine = {}
        self.counts = {}
        self.last = None

    def __enter__(self):
        self.mon.use_tool_id(self.tool, "verif")
        self.mon.register_callback(self.tool, self.mon.events.LINE, self.on_line)
        self.mon.set_events(self.tool, self.mon.events.LINE)
        return self

    def __exit__(self, *exc):
        self.stop()
        self.mon.free_tool_id(self.tool)

    def stop(self):
        self.mon.set_events(self.tool, 0)

    def start(self):
        self.counts = {}
        self.last = None

    def on_line(self, code, line):
        name = code.co_filename
        mine = self.mine.get(name)
        if mine is None:
            mine = self.mine[name] = os.path.realpath(name).startswith(PKG)
        if not mine:
            return self.mon.DISABLE
        here = (name, line)
        key = (self.last, here)
        self.counts[key] = self.counts.get(key, 0) + 1
        self.last = here

    def features(self):
        return {(k, min(v, 4) if v < 4 else min(v.bit_length() + 2, 8)) for k, v in self.counts.items()}


def mutated(rng, corpus):
    if not corpus or rng.random() < 0.1:
        return rng.randbytes(rng.choice((30, 200, 1000, 4000)))
    # rather the newer ones
    data = bytearray(corpus[max(rng.randrange(len(corpus)), rng.randrange(len(corpus)))])
    for _ in range(1 << rng.randrange(5)):
        n = len(data)
        at = rng.randrange(n + 1)
        size = min(1 << rng.randrange(7), 64)
        kind = rng.randrange(7)
        if kind == 0 and n:
            data[at % n] ^= 1 << rng.randrange(8)
        elif kind == 1 and n:
            data[at % n] = rng.randrange(256)
        elif kind == 2 and n:
            data[at % n] = rng.choice((0, 1, 127, 128, 255))
        elif kind == 3:
            del data[at:at + size]
        elif kind == 4:
            data[at:at] = rng.randbytes(size)
        elif kind == 5:
            other = corpus[rng.randrange(len(corpus))]
            start = rng.randrange(len(other) + 1)
            data[at:at + size] = other[start:start + size]
        else:
            other = corpus[rng.randrange(len(corpus))]
            data[at:] = other[at:]
    # choices beyond the end would make the case invalid
    return bytes(data) + rng.randbytes(256)


# -- worker ---------------------------------------------------------------------

class Worker(object):
    def __init__(self, prop, tier, seed, shard, out, only_part=None):
        self.mod = load_check(prop)
        self.prop, self.tier, self.seed, self.shard = prop, tier, seed, shard
        self.out = out
        self.only_part = only_part
        self.result = {"parts": {}, "failure": None, "error": None}
        self.start = time.monotonic()

    def write(self):
        tmp = self.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(self.result, f)
        os.rename(tmp, self.out)

    def run(self):
        for part in self.mod.PARTS:
            if self.only_part and part.name != self.only_part:
                continue
            try:
                self.run_part(part)
            except Exception:
                self.result["error"] = "%s/%s: %s" % (
                    self.prop, part.name, traceback.format_exc())
            if self.result["failure"] or self.result["error"]:
                break
        self.write()

    def run_part(self, part):
        from hypothesis import HealthCheck, Phase, given, seed, settings
        import hypothesis.errors

        total = part.quick if self.tier == "quick" else part.thorough
        mine = total // SHARDS + (1 if self.shard < total % SHARDS else 0)
        stat = {"evaluations": 0, "hashes": [], "events": {}, "samples": [],
                "inconclusive": 0, "cut_short": 0, "cpu_s": 0.0, "max_case_cpu_s": 0.0}
        stat["guided"] = {"inputs": 0, "kept": 0, "features": 0, "cpu_s": 0.0}
        self.result["parts"][part.name] = stat
        if not mine:
            return
        if part.setup:
            part.setup()
        state = {"fail": None, "first": None, "timeout": None}
        hashes = set()
        t0 = time.process_time()
        names = [p.name for p in self.mod.PARTS]
        end = self.start + DEADLINE[self.tier] * (names.index(part.name) + 1) / len(names)

        def finish():
            stat["hashes"] = sorted(hashes)
            stat["cpu_s"] = round(time.process_time() - t0, 2)

        def test(case):
            text = canon(case)
            if state["first"] is not None:
                if time.monotonic() - state["first"] > SHRINK_SECONDS:
                    # shrinking takes too long: report the smallest so far
                    self.fail(part, state["fail"])
                    finish()
                    self.write()
                    os._exit(0)
            elif time.monotonic() > end:
                raise DeadlineReached()
            ctx = Ctx()
            state["case"] = case
            c0 = time.process_time()
            arm(CASE_CPU_SECONDS)
            try:
                run_case(part, case, ctx)
            except Violation as e:
                key = (len(text), text)
                if state["fail"] is None or key <= state["fail"][0]:
                    state["fail"] = (key, case, str(e))
                if state["first"] is None:
                    state["first"] = time.monotonic()
                raise
            finally:
                disarm()
                if state["first"] is None:
                    stat["evaluations"] += 1
                    stat["max_case_cpu_s"] = max(
                        stat["max_case_cpu_s"], round(time.process_time() - c0, 2))
                    for k, v in ctx.events.items():
                        stat["events"][k] = stat["events"].get(k, 0) + v
                    if ctx.is_nontrivial:
                        h = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
                        if h not in hashes:
                            hashes.add(h)
                            if len(hashes) in (4, 40):
                                stat["samples"].append(case)

        pseed = zlib.crc32(("%s/%s/%d/%d" % (
            self.prop, part.name, self.seed, self.shard)).encode())
        wrapped = seed(pseed)(settings(
            max_examples=mine, database=None, deadline=None,
            suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink), print_blob=False,
            derandomize=False)(given(part.strategy)(test)))
        inputs = int(mine * part.guided[self.tier])
        try:
            wrapped()
            if inputs:
                c0 = time.process_time()
                self.guided(part, test, inputs, pseed, stat["guided"])
                stat["guided"]["cpu_s"] = round(time.process_time() - c0, 2)
        except DeadlineReached:
            stat["cut_short"] += 1
        except CaseTimeout:
            case = state["case"]
            if self.confirm_timeout(part, case):
                self.result["failure"] = {
                    "kind": "case", "property": self.prop, "part": part.name,
                    "case": case, "hang": True, "message": "does not terminate"}
            else:
                stat["inconclusive"] += 1
        except BaseException:
            # Violation, Flaky, ... - what counts is what has been recorded.
            if state["fail"] is None:
                raise
        if state["fail"] is not None and not self.result["failure"]:
            self.fail(part, state["fail"])
        finish()

    def guided(self, part, test, inputs, pseed, stat):
        """Coverage-guided search: mutates the choices behind the cases.

        Keeps the inputs which reach new transitions between lines of the code
        under test, or old ones more often."""
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis.database import InMemoryExampleDatabase

        wrapped = settings(
            max_examples=1, database=InMemoryExampleDatabase(), deadline=None,
            suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
            phases=(Phase.reuse, Phase.shrink), print_blob=False)(given(part.strategy)(test))
        run = wrapped.hypothesis.fuzz_one_input
        rng = random.Random(pseed)
        corpus, seen, failed = [], set(), False
        with Coverage() as coverage:
            for i in range(inputs):
                coverage.start()
                try:
                    data = run(mutated(rng, corpus))
                except Violation:
                    failed = True
                    break
                if data is None:        # no valid case
                    continue
                new = coverage.features() - seen
                stat["inputs"] += 1
                if new:
                    seen |= new
                    corpus.append(bytes(data))
        stat["kept"], stat["features"] = len(corpus), len(seen)
        if failed:
            wrapped()       # shrinks the failure

    def fail(self, part, fail):
        self.result["failure"] = {
            "kind": "case", "property": self.prop, "part": part.name,
            "case": fail[1], "message": fail[2]}

    def confirm_timeout(self, part, case):
        d = tempfile.mkdtemp(prefix="verif-hang-")
        try:
            path = os.path.join(d, "case.json")
            with open(path, "w") as f:
                json.dump({"kind": "case", "property": self.prop, "part": part.name,
                           "case": case, "hang": True, "message": ""}, f)
            rc = subprocess.call(
                [sys.executable, os.path.join(VERIF, "run.py"), self.prop, "--replay", path],
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            return rc == 1
        finally:
            shutil.rmtree(d, ignore_errors=True)


# -- parent -----------------------------------------------------------------------

def child_env(hashseed):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hashseed)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env.pop("PYTHONPATH", None)
    return env


def run_workers(prop, tier, seed, shards, tmp, only_part=None):
    """Returns list of results (or {"error": ..}); stops at the first failure."""
    procs = {}
    for i in shards:
        out = os.path.join(tmp, "shard%d.json" % i)
        if os.path.exists(out):
            os.remove(out)
        cmd = [sys.executable, os.path.join(VERIF, "run.py"), prop, "--worker", str(i),
               "--out", out, "--tier", tier, "--seed", str(seed)]
        if only_part:
            cmd += ["--part", only_part]
        err = open(os.path.join(tmp, "shard%d.err" % i), "wb")
        p = subprocess.Popen(cmd, env=child_env((seed * SHARDS + i) % 4294967296),
                             stdout=err, stderr=err, stdin=subprocess.DEVNULL,
                             cwd=tmp, start_new_session=True)
        procs[i] = (p, out, err)
    results = {}
    try:
        while len(results) < len(procs):
            for i, (p, out, err) in procs.items():
                if i in results or p.poll() is None:
                    continue
                if os.path.exists(out):
                    with open(out) as f:
                        results[i] = json.load(f)
                else:
                    err.flush()
                    with open(err.name, errors="replace") as f:
                        tail = f.read()[-3000:]
                    results[i] = {"parts": {}, "failure": None,
                                  "error": "worker %d ended with %r\n%s" % (i, p.returncode, tail)}
                if results[i]["failure"]:
                    return results
            time.sleep(0.05)
    finally:
        for p, out, err in procs.values():
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            err.close()
    return results


def replay(prop, path, quiet=False):
    """Run a replay file in this process; returns message or None."""
    with open(path) as f:
        data = json.load(f)
    mod = load_check(prop)
    part = [p for p in mod.PARTS if p.name == data["part"]][0]
    if data["kind"] == "shard":
        tmp = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            res = run_workers(prop, data["tier"], data["seed"], [data["shard"]], tmp, data["part"])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        f = res[data["shard"]]["failure"]
        return f["message"] if f else None
    if part.setup:
        part.setup()
    try:
        if data.get("hang"):
            run_case_with_line_budget(part, data["case"], Ctx())
        else:
            run_case(part, data["case"], Ctx())
    except Violation as e:
        return str(e)
    return None


def main_parent(prop, tier, seed):
    mod = load_check(prop)
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    evdir = os.path.join(VERIF, "evidence")
    repdir = os.path.join(evdir, "replays")
    os.makedirs(repdir, exist_ok=True)
    try:
        results = run_workers(prop, tier, seed, range(SHARDS), tmp)
        failure, fshard = None, None
        for i, r in sorted(results.items()):
            if r["failure"]:
                failure, fshard = r["failure"], i
                break
        errors = [r["error"] for r in results.values() if r["error"]]
        path = None
        if failure:
            digest = hashlib.blake2b(canon(failure["case"]).encode(), digest_size=6).hexdigest()
            path = os.path.join(repdir, "%s-%s.json" % (prop, digest))
            failure.update(tier=tier, seed=seed, shard=fshard)
            with open(path, "w") as f:
                json.dump(failure, f, indent=1, sort_keys=True)
            # does the minimal case fail on its own?
            ok = False
            for hs in ((seed * SHARDS + fshard) % 4294967296, 0):
                rc = subprocess.call(
                    [sys.executable, os.path.join(VERIF, "run.py"), prop, "--replay", path],
                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                    env=child_env(hs), cwd=tmp)
                if rc == 1:
                    ok = True
                    break
            if not ok:
                # it depends on what ran before in the same process
                failure["kind"] = "shard"
                with open(path, "w") as f:
                    json.dump(failure, f, indent=1, sort_keys=True)
        write_evidence(mod, prop, tier, seed, results, evdir, time.monotonic() - t0,
                       1 if failure else 0)
        if failure:
            print("%s: part %s: %s" % (prop, failure["part"], failure["message"]))
            print("case: %s" % canon(failure["case"])[:2000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if errors:
            print("ERROR in the check:\n%s" % errors[0], file=sys.stderr)
            return 2
        total = sum(st["evaluations"] for r in results.values() for st in r["parts"].values())
        print("%s: no violation in %d cases (%s, seed %d, %.1f s)" % (
            prop, total, tier, seed, time.monotonic() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write_evidence(mod, prop, tier, seed, results, evdir, wall, violations):
    evals, events, samples, hashes = 0, {}, [], set()
    parts, inconclusive, cut_short = {}, 0, 0
    for i in sorted(results):
        for name, st in results[i]["parts"].items():
            p = parts.setdefault(name, {"evaluations": 0, "nontrivial": set(), "events": {}, "cpu_s": 0,
                                         "max_case_cpu_s": 0, "guided": {}})
            evals += st["evaluations"]
            inconclusive += st["inconclusive"]
            cut_short += st["cut_short"]
            p["max_case_cpu_s"] = max(p["max_case_cpu_s"], st["max_case_cpu_s"])
            p["evaluations"] += st["evaluations"]
            p["cpu_s"] = round(p["cpu_s"] + st["cpu_s"], 2)
            p["nontrivial"].update(st["hashes"])
            for k, v in st["guided"].items():
                p["guided"][k] = round(p["guided"].get(k, 0) + v, 2)
            for k, v in st["events"].items():
                p["events"][k] = p["events"].get(k, 0) + v
            if len([s for s in samples if s["part"] == name]) < 2:
                for s in st["samples"][:1]:
                    samples.append({"part": name, "case": s})
    out_parts = {}
    distinct = 0
    for name, p in parts.items():
        distinct += len(p["nontrivial"])
        out_parts[name] = {"evaluations": p["evaluations"],
                           "distinct_nontrivial": len(p["nontrivial"]),
                           "cpu_s": p["cpu_s"],
                           "max_case_cpu_s": p["max_case_cpu_s"],
                           "coverage_guided": p["guided"],
                           "events": dict(sorted(p["events"].items()))}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": mod.RULE, "samples": samples, "parts": out_parts,
            "inconclusive": inconclusive, "cut_short": cut_short,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": violations,
    }
    path = os.path.join(evdir, "%s.json" % prop)
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.rename(path + ".tmp", path)
