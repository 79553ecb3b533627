"""Bounded exhaustive exploration engine.

A property module (mc/props/cNN.py) gives
    ID, LEVEL, BOUNDS(tier) -> text, ASSUMPTIONS
    units(tier)            -> list of JSON-able work units, simplest first
    explore(unit, ctx)     -> explores the unit's whole sub-space, reporting to ctx
Every unit runs in its own freshly forked process, so what one unit leaves behind in
module state can neither hide nor cause anything in another one, and a unit is replayed
exactly by exploring it again in a fresh process.  No unit is cut short by time: a run
either explores all of its units, or stops at a violation.
"""

import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import shutil
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_SECONDS = 120
UNIT_SECONDS = {"quick": 600, "thorough": 7200}
UNIT_BYTES = 3500 << 20
MAX_KNOWN_PER_KEY = 3


class StopUnit(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def h64(obj):
    data = obj if isinstance(obj, bytes) else repr(obj).encode()
    return int.from_bytes(hashlib.blake2b(data, digest_size=8).digest(), "big")


class Ctx:
    def __init__(self, known, unit):
        self.known = known
        self.unit = unit
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violation_record = None
        self.known_hits = {}
        self.counters = {}

    # -- accounting ---------------------------------------------------------------
    def state(self, key):
        self.states.add(h64(key))

    def is_new_state(self, key):
        k = h64(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, what):
        self.samples = [what]

    # -- judging ------------------------------------------------------------------
    def violation(self, case, message, key=None, script=None):
        if key is not None and key in self.known:
            hits = self.known_hits.setdefault(key, {"count": 0, "examples": []})
            hits["count"] += 1
            if len(hits["examples"]) < MAX_KNOWN_PER_KEY:
                hits["examples"].append({"case": case, "message": message})
            return
        self.violation_record = {
            "case": case,
            "message": message,
            "unit": self.unit,
            "script": script,
        }
        raise StopUnit()

    def guarded(self, fn, case, script=None):
        """Runs fn(); an escaping exception or a hang is itself a violation."""
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
        try:
            return fn()
        except StopUnit:
            raise
        except CaseTimeout:
            msg = f"no answer within {CASE_SECONDS} s"
        except Exception as e:  # the code under test raised where it must not
            tb = traceback.extract_tb(e.__traceback__)
            if isinstance(e, AssertionError) and os.path.realpath(tb[-1].filename).startswith(VERIF + os.sep):
                raise  # the checker's own assertion: its fault, not the code's
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
            msg = f"unexpected {type(e).__name__}: {e} [{where}]"
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        self.violation(case, msg, script=script() if callable(script) else script)

    def result(self):
        return {
            "states": self.states,
            "outcomes": self.outcomes,
            "transitions": self.transitions,
            "traces": self.traces,
            "samples": self.samples,
            "violation": self.violation_record,
            "known": self.known_hits,
            "counters": self.counters,
        }


def _on_alarm(signum, frame):
    raise CaseTimeout()


_MODULE = None
_KNOWN = ()


def _run_unit(unit):
    t0 = time.time()
    r = _run_unit_inner(unit)
    if os.environ.get("MC_TIMES"):
        print(f"TIME {time.time() - t0:.2f} {json.dumps(unit, default=str)}", file=sys.stderr)
    return r


def _run_unit_inner(unit):
    ctx = Ctx(_KNOWN, unit)
    try:
        _MODULE.explore(unit, ctx)
    except StopUnit:
        pass
    except BaseException as e:
        frames = traceback.extract_tb(e.__traceback__)
        repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep
        if not any(os.path.realpath(f.filename).startswith(repo) for f in frames):
            return {"internal_error": traceback.format_exc(), "unit": unit}
        # the code under test raised where nothing allows it to
        ctx.violation_record = {
            "case": "see the traceback",
            "message": f"unexpected {type(e).__name__}: {e}",
            "unit": unit,
            "script": None,
            "traceback": traceback.format_exc(),
        }
    return ctx.result()


def _child(unit, conn):
    resource.setrlimit(resource.RLIMIT_AS, (UNIT_BYTES, UNIT_BYTES))
    conn.send(_run_unit(unit))
    conn.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)  # whatever threads the code under test left behind


def run_units(units, workers, limit):
    """Explores every unit in a process of its own; yields the results in the units' order."""
    mp = multiprocessing.get_context("fork")
    active, ready, started, given = {}, {}, 0, 0
    try:
        while given < len(units):
            while started < len(units) and len(active) < workers:
                mine, theirs = mp.Pipe(duplex=False)
                p = mp.Process(target=_child, args=(units[started], theirs))
                p.start()
                theirs.close()
                active[mine] = (started, p, time.time())
                started += 1
            for conn in multiprocessing.connection.wait(list(active), timeout=5):
                i, p, _ = active.pop(conn)
                try:
                    ready[i] = conn.recv()
                except EOFError:
                    p.join()
                    ready[i] = lost(units[i], f"the process exploring this unit ended with exit code {p.exitcode}", p.exitcode == -signal.SIGKILL)
                conn.close()
                p.join()
            for conn, (i, p, since) in list(active.items()):
                if time.time() - since > limit:
                    active.pop(conn)
                    p.kill()
                    p.join()
                    conn.close()
                    ready[i] = lost(units[i], f"no answer within {limit} s", False)
            while given in ready:
                yield ready.pop(given)
                given += 1
    finally:
        for conn, (i, p, _) in active.items():
            p.kill()
            p.join()


def lost(unit, message, outside):
    if outside:  # killed from outside: says nothing about the code under test
        return {"internal_error": message, "unit": unit}
    ctx = Ctx(_KNOWN, unit)
    ctx.violation_record = {"case": "the whole unit", "message": message, "unit": unit, "script": None}
    return ctx.result()


def load_known(prop):
    keys = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                fields = dict(f.split("=", 1) for f in line.split("::")[0].split()[1:])
                if fields["property"] == prop:
                    keys[fields["key"]] = line.split("::", 1)[1].strip()
    return keys


def write_violation(prop, rec):
    d = os.path.join(VERIF, "out", prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "violation.json")
    with open(path, "w") as f:
        json.dump({"property": prop, **rec}, f, indent=1, default=str)
    if rec.get("script"):
        with open(os.path.join(d, "repro.py"), "w") as f:
            f.write(rec["script"])
    return path


def run_check(prop, tier):
    global _MODULE, _KNOWN
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    _MODULE = importlib.import_module(f"mc.props.{prop.lower()}")
    known = load_known(prop)
    _KNOWN = frozenset(known)
    shutil.rmtree(os.path.join(VERIF, "out", prop), ignore_errors=True)
    units = _MODULE.units(tier)
    workers = min(8, os.cpu_count() or 1, max(1, len(units)))
    tot = {"states": set(), "outcomes": set(), "transitions": 0, "traces": 0, "samples": [], "counters": {}}
    known_hits = {}
    violation = None
    done = 0
    sys.stdout.flush()
    results = run_units(units, workers, UNIT_SECONDS[tier])
    try:
        for r in results:
            if "internal_error" in r:
                print("INTERNAL ERROR in unit", json.dumps(r["unit"], default=str), file=sys.stderr)
                print(r["internal_error"], file=sys.stderr)
                return 2
            done += 1
            tot["states"] |= r["states"]
            tot["outcomes"] |= r["outcomes"]
            tot["transitions"] += r["transitions"]
            tot["traces"] += r["traces"]
            tot["samples"] += r["samples"]
            for k, v in r["counters"].items():
                old = tot["counters"].get(k, 0)
                tot["counters"][k] = max(old, v) if k.startswith("max_") else old + v
            for k, v in r["known"].items():
                e = known_hits.setdefault(k, {"count": 0, "examples": v["examples"]})
                e["count"] += v["count"]
            if r["violation"]:
                violation = r["violation"]
                break
    finally:
        results.close()

    coverage = {"states": len(tot["states"]), "transitions": tot["transitions"]}
    if _MODULE.LEVEL == "model_checking":
        coverage["traces_validated_against_impl"] = tot["traces"]
        coverage["distinct_outcomes"] = len(tot["outcomes"])
    else:
        coverage["evaluations"] = tot["traces"]
        coverage["distinct_nontrivial"] = len(tot["outcomes"])
        coverage["rule"] = (
            "evaluations = executions of the real code judged by the oracle; "
            "distinct_nontrivial = distinct observed outcomes among them"
        )
    coverage.update({
        "units_explored": done,
        "units_total": len(units),
        "exhaustive": violation is None and done == len(units),
        "bounds": _MODULE.BOUNDS(tier),
        "samples": tot["samples"][:: max(1, len(tot["samples"]) // 6)][:7] or ["(none)"],
        "known_findings_hit": {k: v["count"] for k, v in known_hits.items()},
        **tot["counters"],
    })
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": _MODULE.LEVEL,
        "coverage": coverage,
        "assumptions": list(_MODULE.ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    for k, v in known_hits.items():
        print(f"KNOWN-FINDING: property={prop} {known[k]} [key={k}, {v['count']} cases]")
    print(
        f"{prop} {tier}: states={coverage['states']} transitions={coverage['transitions']} "
        f"executions={tot['traces']} outcomes={len(tot['outcomes'])} "
        f"units={done}/{len(units)} wall={evidence['wall_s']}s"
    )
    if violation:
        path = write_violation(prop, violation)
        print(f"counterexample: {violation['message']}")
        print(f"case: {json.dumps(violation['case'], default=str)[:2000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if not tot["traces"] or len(tot["outcomes"]) < 2:
        print("vacuous exploration", file=sys.stderr)
        return 2
    return 0


def replay(path):
    """Explores the recorded unit again, in a fresh process, and reports what it finds."""
    global _MODULE, _KNOWN
    rec = json.load(open(path))
    _MODULE = importlib.import_module(f"mc.props.{rec['property'].lower()}")
    _KNOWN = frozenset(load_known(rec["property"]))
    (r,) = run_units([rec["unit"]], 1, UNIT_SECONDS["thorough"])
    if "internal_error" in r:
        print(r["internal_error"], file=sys.stderr)
        return 2
    if r["violation"]:
        print("reproduced:", r["violation"]["message"])
        print("case:", json.dumps(r["violation"]["case"], default=str))
        return 1
    print("not reproduced")
    return 0
