"""C21: circuits built and run in different threads do not interfere."""

import itertools

import numpy as np

from mc import harness, ref, sched

from qudiet.qasm.qasm_parser import circuit_from_qasm  # noqa: E402

ID = "C21"
LEVEL = "model_checking"
ASSUMPTIONS = (
    "threads are switched at the events of the code in /repo/src only (function entries and exits, lines, bytecodes): numpy, scipy and the "
    "interpreter are taken to be atomic and thread-safe; matplotlib's pyplot is not thread-safe by itself and is left out",
)


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "%d scenarios of two threads, each schedule in a fresh process: every single preemption at %s level in both directions and every pair of preemptions "
        "at function-entry/exit level (%s); every schedule's replayed prefix is compared with the recorded one"
        % (len(SCENARIOS), "line" if q else "line and bytecode", f"function-entry level in {len(DOUBLE)} scenarios" if q else "function-entry/exit level in all scenarios, one also with three threads and at line level")
    )


P6 = np.roll(np.eye(6), 1, axis=0)
Y = np.array([[0, -1j], [1j, 0]])
MATS = {"P6": P6, "Y": Y}


VALID = (["cx", [0, 1], 2], ["cx", [1, 0], 2])


def attempt(qc, op):
    try:
        return harness.apply(qc, op)
    except Exception as e:
        return type(e).__name__


def life(dims, init, ops, backend="default", look=False, output=None, tuple_reg=False, refusals=False):
    """A circuit's whole life in one thread."""

    def body():
        kw = {} if output is None else {"output": harness.Output(list(dims), *output)}
        regs = (len(dims), dims[0]) if tuple_reg else list(dims)
        qc = harness.build(regs, list(init), backend, **kw)
        answers = [attempt(qc, op) if refusals else harness.apply(qc, op, MATS) for op in ops]
        seen = [str(qc), qc.get_circuit_info()] if look else []
        qc.measure_all()
        return [answers, seen, qc.run(), (qc.get_circuit_config(), str(qc), qc.run()) if look else None]

    body.want = None if output else (tuple(dims), list(init), [op for op in ops if not refusals or op in VALID])
    return body


def reading(text, dims, ops):
    def body():
        qc = circuit_from_qasm(text)
        return [qc.get_circuit_info(), qc.run()]

    body.want = dims and (dims, [0] * len(dims), ops)
    return body


QA = "\n.qudit 2\nqudit x0 (2)\nqudit x1 (3)\n.begin\nX x0\nCX x0 x1 2\n.end\n"
QB = "\n.qubit 3\nqubit x0\nqubit x1\nqubit x2\n.begin\nX x1\nToffoli x0 x1 x2\n.end\n"


QC = "\n.qubit 4\nqubit x0\nqubit x1\nqubit x2\nqubit x3\n.begin\nX x0\nX x3\nToffoli x3 x0 x1\nH x2\n.end\n"


def same_finished():
    qc = harness.build([2, 3], [1, 0])
    ops = [["h", 0], ["cx", [0, 1], 2], ["x", 1, 1]]
    for op in ops:
        harness.apply(qc, op)
    qc.measure_all()

    def one():
        return [qc.run(), qc.get_circuit_info()]

    def two():
        return [qc.get_circuit_config(), str(qc), qc.run()]

    one.want = two.want = ((2, 3), [1, 0], ops)
    return [one, two]


def pair(a, b):
    return lambda: [a(), b()]


SCENARIOS = {
    "x and h": pair(lambda: life([2], [0], [["x", 0, 1]]), lambda: life([3], [1], [["h", 0]])),
    "other dimensions": pair(
        lambda: life([2, 3], [1, 2], [["h", 0], ["cx", [0, 1], 2]]), lambda: life([3, 2], [2, 1], [["x", 1, 1], ["cx", [1, 0], 1], ["z", 0]])),
    "same dimensions, other gates": pair(
        lambda: life([2, 2], [0, 1], [["h", 0], ["cx", [0, 1], 1]]), lambda: life([2, 2], [1, 0], [["cx", [1, 0], 1], ["x", 1, 1], ["h", 1]])),
    "same layer": pair(
        lambda: life([3, 3], [0, 1], [["x", 0, 1], ["z", 1], ["x", 0, 2]]), lambda: life([3, 3], [2, 0], [["z", 0], ["x", 1, 2], ["h", 0]])),
    "toffoli": pair(
        lambda: life([2, 2, 3], [1, 1, 0], [["tof", [0, 1], 2, 2]]), lambda: life([3, 2, 2], [2, 0, 1], [["tof", [2, 0], 1, 1], ["x", 1, 1]])),
    "custom": pair(
        lambda: life([2, 3], [1, 0], [["gate", "P6", [0, 1]], ["h", 0]]), lambda: life([2, 3], [0, 2], [["gate", "Y", [0]], ["gate", "P6", [0, 1]]])),
    "backends": pair(
        lambda: life([2, 2], [1, 0], [["h", 0], ["cx", [0, 1], 1]], "numpy"), lambda: life([2, 2], [1, 0], [["h", 1], ["cx", [1, 0], 1]], "sparse")),
    "dense": pair(
        lambda: life([3, 2], [1, 0], [["h", 0], ["z", 1]], "numpy"), lambda: life([2, 3], [1, 2], [["h", 1], ["x", 0, 1]], "numpy")),
    "inspection": pair(lambda: life([2, 3], [1, 2], [["cx", [0, 1], 2]], look=True), lambda: life([3, 2], [2, 1], [["x", 1, 1], ["h", 0]], look=True)),
    "outputs": pair(
        lambda: life([2, 3], [1, 0], [["h", 0]], output=(harness.OutputType.state, harness.OutputMethod.probability)),
        lambda: life([3, 2], [1, 0], [["h", 0]], output=(harness.OutputType.print, harness.OutputMethod.amplitude))),
    "tuple register": pair(
        lambda: life([3, 3], [1, 0], [["h", 0], ["cx", [0, 1], 1]], tuple_reg=True), lambda: life([2, 2, 2], [1, 0, 1], [["tof", [0, 2], 1, 1]], tuple_reg=True)),
    "qasm": pair(lambda: reading(QA, (2, 3), [["x", 0, 1], ["cx", [0, 1], 2]]), lambda: reading(QB, None, None)),
    "qasm twice": pair(lambda: reading(QB, None, None), lambda: reading(QB, None, None)),
    "one finished circuit": same_finished,
    "phases": pair(
        lambda: life([2, 3], [1, 2], [["z", 0], ["h", 1]]), lambda: life([3, 2], [2, 1], [["h", 1], ["z", 0], ["x", 0, 2]])),
    "dense toffoli": pair(
        lambda: life([2, 2, 2], [1, 1, 0], [["tof", [0, 1], 2, 1]], "numpy"), lambda: life([2, 3, 2], [1, 2, 1], [["tof", [1, 2], 0, 1]], "numpy")),
    "qasm toffolis": pair(lambda: reading(QB, None, None), lambda: reading(QC, None, None)),
    "calls refused": pair(
        lambda: life([2, 3], [1, 2], [["x", 5, 1], ["cx", [0, 1], 2]], refusals=True), lambda: life([3, 2], [2, 1], [["cx", [1, 0], 2], ["tof", [0], 0, 1]], refusals=True)),
}
DOUBLE = ["x and h", "calls refused", "dense"]


def counts(name, level):
    """How many events each thread makes when it goes first, alone."""
    return sched.in_fork(lambda: _counts(name, level)) or [0, 0]


def _counts(name, level):
    out = []
    n = 2
    for t in range(n):
        r = sched.run(SCENARIOS[name], [[t, None]], level)
        out.append(r["events"][t] if r else 0)
    return out


def units(tier):
    q = tier == "quick"
    u = []
    for name in SCENARIOS:
        u.append({"k": "alone", "s": name})
    # the ranges are cut small so that the work spreads evenly; the last one is open-ended
    for level, per in ((("line", 150),) if q else (("line", 150), ("opcode", 400))):
        for name in SCENARIOS:
            for t, n in enumerate(counts(name, level)):
                for lo in range(0, n, per):
                    u.append({"k": "single", "s": name, "level": level, "first": t, "range": [lo, min(n, lo + per)]})
    level, per = ("entry", 2) if q else ("call", 2)
    for name in DOUBLE if q else SCENARIOS:
        for t, n in enumerate(counts(name, level)):
            for lo in range(0, n, per):
                u.append({"k": "double", "s": name, "level": level, "first": t, "range": [lo, min(n, lo + per)]})
    if not q:
        for t, n in enumerate(counts("x and h", "line")):
            for lo in range(0, n, 4):
                u.append({"k": "double", "s": "x and h", "level": "line", "first": t, "range": [lo, min(n, lo + 4)]})
        n = counts("dense", "call")[0]
        for lo in range(0, n, 2):
            u.append({"k": "three", "s": "dense", "level": "call", "first": 0, "range": [lo, min(n, lo + 2)]})
    return u


def three():
    return SCENARIOS["dense"]() + [life([2, 2], [1, 1], [["cx", [1, 0], 1], ["h", 0]])]


_TRUTH = {}


def truth(name, level):
    """What each thread gets, and where it goes, when it runs alone in a fresh process."""
    key = (name, level)
    if key not in _TRUTH:
        make = three if name == "three" else SCENARIOS[name]
        alone = []
        for t in range(len(make())):
            # a one-thread run of the same body
            r = sched.run(lambda: [make()[t]], [[0, None]], level, record=True)
            alone.append(r)
        _TRUTH[key] = alone
    return _TRUTH[key]


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float, complex, np.number)) and isinstance(b, (int, float, complex, np.number)):
        return bool(abs(a - b) <= ref.TOL)
    return a == b


def explore(unit, ctx):
    name = unit["s"]
    if unit["k"] == "alone":
        alone(name, ctx)
        return
    key = "three" if unit["k"] == "three" else name
    level, first = unit["level"], unit["first"]
    make = three if key == "three" else SCENARIOS[name]
    base = truth(key, level)
    n = len(base)
    second = (first + 1) % n
    for i in range(*unit["range"]):
        if unit["k"] == "single":
            # thread `first` is preempted after its (i+1)-th event by the whole of the other
            plans = [[[first, i + 1], [second, None], [first, None]]]
        elif unit["k"] == "double":
            # ... and the other one is preempted after its (j+1)-th
            m = base[second]["events"][0]
            plans = [[[first, i + 1], [second, j + 1], [first, None], [second, None]] for j in range(m)]
        else:
            m = base[1]["events"][0]
            plans = [[[0, i + 1], [1, j + 1], [2, None], [1, None], [0, None]] for j in range(m)]
        for plan in plans:
            one(ctx, key, make, plan, level, base, first)


def alone(name, ctx):
    for t, (r, body) in enumerate(zip(truth(name, "line"), SCENARIOS[name]())):
        case = {"scenario": name, "thread": t}
        if r is None or r["results"][0][0] != "value":
            ctx.violation(case, f"alone, the thread fails: {r and r['results'][0]}")
        if body.want:
            dims, init, ops = body.want
            report = next(x for x in r["results"][0][1] if isinstance(x, list) and x and isinstance(x[0], dict) and str(next(iter(x[0]))).startswith("|"))
            bad = harness.compare(report, ref.run(tuple(dims), init, ops, MATS))
            if bad:
                ctx.violation(case, f"alone, {bad}")
        again = sched.run(lambda: [SCENARIOS[name]()[t]], [[0, None]], "line", record=True)
        if again is None or again["where"] != r["where"]:
            ctx.count("replay_mismatches")
        ctx.trace()
        ctx.state((name, t, "alone"))
        ctx.outcome((name, t, str(r["results"])))


def one(ctx, name, make, plan, level, base, first):
    case = {"scenario": name, "level": level, "schedule": plan}
    r = sched.run(make, plan, level)
    if r is None:
        ctx.violation(case, "the threads did not finish within 60 s (or their process died)")
    for t, got in enumerate(r["results"]):
        want = base[t]["results"][0] if base[t] else None
        if not same(got, want):
            at = base[first]["where"][min(plan[0][1], len(base[first]["where"])) - 1]
            ctx.violation(case, f"thread {t} gets {str(got)[:500]}, alone it gets {str(want)[:500]} (thread {first} is preempted at {at})")
    if r["events"] != [b["events"][0] for b in base]:
        ctx.count("schedules_that_change_the_path")
    if r["stalled"]:
        ctx.count("schedules_with_a_blocking_wait")
    ctx.trace()
    ctx.transition(sum(r["events"]))
    ctx.count("preemptions", len(plan) - len(base) if len(base) == 2 else 2)
    ctx.state((name, level, str(plan)))
    ctx.outcome((name, plan[0], str(base[first]["where"][min(plan[0][1], len(base[first]["where"])) - 1])))
    ctx.sample(case)
