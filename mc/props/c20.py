"""C20: a (count, dimension) register behaves exactly like the spelled-out list."""

import contextlib
import io
import itertools

import numpy as np

from mc import common, harness, mpl, ref

ID = "C20"
LEVEL = "model_checking"
ASSUMPTIONS = ("the graphical drawings are compared by the matplotlib artists they consist of",)
BACKENDS = ("default", "numpy", "sparse")


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "(n, d) for n in 1..%d, d in 2..%d and (1, 11), and a selection of calls for larger n up to 10 and d up to 300: every pair of calls (quick: not for (4, 4)) from all X Z H CX Toffoli custom-gate calls, accepted or not (registers -1..n, "
        "dimensions d-1..d+1), every initial state and wrong initial states, three backends, amplitude/probability and string/tuple output, two-letter periodic sequences of 12 calls, compared after "
        "every call in contents, statistics, text, graphical drawing (single calls) and results" % ((4, 4) if q else (5, 5))
    )


def mats(d):
    out = {"F1": ref.h_matrix(d), "bad": np.ones((d, d))}
    if d <= 16:
        out["P2"] = np.roll(np.eye(d * d), 1, axis=0)
    if d <= 8:
        out["P3"] = np.roll(np.eye(d ** 3), 2, axis=0)
    return out


def letters(n, d, lean):
    """Calls, valid or not."""
    ops = []
    if lean:
        dims = (d,) * n
        ops += [o for o in common.alphabet(dims, plus="one", tof="asc", max_controls=2)]
    else:
        for r in range(-1, n + 1):
            ops += [["h", r], ["z", r]] + [["x", r, p] for p in range(-1, d + 1)]
            ops += [[k, r, e] for k in ("hd", "zd", "xd") for e in (d - 1, d, d + 1)]
        for c, t in itertools.product(range(-1, n + 1), repeat=2):
            ops += [["cx", [c, t], p] for p in (1, d - 1, -1)]
        for t in range(n + 1):
            for k in range(0, n + 1):
                for cs in itertools.combinations(range(n + 1), k):
                    ops += [["tof", list(cs), t, 1]]
                    if k == 2:
                        ops += [["tof", list(cs)[::-1], t, d - 1]]
    for r in range(n + 1 if not lean else n):
        ops.append(["gate", "F1", [r]])
        if not lean or r + 1 < n:
            ops.append(["gate", "P2", [r, r + 1]])
    if n > 2:
        ops.append(["gate", "P3", [0, 1, 2]])
    if not lean:
        ops.append(["gate", "bad", [0]])
        ops.append(["gate", "P2", [0]])
    return ops


def units(tier):
    q = tier == "quick"
    u = []
    top_n, top_d = (4, 4) if q else (5, 5)
    for n in range(1, top_n + 1):
        for d in list(range(2, top_d + 1)) + ([11] if n == 1 else []):
            if d ** n > 1100:
                continue
            u.append({"k": "make", "n": n, "d": d})
            u.append({"k": "single", "n": n, "d": d})
            if not (q and (n, d) == (4, 4)):
                u.append({"k": "pairs", "n": n, "d": d})
    for n, d in LARGE:
        u.append({"k": "large", "n": n, "d": d})
    u += [{"k": "long", "n": n, "d": d} for n, d in ((1, 2), (1, 3), (1, 5), (2, 2), (2, 3), (3, 2))]
    for d in (2, 3):
        u.append({"k": "triples", "n": 2, "d": d})
    if not q:
        u += [{"k": "triples", "n": 3, "d": 2}, {"k": "triples", "n": 3, "d": 3}, {"k": "triples", "n": 2, "d": 4}]
    return u


LARGE = [(5, 2), (6, 2), (7, 2), (8, 2), (10, 2), (5, 3), (6, 3), (3, 5), (3, 7), (2, 6), (2, 7), (2, 10), (2, 11), (2, 16), (3, 10), (1, 6), (1, 7), (1, 10), (1, 20), (1, 130), (1, 300)]


def large(n, d):
    ops = [[k, r] + ([1] if k == "x" else []) for r in {0, 1, n // 2, n - 1, n} if r <= n for k in "xhz"]
    ops += [["x", n - 1, d - 1], ["x", 0, -1], ["hd", n - 1, d], ["hd", 0, d + 1], ["gate", "F1", [n - 1]], ["gate", "bad", [0]]]
    if n > 1 and d ** 2 <= 300:
        ops += [["cx", [0, n - 1], 1], ["cx", [n - 1, 0], d - 1], ["cx", [n - 2, n - 1], -1], ["cx", [n - 1, n], 1], ["gate", "P2", [n - 2, n - 1]]]
    if n > 2 and d ** n < 1000:
        ops += [["tof", [0, 1], n - 1, 1], ["tof", [n - 1, 1], 0, d - 1], ["tof", list(range(1, n)), 0, 1], ["tof", [0, 0], 1, 1]]
    return ops


def outcome(fn):
    """The value or the kind of error, in a comparable form."""
    try:
        return ["value", fn()]
    except Exception as e:
        return ["error", type(e).__name__, str(e)]


def call(qc, op, ms):
    kind = op[0]
    if kind == "hd":
        return qc.h(op[1], op[2])
    if kind == "zd":
        return qc.z(op[1], op[2])
    if kind == "xd":
        return qc.x(op[1], op[2])
    return harness.apply(qc, op, ms)


def shown(qc, dims, graphics=False):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        qc.draw()
    return [
        outcome(lambda: harness.contents(qc, dims)),
        outcome(qc.get_circuit_config),
        outcome(qc.get_circuit_info),
        outcome(lambda: str(qc)),
        buf.getvalue(),
        outcome(lambda: mpl.read(lambda: qc.draw(style="mpl"), len(dims))) if graphics else None,
    ]


def same(a, b):
    """Equality that follows numbers through to rounding."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.allclose(a, b)
    if isinstance(a, (int, float, complex, np.number)) and isinstance(b, (int, float, complex, np.number)):
        return type(a) is type(b) and abs(a - b) < ref.TOL
    return a == b


def differ(ctx, case, a, b, what):
    if not same(a, b):
        ctx.violation(case, f"{what}: the tuple register gives {str(a)[:400]}, the list {str(b)[:400]}")


def both(n, d, init, kw):
    out = []
    for regs in ((n, d), [d] * n):
        args = dict(kw)
        if init is not None:
            args["init_states"] = list(init)
        if "output" in args:
            args["output"] = harness.Output([d] * n, *args["output"])
        out.append(outcome(lambda: harness.QuantumCircuit(regs if isinstance(regs, tuple) else list(regs), **args)))
    return out


def play(ctx, n, d, init, ops, kw, graphics=False, label=None):
    case = {"register": [n, d], "init": init, "calls": ops, "options": str(label or kw)}
    dims = (d,) * n
    ms = mats(d)

    def go():
        a, b = both(n, d, init, kw)
        differ(ctx, case, a[0], b[0], "construction")
        if a[0] == "error":
            differ(ctx, case, a[1:], b[1:], "construction error")
            ctx.outcome((n, d, str(a)))
            return
        a, b = a[1], b[1]
        if graphics:
            differ(ctx, case, shown(a, dims, bool(ops)), shown(b, dims, bool(ops)), "before any call")
        accepted = True
        for i, op in enumerate(ops):
            ra, rb = outcome(lambda: call(a, op, ms)), outcome(lambda: call(b, op, ms))
            differ(ctx, case, ra, rb, f"call {op}")
            accepted = accepted and ra == ["value", True]
            ctx.transition()
        differ(ctx, case, shown(a, dims, graphics), shown(b, dims, graphics), "after the calls")
        differ(ctx, case, outcome(a.run)[0], outcome(b.run)[0], "a run without measurement")
        differ(ctx, case, outcome(a.measure_all), outcome(b.measure_all), "measure_all")
        if d ** n <= 1100:
            x, y = outcome(a.run), outcome(b.run)
            differ(ctx, case, x[:2] if x[0] == "value" else x[:2], y[:2], "the result")
            ctx.outcome((n, d, str(x)[:500]))
            plain = kw.get("output") in (None, PLAIN)
            if accepted and x[0] == "value" and plain:
                valid = [o for o in ops if o[0] in ("h", "z", "x", "cx", "tof", "gate")]
                if len(valid) == len(ops):
                    bad = harness.compare(x[1], ref.run(dims, init if init is not None else [], ops, ms))
                    if bad:
                        ctx.violation(case, bad)
            if x[0] == "value" and (x[1] == [] or len(ops) == 0):
                differ(ctx, case, outcome(a.run)[1], x[1], "a second run")
        differ(ctx, case, shown(a, dims), shown(b, dims), "after the run")
        differ(ctx, case, outcome(lambda: a.h(0)), outcome(lambda: b.h(0)), "a gate after measurement")

    ctx.guarded(go, case)
    ctx.trace()
    ctx.state((n, d, str(init), str(ops), str(label or kw)))
    ctx.sample(case)


PLAIN = (harness.OutputType.print, harness.OutputMethod.amplitude)
OUTPUTS = [(t, m) for t in (harness.OutputType.print, harness.OutputType.state) for m in (harness.OutputMethod.amplitude, harness.OutputMethod.probability)]


def options():
    for b in BACKENDS:
        kw = {} if harness.BACKENDS[b] is None else {"backend": harness.BACKENDS[b]}
        yield b, kw
    for o in OUTPUTS:
        yield f"output {o}", {"output": o}


def explore(unit, ctx):
    n, d = unit["n"], unit["d"]
    init = [(i + 1) % d for i in range(n)]
    if unit["k"] == "make":
        states = list(ref.all_digits((d,) * n))
        if len(states) > 100:
            states = [s for s in states if sum(x != 0 for x in s) <= 2 or len(set(s)) == 1]
        inits = [None, []] + [list(s) for s in states]
        inits += [[0] * (n + 1), [d] + [0] * (n - 1), [0] * (n - 1) + [-1], [0] * max(0, n - 1), [d - 1]]
        for i in inits:
            for ops in ([], [["h", n - 1]]):
                play(ctx, n, d, i, ops, {})
        for name, kw in options():
            play(ctx, n, d, None, [["x", 0, 1], ["h", n - 1]], kw, label=name)
        return
    if unit["k"] == "single":
        for op in letters(n, d, False):
            play(ctx, n, d, init, [op], {}, graphics=op in letters(n, d, True))
        for op in letters(n, d, True):
            for name, kw in options():
                play(ctx, n, d, init, [op], kw, label=name)
        return
    if unit["k"] == "large":
        ops = large(n, d)
        for op in ops:
            play(ctx, n, d, init, [op], {}, graphics=d ** n < 300)
        for i, op in enumerate(ops):
            play(ctx, n, d, None, [["h", 0], op, ops[(i * 3 + 1) % len(ops)]], {})
        for name, kw in options():
            play(ctx, n, d, init, [ops[0], ["h", n - 1]], kw, label=name)
        return
    if unit["k"] == "long":
        alpha = letters(n, d, True)
        for a, b in itertools.product(alpha, repeat=2):
            play(ctx, n, d, init, [a, b] * 6, {})
        play(ctx, n, d, init, alpha, {})
        play(ctx, n, d, init, alpha[::-1], {})
        return
    alpha = letters(n, d, unit["k"] == "triples" or n > 2)
    if unit["k"] == "pairs":
        if len(alpha) > 90:
            alpha = letters(n, d, True)
        for ops in itertools.product(alpha, repeat=2):
            play(ctx, n, d, init, list(ops), {})
    else:
        for ops in itertools.product(alpha, repeat=3):
            play(ctx, n, d, init, list(ops), {})
