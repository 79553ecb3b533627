"""C07: the report lists exactly the non-zero basis states, rightly labelled and valued."""

import itertools
import numbers

import numpy as np
import scipy.sparse

from mc import common, harness, ref

ID = "C07"
LEVEL = "model_checking"
ASSUMPTIONS = (
    "registers with two or more qudits and a dimension above 10 are explored in state mode only: their text labels are ambiguous by design",
    "values are compared with relative tolerance 1e-9",
)
VALUES = [0, 1, -0.5, 0.6j, 1e-6 + 1e-6j, -0.3 + 0.4j]


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "Output on every state vector over %s: all vectors of size <=%d with 6 values, size <=%d with 3 values, and every support set of size "
        "<=2 and its complement on %s register shapes; entries down to 5e-324; vectors of up to %s entries; all four type/method settings; dense, CSR, CSC and COO vectors, with and without stored zeros; "
        "and through QuantumCircuit.run on both backends with every output setting on every basis state and one-gate superposition"
        % (VALUES, 5 if q else 6, 9 if q else 12, "25" if q else "60", "1024" if q else "70000")
    )


MODES = [("print", "amplitude"), ("print", "probability"), ("state", "amplitude"), ("state", "probability")]


def size(s):
    return int(np.prod(s))


def units(tier):
    q = tier == "quick"
    u = []
    lim6, lim3 = (5, 9) if q else (6, 12)
    shapes = [(d,) for d in range(2, 13)]
    shapes += list(itertools.product(range(2, 6), repeat=2)) + [(10, 10), (3, 10), (10, 3), (2, 7), (9, 2)]
    shapes += list(itertools.product((2, 3), repeat=3)) + [(4, 2, 3), (2, 5, 2), (2, 3, 4)]
    shapes += [(2, 2, 2, 2), (2, 3, 2, 2), (3, 2, 2, 3), (2,) * 5, (2, 2, 2, 3, 2), (2,) * 6]
    if not q:
        shapes += list(itertools.product((2, 3, 4), repeat=3)) + list(itertools.product((2, 3), repeat=4)) + [(2,) * 7, (3,) * 5]
    wide = [(11, 2), (2, 11), (12, 13), (2, 16, 3)]
    seen = set()
    for s in shapes:
        if s in seen:
            continue
        seen.add(s)
        n = size(s)
        if n <= lim6:
            for f in range(6):
                u.append({"k": "vectors", "shape": s, "values": 6, "first": f})
        elif n <= lim3:
            for f in range(3):
                u.append({"k": "vectors", "shape": s, "values": 3, "first": f})
        u.append({"k": "supports", "shape": s, "modes": "all"})
    for s in wide:
        u.append({"k": "supports", "shape": s, "modes": "state"})
    for s in [(2,), (3,), (5,), (10,), (12,), (2, 3), (3, 2), (4, 2), (2, 2, 3), (3, 2, 2), (2, 3, 2, 2)]:
        u.append({"k": "circuit", "shape": s})
    u.append({"k": "circuit", "shape": (11, 3)})
    for s in [(2,), (4,), (2, 3), (2, 2, 2)]:
        u.append({"k": "tiny", "shape": s})
    for s, modes in [((64,), "all"), ((130,), "all"), ((300,), "all"), ((2, 130), "state"), ((130, 2), "state"), ((2,) * 10, "all"), ((3,) * 6, "all"), ((2, 300), "state"), ((10, 10, 10), "all"), ((7, 9, 8), "all")] + (
            [] if q else [((2,) * 12, "all"), ((3,) * 8, "all"), ((10,) * 4, "all"), ((70000,), "all")]):
        u.append({"k": "large", "shape": s, "modes": modes})
    return u


def output(shape, mode):
    t, m = mode
    return harness.Output(list(shape), harness.OutputType[t], harness.OutputMethod[m])


def check_report(report, vector, shape, mode):
    """None, or what is wrong with the report of `vector`."""
    got = harness.decode(report, shape, state_mode=mode[0] == "state")
    want = {digits: vector[i] for i, digits in enumerate(ref.all_digits(shape)) if vector[i] != 0}
    if set(got) != set(want):
        missing = [k for k in want if k not in got]
        extra = [k for k in got if k not in want]
        return f"missing basis states {missing[:4]}, unexpected {extra[:4]}"
    for k, a in want.items():
        value = got[k]
        if isinstance(value, np.ndarray):
            return f"the value of {k} is an array: {value!r}"
        if mode[1] == "probability":
            if not isinstance(value, numbers.Real):
                return f"the probability of {k} is not a real number: {value!r}"
            if abs(float(value) - abs(a) ** 2) > 1e-9 * abs(a) ** 2 + 1e-300:
                return f"the probability of {k} is {value!r}, expected {abs(a) ** 2}"
        elif abs(complex(value) - a) > 1e-9 * abs(a):
            return f"the amplitude of {k} is {value!r}, expected {a}"
    return None


def stored_zero(v):
    """The same vector with every entry stored, zeros included."""
    n = len(v)
    return scipy.sparse.csr_matrix((v, np.zeros(n, dtype=int), np.arange(n + 1)), shape=(n, 1))


FORMS = {
    "dense": lambda v: v.reshape(-1, 1),
    "csr": lambda v: scipy.sparse.csr_matrix(v.reshape(-1, 1)),
    "csc": lambda v: scipy.sparse.csc_matrix(v.reshape(-1, 1)),
    "coo": lambda v: scipy.sparse.coo_matrix(v.reshape(-1, 1)),
    "stored zeros": stored_zero,
}


def one(ctx, vector, shape, mode, form):
    case = {"shape": shape, "vector": [str(x) for x in vector], "mode": mode, "form": form}

    def go():
        given = FORMS[form](vector.copy())
        out = output(shape, mode)
        bad = check_report(out(given), vector, shape, mode)
        if bad:
            return bad
        dense = given.toarray() if hasattr(given, "toarray") else given
        if not np.array_equal(dense.reshape(-1), vector):
            return "reporting changed the state vector"
        return None

    bad = ctx.guarded(go, case)
    if bad:
        ctx.violation(case, bad)
    ctx.trace()
    ctx.outcome((shape, vector.tobytes()))
    ctx.sample(case)


def explore(unit, ctx):
    shape = tuple(unit["shape"])
    if unit["k"] == "vectors":
        vals = VALUES if unit["values"] == 6 else [0, -0.5, 0.6j]
        for rest in itertools.product(vals, repeat=size(shape) - 1):
            v = np.array((vals[unit["first"]],) + rest, dtype=complex)
            ctx.state((shape, v.tobytes()))
            for i, mode in enumerate(MODES):
                ctx.transition()
                one(ctx, v, shape, mode, "dense" if i % 2 == 0 else "csr")
                if size(shape) <= 4:
                    one(ctx, v, shape, mode, "csr" if i % 2 == 0 else "dense")
        return
    if unit["k"] == "supports":
        n = size(shape)
        sets = [()] + [(i,) for i in range(n)]
        if n <= 40:
            sets += list(itertools.combinations(range(n), 2))
        else:
            sets += [(i, (i * 7 + 3) % n) for i in range(n) if i != (i * 7 + 3) % n]
        for s in sets:
            for co in (False, True):
                v = np.zeros(n, dtype=complex)
                idx = [i for i in range(n) if (i in s) != co]
                for j, i in enumerate(idx):
                    v[i] = (0.1 + 0.01 * j) * 1j ** j
                ctx.state((shape, v.tobytes()))
                for mode in MODES:
                    if unit["modes"] == "state" and mode[0] != "state":
                        continue
                    for form in FORMS if n <= 6 or not s else ("dense", "csr"):
                        ctx.transition()
                        one(ctx, v, shape, mode, form)
                # a real vector
                if len(s) < 2:
                    one(ctx, np.abs(v), shape, MODES[3], "dense")
                    one(ctx, np.abs(v), shape, MODES[2], "csr")
        return
    if unit["k"] == "tiny":
        # magnitudes from the smallest representable ones up, alone and next to large ones
        for a in (1e-9, 1e-13, -1e-13j, 1e-17, 1e-30j, -1e-100, 1e-160, 1e-200j, 1e-300, 5e-324):
            for i, j in itertools.product(range(size(shape)), repeat=2):
                v = np.zeros(size(shape), dtype=complex)
                v[j] = 0.6 - 0.8j
                v[i] = a
                ctx.state((shape, v.tobytes()))
                for mode, form in itertools.product(MODES, FORMS):
                    ctx.transition()
                    one(ctx, v, shape, mode, form)
        return
    if unit["k"] == "large":
        n = size(shape)
        for name, idx in (("all", range(n)), ("even", range(0, n, 2)), ("last half", range(n // 2, n)), ("one", [n - 1]), ("all but first", range(1, n))):
            v = np.zeros(n, dtype=complex)
            for i in idx:
                v[i] = (1 + i % 7 - 1j * (i % 5)) / 13
            ctx.state((shape, v.tobytes()))
            for mode in MODES:
                if unit["modes"] == "state" and mode[0] != "state":
                    continue
                for form in ("dense", "csr"):
                    ctx.transition()
                    one(ctx, v, shape, mode, form)
        return
    circuits(ctx, shape)


def circuits(ctx, shape):
    n = len(shape)
    unambiguous = max(shape) <= 10 or n == 1
    gates = [[]] + [[["h", r]] for r in range(n)] + [[["h", r], ["z", r]] for r in range(n)]
    if n > 1:
        gates += [[["h", 0], ["cx", [0, n - 1], 1]], [["h", n - 1], ["z", n - 1], ["cx", [n - 1, 0], 1]]]
    inits = list(ref.all_digits(shape))
    for ops in gates:
        for init in inits if len(inits) <= 24 else inits[::3] + inits[-1:]:
            v = ref.run(shape, init, ops)
            for mode in MODES:
                if mode[0] == "print" and not unambiguous:
                    continue
                for backend in ("default", "numpy"):
                    case = {"dims": shape, "init": init, "ops": ops, "mode": mode, "backend": backend}

                    def go():
                        qc = harness.build(list(shape), init, backend, output=output(shape, mode))
                        for op in ops:
                            harness.apply(qc, op)
                        qc.measure_all()
                        return judge_run(qc, v, shape, mode)

                    bad = ctx.guarded(go, case)
                    if bad:
                        ctx.violation(case, bad)
                    ctx.transition(len(ops))
                    ctx.trace()
                    ctx.state(ref.vkey(v))
                    ctx.outcome((mode, ref.vkey(v)))
                    ctx.sample(case)


def judge_run(qc, v, shape, mode):
    report = qc.run()
    got = harness.decode(report, shape, state_mode=mode[0] == "state")
    total = 0
    for digits in ref.all_digits(shape):
        want = v[digits]
        value = got.get(digits, 0)
        if mode[1] == "probability":
            if not isinstance(value, numbers.Real):
                return f"the probability of {digits} is not a real number: {value!r}"
            total += float(value)
            want = abs(want) ** 2
        if abs(complex(value) - want) > 1e-9:
            return f"{mode[1]} of {digits} is {value!r}, expected {want}"
        if abs(v[digits]) > 1e-6 and digits not in got:
            return f"basis state {digits} is missing"
    if mode[1] == "probability" and abs(total - 1) > 1e-9:
        return f"the probabilities sum to {total}"
    return None
