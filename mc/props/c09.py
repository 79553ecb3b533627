"""C09: measurement closes a circuit: required before a run, nothing is added after."""

import itertools

import numpy as np

from mc import common, harness, ref

ID = "C09"
LEVEL = "model_checking"
ASSUMPTIONS = ("an unmeasured run may fail with any exception",)


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every sequence of up to %d calls from {X, Z, H, CX, Toffoli, custom gate on one and two registers, measure_all, measure(0), run, "
        "statistics and drawing}, on registers %s, default and dense backend; every two-letter periodic sequence of 24 calls, and up to 20 gates, measurement and up to 40 more calls; after every call the layers, depth, gate counts and "
        "result are compared with the model" % ((4, "(3), (2,3), (2,2,2) (and eleven qubits up to 2 calls)") if q else (5, "(3), (2,3), (3,2), (2,2,2) (and eleven qubits up to 3 calls)"))
    )


MATS = {"G2": np.array([[0, -1j], [1j, 0]]), "G3": np.diag([1, 1j, -1]), "G4": np.roll(np.eye(4), 1, axis=0), "G6": np.roll(np.eye(6), 1, axis=0)}


def letters(dims):
    n = len(dims)
    if n > 9:
        ops = [["x", 0, 1], ["x", n - 1, 1], ["h", 9], ["gate", f"G{dims[n - 1]}", [n - 1]], ["cx", [n - 2, n - 1], 1], ["tof", [8, 9], 10, 1]]
        return ops + ["measure_all", "run", "look"]
    ops = [["x", 0, 1], ["h", n - 1], ["gate", f"G{dims[0]}", [0]]]
    if n == 1:
        ops += [["z", 0]]
    if n > 1:
        ops += [["cx", [n - 1, 0], 1], ["gate", f"G{dims[0] * dims[1]}", [0, 1]]]
        ops += [["tof", list(range(n - 1)), n - 1, 1]]
    return ops + ["measure_all", "measure(0)", "run", "look"]


SHAPES = [(3,), (2, 3), (3, 2), (2, 2, 2)]


def units(tier):
    q = tier == "quick"
    u = []
    for depth in (2, 3, 4) if q else (2, 3, 5):
        for s in SHAPES if not q else (SHAPES[0], SHAPES[1], SHAPES[3]):
            n = len(letters(s))
            for b in ("default", "numpy"):
                if depth == 2:
                    u.append({"dims": s, "depth": 2, "b": b, "first": None, "second": None})
                    continue
                for i in range(n):
                    if depth == 5:
                        u += [{"dims": s, "depth": depth, "b": b, "first": i, "second": j} for j in range(n)]
                    else:
                        u.append({"dims": s, "depth": depth, "b": b, "first": i, "second": None})
    u += [{"dims": (2,) * 11, "depth": 2 if q else 3, "b": "default", "first": i, "second": None} for i in range(len(letters((2,) * 11)))]
    u += [{"dims": s, "long": i, "b": b} for s in SHAPES for i in range(len(letters(s))) for b in ("default", "numpy")]
    return u


def explore(unit, ctx):
    dims = tuple(unit["dims"])
    alpha = letters(dims)
    if "long" in unit:
        a = alpha[unit["long"]]
        for b in alpha:
            one(ctx, dims, [a, b] * 12, unit["b"])
            for before, after in ((0, 12), (5, 5), (12, 0), (20, 1), (1, 40), (3, 17)):
                one(ctx, dims, [a] * before + ["measure_all"] + [b] * after, unit["b"])
        return
    depth = unit["depth"]
    lead = [alpha[i] for i in (unit["first"], unit["second"]) if i is not None]
    rests = itertools.chain.from_iterable(
        itertools.product(alpha, repeat=k) for k in (range(depth + 1) if not lead else [depth - len(lead)])
    )
    for rest in rests:
        one(ctx, dims, lead + list(rest), unit["b"])


def names(ops):
    out = {}
    for op in ops:
        k = {"cx": "cx", "tof": "toffoli", "gate": "arbitary"}.get(op[0], op[0])
        out[k] = out.get(k, 0) + 1
    return out


def one(ctx, dims, calls, backend):
    init = [0] * len(dims)
    case = {"dims": dims, "calls": calls, "backend": backend}

    def go():
        qc = harness.build(list(dims), init, backend)
        accepted, measured = [], False
        for c in calls + ["final"]:
            if c == "measure_all":
                if qc.measure_all() is not True:
                    return "measure_all did not report success"
                measured = True
            elif c == "measure(0)":
                try:
                    qc.measure(0)
                except NotImplementedError:
                    pass
                else:
                    return "measure(0) was not refused as not implemented"
            elif c in ("run", "final"):
                if not measured:
                    try:
                        report = qc.run()
                    except Exception:
                        pass
                    else:
                        return f"an unmeasured circuit ran: {report}"
                else:
                    bad = harness.compare(qc.run(), ref.run(dims, init, accepted, MATS))
                    if bad:
                        return bad
            elif c == "look":
                str(qc), qc.get_circuit_config(), qc.get_circuit_info()
            else:
                got = harness.apply(qc, c, MATS)
                if got is not (not measured):
                    return f"{c} returned {got!r} on a circuit that is {'measured' if measured else 'not measured'}"
                if not measured:
                    accepted.append(c)
            ctx.transition()
            bad = compare(qc, dims, accepted, measured)
            if bad:
                return f"after {c}: {bad}"
        # an unmeasured circuit can still be completed and run
        if not measured:
            if harness.apply(qc, ["x", 0, 1]) is not True:
                return "a gate was refused on an unmeasured circuit"
            qc.measure_all()
            return harness.compare(qc.run(), ref.run(dims, init, accepted + [["x", 0, 1]], MATS))
        return None

    bad = ctx.guarded(go, case)
    if bad:
        ctx.violation(case, bad)
    ctx.trace()
    key = (dims, str(calls))
    ctx.state(key)
    ctx.outcome((dims, [c for c in calls if not isinstance(c, str)], "measure_all" in calls))
    ctx.sample(case)


def compare(qc, dims, accepted, measured):
    layers = ref.layers(len(dims), accepted)
    got = harness.contents(qc, dims)
    gates = got[1:-1] if measured else got[1:]
    if measured and got[-1] != [["m", r] for r in range(len(dims))]:
        return f"the last layer is {got[-1]}, not a measurement"
    have = sorted(op[0] for layer in gates for op in layer)
    want = sorted(op[0] for op in accepted)
    if have != want or len(gates) != len(layers):
        return f"the circuit holds {gates}, expected the gates {accepted} in {len(layers)} layers"
    config = qc.get_circuit_config()
    if config["depth"] != len(layers) or config["width"] != len(dims):
        return f"statistics {config}, expected depth {len(layers)}"
    info = qc.get_circuit_info()
    if info["gate_count"] != len(accepted) or {k: v for k, v in info["details"].items()} != names(accepted):
        return f"summary {info}, expected {names(accepted)}"
    return None
