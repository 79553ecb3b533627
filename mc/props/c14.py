"""C14: reversible qubit QASM programs compute their Boolean function."""

import glob
import itertools
import os

import numpy as np

from mc import harness, qasm, ref

from qudiet.qasm.qasm_parser import circuit_from_qasm, parse_qasm  # noqa: E402

ID = "C14"
LEVEL = "model_checking"
ASSUMPTIONS = ("amplitudes are compared with tolerance 1e-9",)
KEY = "toffoli-extra-level"


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every program of X, RX 180, CNOT, CX and Toffoli instructions: one qubit up to %d instructions, two qubits up to %d, three up to %d, four up to %d; "
        "Toffoli-free programs on three qubits up to %d; every program that loads an input with X and applies one cascade of %d or fewer CNOTs, on 2..%d qubits, of one CNOT on up to %d; every two-letter periodic program of up to %d instructions on two and three qubits; "
        "the testbench programs of this kind on at most %d qubits" % ((6, 4, 3, 2, 3, 3, 4, 6, 24, 6) if q else (8, 5, 3, 2, 4, 4, 5, 7, 40, 8))
    )


def letters(n, tof=True):
    out = [["X", r] for r in range(n)] + [["RX", r] for r in range(n)]
    out += [["CNOT", c, t] for c, t in itertools.permutations(range(n), 2)]
    out += [["CX", c, t] for c, t in itertools.permutations(range(n), 2)] if n < 4 else []
    if tof:
        out += [["Toffoli", *p] for p in itertools.permutations(range(n), 3) if n < 4 or p[0] < p[1]]
    return out


def units(tier):
    q = tier == "quick"
    u = [{"k": "walk", "n": 1, "depth": 6 if q else 8}, {"k": "walk", "n": 2, "depth": 2}, {"k": "walk", "n": 3, "depth": 1}]
    for n, depth in ((2, 4 if q else 5), (3, 3), (4, 2)):
        u += [{"k": "walk", "n": n, "depth": depth, "first": i} for i in range(len(letters(n)))]
    if not q:
        u += [{"k": "walk", "n": 3, "depth": 4, "first": i, "plain": True} for i in range(len(letters(3, False)))]
    for n in range(2, 5 if q else 6):
        for bits in itertools.product((0, 1), repeat=n):
            u.append({"k": "load", "n": n, "bits": bits, "depth": 3 if n < 4 else 2} if q else {"k": "load", "n": n, "bits": bits, "depth": 4 if n < 4 else 3 if n < 5 else 2})
    for n in (5, 6) if q else (5, 6, 7):
        for bits in itertools.product((0, 1), repeat=n):
            u.append({"k": "load", "n": n, "bits": bits, "depth": 1})
    for n in (2, 3):
        m = len(letters(n))
        u += [{"k": "long", "n": n, "len": (11, 24) if q else (11, 24, 40), "first": [i, i + 3]} for i in range(0, m, 3)]
    u += [{"k": "bench", "max": 6 if q else 8, "part": i} for i in range(8)]
    return u


def explore(unit, ctx):
    if unit["k"] == "bench":
        return bench(unit, ctx)
    n = unit["n"]
    if unit["k"] == "load":
        load = [["X", r] for r, b in enumerate(unit["bits"]) if b]
        cn = [["CNOT", c, t] for c, t in itertools.permutations(range(n), 2)]
        for k in range(unit["depth"] + 1):
            for seq in itertools.product(cn, repeat=k):
                one(ctx, n, load + list(seq))
        return
    if unit["k"] == "long":
        alpha = letters(n)
        for a, b in itertools.product(alpha[slice(*unit["first"])], alpha):
            for length in unit["len"]:
                one(ctx, n, [["X", 0], ["X", n - 1]] + ([a, b] * length)[:length])
                ctx.transition(length)
        return
    alpha = letters(n, not unit.get("plain"))
    first = [alpha[unit["first"]]] if "first" in unit else alpha

    def rec(program):
        one(ctx, n, program)
        if len(program) < unit["depth"]:
            for a in alpha if program else first:
                ctx.transition()
                rec(program + [a])

    rec([])


def one(ctx, n, program):
    text = qasm.text((2,) * n, program)
    case = {"text": text}

    from mc.props.c11 import script_of

    result = {}

    def go():
        result["qc"] = qc = circuit_from_qasm(text)
        result["report"] = qc.run()
        return judge(ctx, result, n, program, case, script_of(text))

    ctx.guarded(go, case, script_of(text))
    ctx.trace()
    ctx.state(text)
    ctx.sample(case)


def judge(ctx, result, n, program, case, script):
    qc, report = result["qc"], result["report"]
    bits = qasm.boolean(n, program)
    # the registers the result is reported on may carry one more level
    dims = tuple(qc.qregs)
    want = np.zeros(dims, dtype=complex)
    want[bits] = 1
    ctx.outcome((bits, str(report)))
    bad = harness.compare(report, want)
    if bad is None:
        ctx.count("programs_computing_their_function")
        return
    extra = any(i[0] == "Toffoli" for i in program) and dims == qasm.widened((2,) * n, program)
    if extra and harness.compare(report, qasm.meaning((2,) * n, program)) is None:
        ctx.violation(case, f"evaluates to {report}, the Boolean function gives {bits}", key=KEY, script=script)
    else:
        ctx.violation(case, f"{bad}; the Boolean function gives {bits}", script=script)


def bench(unit, ctx):
    root = os.path.join(harness.REPO, "testbench")
    files = sorted(glob.glob(root + "/**/*.txt", recursive=True) + glob.glob(root + "/**/*.qasm", recursive=True))
    for path in files[unit["part"] :: 8]:
        with open(path) as f:
            plain = qasm.read_plain(f.read())
        if plain is None:
            continue
        dims, program = plain
        small = len(dims) <= unit["max"] and len(program) <= 400
        if not small or any(d != 2 for d in dims) or any(i[0] in "HZ" or qasm.operands(i)[2] is not None for i in program):
            continue
        case = {"file": os.path.relpath(path, harness.REPO)}

        def go():
            result = {"qc": parse_qasm(path)}
            result["report"] = result["qc"].run()
            judge(ctx, result, len(dims), program, case, None)

        ctx.guarded(go, case)
        ctx.trace()
        ctx.transition(len(program))
        ctx.count("testbench_programs_run")
