"""C12: QASM layout does not change a program's meaning."""

import itertools
import os
import tempfile

from mc import harness, qasm, ref

from qudiet.qasm.qasm_parser import circuit_from_qasm, parse_qasm  # noqa: E402

ID = "C12"
LEVEL = "model_checking"
ASSUMPTIONS = ("the plain layout's meaning is the reference model's, as in C11",)


def BOUNDS(tier):
    q = tier == "quick"
    n = sum(len(v) for v in qasm.OPTIONS.values())
    return (
        f"{len(PROGRAMS)} programs covering every instruction form, written with every choice of up to {3 if q else 4} simultaneous layout "
        f"deviations out of {n} in {len(qasm.OPTIONS)} dimensions (blank lines, comments, indentation, trailing space, line ends, separators, case, "
        "header and declaration spelling, operand prefix, declaration order), every single one also from a file with each kind of line end, and every declaration order of up to 4 qudits"
        + (" (3 on two programs, 2 on the others)" if q else " (4 on two programs, 3 on the others)")
    )


PROGRAMS = [
    ((2, 2, 2), [["X", 0], ["X", 1], ["Toffoli", 0, 1, 2]]),
    ((2, 3, 4), [["X", 0], ["H", 1], ["CX", 0, 2, 3], ["X", 2, -1], ["Z", 1], ["H", 1]]),
    ((3, 2), [["X", 0, 2], ["CX", 0, 1], ["H", 0]]),
    ((2, 2), [["RX", 1], ["CNOT", 1, 0], ["H", 0], ["CNOT", 0, 1, -1], ["Z", 1]]),
    ((3,), [["H", 0], ["Z", 0], ["X", 0]]),
    ((2,), []),
    ((4, 3, 2), [["X", 0, 3], ["CX", 0, 1, 2], ["CX", 1, 2]]),
    ((2,) * 7, [["X", r] for r in range(6)] + [["X", 4], ["Toffoli", 5, 1, 0, 2, 3, 4, 6], ["CX", 5, 0]]),
    ((2, 2, 2, 2), [["X", 0], ["X", 1], ["X", 1], ["X", 2], ["Toffoli", 2, 0, 1, 3], ["CX", 0, 3]]),
]
DEVIATIONS = [(k, o) for k, opts in qasm.OPTIONS.items() for o in opts]


def units(tier):
    q = tier == "quick"
    u = [{"k": "dev", "p": p, "size": s} for p in range(len(PROGRAMS)) for s in (0, 1)]
    u += [{"k": "orders"}, {"k": "spellings"}]
    u += [{"k": "dev", "p": p, "size": 2} for p in range(len(PROGRAMS))]
    deep, rest = (3, 3) if q else (4, 3)
    for p in range(len(PROGRAMS)):
        if len(PROGRAMS[p][0]) > 4:
            continue
        size = (deep if p in (1, 3) else rest) if not q else (3 if p in (1, 3) else 2)
        if size > 2:
            u += [{"k": "dev", "p": p, "size": size, "first": i} for i in range(len(DEVIATIONS))]
    return u


def explore(unit, ctx):
    if unit["k"] == "orders":
        return orders(ctx)
    if unit["k"] == "spellings":
        return spellings(ctx)
    dims, program = PROGRAMS[unit["p"]]
    start = unit.get("first")
    pool = DEVIATIONS if start is None else DEVIATIONS[start + 1 :]
    for combo in itertools.combinations(pool, unit["size"] - (start is not None)):
        if start is not None:
            combo = (DEVIATIONS[start],) + combo
        chosen = dict(combo)
        if len(chosen) < len(combo):
            continue
        text = qasm.text(dims, program, **chosen)
        one(ctx, dims, program, text, sorted(chosen.items()))
        if unit["size"] < 2:
            for ends in ("\n", "\r\n", "\r"):
                from_file(ctx, dims, program, text, sorted(chosen.items()), ends)


def from_file(ctx, dims, program, text, what, ends):
    """The same text from a file, with the line ends of each system."""
    v = qasm.meaning(dims, program)
    case = {"layout": what, "file with line ends": repr(ends), "text": text}

    def go():
        f = tempfile.NamedTemporaryFile("wb", suffix=".txt", delete=False)
        try:
            with f:
                f.write(text.replace("\r\n", "\n").replace("\n", ends).encode())
            return harness.compare(parse_qasm(f.name).run(), v)
        finally:
            os.unlink(f.name)

    bad = ctx.guarded(go, case)
    if bad:
        ctx.violation(case, bad)
    ctx.transition()
    ctx.trace()
    ctx.state((text, ends))


def one(ctx, dims, program, text, what):
    w = qasm.widened(dims, program)
    v = qasm.meaning(dims, program)
    case = {"layout": what, "text": text}

    def go():
        qc = circuit_from_qasm(text)
        if list(qc.qregs) != list(w):
            return f"the declared dimensions read as {qc.qregs}, expected {list(w)}"
        return harness.compare(qc.run(), v)

    from mc.props.c11 import script_of

    bad = ctx.guarded(go, case, script_of(text))
    if bad:
        ctx.violation(case, bad, script=script_of(text))
    ctx.transition()
    ctx.trace()
    ctx.state(text)
    ctx.outcome((tuple(what), ref.vkey(v)))
    ctx.sample(case)


def orders(ctx):
    """Every order of the declarations of up to four qudits of different dimensions."""
    for dims in ((2, 3), (3, 2, 4), (2, 3, 2, 4)):
        n = len(dims)
        program = [["X", i, dims[i] - 1] for i in range(n)] + [["CX", 0, n - 1]]
        base = qasm.text(dims, program, declare="qudit")
        head, rest = base.split(f".qudit {n}\n")
        decls, body = rest.split(".begin")
        lines = decls.strip().split("\n")
        for perm in itertools.permutations(lines):
            for between in ("\n", "\n\n", "\n# c\n"):
                text = head + f".qudit {n}\n" + between.join(perm) + "\n.begin" + body
                one(ctx, dims, program, text, ["declaration order", str(perm), between])


def spellings(ctx):
    """Each declared qudit spelled in each possible way, and each line's mnemonic case on its own."""
    dims, program = (2, 3, 2), [["X", 0], ["CX", 0, 1], ["H", 2], ["Z", 2], ["RX", 0], ["CNOT", 1, 2], ["X", 1, 2]]
    ways = [[f"{k} {{p}}{i}" + s for k, s in ((("qubit", ""), ("qudit", " (2)"), ("qudit", "(2)")) if d == 2 else (("qutrit", ""), ("qudit", " (3)"), ("qudit", "  (3)")))] for i, d in enumerate(dims)]
    for combo in itertools.product(*ways):
        for prefix in ("x", "q", "X", ""):
            for header in ("qudit", "qubit", "qutrit"):
                body = "\n".join(qasm.line(i, dict(qasm.CANONICAL, prefix=prefix)) for i in program)
                text = f"\n.{header} 3\n" + "\n".join(c.format(p=prefix) for c in combo) + f"\n\n.begin\n{body}\n.end\n"
                one(ctx, dims, program, text, [str(combo), prefix, header])
    # any subset of the lines in lower case, any one line with another separator
    for mask in itertools.product((0, 1), repeat=len(program)):
        body = "\n".join(qasm.line(i, dict(qasm.CANONICAL, case="lower" if m else "upper")) for i, m in zip(program, mask))
        text = f"\n.qudit 3\nqubit x0\nqutrit x1\nqubit x2\n\n.begin\n{body}\n.end\n"
        one(ctx, dims, program, text, ["case by line", str(mask)])
    for at in range(len(program)):
        for sep in qasm.OPTIONS["sep"]:
            for prefix in ("x", "X", "q", ""):
                body = "\n".join(qasm.line(i, dict(qasm.CANONICAL, sep=sep if k == at else " ", prefix=prefix if k == at else "x")) for k, i in enumerate(program))
                text = f"\n.qudit 3\nqubit x0\nqutrit x1\nqubit x2\n\n.begin\n{body}\n.end\n"
                one(ctx, dims, program, text, ["one line", at, sep, prefix])
