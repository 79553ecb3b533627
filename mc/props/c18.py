"""C18: the text drawing shows every gate on its own qudit line in its own column."""

import contextlib
import io
import itertools
import re

from mc import common, harness, ref

ID = "C18"
LEVEL = "model_checking"
ASSUMPTIONS = (
    "cells may be padded with dashes in any way, as long as every cell of a column starts and ends at the same character and "
    "neighbouring columns do not overlap; columns of dashes after the last layer are allowed",
)


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every sequence of X Z H CX Toffoli with every increment (negative and two-digit ones in separate spaces), drawn after every call and after measurement, "
        "with str(), print and draw(): one qudit up to length %d, two up to %d, three up to %d, four up to %d, five and six qudits one gate; every single-qudit and CX placement (and narrow Toffolis) on registers of up to %d qudits, with a second gate; every initial level "
        "and every dimension up to 14; periodic circuits up to %d layers" % ((6, 4, 3, 2, 33, 40) if q else (8, 5, 4, 2, 101, 150))
    )


def letters(dims, mode):
    if mode == "all":
        return common.alphabet(dims, plus="all", tof="any")
    if mode == "few":
        return common.alphabet(dims, plus="few", tof="asc")
    if mode == "one":
        return common.alphabet(dims, plus="one", tof="asc")
    n = len(dims)  # unusual increments
    ops = []
    for p in (-1, 0, 7, 10, -12, 99, 100):
        ops += [["x", r, p] for r in range(n)]
        ops += [["cx", list(ct), p] for ct in itertools.permutations(range(n), 2)]
        ops += [["tof", [r for r in range(n) if r != t], t, p] for t in range(n) if n > 1]
    return ops


def wide_letters(dims):
    """Every single-qudit place, every CX (nothing is run), and narrow Toffolis."""
    n = len(dims)
    ops = [[k, r] if k != "x" else ["x", r, 1] for r in range(n) for k in "xzh"]
    ops += [["cx", list(ct), 1] for ct in itertools.permutations(range(n), 2) if n <= 12 or min(ct) == 0 or max(ct) == n - 1 or abs(ct[0] - ct[1]) == 1]
    ops += [["tof", [t + a for a in cs], t + b, 1] for t in range(n - 3) for cs, b in (((0, 1), 2), ((0, 3), 1), ((2, 3), 0))]
    return ops


def units(tier):
    q = tier == "quick"
    u = []
    spaces = [
        ((2,), "all", 6 if q else 8), ((3,), "all", 4 if q else 6), ((2, 3), "few", 4 if q else 5), ((3, 2), "all", 3 if q else 4),
        ((2, 2, 2), "one", 3 if q else 4), ((2, 3, 4), "few", 2), ((3, 12, 2), "few", 1 if q else 2), ((2, 2, 2, 2), "one", 2), ((3, 2, 2, 3), "all", 1 if q else 2),
        ((2, 2, 2, 2, 2), "all", 1), ((2, 3, 2, 2, 3, 2), "few", 1), ((2, 2), "odd", 2), ((5, 3, 11), "odd", 1 if q else 2), ((2, 3), "all", 2 if q else 4),
        ((2, 2, 2, 2, 2), "one", 1 if q else 2),
    ]
    for dims, mode, depth in spaces:
        n = len(letters(dims, mode))
        per = max(1, -(-n // (12 if depth > 1 else 3)))
        u += [{"k": "walk", "dims": dims, "mode": mode, "depth": depth, "first": [i, i + per]} for i in range(0, n, per)]
    u.append({"k": "levels"})
    for n in (7, 9, 10, 11, 12, 16, 33) if q else (7, 9, 10, 11, 12, 16, 30, 33, 101):
        dims = tuple(2 + i % 3 for i in range(n))
        m = len(wide_letters(dims))
        per = max(1, -(-m // (4 if q else 8)))
        u += [{"k": "wide", "dims": dims, "first": [i, i + per]} for i in range(0, m, per)]
    u += [{"k": "periodic", "dims": d, "len": 40 if q else 150} for d in ((2,), (2, 2), (2, 3, 2))]
    return u


def expected(dims, init, ops, measured):
    """One list of cells per qudit: what stands in each column, '' for dashes."""
    n = len(dims)
    cols = []
    for layer in ref.layers(n, ops):
        col = [""] * n
        for op in layer:
            kind = op[0]
            if kind in ("h", "z"):
                col[op[1]] = kind.upper()
            elif kind == "x":
                col[op[1]] = ("X", op[2])
            else:
                cs, t, p = ([op[1][0]], op[1][1], op[2]) if kind == "cx" else (op[1], op[2], op[3])
                for r in ref.span(op):
                    col[r] = "|"
                for c in cs:
                    col[c] = "*"
                col[t] = ("X", p)
        cols.append(col)
    if measured:
        cols.append(["M"] * n)
    return cols


NUMBER = re.compile(r"X\((-?\d+)\)")


def same(cell, want, dim):
    got = cell.strip("-")
    if isinstance(want, tuple):
        # the increment may be shown as given or reduced
        m = NUMBER.fullmatch(got)
        return bool(m) and (int(m.group(1)) - want[1]) % dim == 0
    return got == want


def check(text, dims, init, ops, measured):
    n = len(dims)
    cols = expected(dims, init, ops, measured)
    lines = text.split("\n")
    depth = len(ref.layers(n, ops))
    if lines[n:] != ["", f"depth: {depth}, width: {n}"]:
        return f"the drawing ends with {lines[n:]}, expected depth {depth} and width {n} after {n} lines"
    rows = lines[:n]
    if len({len(r) for r in rows}) > 1:
        return f"the lines have different lengths: {rows}"
    heads = [f"({d})|{s}>" for d, s in zip(dims, init)]
    for row, head in zip(rows, heads):
        if not row.startswith(head):
            return f"the line {row!r} does not start with {head!r}"
    pos = max(len(h) for h in heads)
    for row, head in zip(rows, heads):
        if row[len(head):pos].strip("-"):
            return f"the line {row!r} is not aligned"
    # a column is 5 wide, or as wide as its widest cell
    for j, col in enumerate(cols):
        shown = [w if isinstance(w, str) else f"X({w[1]})" for w in col]
        wrong = None
        for width in range(5, max(5, max(len(s) for s in shown)) + 1):
            bad = [r for r, (row, want) in enumerate(zip(rows, col)) if len(row) < pos + width or not same(row[pos:pos + width], want, dims[r])]
            if not bad:
                break
            wrong = wrong or (bad[0], rows[bad[0]][pos:pos + width])
        else:
            r, cell = wrong
            return f"column {j} of line {r} reads {cell!r}, expected {shown[r] or 'dashes'!r}"
        pos += width
    for row in rows:
        if row[pos:].strip("-"):
            return f"something after the last column: {row[pos:]!r}"
    return None


def one(ctx, dims, init, ops, every=False):
    case = {"dims": dims, "init": init, "ops": ops}

    def look(qc, k, measured, full):
        text = str(qc)
        bad = check(text, dims, init, ops[:k], measured)
        if bad:
            return f"{bad}\n{text}"
        if not full:
            return None
        outs = []
        for show in (lambda: print(qc), qc.draw, qc.draw):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                show()
            outs.append(buf.getvalue())
        if set(outs) != {text + "\n"}:
            return f"print and draw() show {outs}, str() gives {text!r}"
        return None

    def go():
        qc = harness.build(list(dims), init)
        for k in range(len(ops) + 1):
            if k:
                harness.apply(qc, ops[k - 1])
            if every or k == len(ops):
                before = harness.contents(qc, dims)
                bad = look(qc, k, False, k == len(ops))
                if bad:
                    return bad
                if harness.contents(qc, dims) != before:
                    return "drawing changed the circuit"
        qc.measure_all()
        bad = look(qc, len(ops), True, True)
        if bad:
            return bad
        size = 1
        for d in dims:
            size *= d
        if len(dims) < 7 and size <= 64 and max(dims) <= 10:
            return harness.compare(qc.run(), ref.run(tuple(dims), init, ops))
        return None

    bad = ctx.guarded(go, case, lambda: harness.script(list(dims), init, ops, tail="print(qc)"))
    if bad:
        ctx.violation(case, bad, script=harness.script(list(dims), init, ops, tail="print(qc)"))
    ctx.trace()
    ctx.state((dims, tuple(init), str(ops)))
    ctx.outcome((dims, str(expected(dims, init, ops, True))))
    ctx.sample(case)


def explore(unit, ctx):
    if unit["k"] == "levels":
        for dims in [(d,) for d in range(2, 15)] + [(2, 3, 4), (11, 2), (2, 13)]:
            for init in ref.all_digits(dims):
                ctx.transition()
                one(ctx, dims, list(init), [["h", len(dims) - 1]])
                one(ctx, dims, list(init), [])
        return
    dims = tuple(unit["dims"])
    init = [(i + 1) % d for i, d in enumerate(dims)]
    if unit["k"] == "periodic":
        alpha = letters(dims, "one")
        for a, b in itertools.product(alpha, repeat=2):
            ctx.transition(unit["len"])
            one(ctx, dims, init, [a, b] * (unit["len"] // 2))
        return
    if unit["k"] == "wide":
        n = len(dims)
        for a in wide_letters(dims)[slice(*unit["first"])]:
            ctx.transition()
            one(ctx, dims, init, [a])
            for b in (["x", 0, 1], ["h", n // 2], ["z", n - 1], ["cx", [0, n - 1], 1], ["cx", [n - 1, n - 2], 1]):
                ctx.transition()
                one(ctx, dims, init, [a, b], True)
        return
    alpha = letters(dims, unit["mode"])

    def rec(ops):
        one(ctx, dims, init, ops, len(ops) == unit["depth"])
        if len(ops) < unit["depth"]:
            for a in alpha if ops else alpha[slice(*unit["first"])]:
                ctx.transition()
                rec(ops + [a])

    rec([])
