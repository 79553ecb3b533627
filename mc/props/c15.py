"""C15: mixed-radix index conversion is an order-preserving bijection."""

import itertools

import numpy as np

from mc import harness  # noqa: F401  (puts the code under test on the path)

from qudiet.utils.linalg import ttg  # noqa: E402
from qudiet.utils.numpy import Nbase_to_bin, bin_to_Nbase, get_index  # noqa: E402

ID = "C15"
LEVEL = "model_checking"
ASSUMPTIONS = ()


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every base list of length 1..%d over 1..%d with product <= %d, every index below the product, both directions; every truth table with product <= %d, "
        "every row looked up; truth tables of up to %d rows or 15 columns; thousands of lists alike in digits, product or up to order, one after another in one process in three orders; long lists (up to 130 digits, products up to 2^130) at every power boundary; indices and bases as Python and NumPy integers"
        % ((5, 5, 700, 350, 90300) if q else (7, 7, 6000, 1100, 250500))
    )


def lists(tier):
    q = tier == "quick"
    length, top, prod = (5, 5, 700) if q else (7, 7, 6000)
    for n in range(1, length + 1):
        for b in itertools.product(range(1, top + 1), repeat=n):
            if n > 3 and b.count(1) > 1:
                continue
            if np.prod(b) <= prod:
                yield list(b)
    for b in ([10], [11], [16, 2], [2, 16], [12, 13], [3, 17, 2], [100], [7, 11], [64, 2], [2, 100],
              [127], [128], [129], [2, 128], [129, 2], [130, 2], [255], [256], [257], [258, 2], [2, 300], [1000], [17, 19], [2, 2, 130]):
        yield b


def units(tier):
    from mc import common

    every = list(lists(tier))
    every.sort(key=lambda b: (np.prod(b), len(b)))
    u = [{"k": "convert", "bases": c} for c in common.chunks(every, 40)]
    cap = 350 if tier == "quick" else 1100
    tables = [b for b in every if np.prod(b) <= cap]
    u += [{"k": "table", "bases": c} for c in common.chunks(tables, 40 if tier == "quick" else 20)]
    u.append({"k": "long"})
    u += [{"k": "similar", "order": o} for o in ("forward", "backward", "by digits")]
    u += [{"k": "big", "base": b} for b in ([32767], [32769], [65537], [2, 32769], [40000, 2], [300, 301], [2] * 10, [2] * 13, [2] * 15, [3] * 9, [2, 3] * 5, [3, 2] * 5, [2] * 5 + [5] * 3 + [2] * 4) + (() if tier == "quick" else ([70000, 3], [3, 70000], [500, 501]))]
    return u


def big(base, ctx):
    """Truth tables with tens of thousands of rows: all rows, lookups at the edges of the machine's integer widths."""
    case = {"bases": base}
    total = int(np.prod(base))

    def go():
        t = np.asarray(ttg(list(base)))
        want = np.stack(np.unravel_index(np.arange(total), base), axis=1)
        if t.shape != want.shape or not (t == want).all():
            bad = 0 if t.shape != want.shape else int(np.argmax((t != want).any(axis=1)))
            ctx.violation(case, f"row {bad} of the truth table is {t[bad].tolist()}, expected {want[bad].tolist()}")
        for i in sorted({0, 1, 127, 128, 129, 255, 256, 257, 32766, 32767, 32768, 32769, 65535, 65536, 65537, total - 1}):
            if i < total:
                row = [int(x) for x in want[i]]
                at = get_index(t, row)
                same(ctx, {**case, "row": row}, "get_index", None if at is None else int(at), i)
                same(ctx, {**case, "index": i}, "Nbase_to_bin", digits_of(Nbase_to_bin(i, list(base))), row)
                same(ctx, {**case, "index": i}, "bin_to_Nbase", int(bin_to_Nbase(row, list(base))), i)
                ctx.state((tuple(base), i))
                ctx.transition(2)
                ctx.trace(3)
                ctx.outcome(tuple(row))

    ctx.guarded(go, case)


def similar(order, ctx):
    """Base lists that look alike (one after the other the same digits, a permutation, the same product), one after another in one process."""
    entries = (1, 2, 3, 4, 11, 12, 13, 21, 22, 23, 31, 32, 33, 111, 112, 121, 122, 211, 212, 221)
    bases = [b for n in (1, 2, 3, 4) for b in itertools.product(entries if n < 4 else entries[:8], repeat=n) if np.prod(b) <= 700]
    if order == "backward":
        bases.reverse()
    elif order == "by digits":
        bases.sort(key=lambda b: ("".join(map(str, b)), -len(b)))
    for base in bases:
        case = {"bases": base, "order": order}

        def go():
            total = int(np.prod(base))
            want = np.stack(np.unravel_index(np.arange(total), base), axis=1)
            got = np.asarray(ttg(list(base)))
            if got.shape != want.shape or not (got == want).all():
                ctx.violation(case, f"the truth table after those of {len(bases)} similar lists: {got[:3].tolist()}..., {got.shape}, expected {want[:3].tolist()}..., {want.shape}")
            for i in sorted({0, 1, total // 3, total // 2, total - 1} & set(range(total))):
                row = [int(x) for x in want[i]]
                same(ctx, {**case, "index": i}, "Nbase_to_bin", digits_of(Nbase_to_bin(i, list(base))), row)
                same(ctx, {**case, "index": i}, "bin_to_Nbase", int(bin_to_Nbase(row, list(base))), i)
                at = get_index(got, row)
                same(ctx, {**case, "row": row}, "get_index", None if at is None else int(at), i)
                ctx.state((base, i, order))
                ctx.trace(3)
                ctx.transition(2)

        ctx.guarded(go, case)


def same(ctx, case, what, got, want):
    if got != want:
        ctx.violation(case, f"{what} is {got!r}, expected {want!r}")


def explore(unit, ctx):
    if unit["k"] == "long":
        return long(ctx)
    if unit["k"] == "similar":
        return similar(unit["order"], ctx)
    if unit["k"] == "big":
        return big(unit["base"], ctx)
    for base in unit["bases"]:
        case = {"bases": base}
        f = convert if unit["k"] == "convert" else table
        ctx.guarded(lambda: f(list(base), ctx), case)
        ctx.sample(case)


def digits_of(x):
    return [int(d) for d in x]


def convert(base, ctx):
    total = int(np.prod(base))
    given = list(base)
    for v, digits in enumerate(itertools.product(*(range(b) for b in base))):
        digits = list(digits)
        case = {"bases": given, "index": v, "digits": digits}
        for form in (v, np.int64(v)):
            got = Nbase_to_bin(form, base)
            same(ctx, case, f"Nbase_to_bin({v})", digits_of(got), digits)
        for form in (digits, tuple(digits), np.array(digits)):
            back = bin_to_Nbase(form, base)
            same(ctx, case, f"bin_to_Nbase({digits})", int(back), v)
        same(ctx, case, "the round trip", int(bin_to_Nbase(Nbase_to_bin(v, base), base)), v)
        if len(set(base)) == 1:
            same(ctx, case, f"bin_to_Nbase with the single base {base[0]}", int(bin_to_Nbase(digits, base[0])), v)
            if base[0] == 2:
                same(ctx, case, "bin_to_Nbase with the default base", int(bin_to_Nbase(digits)), v)
        ctx.state((tuple(base), v))
        ctx.transition(2)
        ctx.trace(5)
        ctx.outcome(tuple(digits))
    same(ctx, {"bases": given}, "the base list after the conversions", base, given)
    assert v + 1 == total


def table(base, ctx):
    given = list(base)
    rows = [list(r) for r in itertools.product(*(range(b) for b in base))]
    t = ttg(base)
    got = [digits_of(r) for r in np.asarray(t).tolist()]
    same(ctx, {"bases": given}, "the truth table", got, rows)
    for i, r in enumerate(rows):
        for form in (r, np.array(r), tuple(r)):
            at = get_index(t, form)
            if at is None or int(at) != i:
                ctx.violation({"bases": given, "row": r}, f"get_index of row {r} is {at!r}, expected {i}")
        ctx.state((tuple(base), i, "row"))
        ctx.transition()
        ctx.trace(3)
    same(ctx, {"bases": given}, "the base list after building the table", base, given)
    ctx.outcome((tuple(base), "table"))


def long(ctx):
    for base in ([2] * 20, [2] * 40, [2] * 62, [3] * 30, [2, 3] * 15, [5, 2, 7] * 8, [10] * 15, [4] * 30, [2] * 30 + [3] * 10, [16] * 12,
                 [2] * 63, [2] * 64, [2] * 65, [2] * 70, [2] * 130, [3] * 41, [3, 2] * 27, [10] * 25, [7, 5, 3] * 10, [256] * 9, [1000, 2] * 8, [2] * 60 + [7, 5]):
        total = 1
        for b in base:
            total *= b
        marks = {0, 1, total - 1, total // 2, total // 3, total - 2}
        p = 1
        for b in reversed(base):
            marks |= {p - 1, p, p + 1, 2 * p - 1}
            p *= b
        for v in sorted(m for m in marks if 0 <= m < total):
            digits, w = [], v
            for b in reversed(base):
                digits.insert(0, w % b)
                w //= b
            case = {"bases": base, "index": v}

            def go():
                same(ctx, case, "Nbase_to_bin", digits_of(Nbase_to_bin(v, base)), digits)
                same(ctx, case, "bin_to_Nbase", int(bin_to_Nbase(digits, base)), v)

            ctx.guarded(go, case)
            ctx.state((tuple(base), v))
            ctx.transition(2)
            ctx.trace(2)
            ctx.outcome(tuple(digits))
