"""C28: every spelling of the same request builds the same circuit."""

import itertools

import numpy as np

from mc import common, harness, ref

ID = "C28"
LEVEL = "model_checking"
ASSUMPTIONS = (
    "whether an argument of another integer type (numpy integers, booleans, integral floats), or a register list given as a tuple, range, array or iterator, is accepted at all is the code's choice; "
    "a circuit that has accepted it may still fail with an error, but yields no other result than the plainly spelled one",
)
INTS = {"int64": np.int64, "int32": np.int32, "int16": np.int16, "int8": np.int8, "uint64": np.uint64, "uint16": np.uint16, "uint8": np.uint8}
LOOSE = {"bool": bool, "bool_": np.bool_, "float": float, "float64": np.float64, "array": lambda v: np.array(v), "str": str}
MATS = {}


def custom(n):
    if f"M{n}" not in MATS:
        m = np.roll(np.diag([1j ** (k * k % 4) for k in range(n)]), 1, axis=0).astype(complex)
        m[:, 0] *= 1j
        MATS[f"M{n}"] = m
    return f"M{n}"


SPACES = ((2,), (3,), (5,), (2, 2), (2, 3), (3, 2), (4, 4), (2, 2, 2), (3, 2, 2), (2, 3, 2), (3, 3, 3), (2, 2, 2, 2), (2, 3, 2, 3))
BIG = ((12, 12), (16, 17), (5, 5, 6), (2, 64), (11, 3, 4), (127,), (128,), (2,) * 8, (130, 2), (3, 86))


def BOUNDS(tier):
    q = tier == "quick"
    return (
        f"every spelling of every gate call (positional and keyword arguments, explicit dimension, tuple, list, array, range, iterator, {len(INTS)} numpy integer types, booleans, floats, texts) on {len(SPACES)} registers of one to four qudits, "
        f"before and after {'one other gate' if q else 'up to two other gates'}, all pairs of spellings on two qudits, every spelling of the constructor's arguments there and on {len(BIG)} registers whose sizes exceed 8 bits; "
        "compared with the reference interpreter and with the plainly spelled circuit: layers, drawing, facts and result; default and dense backends"
    )


def letters(dims, plus="few"):
    n = len(dims)
    ops = common.alphabet(dims, plus=plus, tof="any", max_controls=3)
    if n == 2:
        ops += [["tof", [c], t, 1] for c, t in ((0, 1), (1, 0))]
    for k in range(1, min(n, 3) + 1):
        for r in range(n - k + 1):
            size = int(np.prod(dims[r : r + k]))
            if size <= 27:
                ops.append(["gate", custom(size), list(range(r, r + k))])
    return [o for i, o in enumerate(ops) if o not in ops[:i]]


def fits(kind, v):
    return np.iinfo(kind).min <= v <= np.iinfo(kind).max


def others(v):
    """The same integer in other types."""
    for name, kind in INTS.items():
        if fits(kind, v):
            yield name, kind(v)
    for name, kind in LOOSE.items():
        if name not in ("bool", "bool_") or v in (0, 1):
            yield name, kind(v)


def spellings(op, dims):
    """(name, must it be accepted?, is it drawn alike?, call)"""
    k = op[0]
    if k in ("h", "z"):
        r, d = op[1], dims[op[1]]
        for a, kw in (((r, None), {}), ((), {"qreg": r}), ((r, d), {}), ((r,), {"dims": d}), ((), {"dims": d, "qreg": r}), ((), {"dims": None, "qreg": r})):
            yield f"{k}{a}{kw}", True, lambda qc, a=a, kw=kw: getattr(qc, k)(*a, **kw)
        for name, v in others(r):
            yield f"{k}({name} {r})", False, lambda qc, v=v: getattr(qc, k)(v)
            yield f"{k}({name} {r}, {d})", False, lambda qc, v=v: getattr(qc, k)(v, d)
        for name, v in others(d):
            yield f"{k}({r}, {name} {d})", False, lambda qc, v=v: getattr(qc, k)(r, v)
    elif k == "x":
        r, d, p = op[1], dims[op[1]], op[2]
        for a, kw in (((r, None, p), {}), ((r, d, p), {}), ((), {"qreg": r, "plus": p}), ((), {"plus": p, "dims": None, "qreg": r}), ((r, d), {"plus": p}), ((r,), {"plus": p, "dims": d})):
            yield f"x{a}{kw}", True, lambda qc, a=a, kw=kw: qc.x(*a, **kw)
        if p == 1:
            for a, kw in (((r,), {}), ((r, d), {}), ((), {"qreg": r}), ((r,), {"dims": d})):
                yield f"x{a}{kw}", True, lambda qc, a=a, kw=kw: qc.x(*a, **kw)
        for name, v in others(r):
            yield f"x({name} {r}, plus={p})", False, lambda qc, v=v: qc.x(v, plus=p)
        for name, v in others(d):
            yield f"x({r}, {name} {d}, {p})", False, lambda qc, v=v: qc.x(r, v, p)
        for name, v in others(p):
            yield f"x({r}, plus={name} {p})", False, lambda qc, v=v: qc.x(r, plus=v)
    elif k == "cx":
        (c, t), p = op[1], op[2]
        yield "cx list", True, lambda qc: qc.cx([c, t], p)
        yield "cx keywords", True, lambda qc: qc.cx(acting_on=(c, t), plus=p)
        yield "cx keywords backwards", True, lambda qc: qc.cx(plus=p, acting_on=[c, t])
        yield "cx no dimension", True, lambda qc: qc.cx((c, t), p, None)
        if dims[c] == dims[t]:
            yield "cx dimension", True, lambda qc: qc.cx((c, t), p, dims[c])
            yield "cx dimension keyword", True, lambda qc: qc.cx((c, t), plus=p, dims=dims[c])
        yield "cx array", False, lambda qc: qc.cx(np.array([c, t]), p)
        yield "cx iterator", False, lambda qc: qc.cx(iter((c, t)), p)
        yield "cx dictionary", False, lambda qc: qc.cx({c: 0, t: 1}, p)
        for name, v in others(c):
            yield f"cx(({name} {c}, {t}), {p})", False, lambda qc, v=v: qc.cx((v, t), p)
        for name, v in others(t):
            yield f"cx(({c}, {name} {t}), {p})", False, lambda qc, v=v: qc.cx((c, v), p)
        for (name, v), (_, w) in zip(others(c), others(t)):
            yield f"cx({name} ({c}, {t}), {p})", False, lambda qc, v=v, w=w: qc.cx([v, w], p)
        for name, v in others(p):
            yield f"cx(({c}, {t}), {name} {p})", False, lambda qc, v=v: qc.cx((c, t), v)
    elif k == "tof":
        cs, t, p = list(op[1]), op[2], op[3]
        yield "toffoli tuple", True, lambda qc: qc.toffoli((tuple(cs), t), p)
        yield "toffoli list", True, lambda qc: qc.toffoli([list(cs), t], p)
        yield "toffoli keywords", True, lambda qc: qc.toffoli(qreg=(list(cs), t), plus=p)
        yield "toffoli keywords backwards", True, lambda qc: qc.toffoli(plus=p, qreg=[tuple(cs), t])
        if p == 1:
            yield "toffoli default", True, lambda qc: qc.toffoli((cs, t))
        yield "toffoli array", False, lambda qc: qc.toffoli((np.array(cs), t), p)
        yield "toffoli iterator", False, lambda qc: qc.toffoli((iter(cs), t), p)
        yield "toffoli dictionary", False, lambda qc: qc.toffoli((dict.fromkeys(cs), t), p)
        if cs == list(range(cs[0], cs[-1] + 1)):
            yield "toffoli range", False, lambda qc: qc.toffoli((range(cs[0], cs[-1] + 1), t), p)
        if len(cs) == 1:
            yield "toffoli bare control", False, lambda qc: qc.toffoli((cs[0], t), p)
        yield "toffoli flat", False, lambda qc: qc.toffoli((*cs, t), p)
        for i, c in enumerate(cs):
            for name, v in others(c):
                yield f"toffoli({cs} with {name} {c}, {t})", False, lambda qc, v=v, i=i: qc.toffoli((cs[:i] + [v] + cs[i + 1:], t), p)
        for name, v in others(t):
            yield f"toffoli({cs}, {name} {t})", False, lambda qc, v=v: qc.toffoli((cs, v), p)
        for name, v in others(p):
            yield f"toffoli(({cs}, {t}), {name} {p})", False, lambda qc, v=v: qc.toffoli((cs, t), v)
    elif k == "gate":
        G, regs = harness.custom_gate(MATS[op[1]]), list(op[2])
        G.mc_name = op[1]
        one = regs[0] if len(regs) == 1 else list(regs)
        yield "gate keywords", True, lambda qc: qc.gate(gate=G, qreg=one)
        yield "gate keywords backwards", True, lambda qc: qc.gate(dims=None, qreg=one, gate=G)
        if len(regs) == 1:
            d = dims[regs[0]]
            yield "gate dimension", True, lambda qc: qc.gate(G, one, d)
            yield "gate dimension keyword", True, lambda qc: qc.gate(G, one, dims=d)
            yield "gate list of one", False, lambda qc: qc.gate(G, [one])
            for name, v in others(one):
                yield f"gate({name} {one})", False, lambda qc, v=v: qc.gate(G, v)
            for name, v in others(d):
                yield f"gate({one}, {name} {d})", False, lambda qc, v=v: qc.gate(G, one, v)
        else:
            yield "gate tuple", False, lambda qc: qc.gate(G, tuple(regs))
            yield "gate array", False, lambda qc: qc.gate(G, np.array(regs))
            yield "gate range", False, lambda qc: qc.gate(G, range(regs[0], regs[-1] + 1))
            yield "gate iterator", False, lambda qc: qc.gate(G, iter(regs))
            yield "gate dimensions", False, lambda qc: qc.gate(G, list(regs), [dims[r] for r in regs])
            for i, r in enumerate(regs):
                for name, v in others(r):
                    yield f"gate({regs} with {name} {r})", False, lambda qc, v=v, i=i: qc.gate(G, regs[:i] + [v] + regs[i + 1:])


def plain(op, dims):
    """The plainest spelling, and one that the gates share with it."""
    if op[0] == "gate":
        G = harness.custom_gate(MATS[op[1]])
        G.mc_name = op[1]
        one = op[2][0] if len(op[2]) == 1 else list(op[2])
        return lambda qc: qc.gate(G, one)
    return lambda qc: harness.apply(qc, op, MATS)


def units(tier):
    q = tier == "quick"
    u = []
    u += [{"k": "new", "dims": dims, "part": i} for dims in BIG[::-1] for i in range(6)]
    for dims in SPACES:
        n = len(letters(dims))
        per = {1: n, 2: 4, 3: 4, 4: 3}[len(dims)]
        u += [{"k": "one", "dims": dims, "ops": [i, min(i + per, n)], "deep": not q} for i in range(0, n, per)]
    for dims in ((2,), (3,), (2, 2), (2, 3), (3, 2)):
        n = len(letters(dims, "one"))
        u += [{"k": "pairs", "dims": dims, "op": i} for i in range(n)]
    u += [{"k": "new", "dims": dims, "part": None} for dims in SPACES]
    return u


def explore(unit, ctx):
    {"one": one, "pairs": pairs, "new": new}[unit["k"]](unit, ctx)


def facts(qc, dims):
    return [harness.contents(qc, dims), str(qc)]


def loose(name):
    return any(name.startswith(x + " ") or f"({x} " in name or f" {x} " in name or f"={x} " in name or f"(({x} " in name for x in LOOSE)


def same(a, b):
    """Equal, whatever integer types the numbers are kept in."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return bool(np.all(a == b))


def check(ctx, dims, init, before, spelled, after, backend="default"):
    """One history: before, the spelled calls (name, must, call, op), after."""
    name = "; ".join(s[0] for s in spelled)
    case = {"dims": dims, "init": init, "before": before, "spelled": name, "after": after, "backend": backend}

    def go():
        qc = harness.build(list(dims), init, backend)
        accepted, odd = list(before), False
        for op in before:
            harness.apply(qc, op, MATS)
        for text, must, call, op in spelled:
            was = facts(qc, dims)
            try:
                got = call(qc)
            except Exception as e:
                if odd:
                    raise  # an earlier spelling that need not be accepted fails later
                if must:
                    return f"{text} was rejected: {type(e).__name__}: {e}"
                if facts(qc, dims) != was:
                    return f"the rejected {text} changed the circuit"
                ctx.outcome((text.split("(")[0], type(e).__name__))
                ctx.count("rejected_spellings", 1)
                continue
            if got is not True:
                return f"{text} returned {got!r}"
            accepted.append(op)
            odd = odd or not must
            ctx.count("accepted_spellings", 1)
        for op in after:
            if harness.apply(qc, op, MATS) is not True:
                return f"{op} was refused after {name}"
            accepted.append(op)
        wanted = harness.build(list(dims), init, backend)
        for op in accepted:
            plain(op, dims)(wanted)
        drawn = not any(loose(s[0]) for s in spelled)
        now, then = (facts(qc, dims), facts(wanted, dims)) if drawn else ([[]], [[]])
        if not same(unnamed(now), unnamed(then)):
            return f"after {name} the circuit is {now}, plainly spelled it is {then}"
        v = ref.basis(dims, init)
        for op in accepted:
            v = ref.apply(v, op, MATS)
        qc.measure_all()
        ctx.transition(len(accepted))
        ctx.state((dims, str(accepted), name))
        bad = harness.compare(qc.run(), v)
        ctx.outcome(ref.vkey(v))
        return bad and f"after {name}: {bad}"

    def late():
        try:
            return go()
        except Exception as e:
            if all(s[1] for s in spelled):
                raise
            ctx.outcome((name.split("(")[0], "late", type(e).__name__))
            ctx.count("failing_later", 1)

    bad = ctx.guarded(late, case)
    if bad:
        ctx.violation(case, bad)
    ctx.trace()
    ctx.sample(case)


def unnamed(f):
    """The contents without the names of custom gate classes, which differ from class to class."""
    return [[[([g[0], "", g[2]] if g[0] == "gate" else g) for g in layer] for layer in f[0]]] + f[1:]


def one(unit, ctx):
    dims = tuple(unit["dims"])
    alpha = letters(dims)
    few = [o for o in alpha if o[0] != "gate"]
    few = few[:: max(1, len(few) // (3 if len(dims) < 3 else 2))]
    around = [([], []), ([["h", 0]], [["x", len(dims) - 1, 1]])] + [([], [o]) for o in few] + [([o], []) for o in few]
    if unit["deep"]:
        around += [([a], [b]) for a in few for b in few]
    init = [d - 1 for d in dims]
    for op in alpha[slice(*unit["ops"])]:
        for i, (before, after) in enumerate(around):
            for name, must, call in spellings(op, dims):
                check(ctx, dims, init, before, [(name, must, call, op)], after, "numpy" if i == 1 else "default")


def pairs(unit, ctx):
    dims = tuple(unit["dims"])
    alpha = letters(dims, "one")
    first = alpha[unit["op"]]
    init = [d - 1 for d in dims]
    a = [(*s, first) for s in spellings(first, dims)]
    for op in alpha:
        b = [(*s, op) for s in spellings(op, dims)]
        # all musts with all musts; every other one with some of the other side
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                if x[1] and y[1] or i % 3 == 0 and (i + j) % 5 == 0:
                    check(ctx, dims, init, [], [x, y], [])


def new(unit, ctx):
    dims = tuple(unit["dims"])
    n = len(dims)
    ops = [["x", 0, 1], ["h", n - 1]] + ([["cx", [0, n - 1], 1], ["tof", [n - 1], 0, 1], ["cx", [n - 1, 0], dims[0] - 1]] if n > 1 else [["z", 0], ["x", 0, dims[0] - 1]])
    registers = [("list", True, list(dims)), ("tuple", len(set(dims)) > 99, None)][:1]
    if len(set(dims)) == 1:
        registers.append(("tuple", True, (n, dims[0])))
        for name, kind in INTS.items():
            if fits(kind, dims[0]):
                registers.append((f"tuple of {name}", False, (n, kind(dims[0]))))
                registers.append((f"tuple with {name}", False, (kind(n), dims[0])))
    for name, kind in INTS.items():
        if all(fits(kind, d) for d in dims):
            registers.append((f"list of {name}", False, [kind(d) for d in dims]))
            registers.append((f"first {name}", False, [kind(dims[0]), *dims[1:]]))
            registers.append((f"array of {name}", False, np.array(dims, dtype=kind)))
    registers += [("range", False, range(2, 2 + n)) if dims == tuple(range(2, 2 + n)) else ("iterator", False, iter(dims)), ("floats", False, [float(d) for d in dims]), ("texts", False, [str(d) for d in dims])]
    tops, mixed = [d - 1 for d in dims], [(i + 1) % d for i, d in enumerate(dims)]
    levels = []
    for init in (tops, mixed, [0] * n, [1] + [0] * (n - 1), [0] * (n - 1) + [1]):
        levels += [("list", True, init, init), ("tuple", True, tuple(init), init)]
        cut = list(init)
        while cut and cut[-1] == 0:
            cut.pop()
            levels.append((f"first {len(cut)}", True, list(cut), init))
        if not any(init):
            levels.append(("none", True, None, init))
        for name, kind in {**INTS, **LOOSE}.items():
            if kind in INTS.values() and not all(fits(kind, v) for v in init) or name in ("bool", "bool_") and max(init) > 1:
                continue
            levels.append((f"list of {name}", False, [kind(v) for v in init], init))
            if n > 1:
                levels.append((f"last {name}", False, [*init[:-1], kind(init[-1])], init))
        levels += [("array", False, np.array(init), init), ("range", False, range(init[0], init[0] + n), init) if init == list(range(init[0], init[0] + n)) else ("iterator", False, "iter", init)]
    options = [{}, {"name": ""}, {"name": "a|b 1"}, {"cregs": None}, {"cregs": n}, {"cregs": 0}, {"debug": False}, {"debug": True}, {"backend": None}, {"output": None}]
    big = int(np.prod(dims)) > 100
    for i, ((rn, rm, regs), (ln, lm, init, meaning)) in enumerate(itertools.product(registers, levels)):
        if unit["part"] not in (None, i % 6):
            continue
        if rn != "list" and ln != "list" and (big or not (rm and lm)):
            continue
        for backend in ("default", "numpy") if big else ("default", "watched") if rm and lm and (rn == "list" or ln == "list") else ("default",):
            for opt in options if rm and lm else options[:1]:
                construct(ctx, dims, ops, (rn, rm, regs), (ln, lm, init, meaning), backend, opt)


class Watched(harness.BACKENDS["numpy"]):
    """A caller's own backend."""

    products = 0

    @staticmethod
    def dot(a, b):
        Watched.products += 1
        return harness.BACKENDS["numpy"].dot(a, b)


harness.BACKENDS["watched"] = Watched


def construct(ctx, dims, ops, registers, levels, backend, opt):
    rn, rm, regs = registers
    ln, lm, init, meaning = levels
    case = {"dims": dims, "registers": rn, "levels": f"{ln} {meaning}", "backend": backend, "options": opt}
    must = rm and lm

    def go():
        kw = dict(opt)
        if init is not None:
            kw["init_states"] = iter(meaning) if isinstance(init, str) else init
        if backend != "default":
            kw.setdefault("backend", harness.BACKENDS[backend])
        if harness.tuple_labels(dims):
            kw["output"] = harness.Output(list(dims), harness.OutputType.state, harness.OutputMethod.amplitude)
        kept = init.copy() if isinstance(init, np.ndarray) else list(init) if isinstance(init, (list, tuple)) else None
        given = list(regs) if isinstance(regs, (list, tuple)) else None
        try:
            qc = harness.QuantumCircuit(iter(dims) if rn == "iterator" else regs, **kw)
            if not must:
                for op in ops:
                    harness.apply(qc, op, MATS)
        except Exception as e:
            ctx.outcome((rn, ln, type(e).__name__))
            ctx.count("rejected_spellings", 1)
            return f"rejected: {type(e).__name__}: {e}" if must else None
        if must:
            for op in ops:
                if harness.apply(qc, op, MATS) is not True:
                    return f"{op} was refused"
        ctx.count("accepted_spellings", 1)
        v = ref.basis(dims, meaning)
        for op in ops:
            v = ref.apply(v, op, MATS)
        plainly = harness.build(list(dims), meaning, backend)
        for op in ops:
            harness.apply(plainly, op, MATS)
        if rn not in ("floats", "texts") and ln.split()[-1] not in LOOSE and not same(harness.contents(qc, dims), harness.contents(plainly, dims)):
            return f"the circuit is {harness.contents(qc, dims)}, plainly spelled it is {harness.contents(plainly, dims)}"
        if must and str(qc) != str(plainly):
            return f"it is drawn as\n{qc}\ninstead of\n{plainly}"
        if kept is not None and not same(list(init), list(kept)) or given is not None and list(regs) != given:
            return "the caller's arguments were changed"
        qc.measure_all()
        Watched.products = 0
        report = qc.run()
        if backend == "watched" and "backend" not in opt and not Watched.products:
            return "the run did not use the backend it was asked to"
        ctx.transition(len(ops))
        ctx.state((dims, rn, ln, str(meaning), backend, str(opt)))
        ctx.outcome(ref.vkey(v))
        return harness.compare(report, v)

    def late():
        try:
            return go()
        except Exception as e:
            if must:
                raise
            ctx.outcome((rn, ln, "late", type(e).__name__))
            ctx.count("failing_later", 1)

    bad = ctx.guarded(late, case)
    if bad:
        ctx.violation(case, f"registers as {rn}, levels {meaning} as {ln}: {bad}")
    ctx.trace()
    ctx.sample(case)
