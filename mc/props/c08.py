"""C08: running is repeatable and circuits do not influence each other."""

import contextlib
import copy
import io
import itertools
import os
import sys

import numpy as np

from mc import common, family, harness, ref

ID = "C08"
LEVEL = "model_checking"
ASSUMPTIONS = (
    "the result a circuit must have in a fresh process is the reference model's; every unit starts in a fresh process",
)


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "one circuit (9 kinds, two backends): every sequence of up to %d actions from run, change the returned list, five inspections, draw, "
        "measure again, and changing each passed argument, followed by a run; every choice of inspection at every gap while building; two circuits: "
        "every interleaving of their step sequences (build, 2 gates, measure, run, run) for %d pairs, some sharing argument and output objects; "
        "a run failing at every single one of its backend calls (and pairs of failing runs), for each of 13 circuits, then run again; a run or an inspection of each interrupted before %s of the code it executes, then run and shown again; "
        "every three circuits over seven registers declared with one and the same list of initial levels, full or short; histories of three circuits from a catalogue of %d: every ordered triple; one process that runs every one-gate circuit over registers of up to "
        "three qudits of dimension 2 to 4 and four of dimension 2 and 3 (X Z H CX Toffoli, each place and increment, custom matrices of one class name) and 33 registers of dimensions up to 121 whose written forms coincide, in several orders, backends and "
        "register forms, so that whatever is kept under a key that does not tell two of these circuits apart shows" % ((3, 10, "any of up to 200 lines (evenly spaced beyond)", 13) if q else (4, 16, "any of up to 4000 lines (evenly spaced beyond)", 13))
    )


SHARED = np.array([[0, 1], [1, 0]], dtype=complex)
W6 = np.roll(np.diag([1, 1j, -1, 1, -1j, 1]), 1, axis=0)
MATS = {"S": SHARED, "W6": W6, "Y": np.array([[0, -1j], [1j, 0]])}


class SharedGate(harness.ArbitaryGate):
    """A user gate whose matrix is one object shared by all its uses."""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._unitary = SHARED


class W6Gate(harness.ArbitaryGate):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._unitary = W6


CLASSES = {"S": SharedGate, "W6": W6Gate, "Y": harness.custom_gate(MATS["Y"])}

CIRCUITS = {
    "x": ([2], [0], [["x", 0, 1]]),
    "qutrit": ([3], [1], [["h", 0], ["x", 0, 2], ["z", 0]]),
    "bell": ([2, 2], [0, 0], [["h", 0], ["cx", [0, 1], 1]]),
    "llleb": ([2, 2], [0, 1], [["h", 1], ["cx", [1, 0], 1]]),
    "mixed": ([2, 3], [1, 2], [["cx", [1, 0], 1], ["h", 1], ["cx", [0, 1], 2]]),
    "mixed rev": ([3, 2], [2, 1], [["cx", [1, 0], 1], ["h", 0], ["cx", [0, 1], 1]]),
    "tof": ([2, 3, 2], [1, 2, 0], [["h", 0], ["tof", [0, 1], 2, 1], ["tof", [1, 2], 0, 1]]),
    "tof rev": ([2, 2, 3], [1, 1, 0], [["tof", [1, 0], 2, 2], ["h", 2]]),
    "custom": ([2, 2], [0, 1], [["gate", "S", [0]], ["h", 1], ["gate", "Y", [1]]]),
    "block": ([2, 3], [1, 0], [["h", 0], ["gate", "W6", [0, 1]], ["z", 1]]),
    "wide": ([2, 2, 2, 2], [0, 1, 0, 1], [["h", 2], ["cx", [3, 0], 1], ["cx", [2, 1], 1]]),
    "plus": ([4, 2], [3, 1], [["x", 0, 3], ["cx", [1, 0], 3], ["cx", [1, 0], -1]]),
    "wide4": ([2, 4], [1, 3], [["cx", [0, 1], 2], ["cx", [1, 0], 1], ["h", 1]]),
}


class Rig:
    """A circuit together with the very objects its caller passed in."""

    def __init__(self, name, backend="default", output=None, args=None):
        dims, init, self.ops = CIRCUITS[name]
        self.name, self.dims, self.init = name, list(dims), list(init)
        # the lists passed to the constructor: exactly n, shorter by one zero, or shared
        self.qregs = args[0] if args else list(dims)
        self.inits = args[1] if args else list(init)
        self.passed = []
        self.qc = self._make(backend, output)
        self.v = ref.run(tuple(dims), init, self.ops, MATS)
        self.done = 0
        self.measured = False
        self.last = None

    def _make(self, backend, output):
        kw = {"qregs": self.qregs, "init_states": self.inits}
        if harness.BACKENDS[backend] is not None:
            kw["backend"] = harness.BACKENDS[backend]
        if output is not None:
            kw["output"] = output
        self.passed += [self.qregs, self.inits]
        self.before = [copy.deepcopy(p) for p in self.passed]
        return harness.QuantumCircuit(**kw)

    def gate(self):
        op = self.ops[self.done]
        self.done += 1
        if op[0] == "cx":
            regs = list(op[1])
            self._pass(regs)
            ok = self.qc.cx(regs, op[2])
        elif op[0] == "tof":
            controls = list(op[1])
            self._pass(controls)
            ok = self.qc.toffoli((controls, op[2]), op[3])
        elif op[0] == "gate":
            regs = op[2][0] if len(op[2]) == 1 else list(op[2])
            if isinstance(regs, list):
                self._pass(regs)
            ok = self.qc.gate(CLASSES[op[1]], regs)
        else:
            ok = harness.apply(self.qc, op)
        if ok is not True:
            raise harness.Bad(f"{op} did not report success")
        self.check_args()

    def _pass(self, x):
        self.passed.append(x)
        self.before.append(list(x))

    def check_args(self):
        if self.passed != self.before:
            raise harness.Bad(f"the caller's arguments were modified: {self.before} became {self.passed}")

    def finish(self):
        while self.done < len(self.ops):
            self.gate()
        self.measure()

    def measure(self):
        self.qc.measure_all()
        self.measured = True

    def run(self):
        self.last = self.qc.run()
        bad = harness.compare(self.last, self.v)
        if bad:
            raise harness.Bad(bad)
        self.check_args()

    def spoil_result(self):
        if self.last is None:
            self.last = self.qc.run()
        if self.last:
            self.last[0].clear()
            self.last.append({"|9>": 7})
            del self.last[0]

    def spoil_args(self, which):
        """The caller re-uses the lists it passed in for something else."""
        for p in self.passed[:2] if which == "declaration" else self.passed[2:]:
            p.reverse()
            p.append(0)
            p[0] = p[0] + 1
        self.before = [copy.deepcopy(p) for p in self.passed]


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


INSPECT = {
    "config": lambda r: r.qc.get_circuit_config(),
    "info": lambda r: r.qc.get_circuit_info(),
    "str": lambda r: str(r.qc),
    "draw": lambda r: quiet(r.qc.draw),
    "peek": lambda r: [m.peek_list() for m in r.qc.op_flow.peek()],
    "print": lambda r: quiet(r.qc.print_opflow_list),
    "unitaries": lambda r: [[g.unitary for g in m.peek_list() if hasattr(g, "unitary")] for m in r.qc.op_flow.peek()[1 : len(r.qc.op_flow.peek()) - r.measured]],
    "repr": lambda r: repr(r.qc),
}
ACTIONS = {
    "run": Rig.run,
    "spoil result": Rig.spoil_result,
    "spoil declaration lists": lambda r: r.spoil_args("declaration"),
    "spoil gate lists": lambda r: r.spoil_args("gates"),
    "measure again": Rig.measure,
    **{k: INSPECT[k] for k in ("config", "info", "str", "unitaries")},
}
SINGLE = ["x", "qutrit", "bell", "mixed", "tof", "custom", "block", "plus", "wide"]
PAIRS = [
    ("bell", "llleb", None), ("bell", "bell", None), ("bell", "bell", "args"), ("mixed", "mixed rev", None), ("mixed", "mixed", "args"),
    ("tof", "tof rev", None), ("custom", "custom", None), ("block", "mixed", None), ("bell", "custom", "output"), ("plus", "wide4", None),
    ("mixed", "mixed", "output"), ("wide", "tof", None), ("qutrit", "plus", None), ("x", "bell", None), ("tof", "tof", "args"), ("block", "block", "args"),
]


class Fault(BaseException):
    pass


def faulty(base):
    """The backend, with calls that can be made to fail at a chosen point of a run."""

    class Faulty(base):
        left = None  # calls until the failure; None: never
        calls = 0
        error = RuntimeError

    def wrap(name):
        real = getattr(base, name)

        def call(*args, **kwargs):
            Faulty.calls += 1
            if Faulty.left is not None:
                if Faulty.left == 0:
                    Faulty.left = None
                    raise Faulty.error("injected")
                Faulty.left -= 1
            return real(*args, **kwargs)

        setattr(Faulty, name, staticmethod(call))

    for name in ("kron", "dot", "eye", "matrix", "is_unitary"):
        wrap(name)
    return Faulty


def faults(unit, ctx):
    """A run that fails at any of its backend calls, then whole runs of the same and of another circuit."""
    kind = faulty(harness.NumpyBackend if unit["b"] == "numpy" else harness.SparseBackend)
    harness.BACKENDS["faulty"] = kind
    kind.error = {"error": RuntimeError, "interrupt": Fault, "memory": MemoryError}[unit["error"]]
    name, other = unit["c"], unit["other"]

    def fresh():
        r = Rig(name, "faulty")
        r.finish()
        return r

    probe = fresh()
    kind.calls = 0
    probe.run()
    total = kind.calls
    assert total > 1, total
    for times in range(1, unit["times"] + 1):
        for where in itertools.product(range(total), repeat=times):
            for look in (None, "info") if times == 1 else (None,):

                def go():
                    r = fresh()
                    o = Rig(other, "faulty")
                    o.finish()
                    for k in where:
                        kind.left = k
                        try:
                            r.run()
                        except (RuntimeError, Fault, MemoryError):
                            pass
                        # a run that makes fewer calls than the first (it may remember things) does not fail
                        kind.left = None
                        ctx.transition()
                        if look:
                            INSPECT[look](r)
                            r.check_args()
                    o.run()
                    r.run()
                    r.run()
                    o.run()

                report(ctx, {"circuit": CIRCUITS[name], "backend": unit["b"], "failing backend call of the run": where, "error": unit["error"], "inspection": look}, go, (name, "fault", times))
                ctx.state((name, unit["b"], where, look, unit["error"]))
    ctx.count("failing_runs", total)


ROOT = os.path.realpath(harness.REPO) + os.sep


def cut(fn, at):
    """Calls fn(), interrupting it before the at-th line it executes in the code under test; returns how many it got to."""
    seen = [0]

    def trace(frame, event, arg):
        if event == "call":
            return trace if os.path.realpath(frame.f_code.co_filename).startswith(ROOT) else None
        if event == "line":
            if seen[0] == at:
                sys.settrace(None)
                raise Fault("injected")
            seen[0] += 1
        return trace

    sys.settrace(trace)
    try:
        fn()
    except Fault:
        pass
    finally:
        sys.settrace(None)
    return seen[0]


def cuts(unit, ctx):
    """A run or an inspection interrupted before any line it executes, then whole ones."""
    name, b, doing, earlier = unit["c"], unit["b"], unit["doing"], unit["earlier"]
    fn = {"run": lambda r: r.qc.run(), **INSPECT}[doing]

    def fresh():
        r = Rig(name, b)
        r.finish()
        if earlier:
            r.run()
        return r

    calm = fresh()
    shown = str(calm.qc), calm.qc.get_circuit_info(), harness.contents(calm.qc, calm.dims)
    total = cut(lambda: fn(fresh()), None)
    points = range(total) if total <= unit["most"] else sorted({*range(unit["most"] // 2), *range(unit["most"] // 2, total, -(-2 * total // unit["most"])), *range(total - 40, total)})
    for at in points:

        def go():
            r = fresh()
            cut(lambda: fn(r), at)
            ctx.transition()
            r.check_args()
            if doing == "run" and at % 2:
                cut(lambda: r.qc.run(), at // 2)
            r.run()
            now = str(r.qc), r.qc.get_circuit_info(), harness.contents(r.qc, r.dims)
            if now != shown:
                raise harness.Bad(f"the circuit shows {now} instead of {shown}")
            r.run()

        report(ctx, {"circuit": CIRCUITS[name], "backend": b, "interrupted": doing, "after executing lines": at, "run before": earlier}, go, (name, "cut", doing))
        ctx.state((name, b, doing, at, earlier))
    ctx.count("interruption_points", len(points))


def units(tier):
    q = tier == "quick"
    u = []
    for name in CIRCUITS:
        for b in ("default", "numpy"):
            for doing in ["run", *INSPECT] if b == "default" else ["run"]:
                for earlier in (False, True) if doing == "run" else (False,):
                    u.append({"k": "cut", "c": name, "b": b, "doing": doing, "earlier": earlier, "most": (60 if doing == "draw" else 200) if q else 4000})
    for name in CIRCUITS:
        for b in ("default", "numpy"):
            for e in ("error",) if q and b == "numpy" else ("error", "interrupt", "memory"):
                twice = name in ("x", "bell", "tof") or not q and len(CIRCUITS[name][0]) < 4
                u.append({"k": "fault", "c": name, "b": b, "error": e, "other": "mixed" if name != "mixed" else "bell", "times": 2 if twice and e == "error" else 1})
    for name in SINGLE:
        for b in ("default", "numpy"):
            u.append({"k": "single", "c": name, "b": b, "depth": 2})
            u.append({"k": "gaps", "c": name, "b": b})
    for a, b, share in PAIRS[: 10 if q else 16]:
        for x, y in (("default", "default"), ("default", "numpy")) if q else itertools.product(("default", "numpy"), repeat=2):
            u.append({"k": "pair", "a": a, "b": b, "share": share, "ba": x, "bb": y})
    for x, y in itertools.product(CIRCUITS, repeat=2):
        u.append({"k": "triple", "first": x, "second": y})
    u += [{"k": "short", "level": lev, "b": b} for lev in ([], [0], [1], [1, 1], [0, 1], [1, 0, 1]) for b in ("default", "numpy")]
    for order in ("forward", "backward", "strided"):
        for b in ("default", "numpy", "alternating"):
            for form in ("list", "tuple", "mode"):
                if not q or (order, b) in (("forward", "default"), ("backward", "alternating"), ("strided", "numpy")):
                    u.append({"k": "family", "order": order, "b": b, "form": form})
    u += [{"k": "family", "order": order, "b": b, "form": "digits"} for order in ("forward", "backward") for b in ("default", "numpy") if not q or (order == "forward") == (b == "default")]
    for name in SINGLE if not q else SINGLE[:8]:
        for b in ("default", "numpy"):
            for a in ACTIONS:
                u.append({"k": "single", "c": name, "b": b, "depth": 3 if q else 4, "first": a})
    return u


def report(ctx, case, fn, key):
    def go():
        fn()
        return None

    ctx.guarded(go, case)
    ctx.trace()
    ctx.outcome(key)
    ctx.sample(case)


def explore(unit, ctx):
    {"single": single, "gaps": gaps, "pair": pair, "triple": triple, "fault": faults, "cut": cuts, "family": family.explore, "short": short}[unit["k"]](unit, ctx)
    if not np.array_equal(SHARED, [[0, 1], [1, 0]]) or not np.array_equal(W6, np.roll(np.diag([1, 1j, -1, 1, -1j, 1]), 1, axis=0)):
        ctx.violation(unit, "a user gate's matrix was modified")


def short(unit, ctx):
    """Circuits declared with the same list of initial levels, shorter than the register or as long."""
    shapes = [s for s in ([2], [3], [2, 3], [3, 2], [2, 2, 2], [3, 2, 2], [2, 2, 2, 2]) if len(s) >= len(unit["level"])]
    for shared in itertools.product(shapes, repeat=3):
        for when in ("at once", "in turn"):

            def go():
                levels, regs = list(unit["level"]), {}
                rigs = []

                def check(i):
                    qc, dims = rigs[i]
                    want = ref.run(tuple(dims), unit["level"] + [0] * (len(dims) - len(unit["level"])), [["x", 0, 1]])
                    bad = harness.compare(qc.run(), want)
                    if bad:
                        raise harness.Bad(bad)

                for dims in shared:
                    kw = {"backend": harness.BACKENDS[unit["b"]]} if harness.BACKENDS[unit["b"]] else {}
                    qc = harness.QuantumCircuit(regs.setdefault(tuple(dims), list(dims)), init_states=levels, **kw)
                    if levels != unit["level"] or any(list(k) != v for k, v in regs.items()):
                        raise harness.Bad(f"the caller's lists became {levels} and {list(regs.values())}")
                    qc.x(0)
                    qc.measure_all()
                    rigs.append((qc, dims))
                    if when == "in turn":
                        check(len(rigs) - 1)
                for i in range(len(rigs)):
                    check(i)
                ctx.transition(len(rigs))

            report(ctx, {"registers": shared, "levels given to each": unit["level"], "run": when, "backend": unit["b"]}, go, (unit["level"], shared))
            ctx.state((unit["b"], unit["level"], shared, when))


def single(unit, ctx):
    name = unit["c"]
    names = [unit["first"]] if "first" in unit else list(ACTIONS)
    for first in names:
        rest = unit["depth"] - 1
        tails = itertools.product(ACTIONS, repeat=rest) if "first" in unit else itertools.chain.from_iterable(itertools.product(ACTIONS, repeat=k) for k in range(rest + 1))
        for tail in tails:
            seq = (first,) + tail

            def go():
                r = Rig(name, unit["b"])
                r.finish()
                for a in seq:
                    ACTIONS[a](r)
                    ctx.transition()
                    r.check_args()
                r.run()
                r.run()

            report(ctx, {"circuit": CIRCUITS[name], "backend": unit["b"], "actions": seq}, go, (name, len(seq)))
            ctx.state((name, unit["b"], seq))


def gaps(unit, ctx):
    """Any inspection (or none) between any two building steps."""
    name = unit["c"]
    n = len(CIRCUITS[name][2]) + 1
    looks = [None] + list(INSPECT)
    for choice in itertools.product(looks, repeat=n):
        if sum(c is None for c in choice) < n - 2:
            continue

        def go():
            r = Rig(name, unit["b"])
            for c in choice:
                if c is not None:
                    INSPECT[c](r)
                    r.check_args()
                if r.done < len(r.ops):
                    r.gate()
                ctx.transition()
            r.measure()
            r.run()

        report(ctx, {"circuit": CIRCUITS[name], "backend": unit["b"], "inspections": choice}, go, (name, "gaps"))
        ctx.state((name, choice))


def pair(unit, ctx):
    a, b, share = unit["a"], unit["b"], unit["share"]
    dims, init, _ = CIRCUITS[a]
    steps = {}
    for who, name in ((0, a), (1, b)):
        steps[who] = ["build"] + ["gate"] * len(CIRCUITS[name][2]) + ["measure", "run", "run"]
    n0, n1 = len(steps[0]), len(steps[1])
    for at in itertools.combinations(range(n0 + n1), n0):
        order = [1] * (n0 + n1)
        for i in at:
            order[i] = 0

        def go():
            args = (list(dims), list(init)) if share == "args" else None
            out = harness.Output(list(dims), harness.OutputType.print, harness.OutputMethod.amplitude) if share == "output" else None
            rigs = [None, None]
            pos = [0, 0]
            for who in order:
                s = steps[who][pos[who]]
                pos[who] += 1
                ctx.transition()
                if s == "build":
                    name, backend = ((a, unit["ba"]), (b, unit["bb"]))[who]
                    rigs[who] = Rig(name, backend, out, args)
                else:
                    getattr(rigs[who], s)()

        key = tuple(order)
        report(ctx, {"circuits": [CIRCUITS[a], CIRCUITS[b]], "share": share, "order": key}, go, (a, b, share))
        ctx.state((a, b, share, unit["ba"], unit["bb"], key))


def triple(unit, ctx):
    """Three circuits one after the other in a fresh process, alternating backends."""
    for i, third in enumerate(CIRCUITS):
        for order in (("default", "default", "numpy"), ("numpy", "default", "default")):

            def go():
                rigs = []
                for name, b in zip((unit["first"], unit["second"], third), order):
                    r = Rig(name, b)
                    r.finish()
                    r.run()
                    rigs.append(r)
                    ctx.transition()
                for r in rigs:
                    r.run()

            report(ctx, {"history": [unit["first"], unit["second"], third], "backends": order}, go, third)
            ctx.state((unit["first"], unit["second"], third, order))
