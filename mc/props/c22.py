"""C22: the batch runner processes every program and survives the bad ones."""

import contextlib
import io
import itertools
import os
import pickle
import runpy
import shutil
import sys
import tempfile
import time
import warnings

from mc import faults, harness, qasm, ref, sched

ID = "C22"
LEVEL = "fault_enumeration"
ASSUMPTIONS = (
    "hidden files and directories and symbolic links are not explored",
    "a bad program counts as reported when its path appears in a warning or on the terminal together with the word exception, error or failed",
)
SCRIPT = os.path.join(harness.REPO, "experimental.py")


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every assignment of %d kinds of content (absent, four good programs, five bad ones, an empty file, a directory of that name, a result path that cannot be written, "
        "a stale result) to program files at %s; every assignment of three contents to six places with equal and similar names; %d files in one run, none or every third one bad; six larger programs (128 and 243 basis states, nine qudits, 60 lines, 130 levels, four controls) in both modes on both backends; both program suffixes, dense and sparse backend, seven spellings of the path, odd file and directory names "
        "singly and next to good and bad programs; every backend by name with stand-ins for the GPU libraries, eight backend names that must be refused; a failure injected at every single backend call and at every file opening of a batch of three programs; a disk that is full after every single byte of a result, the batch failing or being killed there, and "
        "the batch killed before every single file operation, with and without earlier results, each followed by a batch without fault; "
        "four kinds of exception; the stored results of every %s programs, of the larger ones and of the odd names listed again" % (len(KINDS), "three depths" if q else "three depths plus a second file in the root", len(MANY), "two" if q else "three")
    )


GOOD = {
    "good1": ((2, 3), [["H", 0], ["CX", 0, 1, 2]]),
    "good2": ((3, 2), [["X", 0, 2], ["CX", 0, 1], ["H", 1], ["Z", 1]]),
    "tof": ((2, 2, 2), [["H", 0], ["X", 1, 1], ["Toffoli", 0, 1, 2]]),
    "none": ((2, 2), []),
}
# larger programs: many basis states, many qudits, many instructions, many levels; run singly
LARGE = {
    "7 qubits": ((2,) * 7, [["H", r] for r in range(7)]),
    "6 qutrits": ((3,) * 6, [["H", r] for r in range(5)] + [["CX", 0, 5, 2]]),
    "9 qubits": ((2,) * 9, [["X", 0, 1]] + [["CX", r, r + 1] for r in range(8)]),
    "60 lines": ((2, 3), [["H", 0], ["CX", 0, 1, 2], ["Z", 1]] * 20),
    "130 levels": ((130,), [["H", 0], ["Z", 0], ["X", 0, -1]]),
    "tof4": ((2, 2, 2, 2, 3), [["X", 0, 1], ["H", 1], ["X", 2, 1], ["X", 3, 2], ["Toffoli", 0, 1, 2, 3, 4]]),
}
PROGRAMS = {**GOOD, **LARGE}
GOOD1 = qasm.text(*GOOD["good1"]).encode()
BAD = {
    "no begin": b"\n.qubit 1\nqubit x0\nX x0\n.end\n",
    "unsupported": b"\n.qubit 2\nqubit x0\nqubit x1\n.begin\nX x0\nCNOTZ x0, x1\n.end\n",
    "binary": bytes(range(256)) * 3,
    "undeclared": b"\n.qubit 1\nqubit x0\n.begin\nCX x0 x5\n.end\n",
    "markup": b"\n.qubit 1\nqubit x0\n.begin\nX x0\nFOO [/y] [red]\n.end\n",
    "empty": b"",
}
KINDS = ["absent"] + list(GOOD) + list(BAD) + ["directory", "blocked", "stale"]
SLOTS = ["a", "sub/b", "sub/deep/c"]
FULL = SLOTS + ["z"]
ODD = [
    "a b", "a.b", "v1.0/x", "ü/ñ", "a-sparse", "[red]x", "[/y]x", "p[ab]/x", "q*/x", "a'b", "x.pkl", "d.txt/x", "d.qasm/x", "{x}", "%s", "$HOME", "-x", "1",
    "a[/b]c", "deep/1/2/3/4/5/x", "txt", "#x", "a\\b", "X",
]


SAME = ["x", "a/x", "b/x", "a/b/x", "x1", "a/a"]
MANY = [f"p{i}" for i in range(24)] + [f"d{i % 7}/p{i}" for i in range(40)] + ["deep/" * 6 + f"q{i}" for i in range(12)]


def units(tier):
    q = tier == "quick"
    u = []
    u += [{"k": "same", "backend": b, "first": kind} for b in ("sparse", "numpy") for kind in ("absent", "good1", "unsupported")]
    u += [{"k": "many", "backend": b, "mode": m} for b in ("sparse", "numpy") for m in ("txt", "qasm")]
    for m, b in itertools.product(("txt", "qasm"), ("sparse", "numpy")):
        u.append({"k": "grid", "slots": SLOTS[:2], "mode": m, "backend": b, "first": None})
    u += [{"k": "odd", "backend": b, "part": i} for b in ("sparse", "numpy") for i in range(4)]
    u += [{"k": "large", "program": n} for n in LARGE] + [{"k": "shown", "backend": b, "part": i, "deep": not q} for b in ("sparse", "numpy") for i in range(4)]
    u += [{"k": "backends", "backend": b} for b in ("sparse", "numpy", "cuda", "sparse-cuda")] + [{"k": "refused"}]
    u += [{"k": "paths"}] + [{"k": "again", "first": kind} for kind in KINDS]
    u += [{"k": "fault", "backend": b, "error": e} for b in ("sparse", "numpy") for e in ("MemoryError", "RuntimeError", "ValueError", "KeyError")]
    u += [{"k": "torn", "kill": kill, "part": i} for kill in (False, True) for i in range(4)] + [{"k": "crash", "stale": s} for s in (False, True)]
    u += [{"k": "open", "error": e} for e in ("PermissionError", "OSError", "UnicodeDecodeError")]
    for kind in KINDS:
        if q:
            u.append({"k": "grid", "slots": SLOTS, "mode": "txt", "backend": "sparse", "first": [kind]})
        else:
            u += [{"k": "grid", "slots": SLOTS, "mode": m, "backend": b, "first": [kind]} for m in ("txt", "qasm") for b in ("sparse", "numpy")]
            u += [{"k": "grid", "slots": FULL, "mode": "txt", "backend": "sparse", "first": [kind, second]} for second in KINDS]
    return u


def setup():
    for p in (harness.REPO, os.path.join(harness.REPO, "src")):
        if p not in sys.path:
            sys.path.insert(0, p)
    import rich.console  # noqa: F401
    import src.qudiet.core.backend.NumpyBackend  # noqa: F401
    import src.qudiet.core.backend.SparseBackend  # noqa: F401
    import src.qudiet.qasm.qasm_parser  # noqa: F401


def batch(args, cwd, prepare=None):
    """Runs the script in a forked process; (outcome, terminal output, warnings)."""

    def go():
        os.chdir(cwd)
        time.time = time.monotonic  # the clock is not set back while the batch runs
        sys.argv = [SCRIPT] + args
        out = io.StringIO()
        end = "normal"
        with warnings.catch_warnings(record=True) as seen, contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            warnings.simplefilter("always")
            extra = prepare() if prepare else None
            try:
                runpy.run_path(SCRIPT, run_name="__main__")
            except SystemExit as e:
                end = "normal" if e.code in (None, 0) else f"exit status {e.code}"
            except BaseException as e:
                end = f"{type(e).__name__}: {e}"
        return end, out.getvalue(), [str(w.message) for w in seen], extra and extra()

    return sched.in_fork(go)


def snapshot(root):
    """{relative path: bytes, or None for a directory}."""
    out = {}
    for d, dirs, files in os.walk(root):
        for name in dirs:
            out[os.path.relpath(os.path.join(d, name), root)] = None
        for name in files:
            p = os.path.join(d, name)
            out[os.path.relpath(p, root)] = open(p, "rb").read()
    return out


class Place:
    """A scratch directory of programs and what a batch must leave there."""

    def __init__(self, mode, backend):
        self.root = tempfile.mkdtemp(prefix="mc22")
        self.dir = os.path.join(self.root, "work")
        os.mkdir(self.dir)
        self.mode, self.backend = mode, backend
        self.results = {}  # path of a result -> name of the program
        self.bad = []

    def close(self):
        shutil.rmtree(self.root)

    def put(self, stem, kind, wanted=True, ext=None):
        """A program file; wanted: lies below the path the batch is run on."""
        if kind == "absent":
            return
        name = f"{stem}.{ext or self.mode}"
        path = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        result = f"{stem}-{self.backend}.pkl"
        wanted = wanted and ext in (None, self.mode)
        if kind == "directory":
            os.mkdir(path)
            return
        body = BAD[kind] if kind in BAD else qasm.text(*PROGRAMS[kind if kind in PROGRAMS else "good1"]).encode()
        with open(path, "wb") as f:
            f.write(body)
        if kind == "blocked":
            os.mkdir(os.path.join(self.dir, result))
            if wanted:
                self.bad.append(name)
            return
        if kind == "stale":
            with open(os.path.join(self.dir, result), "wb") as f:
                f.write(b"left over from an earlier run" * 200)
        if wanted and kind in BAD:
            self.bad.append(name)
        elif wanted:
            self.results[result] = kind if kind in PROGRAMS else "good1"

    def bystanders(self):
        for name, body in (("notes.md", b"x"), ("data.json", b"{}"), ("old.pkl", b"old"), ("other.py", b"1/0\n"), ("noext", b"X x0\n"), ("a.txt.bak", GOOD1), ("xtxt", GOOD1), ("xqasm", GOOD1),
                           ("c.mytxt", GOOD1), ("c.myqasm", GOOD1), ("d.txt2", GOOD1), ("d.qasm~", GOOD1), ("txt", GOOD1), ("qasm", GOOD1)):
            with open(os.path.join(self.dir, name), "wb") as f:
                f.write(body)

    def judge(self, before, got, missing_ok=()):
        """None, or what is wrong with what the batch left and said."""
        if got is None:
            return "the batch did not finish"
        end, out, warned, _ = got
        if end != "normal":
            return f"the batch ended with {end}"
        after = snapshot(self.root)
        for p, body in before.items():
            if p not in after:
                return f"{p} is gone"
            if after[p] != body and os.path.relpath(p, "work") not in self.results:
                return f"{p} was altered"
        results = {os.path.join("work", r) for r in self.results}
        extra = set(after) - set(before) - results
        if extra:
            return f"unexpected files: {sorted(extra)}"
        for r, kind in self.results.items():
            p = os.path.join("work", r)
            if r in missing_ok and p not in after:
                continue
            if p not in after or after[p] is None:
                return f"no result file {r}"
            bad = self.value(after[p], kind)
            if bad:
                return f"{r}: {bad}"
        flat = "".join(out.split())
        for name in self.bad:
            last = "/" + os.path.basename(name)
            tail = "".join(last.split())
            if any(last in w for w in warned):
                continue
            at = flat.find(tail)
            while at >= 0 and not any(w in flat[at:at + len(tail) + 60].lower() for w in ("exception", "error", "fail")):
                at = flat.find(tail, at + 1)
            if at < 0:
                return f"{name} was not reported"
        return None

    def value(self, data, kind):
        try:
            r = pickle.loads(data)
        except Exception as e:
            return f"unreadable result: {type(e).__name__}"
        dims, program = PROGRAMS[kind]
        if not isinstance(r, dict) or "value" not in r or "config" not in r:
            return f"the result lacks value or config: {r!r}"
        want = {"width": len(dims), "depth": len(ref.layers(len(dims), qasm.calls(program)))}
        if r["config"] != want:
            return f"the configuration is {r['config']}, expected {want}"
        for name in ("loading-time", "execution-time"):
            if not isinstance(r.get(name), float) or r[name] < 0:
                return f"the {name} is {r.get(name)!r}"
        return harness.compare(r["value"], qasm.meaning(dims, program))


def one(ctx, case, place, args=None, prepare=None, key=None, missing_ok=()):
    before = snapshot(place.root)
    got = batch(args or ["-m", place.mode, "-b", place.backend, place.dir], place.root, prepare)
    bad = place.judge(before, got, missing_ok)
    if bad:
        ctx.violation(case, bad + ("" if got is None else f"; output {got[1][-600:]}"))
    ctx.trace()
    ctx.transition(len(place.results) + len(place.bad))
    ctx.state(str(case))
    ctx.outcome(key or (sorted(place.results.items()), sorted(place.bad)))
    ctx.sample(case)
    return got


def explore(unit, ctx):
    setup()
    {"same": same, "many": many, "grid": grid, "odd": odd, "paths": paths, "again": again, "fault": fault, "open": opening, "torn": torn, "crash": crash, "large": large, "shown": shown, "backends": backends, "refused": refused}[unit["k"]](unit, ctx)


def placed(unit, fn):
    p = Place(unit.get("mode", "txt"), unit.get("backend", "sparse"))
    try:
        return fn(p)
    finally:
        p.close()


def grid(unit, ctx):
    first = unit["first"] or []
    for kinds in itertools.product(KINDS, repeat=len(unit["slots"]) - len(first)):
        kinds = tuple(first) + kinds
        case = {"files": dict(zip(unit["slots"], kinds)), "mode": unit["mode"], "backend": unit["backend"]}

        def go(p):
            for slot, kind in zip(unit["slots"], kinds):
                p.put(slot, kind)
            p.bystanders()
            other = "qasm" if p.mode == "txt" else "txt"
            p.put("sub/other", "good2", ext=other)
            p.put("unsupported", "unsupported", ext=other)
            one(ctx, case, p)

        placed(unit, go)


def same(unit, ctx):
    """Programs of the same name in different directories, and of names that start alike."""
    for kinds in itertools.product(("absent", "good1", "unsupported"), repeat=len(SAME) - 1):
        kinds = (unit["first"], *kinds)
        case = {"files": dict(zip(SAME, kinds)), "backend": unit["backend"]}

        def go(p):
            for i, (slot, kind) in enumerate(zip(SAME, kinds)):
                p.put(slot, "good2" if kind == "good1" and i % 2 else kind)
            one(ctx, case, p)

        placed(unit, go)


def many(unit, ctx):
    """Dozens of files; the bad ones at every third place."""
    for shift in (None, 0, 1, 2):
        case = {"files": len(MANY), "bad from": shift, "backend": unit["backend"], "mode": unit["mode"]}

        def go(p):
            for i, slot in enumerate(MANY):
                p.put(slot, "unsupported" if shift is not None and i % 3 == shift else list(GOOD)[i % len(GOOD)])
            one(ctx, case, p)

        placed(unit, go)


def odd(unit, ctx):
    names = ODD[unit["part"]::4]
    for name in names:
        for kind in ("good1", "unsupported", "markup", "binary"):
            for around in (None, "good2", "no begin"):
                case = {"name": name, "kind": kind, "next to": around, "backend": unit["backend"]}

                def go(p):
                    p.put(name, kind)
                    if around:
                        p.put("aa", around)
                        p.put("zz/zz", around)
                    one(ctx, case, p)

                placed(unit, go)
    # odd directory given as the path itself
    for name in names:
        if "/" in name:
            continue
        for kind in ("good1", "no begin"):
            case = {"directory": name, "kind": kind, "backend": unit["backend"]}

            def go(p):
                p.put(f"{name}/x", kind)
                p.put("y", "good2", wanted=False)
                target = os.path.join(p.dir, name)
                one(ctx, case, p, ["-m", "txt", "-b", p.backend, target])

            placed(unit, go)


def shown(unit, ctx):
    """The stored results listed again (mode pkl): each is shown as stored, nothing is altered."""
    b = unit["backend"]
    places = [list(zip(SLOTS, kinds)) for kinds in itertools.product(("absent", *GOOD), repeat=3 if unit.get("deep") else 2)]
    places += [[("x", name)] for name in LARGE] + [[(name, "good1"), ("zz", "tof")] for name in ODD] + [list(zip(MANY, itertools.cycle(GOOD)))]
    for files in places[unit["part"]::4]:
        for args in ([], ["-v"], ["-b", "numpy"]):
            case = {"listing": dict(files[:4]), "files": len(files), "backend": b, "options": args}

            def go(p):
                for slot, kind in files:
                    p.put(slot, kind)
                one(ctx, case, p)
                before = snapshot(p.root)
                got = batch(["-m", "pkl", *args, p.dir], p.root)
                after = snapshot(p.root)
                ctx.transition()
                if got is None or got[0] != "normal":
                    return ctx.violation(case, f"the listing ended with {got and got[0]}")
                if after != before:
                    return ctx.violation(case, "the listing altered files")
                flat = "".join(got[1].split())
                for r in p.results:
                    text = "".join(str(pickle.loads(before[os.path.join("work", r)])).split())
                    if "".join(os.path.basename(r).split()) not in flat or text not in flat:
                        return ctx.violation(case, f"the listing does not show {r} with its content; output {got[1][-600:]}")

            placed(unit, go)


def large(unit, ctx):
    for m, b in itertools.product(("txt", "qasm"), ("sparse", "numpy")):
        for args in ([], ["-v"]):
            case = {"program": unit["program"], "mode": m, "backend": b, "options": args}

            def go(p):
                p.put("x", unit["program"])
                p.put("sub/y", "good2")
                one(ctx, case, p, ["-m", m, "-b", b] + args + [p.dir])

            placed({"mode": m, "backend": b}, go)


def paths(unit, ctx):
    """Spellings of the path; only what lies below it is processed."""
    spellings = {
        "absolute": lambda p: os.path.join(p.dir, "sub"), "slash": lambda p: os.path.join(p.dir, "sub") + "/", "relative": lambda p: "work/sub",
        "dot": lambda p: "./work/sub", "dotdot": lambda p: "work/other/../sub/", "double": lambda p: "work//sub", "from above": lambda p: "work/sub/.",
    }
    for name, spell in spellings.items():
        for kind, m, b in itertools.product(("good1", "tof", "unsupported"), ("txt", "qasm"), ("sparse", "numpy")):
            case = {"path": name, "kind": kind, "mode": m, "backend": b}

            def go(p):
                p.put("sub/x", kind)
                p.put("sub/deep/y", "good2")
                p.put("z", "good1", wanted=False)
                p.put("other/z", "no begin", wanted=False)
                args = ["-m", m, "-b", b, spell(p)]
                one(ctx, case, p, args)

            placed({"mode": m, "backend": b}, go)
    # options left to their defaults, verbose and status display
    for args in ([], ["-v"], ["-vv", "-b", "sparse"], ["-t", "1"], ["-t", "1", "-v"], ["-t", "yes", "-vvv"], ["--mode", "txt", "--backend", "sparse"]):
        for kind in ("good1", "unsupported", "markup"):
            case = {"options": args, "kind": kind}

            def go(p):
                p.put("x", kind)
                p.put("sub/[/y]", "good2")
                one(ctx, case, p, args + [p.dir])

            placed({}, go)


CLASSES = {"sparse": "SparseBackend", "numpy": "NumpyBackend", "cuda": "CUDABackend", "sparse-cuda": "CUDASparseBackend"}


def with_gpu(gpu):
    """A machine with GPU libraries (NumPy and SciPy stand in for them), or one without."""

    def prepare():
        import importlib
        import types

        import numpy
        import scipy.sparse

        for name in [n for n in sys.modules if n.split(".")[0] == "qudiet" or n.startswith("src.")]:
            del sys.modules[name]
        for name in ("CUDA_HOME", "CUDA_PATH", "CUDA_VERSION", "CUDNN_VERSION", "COLAB_GPU"):
            os.environ.pop(name, None)
        if gpu:
            os.environ["CUDA_HOME"] = "/nowhere"
            cupyx, cs = types.ModuleType("cupyx"), types.ModuleType("cupyx.scipy")
            cupyx.scipy, cs.sparse = cs, scipy.sparse
            sys.modules.update({"cupy": numpy, "cupyx": cupyx, "cupyx.scipy": cs, "cupyx.scipy.sparse": scipy.sparse})
        calls = {}
        for key, cls in CLASSES.items() if gpu else ():
            backend = getattr(importlib.import_module(f"src.qudiet.core.backend.{cls}"), cls)
            for attr in ("kron", "dot"):

                def counted(*a, key=key, real=getattr(backend, attr), **k):
                    calls[key] = calls.get(key, 0) + 1
                    return real(*a, **k)

                setattr(backend, attr, staticmethod(counted))
        return lambda: calls

    return prepare


def backends(unit, ctx):
    """Each backend by name, on a machine with GPU libraries: it is the one that computes, and its name is in the result's."""
    b = unit["backend"]
    for first, second in itertools.product(GOOD, KINDS):
        case = {"backend": b, "files": [first, second]}

        def go(p):
            p.put("a", first)
            if second != "blocked" or b == "sparse":
                p.put("sub/b", second)
            got = one(ctx, case, p, prepare=with_gpu(True))
            if not (got[3] or {}).get(b):
                ctx.violation(case, f"the backend {b} was not used; backend calls {got[3]}")

        placed({"backend": b}, go)


def refused(unit, ctx):
    """A backend that does not exist, or is not available here: nothing is computed with another one."""
    for b in ("cuda", "sparse-cuda", "Numpy", "sparse ", "tensor", "", "numpy-sparse", "none"):
        case = {"backend": b, "gpu": False}

        def go(p):
            p.put("a", "good1")
            p.put("sub/b", "good2")
            before = snapshot(p.root)
            got = batch(["-m", "txt", "-b", b, p.dir], p.root, with_gpu(False))
            if got is None or got[0] == "normal":
                ctx.violation(case, f"the batch did not refuse the backend {b!r}: {got}")
            if snapshot(p.root) != before:
                ctx.violation(case, "a batch with a refused backend wrote files")
            ctx.trace()
            ctx.transition()
            ctx.state(str(case))

        placed({}, go)


def again(unit, ctx):
    """The batch run again, with the same and with the other backend, on what it left."""
    for kinds in itertools.product([unit["first"]], KINDS):
        case = {"twice": kinds}

        def go(p):
            for slot, kind in zip(SLOTS, kinds):
                p.put(slot, kind)
            one(ctx, {**case, "run": 1}, p)
            one(ctx, {**case, "run": 2}, p)
            q = {r.replace("-sparse.pkl", "-numpy.pkl"): k for r, k in p.results.items()}
            for slot, kind in zip(SLOTS, kinds):
                if kind == "blocked":  # only the sparse result is blocked
                    q[f"{slot}-numpy.pkl"] = "good1"
                    p.bad.remove(f"{slot}.txt")
            p.results, p.backend = q, "numpy"
            one(ctx, {**case, "run": 3}, p)

        placed({}, go)


THREE = (("a", "good1"), ("sub/b", "good2"), ("sub/deep/c", "tof"))


def fault(unit, ctx):
    """A failure at every single call of the backend during the batch."""
    error = getattr(__builtins__, unit["error"]) if not isinstance(__builtins__, dict) else __builtins__[unit["error"]]
    name = {"sparse": "SparseBackend", "numpy": "NumpyBackend"}[unit["backend"]]

    def injector(at):
        def prepare():
            import importlib

            cls = getattr(importlib.import_module(f"src.qudiet.core.backend.{name}"), name)
            calls = [0]
            for attr in ("kron", "dot"):
                real = getattr(cls, attr)

                def faulty(*a, real=real, **k):
                    calls[0] += 1
                    if calls[0] == at:
                        raise error("injected [/y]")
                    return real(*a, **k)

                setattr(cls, attr, staticmethod(faulty))
            return lambda: calls[0]

        return prepare

    at, total = 0, None
    while total is None or at < total:
        case = {"injected": unit["error"], "at backend call": at, "backend": unit["backend"]}

        def go(p):
            for slot, kind in THREE:
                p.put(slot, kind)
            got = one(ctx, case, p, prepare=injector(at), key=("fault", at, unit["error"]), missing_ok=list(p.results) if at else ())
            left = [r for r in p.results if os.path.exists(os.path.join(p.dir, r))]
            if at and len(left) != 2:
                ctx.violation(case, f"one of three programs fails, but the results are {left}")
            return got[3]

        n = placed(unit, go)
        total = n if total is None else total
        at += 1
    ctx.count("backend_calls_failed", at - 1)


def opening(unit, ctx):
    """Opening one of the program files fails."""
    import builtins

    for victim in range(3):
        case = {"opening fails": THREE[victim][0], "error": unit["error"]}

        def go(p):
            for i, (slot, kind) in enumerate(THREE):
                p.put(slot, kind)
            path = os.path.join(p.dir, THREE[victim][0] + ".txt")

            def prepare():
                real = builtins.open

                def faulty(file, *a, **k):
                    if file == path:
                        if unit["error"] == "UnicodeDecodeError":
                            raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "injected")
                        raise getattr(builtins, unit["error"])(13, "injected", file)
                    return real(file, *a, **k)

                builtins.open = faulty

            del p.results[THREE[victim][0] + "-sparse.pkl"]
            p.bad.append(THREE[victim][0] + ".txt")
            one(ctx, case, p, prepare=prepare)

        placed(unit, go)


def kept_whole(ctx, case, p, before):
    """After a batch that died: every result there is complete or from before, and nothing else was harmed."""
    after = snapshot(p.root)
    for name, body in before.items():
        if name not in after or (after[name] != body and os.path.relpath(name, "work") not in p.results):
            ctx.violation(case, f"{name} was altered or is gone")
    for name in set(after) - set(before):
        if name.endswith((".pkl", "." + p.mode)) and os.path.relpath(name, "work") not in p.results:
            ctx.violation(case, f"{name} was left behind")
    for r, kind in p.results.items():
        name = os.path.join("work", r)
        if name in after and after[name] != before.get(name):
            bad = p.value(after[name], kind)
            if bad:
                ctx.violation(case, f"{r} holds {len(after[name])} bytes: {bad}")
    ctx.trace()
    ctx.transition()
    ctx.state((str(case), tuple(sorted(after))))


def torn(unit, ctx):
    """No file can grow beyond n bytes, for every n up to the size of the largest result."""
    placed({}, lambda p: sizes.update(measure(p)))
    top = max(sizes.values())
    for n in range(unit["part"], top + 12, 4):
        for stale in (False, True):
            case = {"files are full after": n, "then": "killed" if unit["kill"] else "write fails", "earlier results": stale}

            def go(p):
                fill(p, stale)
                before = snapshot(p.root)
                got = batch(["-m", p.mode, "-b", p.backend, p.dir], p.root, lambda: faults.torn(n, unit["kill"]))
                if unit["kill"]:
                    kept_whole(ctx, case, p, before)
                else:
                    for r in list(p.results):
                        path = os.path.join(p.dir, r)
                        body = open(path, "rb").read() if os.path.exists(path) else None
                        if n < sizes[r] + 8 and body == before.get(os.path.join("work", r)):
                            # it may have failed: then it was reported
                            del p.results[r]
                            p.bad.append(r.replace("-sparse.pkl", ".txt"))
                    bad = p.judge(before, got)
                    if bad:
                        ctx.violation(case, bad + ("" if got is None else f"; output {got[1][-600:]}"))
                    ctx.trace()
                    ctx.outcome(tuple(p.bad))
                    p.results, p.bad = dict(EXPECTED), []
                one(ctx, {**case, "run": "again"}, p, key=("again", n >= top))

            placed({}, go)
    ctx.count("torn_writes", 1)


sizes = {}
EXPECTED = {}


def fill(p, stale):
    for slot, kind in THREE:
        p.put(slot, kind)
        if stale:
            with open(os.path.join(p.dir, f"{slot}-sparse.pkl"), "wb") as f:
                f.write(b"left over from an earlier run" * 40)
    EXPECTED.update(p.results)


def measure(p):
    fill(p, False)
    batch(["-m", p.mode, "-b", p.backend, p.dir], p.root)
    return {r: os.path.getsize(os.path.join(p.dir, r)) for r in p.results if os.path.exists(os.path.join(p.dir, r))}


def crash(unit, ctx):
    """The batch dies before its k-th operation on a file, for every k."""
    k, over = 0, False
    while not over:
        case = {"killed before file operation": k, "earlier results": unit["stale"]}

        def go(p):
            fill(p, unit["stale"])
            before = snapshot(p.root)
            got = batch(["-m", p.mode, "-b", p.backend, p.dir], p.root, lambda: (lambda seen: lambda: seen[0])(faults.crash(k, p.root)))
            if got is None:
                kept_whole(ctx, case, p, before)
            else:
                bad = p.judge(before, got)
                if bad:
                    ctx.violation(case, bad)
            one(ctx, {**case, "run": "again"}, p, key=("after a crash", unit["stale"]))
            return got is not None

        over = placed({}, go)
        k += 1
    ctx.count("crash_points", k - 1)
