"""C25: saved results read back: the listing mode shows every saved result with its content."""

import itertools
import os
import pickle

from mc import harness
from mc.props import c22

ID = "C25"
LEVEL = "model_checking"
ASSUMPTIONS = (
    "every file with the listed suffix was saved by the batch runner (what listing does with other people's files is not explored)",
    "white space in the listing is not judged (the console wraps its lines)",
)
BACKENDS = ("sparse", "numpy")
KINDS = ["absent", *c22.GOOD, "unsupported"]


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every assignment of %d contents (absent, four good programs, a bad one) to programs at %d places, run with either backend and with both, then listed twice; every one of %d odd file and "
        "directory names, alone and next to others; every assignment of three contents to six places with equal and similar names; %d results in one listing; %d larger results (up to 243 basis states); seven spellings of the path, options given and left out; the suffix pickle"
        % (len(KINDS), 3 if q else 4, len(c22.ODD) + len(MORE), len(c22.MANY), len(c22.LARGE))
    )


MORE = ["[bold]", "[/]", "[[x]]", "\\[x]", "[link=a]x", "a[1]", "[x", "x]", "[@click=a]b", "[#ff0000]", ":smile:", "http:x", "'x'", "[not a tag", "[/yellow]", "[white]"]


def units(tier):
    q = tier == "quick"
    slots = c22.SLOTS if q else c22.FULL
    u = [{"k": "grid", "slots": slots[:2], "backends": list(b), "first": []} for b in (("sparse",), ("numpy",), BACKENDS)]
    u += [{"k": "odd", "part": i, "backend": b} for b in BACKENDS for i in range(5)]
    u += [{"k": "large", "program": n} for n in c22.LARGE]
    u += [{"k": "paths", "backend": b} for b in BACKENDS]
    u += [{"k": "same", "backend": b, "first": kind} for b in BACKENDS for kind in ("absent", "good1", "good2")] + [{"k": "many", "backend": b} for b in BACKENDS]
    u += [{"k": "grid", "slots": slots, "backends": list(b), "first": [kind]} for b in (("sparse",), ("numpy",), BACKENDS) for kind in KINDS]
    return u


def explore(unit, ctx):
    c22.setup()
    {"grid": grid, "odd": odd, "large": large, "paths": paths, "same": same, "many": many}[unit["k"]](unit, ctx)


def saved(root, below="work", suffix=".pkl"):
    """[(name, content)] of the result files at or below a directory."""
    out = []
    for d, _, files in os.walk(os.path.join(root, below)):
        for name in files:
            if name.endswith(suffix):
                with open(os.path.join(d, name), "rb") as f:
                    out.append((name, pickle.load(f)))
    return out


def listing(ctx, case, place, args, below="work", suffix=".pkl"):
    """Lists, and judges what is said."""
    before = c22.snapshot(place.root)
    want = saved(place.root, below, suffix)
    got = c22.batch(args, place.root)
    bad = None
    if got is None:
        bad = "the listing did not finish"
    elif got[0] != "normal":
        bad = f"the listing ended with {got[0]}"
    elif c22.snapshot(place.root) != before:
        bad = "listing changed the directory"
    else:
        bad = judge(got[1], want)
    if bad:
        ctx.violation(case, bad + ("" if got is None else f"; output {got[1][-700:]}"))
    ctx.trace()
    ctx.transition(len(want))
    ctx.state(str(case))
    ctx.outcome(sorted(str((name, r["value"])) for name, r in want))
    ctx.sample(case)


def judge(text, want):
    flat = "".join(text.split())
    shown = flat.count("'config':")
    if shown != len(want):
        return f"{shown} results are listed, {len(want)} are saved"
    need = {}
    for name, r in want:
        need.setdefault(("".join(name.split()), "".join(repr(r).split())), []).append(name)
    for (name, content), files in need.items():
        # the content, right after its own file's name
        found, at = 0, flat.find(content)
        while at >= 0:
            if name in flat[max(0, at - len(name) - 40) : at]:
                found += 1
            at = flat.find(content, at + 1)
        if found != len(files):
            return f"the result of {files[0]} is listed {found} times under its name, expected {len(files)}: {content[:300]}"
    return None


def run(place, backend, mode="txt"):
    got = c22.batch(["-m", mode, "-b", backend, place.dir], place.root)
    if got is None or got[0] != "normal":
        raise harness.Bad(f"the batch ended with {got and got[0]}")


def judged(ctx, case, fn, **unit):
    """fn(place) in a scratch directory; what fails before the listing is the batch's business (C22)."""

    def go():
        def inner(p):
            fn(p)

        c22.placed(unit, inner)
        return None

    bad = ctx.guarded(go, case)
    if bad:
        ctx.violation(case, bad)


def grid(unit, ctx):
    for kinds in itertools.product(KINDS, repeat=len(unit["slots"]) - len(unit["first"])):
        kinds = tuple(unit["first"]) + kinds
        case = {"files": dict(zip(unit["slots"], kinds)), "backends": unit["backends"]}

        def go(p):
            for slot, kind in zip(unit["slots"], kinds):
                p.put(slot, kind)
            for b in unit["backends"]:
                run(p, b)
            for again in (1, 2):
                listing(ctx, {**case, "listing": again}, p, ["-m", "pkl", p.dir])

        judged(ctx, case, go)


def odd(unit, ctx):
    for name in (c22.ODD + MORE)[unit["part"] :: 5]:
        for around in (None, "good2"):
            case = {"name": name, "next to": around, "backend": unit["backend"]}

            def go(p):
                p.put(name, "good1")
                if around:
                    p.put("aa", around)
                    p.put("zz/zz", around)
                run(p, unit["backend"])
                # the runner's own names may not keep the program's one; every file saved counts
                listing(ctx, case, p, ["-m", "pkl", "-b", unit["backend"], p.dir])

            judged(ctx, case, go)
        if "/" in name:
            continue
        case = {"directory": name, "backend": unit["backend"]}

        def inside(p):
            p.put(f"{name}/x", "tof")
            p.put("y", "good2")
            run(p, unit["backend"])
            listing(ctx, case, p, ["-m", "pkl", os.path.join(p.dir, name)], below=os.path.join("work", name))

        judged(ctx, case, inside)


def same(unit, ctx):
    """Results of the same name in different directories, and of names that start alike."""
    for kinds in itertools.product(("absent", "good1", "good2"), repeat=len(c22.SAME) - 1):
        kinds = (unit["first"], *kinds)
        case = {"files": dict(zip(c22.SAME, kinds)), "backend": unit["backend"]}

        def go(p):
            for slot, kind in zip(c22.SAME, kinds):
                p.put(slot, kind)
            run(p, unit["backend"])
            listing(ctx, case, p, ["-m", "pkl", p.dir])

        judged(ctx, case, go)


def many(unit, ctx):
    case = {"files": len(c22.MANY), "backend": unit["backend"]}

    def go(p):
        for i, slot in enumerate(c22.MANY):
            p.put(slot, list(c22.GOOD)[i % len(c22.GOOD)])
        run(p, unit["backend"])
        listing(ctx, case, p, ["-m", "pkl", p.dir])

    judged(ctx, case, go)


def large(unit, ctx):
    for b in BACKENDS:
        case = {"program": unit["program"], "backend": b}

        def go(p):
            p.put("x", unit["program"])
            p.put("sub/y", "good2")
            run(p, b)
            listing(ctx, case, p, ["-m", "pkl", p.dir])

        judged(ctx, case, go)


def paths(unit, ctx):
    spellings = {
        "absolute": lambda p: os.path.join(p.dir, "sub"), "slash": lambda p: os.path.join(p.dir, "sub") + "/", "relative": lambda p: "work/sub",
        "dot": lambda p: "./work/sub", "dotdot": lambda p: "work/other/../sub/", "double": lambda p: "work//sub", "from above": lambda p: "work/sub/.",
    }
    for spell, kind in itertools.product(spellings, ("absent", "good1", "tof")):
        for options in (["-m", "pkl"], ["--mode", "pkl", "-b", unit["backend"]], ["-v", "-m", "pkl", "-t", "1"]):
            case = {"path": spell, "kind": kind, "options": options, "backend": unit["backend"]}

            def go(p):
                p.put("sub/x", kind)
                p.put("sub/deep/y", "good2")
                p.put("other/z", "good1")
                p.put("z", "good1")
                run(p, unit["backend"])
                listing(ctx, case, p, options + [spellings[spell](p)], below="work/sub")

            judged(ctx, case, go)
    for kind in ("good1", "tof"):
        case = {"suffix": "pickle", "kind": kind, "backend": unit["backend"]}

        def other(p):
            p.put("x", kind)
            p.put("sub/y", "good2")
            run(p, unit["backend"])
            os.rename(os.path.join(p.dir, f"x-{unit['backend']}.pkl"), os.path.join(p.dir, "x.pickle"))
            listing(ctx, case, p, ["-m", "pickle", p.dir], suffix=".pickle")
            listing(ctx, case, p, ["-m", "pkl", p.dir])

        judged(ctx, case, other)
