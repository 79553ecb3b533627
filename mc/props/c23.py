"""C23: the licence-header tool is idempotent and never loses file content."""

import contextlib
import io
import itertools
import os
import runpy
import shutil
import sys
import tempfile

from mc import faults, harness, sched

ID = "C23"
LEVEL = "model_checking"
SCRIPT = os.path.join(harness.REPO, "scripts", "license-headers.py")
ASSUMPTIONS = (
    "the header is what the tool itself writes into an empty source; that it names the package, the authors, the licence and the current year is checked separately",
    "the locale's encoding is UTF-8 (sources in other encodings are explored); the scratch directory's own path has no hidden or double-underscore component",
)


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every source made of up to %d pieces out of %d (up to two more odd ones: tabs, form feeds, continuation lines; interpreter and encoding lines, the complete header, five damaged headers, code, comments, blank lines, "
        "CRLF, missing final newline), checked, fixed, checked, fixed and checked again in directories of hundreds; every file placement (%d directories x %d "
        "suffixes x 2 contents), alone and in pairs, under %d choices of arguments; sources in other encodings; sources of 63 bytes to 4 MB around every power of two, 60 directories deep, 1500 wide; every choice of %s of eight symbolic links among the sources under five choices of arguments; a disk that is full after every single byte of the longest source, the tool failing or being killed there, and the tool killed before every single file operation" % ((3 if q else 4), len(BASE) if q else len(PIECES), len(DIRS), len(SUFFIXES), len(ARGS), "up to three" if q else "any")
    )


KEEP = ("#!/usr/bin/env python\n", "# -*- coding: utf-8 -*-\n")
PIECES = {
    "shebang": KEEP[0], "encoding": KEEP[1], "shebang3": "#!/usr/bin/env python3\n", "header": None, "cut": None, "first": None, "altered": None, "old": None, "tail": None,
    "code": "import os\n", "blank": "\n", "comment": "# comment\n", "open": "x = 1", "doc": '"""doc"""\n', "crlf": "y = 2\r\n", "crlf encoding": "# -*- coding: utf-8 -*-\r\n",
    "unicode": "é = '✓'\n", "latin": "caf\udce9 = '\udc80\udcff'\n", "latin line": "# -*- coding: latin-1 -*-\n", "spaces": "  \n", "tab": "\t\n",
    "indented": "if x:\n\ty = 1  \n", "feed": "\x0c\n", "backslash": "z = \\\n    3\n", "later shebang": " #!/usr/bin/env python\n",
}
ODD = ["tab", "latin", "latin line", "indented", "feed", "backslash", "later shebang"]
BASE = [n for n in PIECES if n not in ODD]
LEAN = ["shebang", "encoding", "header", "cut", "altered", "old", "code", "blank", "open", "crlf"]
DIRS = ["", "pkg", "pkg/sub", "pkg/sub/deep", ".hid", "__pycache__", "pkg/__x", "pkg/.y/z", "a__b", "x.py", "a.b", "_one"]
SUFFIXES = [".py", ".pyi", ".pyx", ".txt", ".py.bak", ".PY", "", "py", ".pyc", " .py"]
ARGS = {
    "all": ["."], "absolute": ["ABS"], "package": ["pkg"], "twice": [".", "."], "overlapping": [".", "pkg", "pkg/sub"], "inner first": ["pkg/sub", "."], "two": ["pkg", "a__b"],
    "none": [], "missing": ["nowhere"], "dotted": ["./pkg/../pkg/"], "hidden": [".hid", "pkg/.y"], "with file": ["FILE"], "file and all": ["FILE", "."], "file twice": ["FILE", "FILE"],
}
# name of the link: what it points to, relative to the link's directory
LINKS = {"link.py": "real.py", "sub/up.py": "../real.py", "sub/out.py": "../../outside/o.py", "chain.py": "sub/out.py", "dirlink": "../outside", "sub/loop": "..", "gone.py": "nowhere.py", "text.txt": "real.py"}
LINK_ARGS = {"all": ["."], "sub": ["sub"], "a link": ["sub/out.py"], "a link to a directory": ["dirlink"], "several": ["sub", "link.py", ".", "gone.py"]}
SAMPLE = "import os\n\nprint(os)\n"


def header():
    """What the tool writes into an empty file."""
    d = tempfile.mkdtemp(prefix="mc23")
    try:
        p = os.path.join(d, "empty.py")
        open(p, "w").close()
        end, _ = tool("fix", [p], d)
        return end, open(p).read()
    finally:
        shutil.rmtree(d)


def tool(mode, args, cwd, prepare=None):
    def go():
        os.chdir(cwd)
        if prepare:
            prepare()
        sys.argv = [SCRIPT, mode] + args
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                runpy.run_path(SCRIPT, run_name="__main__")
                end = 0
            except SystemExit as e:
                end = e.code or 0
            except BaseException as e:
                end = f"{type(e).__name__}: {e}"
        return end, out.getvalue()

    return sched.in_fork(go) or ("no answer", "")


def pieces(h):
    lines = h.splitlines(True)
    out = dict(PIECES)
    out["header"] = h
    out["cut"] = "".join(lines[:-1])                     # without its last line
    out["first"] = lines[0]
    out["altered"] = h.replace("ANY WARRANTY", "A WARRANTY")
    out["old"] = h.replace("(c) 2", "(c) 1")
    out["tail"] = "".join(lines[1:])
    return out


def raw(text):
    return text.encode("utf-8", "surrogateescape")


def plainly(data):
    return data.decode("utf-8", "surrogateescape")


def plain(text):
    return text.replace("\r\n", "\n").replace("\r", "\n")


def split(text, h):
    """(leading lines the header may follow, the rest)"""
    text = plain(text)
    at = 0
    while text.startswith(KEEP, at):
        at = text.index("\n", at) + 1
    return text[:at], text[at:]


def complete(text, h):
    return split(text, h)[1].startswith(h)


def fixed(text, h):
    lead, rest = split(text, h)
    return plain(text) if rest.startswith(h) else lead + h + rest


def units(tier):
    q = tier == "quick"
    u = [{"k": "header"}]
    u += [{"k": "content", "names": "all", "len": n, "first": None} for n in (0, 1, 2)]
    if q:
        u += [{"k": "content", "names": "base", "len": 3, "first": [a]} for a in BASE]
        u += [{"k": "content", "names": "lean", "len": 4, "first": [a]} for a in LEAN]
    else:
        u += [{"k": "content", "names": "all", "len": 3, "first": [a]} for a in PIECES]
        u += [{"k": "content", "names": "all", "len": 4, "first": [a, b]} for a in PIECES for b in PIECES]
        u += [{"k": "content", "names": "lean", "len": 5, "first": [a, b]} for a in LEAN for b in LEAN]
    u += [{"k": "torn", "kill": kill, "part": i} for kill in (False, True) for i in range(4)] + [{"k": "crash"}, {"k": "large"}] + [{"k": "links", "args": a, "quick": q} for a in LINK_ARGS]
    u += [{"k": "tree", "args": a} for a in ARGS]
    u += [{"k": "pairs", "args": a} for a in ARGS]
    return u


def explore(unit, ctx):
    end, h = header()
    if unit["k"] == "header":
        import datetime

        want = ["QuDiet", "github.com/LegacYFTw/qubit-qudit-sim", "Turbasu Chatterjee", "Subhayu Kumar Bala", "Arnav Das", "Amit Saha", "Anupam Chattopadhyay",
                "Amlan Chakrabarti", "SPDX-License-Identifier: AGPL-3.0", "version 3", "WITHOUT ANY WARRANTY", "http://www.gnu.org/licenses/", str(datetime.date.today().year)]
        missing = [w for w in want if w not in h]
        if end != 0 or missing or not h.endswith("\n\n") or any(not l.startswith("#") for l in h.split("\n")[:-2]):
            ctx.violation({"header": h}, f"the header (exit {end}) lacks {missing} or is not a block of comment lines followed by a blank line")
        for bad in ([], ["fox"], ["", "."]):
            end = tool(bad[0], bad[1:], "/tmp")[0] if bad else 1
            if end == 0:
                ctx.violation({"arguments": bad}, "an unknown mode is accepted")
            ctx.trace()
            ctx.outcome(str(end))
        return
    {"content": content, "tree": tree, "pairs": tree, "torn": torn, "crash": crash, "large": large, "links": links}[unit["k"]](unit, ctx, h)


def rounds(ctx, case, d, files, args, mine, h):
    """check, fix, check, fix, check; files: {path: text}, mine(path): is it looked at?"""
    def written():
        return {p: open(os.path.join(d, p), "rb").read() for p in files}

    def stamp():
        return {p: (os.stat(os.path.join(d, p)).st_mtime_ns, os.stat(os.path.join(d, p)).st_mode) for p in files}

    for p, text in files.items():
        path = os.path.join(d, p)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(raw(text))
        os.chmod(path, 0o751)
    tree0 = sorted(os.path.join(a, x) for a, b, c in os.walk(d) for x in b + c)
    want = {p: plain(t) for p, t in files.items()}
    for step in ("check", "fix", "check", "fix", "check"):
        before, times = written(), stamp()
        needs = {p for p in files if mine(p) and not complete(plainly(before[p]), h)}
        end, out = tool(step, args, d)
        after = written()
        names = {line[3:] for line in out.splitlines() if line.startswith(" - ")} if step == "check" else set()
        if step == "check":
            if after != before or stamp() != times:
                ctx.violation(case, f"check modified {[p for p in files if after[p] != before[p]] or 'a file'}")
            if end != (1 if needs else 0):
                ctx.violation(case, f"check ends with {end!r}, but {len(needs)} sources lack the header: {sorted(needs)[:3]}")
            for p in files:
                listed = os.path.normpath(p) in {os.path.normpath(n) for n in names}
                if listed != (p in needs):
                    ctx.violation({**case, "content": files[p][:2000]}, f"check {'lists' if listed else 'does not list'} {p}")
        else:
            if end != 0:
                ctx.violation(case, f"fix ends with {end!r}: {out[-300:]}")
            for p in files:
                expect = fixed(plainly(before[p]), h) if p in needs else None
                got = plainly(after[p])
                if p not in needs and (after[p] != before[p] or stamp()[p] != times[p]):
                    ctx.violation({**case, "content": plainly(before[p])[:2000]}, f"fix changed {p}, which needs nothing; now {got[:3000]!r}")
                if p in needs and plain(got) != expect:
                    ctx.violation({**case, "content": plainly(before[p])[:2000]}, f"fix turned {p} into {got[:3000]!r}, expected {expect[:3000]!r}")
                if stamp()[p][1] != times[p][1]:
                    ctx.violation(case, f"fix changed the permissions of {p}")
        ctx.transition(len(files))
        ctx.trace()
        ctx.outcome((end, len(needs), step))
    if sorted(os.path.join(a, x) for a, b, c in os.walk(d) for x in b + c) != tree0:
        ctx.violation(case, "files appeared or disappeared")
    del want
    ctx.sample(case)


def scratch(fn):
    d = tempfile.mkdtemp(prefix="mc23")
    try:
        return fn(d)
    finally:
        shutil.rmtree(d)


def content(unit, ctx, h):
    named = pieces(h)
    names = {"all": list(PIECES), "base": BASE, "lean": LEAN}[unit["names"]]
    first = unit["first"] or []
    seqs = [tuple(first) + s for s in itertools.product(names, repeat=unit["len"] - len(first))]
    for at in range(0, len(seqs), 400):
        part = seqs[at:at + 400]
        files = {f"d{i % 7}/f{i}.py": "".join(named[x] for x in s) for i, s in enumerate(part)}
        case = {"pieces from": part[0], "to": part[-1]}
        for s in part:
            ctx.state(s)
        scratch(lambda d: ctx.guarded(lambda: rounds(ctx, case, d, files, ["."], lambda p: True, h), case))


def looked_at(path, args, given):
    """Is this file one the tool must deal with?"""
    if not path.endswith((".py", ".pyi")):
        return False
    parts = path.split("/")[:-1]
    if any(p.startswith("__") or p.startswith(".") for p in parts):
        return False
    for a in args:
        a = given if a == "FILE" else os.path.normpath(a)
        if a in (".", "ABS") or path == a or path.startswith(a + "/"):
            return True
    return False


def tree(unit, ctx, h):
    args = ARGS[unit["args"]]
    places = [os.path.join(d, "m" + s) for d in DIRS for s in SUFFIXES]
    special = [os.path.join(d, n) for d in ("", "pkg") for n in ("__init__.py", ".dot.py", "__main__.pyi")]
    bodies = {"needs": SAMPLE, "has": h + SAMPLE}

    def go(files, given):
        case = {"files": {p: "header" if t.startswith(h) else "no header" for p, t in files.items()}, "arguments": args, "file": given}

        def inside(d):
            real = [d if a == "ABS" else given if a == "FILE" else a for a in args]
            rounds(ctx, case, d, files, real, lambda p: looked_at(p, args, given), h)

        ctx.state(str(case))
        scratch(lambda d: ctx.guarded(lambda: inside(d), case))

    if unit["k"] == "tree":
        for given in ("pkg/m.py", "m.pyi", "m.txt", ".hid/m.py") if "FILE" in args else ("-",):
            for body in bodies:
                # everything at once
                go({p: bodies[body] for p in places + special}, given)
            for p in places + special if given in ("-", "pkg/m.py") else ():
                go({p: SAMPLE, **({given: h + SAMPLE} if given not in ("-", p) else {})}, given)
        return
    few = ["m.py", "pkg/m.py", "pkg/sub/m.pyi", "pkg/m.txt", ".hid/m.py", "a__b/m.py", "x.py/m.py"]
    for a, b in itertools.combinations(few, 2):
        for x, y in itertools.product(bodies.values(), repeat=2):
            go({a: x, b: y}, "pkg/m.py" if "pkg/m.py" in (a, b) else a)


def large(unit, ctx, h):
    """Sources of every size around a power of two, and of one very long line; deep and wide directories."""
    sized = {}
    for e in range(6, 23):
        for extra in (-1, 0, 1):
            n = 2 ** e + extra
            line = "a_name = 'é✓' # 12345\n" if e % 2 else "x = 1\n"
            text = line * (n // len(raw(line)))
            sized[f"size{n}.py"] = text + "#" * (n - len(raw(text)))
    sized["line.py"] = "x = '" + "y" * 300000 + "'\n"
    sized["blank.py"] = "\n" * 5000
    sized["headers.py"] = h * 40
    sized["later.py"] = "x = 1\n" * 4000 + h
    sized["interpreters.py"] = KEEP[0] * 50 + KEEP[1] * 50 + SAMPLE
    with_header = {"h" + p: h + t for p, t in list(sized.items())[::3]}
    deep = {"/".join("d" * (i + 1)) + f"/m{i}.py": SAMPLE if i % 2 else h + SAMPLE for i in range(60)}
    wide = {f"w{i}/m.py": SAMPLE if i % 3 else h for i in range(1500)}
    for name, files in ("sizes", {**sized, **with_header}), ("depth", deep), ("width", wide):
        case = {"files": name}
        ctx.state(name)
        scratch(lambda d: ctx.guarded(lambda: rounds(ctx, case, d, files, ["."], lambda p: True, h), case))


def links(unit, ctx, h):
    """Every choice of symbolic links among the sources: links stay links, what only they lead to by directory stays as it is."""
    args = LINK_ARGS[unit["args"]]
    bodies = {"needs": SAMPLE, "has": h + SAMPLE}
    for chosen in itertools.chain.from_iterable(itertools.combinations(LINKS, k) for k in range((3 if unit["quick"] else len(LINKS)) + 1)):
        for real, outer in itertools.product(bodies, repeat=2):
            case = {"links": {k: LINKS[k] for k in chosen}, "real.py": real, "../outside/o.py": outer, "arguments": args}

            def go(d):
                work = os.path.join(d, "work")
                os.makedirs(os.path.join(work, "sub"))
                os.mkdir(os.path.join(d, "outside"))
                files = {"work/real.py": bodies[real], "outside/o.py": bodies[outer], "outside/n.py": SAMPLE, "work/sub/s.py": SAMPLE}
                for p, text in files.items():
                    with open(os.path.join(d, p), "w") as f:
                        f.write(text)
                for name in chosen:
                    os.symlink(LINKS[name], os.path.join(work, name))
                reached = set()
                for a in args:
                    if a in (".", "sub"):
                        reached |= {"work/sub/s.py"} | ({"work/real.py"} if a == "." else set())
                        for name in chosen:
                            if name.endswith(".py") and (a == "." or name.startswith("sub/")):
                                reached.add(os.path.relpath(os.path.realpath(os.path.join(work, name)), d))
                    elif a == "dirlink" and a in chosen:
                        reached |= {"outside/o.py", "outside/n.py"}
                    elif a in chosen:
                        reached.add(os.path.relpath(os.path.realpath(os.path.join(work, a)), d))
                for step in ("check", "fix", "check", "fix"):
                    now = {p: open(os.path.join(d, p)).read() for p in files}
                    needs = {p for p in files if p in reached and not complete(now[p], h)}
                    end, out = tool(step, args, work)
                    if end != (1 if step == "check" and needs else 0):
                        return ctx.violation(case, f"{step} ends with {end!r}, {len(needs)} sources lack the header: {out[-300:]}")
                    for p in files:
                        want = fixed(now[p], h) if step == "fix" and p in needs else now[p]
                        got = open(os.path.join(d, p)).read()
                        if got != want:
                            return ctx.violation(case, f"after {step} {p} holds {got[:3000]!r}, expected {want[:3000]!r}")
                    for name in chosen:
                        path = os.path.join(work, name)
                        if not os.path.islink(path) or os.readlink(path) != LINKS[name]:
                            return ctx.violation(case, f"after {step} {name} is no longer a link to {LINKS[name]}")
                    ctx.trace()
                    ctx.transition(len(files) + len(chosen))
                    ctx.outcome((step, end, len(needs)))

            # a link to a link that is not there
            if "chain.py" in chosen and "sub/out.py" not in chosen:
                continue
            ctx.state(str(case))
            scratch(lambda d: ctx.guarded(lambda: go(d), case))


LONG = "".join(f"line_{i} = {i}\n" for i in range(120))


def faulty(ctx, case, h, prepare):
    """A fix under a fault, then one without; True if the fault did not show."""
    named = pieces(h)
    files = {"a.py": SAMPLE, "pkg/b.py": named["shebang"] + named["latin"] + named["open"], "pkg/c.pyi": h + SAMPLE, "pkg/sub/d.py": named["encoding"] + LONG, "pkg/e.txt": SAMPLE, "z.py": ""}

    def go(d):
        for p, text in files.items():
            path = os.path.join(d, p)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as f:
                f.write(raw(text))
            os.chmod(path, 0o751)
        first = tool("fix", ["."], d, lambda: prepare(d))
        for step in ("after the fault", "after the second fix"):
            whole = True
            for p, text in files.items():
                path = os.path.join(d, p)
                got = plain(plainly(open(path, "rb").read())) if os.path.exists(path) else None
                new = fixed(text, h) if looked_at(p, ["."], None) else text
                if got not in ((text, new) if step == "after the fault" else (new,)):
                    ctx.violation({**case, "file": p}, f"{step} {p} holds {got if got is None else got[:200]!r} ({0 if got is None else len(got)} characters), neither what it held nor the fixed source")
                elif os.stat(path).st_mode & 0o777 != 0o751:
                    ctx.violation({**case, "file": p}, f"{step} the permissions of {p} are {os.stat(path).st_mode & 0o777:o}")
                whole = whole and got == new
            if step == "after the fault":
                if first[0] == 0 and not whole:
                    ctx.violation(case, f"fix reports success, but not every source has the header: {first[1][-300:]}")
                for top, _, names in os.walk(d):
                    for name in names:
                        if name.endswith((".py", ".pyi")) and os.path.relpath(os.path.join(top, name), d) not in files:
                            ctx.violation(case, f"{name} was left behind")
                second = tool("fix", ["."], d)
                if second[0] != 0:
                    ctx.violation(case, f"the second fix ends with {second}")
        ctx.trace(2)
        ctx.transition(len(files))
        ctx.state(str(case))
        ctx.outcome(str(first[0])[:30])
        return first[0] == 0

    return scratch(lambda d: ctx.guarded(lambda: go(d), case))


def torn(unit, ctx, h):
    for n in range(unit["part"], len(raw(h + LONG)) + 60, 4):
        case = {"files are full after": n, "then": "killed" if unit["kill"] else "write fails"}
        faulty(ctx, case, h, lambda d: faults.torn(n, unit["kill"]))
        ctx.count("torn_writes", 1)


def crash(unit, ctx, h):
    k = 0
    while not faulty(ctx, {"killed before file operation": k}, h, lambda d: faults.crash(k, d)):
        k += 1
        if k > 1000:
            ctx.violation({}, "the tool never ends")
            break
    ctx.count("crash_points", k)
