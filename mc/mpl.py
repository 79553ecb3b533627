"""Reads back what the graphical drawing put on its figures."""

import re

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.patches import Rectangle  # noqa: E402

from mc.harness import Bad  # noqa: E402

GAP = 0.9  # artists closer than this belong to the same column
GATE = re.compile(r"\$\s*([A-Z])\s*(?:\^\{\+(-?\d+)\}_\{(\d+)\})?\s*\$")
LABEL = re.compile(r"\$Q\^\{(\d+)D\}_\{(\d+)\}\|(\d+)>\$")


def figures(draw):
    """Calls draw() and returns the figures that were open when it showed them."""
    plt.close("all")
    shown = []
    saved = plt.show

    def show(*args, **kwargs):
        for num in plt.get_fignums():
            f = plt.figure(num)
            if f not in shown:
                shown.append(f)

    plt.show = show
    try:
        draw()
    finally:
        plt.show = saved
        left = plt.get_fignums()
        for f in shown:
            plt.close(f)
        plt.close("all")
    if not shown:
        raise Bad(f"nothing was shown ({len(left)} figures left open)")
    return shown


def line_of(y, n, what):
    """The qudit on whose line y lies."""
    r = round(y)
    if abs(y - r) > 0.2 or not 1 <= r <= n:
        raise Bad(f"{what} stands at height {y:g}, on no qudit's line")
    return r - 1


def marked(line):
    """The (x, y) points of a line that carry its marker."""
    if line.get_marker() in (None, "None", "", " "):
        return []
    xs, ys = [list(map(float, a)) for a in line.get_data()]
    every = line.get_markevery()
    pts = list(zip(xs, ys))
    if every is None:
        return pts
    if isinstance(every, (list, tuple)) and all(isinstance(e, bool) for e in every):
        return [p for p, e in zip(pts, every) if e]
    raise Bad(f"unexpected marker selection {every!r}")


def read_figure(fig, n):
    """(labels, wires, events); an event is (x, what, ...)."""
    if len(fig.axes) != 1:
        raise Bad(f"a figure has {len(fig.axes)} axes")
    ax = fig.axes[0]
    labels, wires, events = {}, [], []
    xmax, ymax = ax.get_xlim()[1], ax.get_ylim()[1]

    def put(x, y, *rest):
        if not (0 <= x <= xmax and 0 <= y <= ymax):
            raise Bad(f"{rest} is drawn outside the figure at ({x:g}, {y:g})")
        events.append((x,) + rest)

    for t in ax.texts:
        s = t.get_text()
        x, y = map(float, t.get_position())
        m = LABEL.fullmatch(s)
        if m:
            d, i, level = map(int, m.groups())
            if i in labels:
                raise Bad(f"two labels for qudit {i}")
            labels[i] = (line_of(y, n, s), d, level)
            continue
        m = GATE.fullmatch(s)
        if m:
            put(x, y, "text", line_of(y, n, s), m.group(1), m.group(2) and int(m.group(2)), m.group(3) and int(m.group(3)))
            continue
        if s == "G":  # in the middle of a block of registers
            put(x, y, "middle", y)
            continue
        if s not in ("MSB", "LSB"):
            raise Bad(f"unexpected text {s!r}")
    for p in ax.patches:
        if not isinstance(p, Rectangle):
            raise Bad(f"unexpected shape {p}")
        x, y, w, h = p.get_x(), p.get_y(), p.get_width(), p.get_height()
        put(x, y + h / 2, "block", line_of(y, n, "a block"), line_of(y + h, n, "a block"))
    for ln in ax.lines:
        xs, ys = [list(map(float, a)) for a in ln.get_data()]
        dots = marked(ln)
        if len(xs) == 2 and ys[0] == ys[1] and not dots:
            wires.append((line_of(ys[0], n, "a wire"), min(xs), max(xs)))
            continue
        marker = ln.get_marker()
        visible = ln.get_color() not in ("none", "None", None)
        for x, y in dots:
            kind = {"o": "dot" if visible else "ring", "+": "cross", 9: "corner"}.get(marker, f"marker {marker}")
            put(x, y, kind, line_of(y, n, kind))
        if len(set(ys)) > 1 and ln.get_linewidth() > 0 and visible and ln.get_linestyle() not in ("None", "", " "):
            if max(xs) - min(xs) > 0.2:
                raise Bad("a connecting line is not vertical")
            put(xs[0], ys[0], "join", line_of(min(ys), n, "a join"), line_of(max(ys), n, "a join"))
    return labels, wires, events


def columns(events):
    """Events clustered by horizontal position, left to right."""
    out = []
    last = None
    for e in sorted(events, key=lambda e: e[0]):
        if last is None or e[0] - last > GAP:
            out.append([])
        out[-1].append(e)
        last = e[0]
    return [sorted((e[1:] for e in c), key=repr) for c in out]


def read(draw, n):
    """(labels, columns of all figures in order); checks the wires."""
    labels, cols = None, []
    for i, fig in enumerate(figures(draw)):
        found, wires, events = read_figure(fig, n)
        if sorted(w[0] for w in wires) != list(range(n)):
            raise Bad(f"figure {i + 1} has the wires {sorted(w[0] for w in wires)} for {n} qudits")
        for e in events:
            for r, x0, x1 in wires:
                if not x0 - 0.01 <= e[0] <= max(x1, x0) + 2:
                    raise Bad(f"{e} is drawn beside the wires")
        if i == 0:
            labels = found
        elif found:
            raise Bad(f"figure {i + 1} repeats labels")
        cols += columns(events)
    return labels, cols
