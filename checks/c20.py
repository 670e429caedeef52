"""C20: layouts and colours"""
import json

import matplotlib
matplotlib.use("Agg")

from hypothesis import strategies as st                        # noqa: E402

import gen                                                     # noqa: E402
import trappy                                                  # noqa: E402,F401
from harness import Sub, expect                                # noqa: E402

LEVEL = "exploration"
RULE = ("Layouts of generated numbers of plots and columns, with axes asked "
        "for in any order and a generated number of plots used, and colour "
        "maps of generated colours, against the row-major grid and the list "
        "of colours.  Non-trivial: several rows and columns, or at least two "
        "colours.")
ASSUMPTIONS = []


def check_layout(case):
    import matplotlib.pyplot as plt
    from trappy.plotter.PlotLayout import PlotLayout
    cols, num = case["cols"], case["num"]
    kwargs = {}
    if case["size"] is not None:
        kwargs = dict(width=case["size"], length=case["size"] + 1)
    if case["title"] != "":
        kwargs["title"] = case["title"]
    if num == 0:
        try:
            PlotLayout(cols, num, **kwargs)
        except RuntimeError:
            return {"trivial", "no plots"}
        expect(False, "a layout without plots is accepted")
    try:
        layout = PlotLayout(cols, num, **kwargs)
        fig = layout.get_fig()
        axes = {}
        for i in case["order"]:
            axes[i] = layout.get_axis(i)
        for i in range(num):
            got = layout.get_axis(i)
            expect(i not in axes or axes[i] is got, "position {} is on other "
                   "axes the second time", i)
            axes[i] = got
        expect(len(set(map(id, axes.values()))) == num, "two of {} positions "
               "in {} columns share their axes", num, cols)
        columns = min(cols, num)
        rows = -(-num // columns)
        # Positions are row by row, all rows and columns being aligned
        boxes = {i: axes[i].get_position() for i in axes}
        xs = sorted({round(b.x0, 5) for b in boxes.values()})
        ys = sorted({-round(b.y0, 5) for b in boxes.values()})
        expect(len(xs) == columns and len(ys) == rows, "{} plots in {} "
               "columns are in {} rows and {} columns", num, cols, len(ys),
               len(xs))
        for i, box in boxes.items():
            at = (ys.index(-round(box.y0, 5)), xs.index(round(box.x0, 5)))
            expect(at == divmod(i, columns), "position {} of {} in {} columns "
                   "is at {}", i, num, cols, at)
        used = num if case["used"] is None else min(num, case["used"])
        layout.finish(used)
        shown = set(map(id, fig.axes))
        expect(shown == {id(axes[i]) for i in range(used)}, "{} axes are "
               "left of {} in use", len(shown), used)
        if case["size"] is not None and rows > 1 and columns > 1:
            want = [case["size"] * columns, (case["size"] + 1) * rows]
            got = [float(v) for v in fig.get_size_inches()]
            expect(got == want, "{} plots in {} columns have the size {} "
                   "instead of {}", num, cols, got, want)
        if case["title"]:
            expect(fig._suptitle.get_text() == case["title"],
                   "the title is {!r}", fig._suptitle.get_text())
        labels = {"{} rows".format(min(rows, 4))}
        if num % columns:
            labels.add("unused positions")
        if cols > num:
            labels.add("more columns than plots")
        if rows < 2 or columns < 2:
            labels.add("trivial")
        return labels
    finally:
        plt.close("all")


def check_colors(case):
    from trappy.plotter.ColorMap import ColorMap, to_dygraph_colors
    colors = [tuple(c) for c in case["colors"]]
    cmap = ColorMap.rgb_cmap(case["colors"])
    for i in case["order"] + list(range(len(colors))):
        i %= len(colors)
        got = cmap.cmap(i)
        expect(len(got) == 4 and all(abs(g - w / 255) < 1e-9 for g, w in zip(
            got, colors[i][:3])), "colour {} of {} is {} instead of {}", i,
            len(colors), got, colors[i])
        if i:
            inv = cmap.cmap_inv(len(colors) - i)
            expect(inv == got, "colour {} from the end of {} is {} instead of "
                   "{}", len(colors) - i, len(colors), inv, got)
    got = json.loads(to_dygraph_colors(colors))
    want = ["rgb({})".format(", ".join(map(str, c))) for c in colors]
    expect(got == want, "the colours for dygraphs are {} instead of {}", got,
           want)
    n = case["num"]
    cmap = ColorMap(n)
    # A gradient has its colours in order; hsv repeats its first at the end
    seen = [cmap.cmap(i) for i in range(n)]
    expect(len(set(seen)) == n, "{} positions of a gradient have {} colours",
           n, len(set(seen)))
    for i in case["order"]:
        i %= n
        expect(cmap.cmap(i) == seen[i] and cmap.cmap_inv(n - i) == seen[i],
               "colour {} of a gradient of {} changes", i, n)
    return set() if len(colors) > 1 else {"trivial"}


def layouts():
    return st.fixed_dictionaries(dict(
        cols=st.integers(1, 7), num=st.sampled_from(list(range(0, 15))),
        used=st.one_of(st.none(), st.integers(1, 14)),
        title=st.sampled_from(["", None, "Some title"]),
        size=st.sampled_from([None, 1, 2, 7]),
        order=st.just([]))).flatmap(
            lambda c: st.lists(st.integers(0, max(0, c["num"] - 1)),
                               max_size=4).map(lambda o: dict(c, order=o)))


def colors():
    rgb = st.lists(st.integers(0, 255), min_size=3, max_size=3)
    return st.fixed_dictionaries(dict(
        colors=gen.sized(rgb, 1, 60), num=st.sampled_from(range(1, 65)),
        order=st.lists(st.integers(0, 100), max_size=6)))


SUBS = [Sub("layouts", layouts, check_layout, quick=500, shards=6),
        Sub("colours", colors, check_colors, quick=400, shards=2)]
