"""C19: static plots"""
import matplotlib
matplotlib.use("Agg")

import os                                                      # noqa: E402

from hypothesis import strategies as st                        # noqa: E402

from checks import c18                                         # noqa: E402
import gen                                                     # noqa: E402
import harness                                                 # noqa: E402
import trappy                                                  # noqa: E402
from harness import Sub, expect                                # noqa: E402

LEVEL = "exploration"
RULE = ("Line and bar plots of generated traces or frames with every kind of "
        "layout are drawn, and the lines, bars, titles and legend entries of "
        "the axes compared with lists of rows.  Non-trivial: at least two "
        "axes or two series on one.")
ASSUMPTIONS = ["plotted columns are numeric", "pivot values have distinct "
               "texts"]


def kwargs_of(case):
    kwargs = dict(case["options"])
    for key in ("xlim", "ylim"):
        if key in kwargs:
            kwargs[key] = tuple(kwargs[key])
    if "map_label" in kwargs:
        kwargs["map_label"] = {k: v for k, v in kwargs["map_label"]}
    return kwargs


def series_of(case, want, pivots, window=None):
    """Expected axes: lists of dicts, one for each series"""
    concat, permute = case["concat"], not case["zip"] and not case["concat"]
    n_traces = len(case["traces"])
    per_trace = len(want) // n_traces
    if concat:
        n_axes = len(want)
    elif permute:
        n_axes = n_traces * len(pivots)
    else:
        n_axes = len(pivots)
    axes = [[] for _ in range(n_axes)]
    labels = dict(kwargs_of(case).get("map_label", {}))
    for i, (pos, index, col, template) in enumerate(want):
        frames = case["traces"][pos]["frames"]
        spec = frames[0 if template is None else c18.EVENTS.index(template)]
        rows, _ = c18.expected(spec, col, case["pivot"],
                               dict(case["filters"]), window)
        for j, pivot in enumerate(pivots):
            if pivot not in rows:
                continue
            name = "{}: {}".format(case["pivot"], labels.get(pivot, pivot))
            whole = c18.label(case, pos, index, col, template)
            if concat:
                at, entry = i, j
                title = whole
                text = name if case["pivot"] is not None else ",".join(
                    case["columns"])
            elif permute:
                at, entry = index * len(pivots) + j, i % per_trace
                title = "DataFrame {}".format(index) if template is None else \
                    case["traces"][pos]["name"] or "Trace {}".format(index)
                text = col if template is None else template + ":" + col
            else:
                at, entry = j, i
                title = name if case["pivot"] is not None else ""
                text = whole
            axes[at].append(dict(entry=entry, title=title, text=text,
                                 x=[float(t) for t, _ in rows[pivot]],
                                 y=[v for _, v in rows[pivot]]))
    return axes


def same_list(got, want):
    got = list(got)
    return len(got) == len(want) and all(
        c18.same(g, w) if w is None else float(g) == float(w)
        for g, w in zip(got, want))


def add(a, b):
    return a + (b or 0)


def rgba(color):
    from matplotlib.colors import to_rgba
    return tuple(round(c, 4) for c in to_rgba(color))


def check_axis(case, axis, series, opts):
    """[(series, colour)] as drawn on the axis"""
    out = []
    if case["plot"] == "LinePlot":
        lines = list(axis.lines)
        expect(len(lines) == len(series), "{} lines instead of {} on the axes "
               "{!r}", len(lines), len(series), axis.get_title())
        # In the order of the series
        for line, one in zip(lines, series):
            expect(same_list(line.get_xdata(orig=True), one["x"]) and
                   same_list(line.get_ydata(orig=True), one["y"]),
                   "{!r} on the axes {!r} has the points {} instead of {}",
                   one["text"], axis.get_title(),
                   list(zip(line.get_xdata(), line.get_ydata())),
                   list(zip(one["x"], one["y"])))
            if "drawstyle" in opts:
                expect(line.get_drawstyle() == opts["drawstyle"],
                       "the line is drawn with {}", line.get_drawstyle())
            if opts.get("scatter"):
                expect(line.get_linestyle() == "None" and
                       line.get_marker() == "o", "a scatter plot has line "
                       "style {} and marker {}", line.get_linestyle(),
                       line.get_marker())
                if "point_size" in opts:
                    expect(line.get_markersize() == opts["point_size"],
                           "the points have size {}", line.get_markersize())
            else:
                for key in ("marker", "linestyle", "linewidth"):
                    if key in opts:
                        expect(getattr(line, "get_" + key)() == opts[key],
                               "{} is {}", key,
                               getattr(line, "get_" + key)())
            out.append((one, rgba(line.get_color())))
        fills = list(axis.collections)
        expect(len(fills) == (len(series) if opts.get("fill") else 0),
               "{} areas for {} lines", len(fills), len(series))
        for fill, (one, color) in zip(fills, out):
            expect(rgba(fill.get_facecolor()[0][:3]) == color,
                   "an area has another colour than its line")
            points = {(round(float(x), 6), round(float(y), 6))
                      for path in fill.get_paths() for x, y in path.vertices}
            for x, y in zip(one["x"], one["y"]):
                expect(y is None or (round(x, 6), round(y, 6)) in points,
                       "the area of {!r} leaves out {}", one["text"], (x, y))
        return out
    bars = list(axis.containers)
    expect(len(bars) == len(series), "{} groups of bars instead of {}",
           len(bars), len(series))
    spacing = opts.get("spacing", 0.2)
    stacked = opts.get("stacked", False)
    count = 1 if stacked else max(1, len(series))
    width = (1 - spacing) / count
    tops = [0] * max([len(s["y"]) for s in series] or [0])
    spans = []
    for i, (container, one) in enumerate(zip(bars, series)):
        patches = list(container.patches)
        expect(same_list([p.get_height() for p in patches], one["y"]),
               "{!r} on the axes {!r} has the bars {} instead of {}",
               one["text"], axis.get_title(),
               [p.get_height() for p in patches], one["y"])
        bottoms = tops[:len(patches)] if stacked else [0] * len(patches)
        expect(same_list([p.get_y() for p in patches], bottoms),
               "the bars of {!r} start at {} instead of {}", one["text"],
               [p.get_y() for p in patches], bottoms)
        for k, patch in enumerate(patches):
            expect(abs(patch.get_width() - width) < 1e-9, "a bar is {} wide "
                   "instead of {}", patch.get_width(), width)
            spans.append((patch.get_x(), patch.get_x() + patch.get_width(), k))
            if stacked:
                tops[k] = add(tops[k], one["y"][k])
        out.append((one, rgba(patches[0].get_facecolor())))
    if not stacked:
        spans.sort()
        for (_, end, k), (start, _, n) in zip(spans, spans[1:]):
            expect(start >= end - 1e-6, "two bars overlap")
            expect(n >= k, "the bars of position {} are right of those of {}",
                   k, n)
        for start, end, k in spans:
            low = min(s for s, _, n in spans if n == k)
            expect(end - low <= 1 - spacing + 1e-6, "a group is wider than {}",
                   1 - spacing)
    return out


def check(case):
    import matplotlib.pyplot as plt
    case = dict(case, window=None)
    traces = c18.build(case)
    kwargs = kwargs_of(case)
    if case["pivot"] is not None:
        kwargs["pivot"] = case["pivot"]
    if case["filters"]:
        kwargs["filters"] = dict(case["filters"])
    if case["concat"]:
        kwargs["concat"] = True
    if not case["zip"]:
        kwargs["permute"] = True
    want = c18.plan(case)
    assert want is not None
    if case["templates"] is not None:
        kwargs["templates"] = c18.alone(
            [traces[0].class_definitions[t] for t in case["templates"]],
            case["alone"][2])
    kind = getattr(trappy, case["plot"])
    opts = dict(case["options"])
    if case["plot"] == "BarPlot":
        for key in ("drawstyle", "scatter", "fill", "point_size", "marker",
                    "linestyle", "linewidth"):
            kwargs.pop(key, None)
    else:
        for key in ("stacked", "spacing"):
            kwargs.pop(key, None)
    # The size in inches of each plot
    kwargs.update(width=2, length=2)
    try:
        plot = kind(c18.alone(traces, case["alone"][0]),
                    column=c18.alone(case["columns"], case["alone"][1]),
                    **kwargs)
        # Pivot values are shown in the manager's order
        pivots = list(plot.c_mgr.generate_pivots()[0])
        if case["pivot"] is None:
            pivots = ["" for _ in pivots]
        if not pivots:
            try:
                plot.view(test=True)
            except RuntimeError:
                return {"trivial", "nothing to plot"}
            expect(not any(a.lines or a.patches for a in plt.gcf().axes),
                   "something is drawn without data")
            return {"trivial", "nothing to plot"}
        if case["plot"] == "LinePlot" and opts.get("fill") and \
                opts.get("drawstyle", "").startswith("steps"):
            try:
                plot.view(test=True)
            except UserWarning:
                return {"trivial", "fill with steps"}
            expect(False, "filled steps are accepted")
        axes = series_of(case, want, pivots)
        if case["how"] == "saved":
            path = os.path.join(harness.fresh_dir("saved"), "plot.png")
            plot.savefig(path, dpi=20)
            with open(path, "rb") as fin:
                expect(fin.read(4) == b"\x89PNG", "no picture is saved")
        elif case["how"] == "plain":
            plot.view()
        else:
            plot.view(test=True)
        if case["how"] == "twice":
            plt.close("all")
            plot.view(test=True)
        expect(len(plt.get_fignums()) == 1, "there are {} figures",
               len(plt.get_fignums()))
        fig = plt.gcf()
        shown = sorted(fig.axes, key=lambda a: (
            -round(a.get_position().y0, 4), round(a.get_position().x0, 4)))
        expect(len(shown) == len(axes), "{} axes instead of {}", len(shown),
               len(axes))
        columns = min(opts.get("per_line", 2), len(axes))
        grid = sorted({round(a.get_position().x0, 4) for a in shown})
        expect(len(grid) == columns, "{} columns instead of {}", len(grid),
               columns)
        drawn = []
        for axis, series in zip(shown, axes):
            if series:
                expect(axis.get_title() == series[-1]["title"], "the axes "
                       "have the title {!r} instead of {!r}",
                       axis.get_title(), series[-1]["title"])
                for key in ("xlim", "ylim"):
                    if key in opts:
                        got = getattr(axis, "get_" + key)()
                        expect(list(got) == [float(v) for v in opts[key]],
                               "{} is {} instead of {}", key, got, opts[key])
            else:
                expect(not axis.get_title(), "the empty axes have the title "
                       "{!r}", axis.get_title())
            drawn += check_axis(case, axis, series, opts)
        if "title" in opts:
            expect(fig._suptitle.get_text() == opts["title"],
                   "the title is {!r}", fig._suptitle.get_text())
        check_legend(case, fig, drawn, opts)
        most = max(map(len, axes))
    finally:
        plt.close("all")
    labels = {case["plot"]}
    if case["concat"]:
        labels.add("concatenated")
    elif not case["zip"]:
        labels.add("permuted")
    if len(axes) > columns > 1:
        labels.add("grid")
    if any(not s for s in axes) or len({len(s) for s in axes}) > 1:
        labels.add("missing pivots")
    if len(axes) < 2 and most < 2:
        labels.add("trivial")
    return labels


def check_legend(case, fig, drawn, opts):
    entries = {}
    for one, _ in drawn:
        entries[one["entry"]] = one["text"]
    legend = fig.legends[0]
    got = [t.get_text() for t in legend.get_texts()]
    expect(got == [entries[k] for k in sorted(entries)], "the legend is {} "
           "instead of {}", got, [entries[k] for k in sorted(entries)])
    handles = [rgba(h.get_facecolor() if hasattr(h, "get_facecolor") else
                    h.get_color()) for h in legend.legendHandles]
    colors = dict(zip(sorted(entries), handles))
    for one, color in drawn:
        expect(color == colors[one["entry"]], "{!r} is drawn in {} instead of "
               "the {} of the legend", one["text"], color,
               colors[one["entry"]])
        if "colors" in opts and one["entry"] < len(opts["colors"]):
            want = rgba([c / 255 for c in opts["colors"][one["entry"]]])
            expect(color == want, "{!r} is drawn in {} instead of {}",
                   one["text"], color, want)
    if "colors" not in opts:
        expect(len(set(colors.values())) == len(colors),
               "two entries of the legend have the same colour")


LONG = "the cores of the LITTLE cluster " * 2
PLAIN = ["load", "freq", "cpu", "load", "gap"]


@st.composite
def cases(draw):
    case = draw(c18.common(dense=True))
    # Lengths that go together, and numbers
    n_traces = len(case["traces"])
    size = draw(st.integers(1, 3)) if not case["zip"] else draw(
        st.sampled_from([1, n_traces])) if n_traces > 1 else \
        draw(st.integers(1, 3))
    case["columns"] = draw(st.lists(st.sampled_from(PLAIN), min_size=size,
                                    max_size=size))
    if case["templates"] is not None:
        sizes = [size, 1]
        if size == 1:
            sizes.append(n_traces)
        size = draw(st.sampled_from(sizes))
        case["templates"] = draw(st.lists(st.sampled_from(c18.EVENTS),
                                          min_size=size, max_size=size))
    if c18.plan(case) is None:
        case["columns"] = case["columns"][:1]
        if case["templates"] is not None:
            case["templates"] = case["templates"][:1]
    case["concat"] = draw(st.sampled_from([False, False, True]))
    case["how"] = draw(st.sampled_from(["test"] * 5 + ["plain", "twice",
                                                       "saved"]))
    case["plot"] = draw(st.sampled_from(["LinePlot", "LinePlot", "BarPlot"]))
    options = {}
    point = st.integers(-8, 44).map(lambda n: n / 4)
    for key, value in [
            ("per_line", st.integers(1, 4)), ("title", st.just("A title")),
            ("xlim", st.lists(point, min_size=2, max_size=2, unique=True).map(
                sorted)),
            ("ylim", st.lists(point, min_size=2, max_size=2, unique=True).map(
                sorted)),
            ("drawstyle", st.sampled_from(["steps-post", "steps-pre",
                                           "steps-mid", "default"])),
            ("fill", st.just(True)), ("scatter", st.just(True)),
            ("point_size", st.integers(1, 5)), ("legend_ncol",
                                                st.integers(1, 3)),
            ("marker", st.sampled_from(["x", "o", "."])),
            ("linestyle", st.sampled_from(["--", ":"])),
            ("linewidth", st.sampled_from([0.5, 2.0])),
            ("stacked", st.just(True)),
            ("spacing", st.sampled_from([0.0, 0.5])),
            ("style", st.just(False)),
            ("map_label", st.lists(st.tuples(
                st.sampled_from([0, 1, 2, 0, 1, "sh", "rcu", 0.5, "0", "1", "s"]),
                st.sampled_from(["little", "BIG", "", LONG + "A", LONG + "B",
                                 "0", 0])).map(list), max_size=4)),
            ("colors", st.lists(st.lists(st.integers(0, 255), min_size=3,
                                         max_size=3), min_size=6,
                                max_size=9))]:
        if draw(st.integers(0, 4 if key not in ("per_line", "stacked",
                                                "map_label") else 1)) == 0:
            options[key] = draw(value)
    if options.get("drawstyle", "").startswith("steps") and \
            draw(st.integers(0, 5)):
        options.pop("fill", None)
    case["options"] = options
    return case


SUBS = [Sub("plots", cases, check, quick=1600, shards=8)]
