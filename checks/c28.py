"""C28: what interactive plots draw in the browser"""
import copy
import json
import re

from hypothesis import strategies as st

import tr
import pandas as pd
import trappy
from trappy.plotter import IPythonConf
from trappy.plotter.EventPlot import EventPlot
from browser import BROWSER, MODULES, scripts
from harness import Sub, expect

LEVEL = "exploration"
RULE = ("The pages of generated event and line plots run, with the scripts of "
        "the repository, in node with stand-ins for the browser and the "
        "libraries; what is drawn after each generated action (zooming, "
        "brushing, resizing, clicking, showing plots again) is compared with "
        "the data given in Python.  Non-trivial: at least two names with "
        "intervals and two actions, or a group of at least two line plots.")
ASSUMPTIONS = ["intervals in a lane are sorted and disjoint",
               "d3, dygraphs, jQuery and require.js behave as documented"]

IPythonConf.iplot_install = lambda _name: None
# ------------------------------------------------------------- event plots

def near(a, b, tol):
    return a is not None and abs(a - b) <= tol


class Expected(object):
    """What an event plot shows"""

    def __init__(self, plot, width):
        self.plot = plot
        self.domain = [float(v) for v in plot["domain"]]
        self.view = list(self.domain)
        self.margin = None
        self.total = width
        self.marks = {}
        self.info = None
        self.colors = {}

    @property
    def width(self):
        return self.total - self.margin

    def scale(self, val):
        lo, hi = self.view
        return (val - lo) / (hi - lo) * self.width

    def blur(self, view):
        """How far, as a part of the view, rounding can move something"""
        return 1e-6 + 4e-15 * max(map(abs, self.domain)) / (view[1] - view[0])

    def zoom(self, scale, at):
        scale = min(max(scale, 1), 4096)
        lo, hi = self.domain
        span = (hi - lo) / scale
        start = lo - at * span
        if start < lo:
            start = lo
        elif start + span > hi:
            start = hi - span
        self.view = [start, start + span]

    def parts(self, name, view):
        """[(lane, from, to, is it wide enough to be sure)] in pixels"""
        lo, hi = view
        per = self.width / (hi - lo)
        for start, end, lane in self.plot["data"][name]:
            a, b = max(start, lo), min(end, hi)
            if b <= a:
                if b >= a - 1e-9 * (hi - lo):
                    yield lane, (a - lo) * per, (b - lo) * per
                continue
            yield lane, (a - lo) * per, (b - lo) * per

    def paths(self, what, paths, view, height):
        names = [n for n, v in self.plot["data"].items()
                 if any(e > s for s, e, _ in v)]
        want = {name: list(self.parts(name, view)) for name in names}
        lane_height = height / len(self.plot["lanes"])
        got = {}
        tol = self.blur(view) * self.width
        for path in paths:
            name = path["name"]
            got.setdefault(name, [])
            for part in path["parts"]:
                expect(len(part) == 3, "{} has a sloped part {}", name, part)
                lane = (part[2] - 0.5) / lane_height - 0.5
                expect(near(lane, round(lane), 0.6 / lane_height + 1e-6),
                       "{}: {} is drawn at {}, between lanes", what, name,
                       part[2])
                got[name].append((int(round(lane)), part[0], part[1]))
        for name in names:
            parts = got.get(name, [])
            for lane, a, b in want[name]:
                if b - a < 0.01 + tol:
                    continue
                fits = [p for p in parts if p[0] == lane and
                        near(p[1], a, tol) and
                        (near(p[2], b, tol) or b - a < 1 + tol and
                         near(p[2], a + 1, tol))]
                expect(fits, "{}: {} is not drawn from {} to {} in lane {}: "
                       "{}", what, name, a, b, lane, parts)
            for part in parts:
                fits = [w for w in want[name] if w[0] == part[0] and
                        near(w[1], part[1], tol) and
                        (near(w[2], part[2], tol) or w[2] - w[1] < 1 + tol and
                         near(w[1] + 1, part[2], tol))]
                expect(fits, "{}: {} is drawn as {} with {}", what, name, part,
                       want[name])
        return {name for name in names if got.get(name)}

    def compare(self, state, what):
        if self.margin is None:
            self.margin = self.total - state["range"][1]
            expect(0 <= self.margin < self.total, "the plot is {} wide of {}",
                   state["range"][1], self.total)
        expect(near(state["range"][0], 0, 1e-9) and
               near(state["range"][1], self.width, 1e-6),
               "{}: the plot has the range {} instead of {}", what,
               state["range"], self.width)
        span = self.view[1] - self.view[0]
        full = self.domain[1] - self.domain[0]
        tol = self.blur(self.view) * span * max(1, full / span / 100)
        for title, got in [("view", state["domain"]),
                           ("axis", state["axis"]["domain"])]:
            expect(got[0] is not None and near(got[0], self.view[0], tol) and
                   near(got[1], self.view[1], tol),
                   "{}: the {} is {} instead of {}", what, title, got,
                   self.view)
        self.view = list(state["domain"])
        expect(near(state["axis"]["range"][1], self.width, 1e-6),
               "{}: the axis is {} wide instead of {}", what,
               state["axis"]["range"], self.width)
        expect(state["main_svg"]["width"] == self.total,
               "{}: the plot is in {} of {} pixels", what,
               state["main_svg"]["width"], self.total)
        lanes = self.plot["lanes"]
        self.check_lanes(what, state["lanes"], lanes, state["lines"])
        drawn = set()
        for path in state["main"]:
            text = path.get("tip")
            expect(text is not None, "{}: a path has no tip", what)
            text = re.sub(r"^<span[^>]*>(.*)</span>$", r"\1", text,
                          flags=re.S)
            expect(text in self.plot["data"], "{}: a path has the tip {!r}",
                   what, text)
            path["name"] = text
            self.color(what, text, path["color"])
        height = self.height(state["lanes"])
        for path in state["main"]:
            expect(near(float(path["width"]), 0.8 * height / len(lanes),
                        0.3 * height / len(lanes)),
                   "{}: rectangles of {} in lanes of {}", what, path["width"],
                   height / len(lanes))
        drawn = self.paths(what, state["main"], self.view, height)
        if self.plot["options"].get("summary", True):
            expect(state["mini"] is not None, "{}: there is no summary", what)
            self.check_mini(what, state)
        else:
            expect(state["mini"] is None, "{}: there is a summary", what)
        self.check_marks(what, state)
        return drawn

    def color(self, what, name, color):
        asked = (self.plot["options"].get("color_map") or {}).get(name)
        expect(color, "{}: {} has no colour", what, name)
        expect(asked is None or color == asked,
               "{}: {} is {} instead of {}", what, name, color, asked)
        known = self.colors.setdefault(name, color)
        expect(known == color, "{}: {} is {} and was {}", what, name, color,
               known)
        if not self.plot["options"].get("color_map"):
            same = [n for n, c in self.colors.items()
                    if c == color and n != name]
            expect(not same or len(self.plot["data"]) > 20,
                   "{}: {} and {} are both {}", what, name, same, color)

    def check_lanes(self, what, got, lanes, lines):
        expect([l[0] for l in got] == [str(l) for l in lanes],
               "{}: the lanes are {} instead of {}", what, got, lanes)
        height = self.height(got)
        for i, (_, y) in enumerate(got):
            expect(near(y, height * (i + 0.5) / len(lanes), 1e-6 * height),
                   "{}: the label of lane {} is at {}", what, i, y)
            top = height * i / len(lanes)
            expect(any(near(l[0], 0, 1e-6) and near(l[2], self.width, 1e-6) and
                       near(l[1], top, 1.1) and l[1] == l[3] for l in lines),
                   "{}: there is no line above lane {} at {}: {}", what, i,
                   top, lines)

    @staticmethod
    def height(lanes):
        """From the labels in the middle of the lanes"""
        return 2 * lanes[0][1] * len(lanes)

    def check_mini(self, what, state):
        what += ", summary"
        lanes = self.plot["lanes"]
        self.check_lanes(what, state["mini_lanes"], lanes,
                         state["mini_lines"])
        height = self.height(state["mini_lanes"])
        expect(near(state["brushed"][0], self.view[0],
                    1e-6 * (self.domain[1] - self.domain[0])) and
               near(state["brushed"][1], self.view[1],
                    1e-6 * (self.domain[1] - self.domain[0])),
               "{}: {} is marked instead of {}", what, state["brushed"],
               self.view)
        # Paths have the names' colours
        names = [n for n, v in self.plot["data"].items()
                 if any(e > s for s, e, _ in v)]
        tol = self.blur(self.domain) * self.width
        lane_height = height / len(lanes)
        used = set()
        for name in names:
            want = [w for w in self.parts(name, self.domain)
                    if w[2] - w[1] >= 0.01 + tol]
            for lane, a, b in want:
                fits = []
                for i, path in enumerate(state["mini"]):
                    if path["color"] != self.colors.get(name, path["color"]):
                        continue
                    for part in path["parts"]:
                        at = (part[2] - 0.5) / lane_height - 0.5
                        if near(at, lane, 0.6 / lane_height + 1e-6) and \
                                near(part[0], a, tol) and \
                                (near(part[1], b, tol) or b - a < 1 + tol and
                                 near(part[1], a + 1, tol)):
                            fits.append(i)
                expect(fits, "{}: {} is not drawn from {} to {} in lane {}: "
                       "{}", what, name, a, b, lane, state["mini"])
                used |= set(fits)
        for i, path in enumerate(state["mini"]):
            for part in path["parts"]:
                fits = False
                for name in names:
                    if path["color"] != self.colors.get(name, path["color"]):
                        continue
                    for lane, a, b in self.parts(name, self.domain):
                        at = (part[2] - 0.5) / lane_height - 0.5
                        fits |= near(at, lane, 0.6 / lane_height + 1e-6) and \
                            near(part[0], a, tol) and \
                            (near(part[1], b, tol) or b - a < 1 + tol and
                             near(part[1], a + 1, tol))
                expect(fits, "{}: {} is drawn in {}", what, part,
                       path["color"])

    def click(self, one):
        pos = self.view[0] + one["x"] / self.width * \
            (self.view[1] - self.view[0])
        if one["ctrl"] and one["alt"]:
            return pos
        self.marks["B" if one["ctrl"] else "A"] = pos
        return None

    def report(self, what, state, one):
        """The interval under the pointer"""
        pos = self.view[0] + one["x"] / self.width * \
            (self.view[1] - self.view[0])
        height = self.height(state["lanes"])
        lane = one["y"] / (height / len(self.plot["lanes"]))
        near_edge = self.blur(self.view) * (self.view[1] - self.view[0])
        fits = [(n, s, e) for n, v in self.plot["data"].items()
                for s, e, l in v if l == int(lane // 1) and
                s - near_edge <= pos <= e + near_edge and s < e]
        sure = [f for f in fits if f[1] + near_edge < pos <
                f[2] - near_edge and 1e-6 < lane % 1 < 1 - 1e-6]
        return fits, sure

    def check_marks(self, what, state):
        lo, hi = self.view
        edge = self.blur(self.view) * (hi - lo)
        tol = self.blur(self.view) * self.width + 1e-6
        for mark in "AB":
            pos = self.marks.get(mark)
            drawn = [g[1] for g in state["guiders"] if g[0] == mark]
            height = self.height(state["lanes"])
            for _, x, lines in state["guiders"]:
                expect(len(lines) == 1 and near(lines[0][0], x, 1e-6) and
                       near(lines[0][2], x, 1e-6) and
                       near(lines[0][1], 0, 2) and
                       near(lines[0][3], height, 2),
                       "{}: the lines of the marker at {} are {}", what, x,
                       lines)
            texts = [t for t in state["info"]
                     if t.startswith(mark + " = ")]
            if pos is None:
                expect(not drawn and not texts, "{}: there is a marker {}",
                       what, mark)
                continue
            expect(len(texts) == 1 and near(float(texts[0][4:]), pos,
                                            1e-6 + 1e-9 * abs(pos)),
                   "{}: {} is at {} instead of {}", what, mark, texts, pos)
            if lo + edge < pos < hi - edge:
                expect(len(drawn) == 1 and near(drawn[0], self.scale(pos),
                                                tol),
                       "{}: {} is drawn at {} instead of {}", what, mark,
                       drawn, self.scale(pos))
            elif pos < lo - edge or pos > hi + edge:
                expect(not drawn, "{}: {} at {} is drawn at {} with {}", what,
                       mark, pos, drawn, self.view)
        texts = [t for t in state["info"] if t.startswith("A - B = ")]
        if len(self.marks) == 2:
            want = self.marks["B"] - self.marks["A"]
            expect(len(texts) == 1, "{}: the distance is {}", what, texts)
            got = float(texts[0][8:])
            expect(near(abs(got), abs(want), 1e-6 + 1e-9 * abs(want)),
                   "{}: the distance is {} instead of {}", what, got, want)
        else:
            expect(not texts, "{}: there is a distance {}", what, texts)
        # The interval last clicked at
        if self.info:
            name, start, end, lane = self.info
            want = [name, "{:.6f} to {:.6f} ({:.6f})".format(start, end,
                                                            end - start)]
            expect(name in state["info"], "{}: the interval of {} is not "
                   "reported: {}", what, name, state["info"])
            texts = [re.findall(r"-?\d+\.\d+", t) for t in state["info"]
                     if " to " in t]
            texts = [[float(v) for v in t] for t in texts if len(t) == 3]
            expect(any(near(t[0], start, 2e-6) and near(t[1], end, 2e-6) and
                       near(t[2], end - start, 2e-6) for t in texts),
                   "{}: {} is not reported: {}", what, want, state["info"])
            a, b = max(start, lo), min(end, hi)
            if b - a > edge:
                height = self.height(state["lanes"]) / len(self.plot["lanes"])
                fits = [r for r in state["rects"]
                        if near(r[0], self.scale(a), tol) and
                        near(r[1], lane * height, 1) and
                        near(r[2], self.scale(b) - self.scale(a), tol) and
                        near(r[3], height, 1)]
                expect(len(fits) == 1, "{}: {} is not marked from {} to {}: "
                       "{}", what, want, self.scale(a), self.scale(b),
                       state["rects"])
                expect(len(state["rects"]) == 1, "{}: the marks are {}", what,
                       state["rects"])
            elif a - b > edge:
                expect(not state["rects"], "{}: the marks are {} for {}",
                       what, state["rects"], want)
        else:
            expect(not state["rects"], "{}: the marks are {}", what,
                   state["rects"])


def make_plot(plot):
    data = {}
    lanes = plot["lanes"] if plot["named"] else None
    for name, spans in plot["data"].items():
        data[name] = [[s, e, lanes[l] if lanes else l] for s, e, l in spans]
    kwargs = dict(plot["options"])
    if lanes:
        kwargs["lanes"] = list(lanes)
    else:
        kwargs["num_lanes"] = len(plot["lanes"])
    del tr.RECORDER.shown[:]
    EventPlot(data, list(data), tuple(plot["domain"]), **kwargs).view()
    page = tr.RECORDER.shown[-1].data
    name = re.findall(r'<div id="(\w+)" class="eventplot">', page)
    expect(len(name) == 1, "the page has the plots {}", name)
    return name[0], scripts(page)


def check_event(case):
    plots = case["plots"]
    actions, models, order = [], {}, []
    expected = []       # per action: what to do with the models
    for plot, width in zip(plots, case["widths"]):
        name, texts = make_plot(plot)
        order.append(name)
        models[name] = Expected(plot, width)
        actions.append({"do": "add", "id": name, "width": width})
        expected.append(None)
        for text in texts:
            actions.append({"do": "script", "text": text, "id": name})
            expected.append(("made", name))
    # The scales' widths are known after the plots are made
    request = dict(kind="event", divs=[], modules=MODULES, loaded=False,
                   actions=actions)
    for one in case["actions"]:
        one = copy.deepcopy(one)
        which = one.pop("which", 0) % len(order)
        name = order[which]
        plot = plots[which]
        if one["do"] == "brush" and not plot["options"].get("summary", True):
            one = {"do": "zoom", "scale": one["scale"], "at": -one["at"],
                   "times": 1, "end": True}
        if one["do"] in ("zoom", "brush"):
            one["plot"] = which
        if one["do"] == "brush":
            lo, hi = plot["domain"]
            span = (hi - lo) / one.pop("scale")
            start = lo + one.pop("at") * (hi - lo - span)
            one["extent"] = [start, min(start + span, hi)]
            # The summaries' brushes are in the order of those plots
            one["plot"] = sum(p["options"].get("summary", True)
                              for p in plots[:which])
        if one["do"] == "resize":
            one["widths"] = {n: w for n, w in zip(order, one["widths"])}
        if one["do"] == "click":
            one["id"] = name
        actions.append(one)
        expected.append((one["do"], name))
    # Clicks are given as parts of what is shown
    margins = {}
    first = BROWSER.run(dict(request, actions=[
        a for a, e in zip(actions, expected) if e is None or e[0] == "made"]))
    heights = {}
    for name in order:
        state = first[-1]["plots"][name]
        margins[name] = models[name].total - state["range"][1]
        heights[name] = Expected.height(state["lanes"])
    sizes = {n: w for n, w in zip(order, case["widths"])}
    for one, what in zip(actions, expected):
        if one["do"] == "resize":
            sizes.update(one["widths"])
        if one["do"] == "click":
            one["x"] *= sizes[what[1]] - margins[what[1]]
            one["y"] *= heights[what[1]]
    states = BROWSER.run(request)
    labels = {}
    zoomed = 0
    alive = []
    for num, (one, what, state) in enumerate(zip(actions, expected, states)):
        if what is None:
            continue
        kind, name = what
        if kind == "made":
            if name in state["plots"] and name not in alive:
                alive.append(name)
        elif kind == "zoom":
            models[name].zoom(one["scale"], one["at"])
            zoomed += 1
        elif kind == "brush":
            models[name].view = list(one["extent"])
            zoomed += 1
        elif kind == "resize":
            for key, width in one["widths"].items():
                models[key].total = width
        text = "{} {}".format(num, kind)
        if kind == "click":
            model = models[name]
            expect(state["prevented"], "{}: the browser's menu is shown", text)
            pos = model.click(one)
            if pos is not None:
                fits, sure = model.report(text, state["plots"][name], one)
                found = [f for f in fits
                         if f[0] in state["plots"][name]["info"]]
                lane = int(one["y"] / (heights[name] /
                                       len(model.plot["lanes"])))
                if sure:
                    labels["interval clicked"] = labels.get(
                        "interval clicked", 0) + 1
                    model.info = sure[0] + (lane,)
                elif fits:
                    # At an edge
                    return {"trivial", "clicked at an edge"}
        for key in alive:
            models[key].compare(state["plots"][key],
                                text + " of {}".format(order.index(key)))
        labels[kind] = labels.get(kind, 0) + 1
    if zoomed < 2 or max(sum(len(v) > 0 for v in p["data"].values())
                         for p in plots) < 2:
        labels["trivial"] = 1
    for plot in plots:
        for key in plot["options"]:
            labels[key] = 1
    if len(plots) > 1:
        labels["several plots"] = 1
    return labels


NAMES = ["a-1", "b-2", "sh-3", "12", "3", "Größe-4", "a b-5", "it's", "\"q\"",
         "</script>", "a\\b", "x" * 16, "constructor", "length"]


@st.composite
def event_plot(draw):
    lanes = draw(st.integers(1, 5))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=6,
                          unique=True))
    if draw(st.integers(0, 15)) == 0:
        names = ["n{}-{}".format(i, i) for i in range(22)]
    unit = draw(st.sampled_from([1.0, 0.25, 0.1, 1e-3, 1e-6]))
    start = draw(st.sampled_from([0, 0, 10, 12345678]))
    data = {name: [] for name in names}
    end = start
    most = draw(st.sampled_from([3, 8, 8, 40]))
    for lane in range(lanes):
        at = start
        # Long pauses make intervals narrow
        for _ in range(draw(st.integers(0, most))):
            at += draw(st.sampled_from([0, 0, 1, 2, 50, 3000]))
            length = draw(st.sampled_from([0, 1, 1, 1, 2, 3, 20, 700]))
            name = draw(st.sampled_from(names))
            data[name].append([at * unit, (at + length) * unit, lane])
            at += length
        end = max(end, at)
    pad = draw(st.sampled_from([0, 0, 1, 5]))
    domain = [(start - pad) * unit, (end + pad) * unit]
    if domain[1] <= domain[0]:
        domain[1] = domain[0] + unit
    if draw(st.integers(0, 7)) == 0 and end > start:
        # A part of the data
        domain = [(start + (end - start) / 4) * unit,
                  (start + (end - start) / 2) * unit]
    for name in names:
        # As in plots of traces: by start, then by lane
        data[name].sort(key=lambda e: (e[0], e[2]))
        for lane in range(lanes):
            spans = [e for e in data[name] if e[2] == lane]
            assert all(a[1] <= b[0] for a, b in zip(spans, spans[1:]))
    options = {}
    if draw(st.integers(0, 3)) == 0:
        options["summary"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        options["stride"] = draw(st.booleans())
    if draw(st.integers(0, 2)) == 0:
        colored = draw(st.lists(st.sampled_from(names + ["other"]), min_size=1,
                                max_size=6, unique=True))
        options["color_map"] = {
            name: draw(st.sampled_from(["red", "green", "#0000ff", "#123"]))
            for name in colored}
    named = draw(st.booleans())
    if named:
        labels = draw(st.permutations(["cpu 0", "L", "big", "</script>", "4",
                                       "é"]))[:lanes]
    else:
        prefix = draw(st.sampled_from([None, "CPU :", ""]))
        if prefix is not None:
            options["lane_prefix"] = prefix
        prefix = "Lane: " if prefix is None else prefix
        labels = [prefix + str(i) for i in range(lanes)]
    return dict(data=data, lanes=list(labels), named=named, domain=domain,
                options=options)


def actions(count):
    which = st.integers(0, 2)
    scale = st.sampled_from([1, 1.5, 2, 2, 4, 10, 64, 1000, 4096])
    part = st.sampled_from([0, 0.125, 0.25, 0.3, 0.5, 0.7, 0.9, 1])
    width = st.sampled_from([200, 480, 600, 985, 1085, 2000])
    return st.one_of(
        st.fixed_dictionaries(dict(
            do=st.just("zoom"), which=which,
            scale=st.sampled_from([1, 1.5, 2, 2, 4, 10, 64, 1000, 4096, 0.5,
                                   9999]),
            at=st.floats(-12, 1).map(lambda v: round(v, 3)),
            times=st.integers(1, 2), end=st.booleans())),
        st.fixed_dictionaries(dict(do=st.just("brush"), which=which,
                                   scale=scale, at=part)),
        st.fixed_dictionaries(dict(do=st.just("resize"),
                                   widths=st.lists(width, min_size=count,
                                                   max_size=count))),
        st.fixed_dictionaries(dict(
            do=st.just("click"), which=which,
            x=st.floats(0, 1).map(lambda v: round(v, 4)),
            y=st.floats(0.01, 0.99).map(lambda v: round(v, 3)),
            ctrl=st.booleans(), alt=st.booleans())))


@st.composite
def events(draw):
    count = draw(st.sampled_from([1, 1, 2, 3]))
    width = st.sampled_from([200, 480, 985, 1085])
    plots = [draw(event_plot()) for _ in range(count)]
    todo = draw(st.lists(actions(count), min_size=draw(st.sampled_from(
        [0, 2, 4])), max_size=8))
    for one in todo:
        if one["do"] == "click" and one["ctrl"] and one["alt"]:
            # Mostly at an interval
            plot = plots[one["which"] % count]
            spans = [s for v in plot["data"].values() for s in v
                     if s[1] > s[0] and s[0] >= plot["domain"][0] and
                     s[1] <= plot["domain"][1]]
            if spans and draw(st.integers(0, 3)):
                span = draw(st.sampled_from(spans))
                lo, hi = plot["domain"]
                one["x"] = ((span[0] + span[1]) / 2 - lo) / (hi - lo)
                one["y"] = (span[2] + 0.5) / len(plot["lanes"])
    return dict(plots=plots, actions=todo,
                widths=[draw(width) for _ in range(count)])


# -------------------------------------------------------------- line plots

PLAIN = [("title", "title"), ("stepPlot", "step_plot"),
         ("logscale", "logscale"), ("fillGraph", "fill_graph"),
         ("drawPoints", "drawPoints"), ("strokeWidth", "strokeWidth"),
         ("pointSize", "pointSize"), ("fillAlpha", "fill_alpha"),
         ("showRangeSelector", "rangesel"), ("dateWindow", "dateWindow"),
         ("valueRange", "valueRange")]


class Line(object):
    """A graph of a page"""

    def __init__(self, fig, colors, width):
        self.fig = fig
        self.colors = colors
        self.total = width
        self.alive = True
        self.range = None
        rows = fig["data"]["data"]
        self.x = fig.get("dateWindow") or extent([r[0] for r in rows])
        self.y = fig.get("valueRange") or extent(
            [v for r in rows for v in r[1:]])
        self.shown = (fig.get("dateWindow"), fig.get("valueRange"))

    @property
    def group(self):
        return self.fig["syncGroup"]


def extent(vals):
    vals = [v for v in vals if v is not None and v == v]
    return [min(vals), max(vals)] if vals else [0, 1]


def make_lines(view):
    frames = []
    for frame in view["frames"]:
        frames.append(pd.DataFrame(
            {c: frame["values"][i] for i, c in enumerate(frame["columns"])},
            index=frame["times"]))
    kwargs = dict(view["options"])
    if "colors" in kwargs:
        kwargs["colors"] = [list(c) for c in kwargs["colors"]]
    del tr.RECORDER.shown[:]
    trappy.ILinePlot(frames, column=list(view["columns"]),
                     **kwargs).view(test=True)
    page = tr.RECORDER.shown[-1].data
    figs, order = {}, []
    for name, val in re.findall(r"var (\w+)_data = (.*);\s*$", page, re.M):
        figs[name] = json.loads(val)
        order.append(name)
    divs = re.findall(r'class="ilineplot" id="(\w+)"', page)
    return divs, figs, scripts(page)


def check_line(what, graph, model):
    fig = model.fig
    first = graph["first"]
    rows = [[None if v != v else v for v in r] for r in fig["data"]["data"]]
    expect(graph["given"] == rows, "{}: the graph has the points {} instead "
           "of {}", what, graph["given"], rows)
    expect(first["labels"] == fig["data"]["labels"],
           "{}: the graph has the labels {} instead of {}", what,
           first["labels"], fig["data"]["labels"])
    for name, key in PLAIN:
        expect(first.get(name) == fig.get(key) or
               not first.get(name) and not fig.get(key) and
               name not in ("strokeWidth", "fillAlpha"),
               "{}: {} is {} instead of {}", what, name, first.get(name),
               fig.get(key))
    expect(first.get("labelsDiv") == fig["name"] + "_legend",
           "{}: the legend is in {}", what, first.get("labelsDiv"))
    expect(first.get("connectSeparatedPoints") is True,
           "{}: points are not connected", what)
    expect(first.get("rollPeriod", 1) == 1 and not first.get("errorBars"),
           "{}: the points are changed with {}", what, first)
    if model.colors is None:
        expect(not first.get("colors"), "{}: the colours are {}", what,
               first.get("colors"))
    else:
        got = [[int(v) for v in re.findall(r"\d+", c)]
               for c in first.get("colors") or []]
        expect(got == model.colors, "{}: the colours are {} instead of {}",
               what, got, model.colors)
    width = model.total / fig["per_line"]
    expect(graph["sizes"] and graph["sizes"][-1][1] == fig["height"] and
           width - 10 <= graph["sizes"][-1][0] <= width,
           "{}: the graph has the sizes {} in {} pixels", what,
           graph["sizes"], width)
    # Data keeps its place between what is added around it
    raw = graph["raw"]
    extra = len(raw) - len(rows)
    expect(extra >= 0 and any(raw[i:i + len(rows)] == rows
                              for i in range(extra + 1)),
           "{}: the graph has the points {} instead of {}", what, raw, rows)
    for row in raw:
        if row not in rows:
            expect(all(v is None for v in row[1:]),
                   "{}: the point {} is added", what, row)


def check_lines(case):
    actions, expected = [], []
    views = []
    width = case["width"]
    for one in case["actions"]:
        if one["do"] == "view":
            divs, figs, texts = make_lines(one)
            for div in divs:
                actions.append({"do": "add", "id": div, "width": width})
                expected.append(None)
                actions.append({"do": "add", "id": div + "_legend",
                                "width": width})
                expected.append(None)
            for text in texts:
                found = re.findall(r"ILinePlot\.generate\((\w+)_data", text)
                actions.append({"do": "script", "text": text})
                expected.append(("made", found[0], figs[found[0]],
                                 one["options"].get("colors"))
                                if found and found[0] in figs else None)
            views.append((divs, figs))
        elif one["do"] == "drop":
            if not views:
                continue
            divs, figs = views[one["which"] % len(views)]
            views.remove((divs, figs))
            for div in divs:
                actions.append({"do": "drop", "id": div})
                expected.append(("drop", div))
        else:
            width = one["width"]
            actions.append({"do": "resize", "widths": {
                div: width for divs, _ in views for div in divs}})
            expected.append(("resize", width, [
                div for divs, _ in views for div in divs]))
    states = BROWSER.run(dict(kind="line", divs=[], modules=MODULES,
                              loaded=False, actions=actions))
    models = {}
    width = case["width"]
    labels = {}
    most = 0
    for num, (what, state) in enumerate(zip(expected, states)):
        if what is None:
            continue
        text = "{} {}".format(num, what[0])
        graphs = {g["id"]: g for g in state["graphs"]}
        if what[0] == "made":
            model = models[what[1]] = Line(what[2], what[3], width)
            expect(what[1] in graphs, "{}: {} is not drawn", text, what[1])
            alike = {k: m for k, m in models.items()
                     if m.alive and m.group == model.group}
            if len(alike) > 1:
                x = [min(m.x[0] for m in alike.values()),
                     max(m.x[1] for m in alike.values())]
                y = [min(m.y[0] for m in alike.values()),
                     max(m.y[1] for m in alike.values())]
                synced = all(m.fig["syncZoom"] for m in alike.values())
                for key, one in alike.items():
                    options = graphs[key]["options"]
                    if synced:
                        raw = graphs[key]["raw"]
                        expect(raw[0][0] == x[0] and raw[-1][0] == x[1],
                               "{}: a range can be selected from {} to {} "
                               "in a group from {} to {}", text, raw[0][0],
                               raw[-1][0], *x)
                        expect(options["dateWindow"] == x and
                               options["valueRange"] == y,
                               "{}: the group shows {} and {} instead of {} "
                               "and {}", text, options["dateWindow"],
                               options["valueRange"], x, y)
                    if options.get("dateWindow") == x and \
                            options.get("valueRange") == y:
                        one.shown = (x, y)
                        one.x, one.y = x, y
                members = sorted(state["graphs"].index(graphs[k])
                                 for k in alike)
                syncs = [sorted(s["graphs"]) for s in state["syncs"]
                         if s["attached"] and
                         set(s["graphs"]) & set(members)]
                if synced:
                    expect(syncs == [members], "{}: the graphs {} are zoomed "
                           "together instead of {}", text, syncs, members)
                    for sync in state["syncs"]:
                        if sync["attached"]:
                            expect(sync["opts"].get("zoom") is not False and
                                   sync["opts"].get("range") is not False,
                                   "{}: the graphs are not zoomed: {}", text,
                                   sync["opts"])
                    most = max(most, len(alike))
                else:
                    ok = [m for m, g in models.items()
                          if not g.fig["syncZoom"]]
                    for sync in syncs:
                        expect(not any(state["graphs"][i]["id"] in ok
                                       for i in sync),
                               "{}: the graphs {} are zoomed together", text,
                               sync)
        elif what[0] == "drop":
            if what[1] in models:
                models[what[1]].alive = False
        else:
            for div in what[2]:
                if div in models:
                    models[div].total = what[1]
            width = what[1]
        for key, model in models.items():
            if not model.alive:
                continue
            check_line(text, graphs[key], model)
            options = graphs[key]["options"]
            got = (options.get("dateWindow"), options.get("valueRange"))
            expect(got == model.shown, "{}: a graph shows {} instead of {}",
                   text, got, model.shown)
        labels[what[0]] = labels.get(what[0], 0) + 1
    if most < 2:
        labels["trivial"] = 1
    else:
        labels["zoomed together"] = 1
    return labels


@st.composite
def line_view(draw):
    frames = []
    columns = draw(st.lists(st.sampled_from(["a", "b", "</script>", "é\""]),
                            min_size=1, max_size=3, unique=True))
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        count = draw(st.integers(1, 5))
        times = sorted(draw(st.sets(st.integers(-4, 40), min_size=count,
                                    max_size=count)))
        values = [[draw(st.integers(-20, 90)) / 4.0 for _ in times]
                  for _ in columns]
        frames.append(dict(times=[t / 4.0 for t in times], values=values,
                           columns=columns))
    options = {}
    for key, value, often in [
            ("sync_zoom", st.sampled_from([True, True, False]), 5),
            ("group", st.sampled_from(["g", "g", "h", "</script>"]), 4),
            ("per_line", st.integers(1, 3), 4),
            ("title", st.sampled_from(["t", "</script>"]), 1),
            ("xlim", st.sampled_from([[0, 5], [1.5, 2.5]]), 1),
            ("ylim", st.sampled_from([[0, 5], [-1.5, 30.5]]), 1),
            ("fill", st.just(True), 1),
            ("fill_alpha", st.sampled_from([0.25, 0.5]), 1),
            ("scatter", st.just(True), 1),
            ("point_size", st.integers(1, 5), 1),
            ("drawstyle", st.sampled_from(["steps-post", "steps-pre",
                                           "default"]), 1),
            ("permute", st.just(True), 1),
            ("concat", st.just(True), 1),
            ("colors", st.just([[255, 0, 0], [0, 9, 255], [1, 2, 3]]), 1)]:
        if draw(st.integers(0, 6)) < often:
            options[key] = draw(value)
    if "permute" not in options and len(frames) > 1:
        columns = columns[:1]
    return dict(do="view", frames=frames, columns=columns, options=options)


def lines():
    return st.fixed_dictionaries(dict(
        width=st.sampled_from([600, 901, 1200]),
        actions=st.lists(st.one_of(
            line_view(), line_view(), line_view(),
            st.fixed_dictionaries(dict(do=st.just("drop"),
                                       which=st.integers(0, 3))),
            st.fixed_dictionaries(dict(
                do=st.just("resize"),
                width=st.sampled_from([300, 600, 901]))),
        ), min_size=1, max_size=6)))


SUBS = [Sub("events", events, check_event, quick=900, shards=8),
        Sub("lines", lines, check_lines, quick=400, shards=6)]
