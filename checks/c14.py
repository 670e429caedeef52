"""C14: triggers, topologies and aggregation"""
from hypothesis import strategies as st

import gen
import tr
import trappy
from harness import Sub, Violation, expect

LEVEL = "exploration"
RULE = ("Generated traces, topologies, triggers (constant or column value; "
        "value, list, function and stateful filters) and sequences of "
        "aggregations at any level, against a plain list model.  Non-trivial: "
        "the triggers give samples for at least two nodes.")
ASSUMPTIONS = ["where two triggers fire on the same row the later one counts; "
               "such rows are accepted with either value"]

EVENTS = ["evalpha", "evbeta"]


def make_filter(spec):
    kind = spec[0]
    if kind == "value":
        return spec[1], lambda v: v == spec[1]
    if kind == "list":
        return list(spec[1]), lambda v: v in spec[1]
    if kind == "min":
        return (lambda v: v >= spec[1]), lambda v: v >= spec[1]
    if kind == "odd":
        return (lambda v: v % 2 == 1), lambda v: v % 2 == 1
    raise ValueError(kind)


class Changed(object):
    """True when the value differs from the one of the row before"""

    def __init__(self):
        self.prev = None

    def __call__(self, val):
        res = val != self.prev
        self.prev = val
        return res


def render(rows):
    lines = []
    for i, row in enumerate(rows):
        fields = " ".join("{}={}".format(k, v) for k, v in row["f"])
        lines.append(dict(k="ev", comm="sh", pid=i, cpu=0, ev=row["ev"],
                          ts=["us", 1 + i * row["gap"], "500000"],
                          data=fields))
    last = 0
    for line, row in zip(lines, rows):
        last += row["gap"]
        line["ts"][1] = last
    return gen.render(lines)


def passes(spec, rows):
    """The rows (index, dict) of one pivot that pass all the filters"""
    keep = [True] * len(rows)
    for col, flt in spec["filters"]:
        if flt[0] == "changed":
            fun = Changed()
        else:
            fun = make_filter(flt)[1]
        keep = [fun(row[col]) and k for (_, row), k in zip(rows, keep)]
    return [r for r, k in zip(rows, keep) if k]


def make_trigger(trace, spec):
    from trappy.stats.Trigger import Trigger
    filters = {}
    for col, flt in spec["filters"]:
        filters[col] = Changed() if flt[0] == "changed" else \
            make_filter(flt)[0]
    template = getattr(trace, spec["ev"])
    if spec["template"] == "class":
        template = trace.class_definitions[spec["ev"]]
    return Trigger(trace, template, filters, spec["value"], spec["pivot"])


def samples(spec, rows, node):
    """[(time, value)] that a trigger gives for a node"""
    mine = [(r["t"], r["d"]) for r in rows if r["ev"] == spec["ev"] and
            r["d"][spec["pivot"]] == node]
    out = []
    for t, row in passes(spec, mine):
        out.append((t, row[spec["value"]] if isinstance(spec["value"], str)
                    else spec["value"]))
    return out


def load(case):
    rows = []
    cur = 0
    for row in case["rows"]:
        cur += row["gap"]
        d = {k: gen.value_of(str(v)) for k, v in row["f"]}
        rows.append(dict(t=cur + 0.5, ev=row["ev"], d=d))
    trace = tr.parse(render(case["rows"]), scope="custom", events=list(EVENTS),
                     normalize_time=False)
    return rows, trace


def check_triggers(case):
    rows, trace = load(case)
    spec = case["trigger"]
    have = 0
    nodes = set()
    for node in case["nodes"]:
        # Stateful filters start afresh
        got = make_trigger(trace, spec).generate(node)
        want = samples(spec, rows, node)
        expect(list(got.index) == [t for t, _ in want] and
               [float(v) for v in got] == [float(v) for _, v in want],
               "node {}: {} instead of {}", node,
               list(zip(got.index, got)), want)
        if want:
            nodes.add(node)
        have += len(want)
    total = sum(r["ev"] == spec["ev"] for r in rows)
    labels = {"value " + ("column" if isinstance(spec["value"], str) else
                          "constant")}
    for _, flt in spec["filters"]:
        labels.add("filter " + flt[0])
    if not have or (spec["filters"] and have == total):
        labels.add("trivial")
    if not total:
        labels.add("event without rows")
    return labels


def build_topology(spec):
    from trappy.stats.Topology import Topology
    model = {}
    nodes = []
    shared = {}

    def given(groups):
        """The caller's lists, the same ones for equal groups"""
        if not spec["shared"]:
            return [list(g) for g in groups]
        return shared.setdefault(str(groups), [list(g) for g in groups])

    def add(level, groups):
        model.setdefault(level, []).extend([list(g) for g in groups])
        for g in groups:
            for n in g:
                if n not in nodes:
                    nodes.append(n)

    if spec["clusters"]:
        topo = Topology(clusters=given(spec["clusters"]))
        add("cluster", spec["clusters"])
        add("cpu", [[n] for n in sorted(nodes)])
    else:
        topo = Topology()
    for level, groups in spec["levels"]:
        topo.add_to_level(level, given(groups))
        add(level, groups)
    for text, groups in shared.items():
        expect(str(groups) == text, "the caller's groups {} are now {}", text,
               groups)
    return topo, model, nodes


def check_topology(topo, model, nodes):
    expect(sorted(topo.flatten()) == sorted(nodes), "nodes {} instead of {}",
           topo.flatten(), nodes)
    expect(sorted(topo) == sorted(model), "levels {}", list(topo))
    for level, groups in model.items():
        got = topo.get_level(level)
        if level == "cpu":
            expect(sorted(map(list, got)) == sorted(groups), "level {} is {} "
                   "instead of {}", level, got, groups)
        else:
            expect([list(g) for g in got] == groups, "level {} is {} instead "
                   "of {}", level, got, groups)
        expect(topo.level_span(level) == len(groups), "span of {}: {} for {}",
               level, topo.level_span(level), groups)
        expect(topo.has_level(level), "no level {}", level)
        for i in range(len(groups)):
            group = topo.get_node(level, i)
            expect(group == got[i], "group {} of {} is {}", i, level, group)
            expect(topo.get_index(level, group) == got.index(group),
                   "index of {} in {}", group, level)
    allnodes = topo.get_level("all")
    expect(len(allnodes) == 1 and sorted(allnodes[0]) == sorted(nodes),
           "level all is {} for nodes {}", allnodes, nodes)
    expect(topo.level_span("all") == 1, "level all has {} groups",
           topo.level_span("all"))
    expect(not topo.has_level("nothing"), "there is a level 'nothing'")


AGG = {
    "none": None,
    "sum": lambda s: float(s.sum()),
    "scaled": lambda s, scale=1: float(s.sum()) * scale,
    "cumsum": lambda s: s.cumsum(),
    "same": lambda s: s,
    "count": lambda s, scale=0: int((s != scale).sum()),
}


def check_aggregate(case):
    from trappy.stats.Aggregator import MultiTriggerAggregator
    rows, trace = load(case)
    topo, model, nodes = build_topology(case["topology"])
    check_topology(topo, model, nodes)
    specs = case["triggers"]
    triggers = [make_trigger(trace, s) for s in specs]
    if case["single"]:
        specs, triggers = specs[:1], triggers[0]
    name = case["agg"]
    if name == "none" and case["implicit"]:
        agg = MultiTriggerAggregator(triggers, topo)
    else:
        agg = MultiTriggerAggregator(triggers, topo, aggfunc=AGG[name])

    evs = {s["ev"] for s in specs}
    times = sorted({r["t"] for r in rows if r["ev"] in evs})
    base = {}                # node -> time -> list of possible values
    filled = set()
    overlap = False
    for node in nodes:
        base[node] = {t: [0.0] for t in times}
        seen = set()
        for spec in specs:
            for t, v in samples(spec, rows, node):
                if t in seen:
                    overlap = True
                    base[node][t].append(float(v))
                else:
                    base[node][t] = [float(v)]
                seen.add(t)
                filled.add(node)
    labels = {"aggfunc " + name}
    if overlap:
        # Any of the values may be the one: take what is there
        probe = MultiTriggerAggregator(
            [make_trigger(trace, s) for s in specs], topo)
        topo.add_to_level("probe", [[n] for n in nodes])
        for node, series in zip(nodes, probe.aggregate(level="probe")):
            for t in times:
                expect(float(series[t]) in base[node][t], "node {} at {}: {} "
                       "instead of one of {}", node, t, series[t],
                       base[node][t])
                base[node][t] = [float(series[t])]
        labels.add("overlap")
    base = {n: [base[n][t][0] for t in times] for n in nodes}

    def model_of(node, kwargs):
        vals = base[node]
        if name in ("none", "same"):
            return vals
        if name == "cumsum":
            out, cur = [], 0.0
            for v in vals:
                cur += v
                out.append(cur)
            return out
        if name == "count":
            return sum(v != kwargs.get("scale", 0) for v in vals)
        return sum(vals) * kwargs.get("scale", 1)

    used = []
    for op in case["ops"]:
        level = op["level"]
        if level not in model and level not in ("all", None):
            continue
        kwargs = {}
        if op["scale"] is not None and name in ("scaled", "count"):
            kwargs["scale"] = op["scale"]
        if level is not None:
            kwargs["level"] = level
        if level in (None, "all"):
            groups = [nodes]
        else:
            groups = topo.get_level(level)
        got = agg.aggregate(**kwargs)
        expect(len(got) == len(groups), "{} results for the groups {}",
               len(got), groups)
        for group, res in zip(groups, got):
            parts = [model_of(n, kwargs) for n in group]
            if isinstance(parts[0], list):
                expect(list(res.index) == times, "index {} instead of {}",
                       list(res.index), times)
                want = [sum(p) for p in zip(*parts)]
                # Values are small multiples of 1/4: sums are exact
                expect(list(map(float, res)) == want, "level {}, group {}: {} "
                       "instead of {} (earlier calls: {})", level, group,
                       list(res), want, used)
            else:
                expect(float(res) == sum(parts), "level {}, group {}: {} "
                       "instead of {} (earlier calls: {})", level, group, res,
                       sum(parts), used)
        used.append(level)
    if len(filled) < 2 or not used:
        labels.add("trivial")
    if len(used) > 1:
        labels.add("repeated")
    if case["single"]:
        labels.add("single trigger")
    return labels


NODES = [0, 1, 2, 3]


@st.composite
def row_lists(draw):
    evs = draw(st.sampled_from([EVENTS, EVENTS, EVENTS, EVENTS[:1]]))
    row = st.builds(
        lambda ev, gap, c, p, n, w, state: dict(
            ev=ev, gap=gap, f=[["cpu", c], ["id", p], ["n", n],
                               ["w", w], ["state", state]]),
        st.sampled_from(evs), st.integers(1, 3), st.sampled_from(NODES[:3]),
        st.sampled_from(NODES[:2]), st.integers(-3, 5), st.integers(1, 4),
        st.sampled_from(["R", "S", "D"]))
    return draw(gen.sized(row, 1, 14))


@st.composite
def triggers(draw, stateful=False):
    flt = {
        "n": st.one_of(
            st.integers(-3, 5).map(lambda v: ["value", v]),
            st.lists(st.integers(-3, 5), min_size=1, max_size=4, unique=True
                     ).map(lambda v: ["list", v]),
            st.integers(-3, 3).map(lambda v: ["min", v]),
            st.just(["odd"])),
        "w": st.one_of(
            st.lists(st.integers(1, 4), min_size=2, max_size=3, unique=True
                     ).map(lambda v: ["list", v]), st.just(["odd"])),
        "state": st.one_of(
            st.sampled_from("RSD").map(lambda v: ["value", v]),
            st.lists(st.sampled_from("RSD"), min_size=2, max_size=3,
                     unique=True).map(lambda v: ["list", v])),
    }
    cols = draw(st.lists(st.sampled_from(["n", "w", "state"]), max_size=2,
                         unique=True))
    filters = []
    for col in cols:
        if stateful and draw(st.integers(0, 3)) == 0:
            filters.append([col, ["changed"]])
        else:
            filters.append([col, draw(flt[col])])
    return dict(ev=draw(st.sampled_from(EVENTS)), filters=filters,
                value=draw(st.sampled_from([1, -1, 2.5, 0, "n", "w", 1, -1])),
                pivot=draw(st.sampled_from(["cpu", "cpu", "id"])),
                template=draw(st.sampled_from(["event", "class"])))


@st.composite
def trigger_cases(draw):
    spec = draw(triggers(True))
    return dict(rows=draw(row_lists()), trigger=spec,
                nodes=draw(st.permutations(NODES)))


@st.composite
def topologies(draw):
    nodes = draw(st.permutations(NODES))

    def split(items):
        cuts = draw(st.lists(st.booleans(), min_size=len(items),
                             max_size=len(items)))
        out = []
        for item, cut in zip(items, cuts):
            if cut or not out:
                out.append([])
            out[-1].append(item)
        return out

    clusters = split(nodes[:draw(st.integers(1, 4))]) if draw(
        st.booleans()) else []
    levels = []
    for i in range(draw(st.integers(0 if clusters else 1, 3))):
        level = draw(st.sampled_from(["die", "pkg", "die", "cluster"]))
        sub = draw(st.permutations(NODES))
        groups = split(sub[:draw(st.integers(1, 4))])
        before = [g for _, g in levels] + ([clusters] if clusters else [])
        if before and draw(st.integers(0, 2)) == 0:
            groups = draw(st.sampled_from(before))
        levels.append([level, groups])
    return dict(clusters=clusters, levels=levels, shared=draw(st.booleans()))


@st.composite
def aggregate_cases(draw):
    specs = draw(gen.sized(triggers(), 1, 3))
    return dict(
        rows=draw(row_lists()), topology=draw(topologies()), triggers=specs,
        single=draw(st.integers(0, 4)) == 0, implicit=draw(st.booleans()),
        agg=draw(st.sampled_from(["none", "none", "none", "sum", "scaled",
                                  "cumsum", "same", "count"])),
        ops=draw(st.lists(st.fixed_dictionaries(dict(
            level=st.sampled_from(["all", None, "cluster", "cpu", "die",
                                   "pkg", "cluster", "die"]),
            scale=st.sampled_from([None, 2, 0, 3]))), min_size=2,
            max_size=6)))


SUBS = [Sub("triggers", trigger_cases, check_triggers, quick=1500, shards=3),
        Sub("aggregation", aggregate_cases, check_aggregate, quick=2400,
            shards=5)]
