"""C22: residency of tasks in event plots"""
import json
import os
import re

from hypothesis import strategies as st

import harness
import tr
import trappy
import trappy.plotter
from trappy.plotter import IPythonConf
from trappy.plotter.EventPlot import EventPlot
from trappy.plotter.Utils import get_trace_event_data
from harness import Sub, expect

LEVEL = "exploration"
RULE = ("Histories of scheduler switches on several cpus are rendered as "
        "traces and the intervals given to the plot, or put in the page, are "
        "compared with those between the switches of each cpu; in histories "
        "with lost switches, intervals whose end was lost may be left out.  "
        "Arbitrary interval data is compared with the data in the page.  "
        "Non-trivial: at least three intervals of at least two tasks.")
ASSUMPTIONS = ["a task runs on one cpu at a time", "task names are not "
               "rewritten by the integer rule of field values (no 007)"]

IPythonConf.iplot_install = lambda _name: None

COMMS = ["sh", "a b", "rcu-1", "sh", "30", "migration/0", "kworker/0:1",
         "migrate", "</script>", "x", "Xmigration"]


def name_of(task):
    return "{}-{}".format(*task)


def simulate(case):
    """[(time, cpu, previous task, next task)], tasks are (name, pid)"""
    tasks = [tuple(t) for t in case["tasks"]]
    comm = dict()
    running = {}
    rows = []
    time = case["start"]
    for step in case["steps"]:
        time += step["dt"]
        cpu = step["cpu"] % case["cpus"]
        idle = ("swapper/{}".format(cpu), 0)
        busy = {t[1] for c, t in running.items() if c != cpu}
        free = [t for t in tasks if t[1] not in busy]
        if cpu in running:
            prev = running[cpu]
        else:
            prev = (free + [idle])[step["prev"] % (len(free) + 1)]
        choice = [t for t in free if t[1] != prev[1]]
        if prev[1] != 0:
            choice += [idle, idle]
        if not choice:
            continue
        nxt = choice[step["next"] % len(choice)]
        if step["renamed"] and prev[1]:
            prev = ("renamed", prev[1])
        if not step["lost"]:
            rows.append((time / 4, cpu, prev, nxt))
        running[cpu] = nxt
    return rows


def render(case, rows):
    out = []
    if case["header"]:
        out.append("cpus={}".format(case["cpus"]))
    for time, cpu, prev, nxt in rows:
        out.append(
            "{:>16}-{:<5} [{:03d}] {:.6f}: sched_switch: prev_comm={} "
            "prev_pid={} prev_prio=120 prev_state={} ==> next_comm={} "
            "next_pid={} next_prio=120".format(
                prev[0], prev[1], cpu, time, prev[0], prev[1],
                "S" if prev[1] else "R", nxt[0], nxt[1]))
    return "\n".join(out) + "\n"


def shown(case, nxt):
    """Is this task to be shown?"""
    if nxt[1] == 0 or nxt[0].startswith("migration"):
        return False
    if case["execnames"] and nxt[0] not in case["execnames"]:
        return False
    return not case["pids"] or nxt[1] in case["pids"]


def intervals(case, rows):
    """{name: [(start, end, cpu)]}, {name: [(start, cpu)]} of those whose end
    is not known"""
    sure, unsure = {}, {}
    for i, (time, cpu, _, nxt) in enumerate(rows):
        if not shown(case, nxt):
            continue
        later = [r for r in rows[i + 1:] if r[1] == cpu]
        if not later:
            end = rows[-1][0]
            # on another cpu without a switch away from here
            if any(nxt[1] in (r[2][1], r[3][1]) for r in rows[i + 1:]):
                end = None
        elif later[0][2][1] == nxt[1]:
            end = later[0][0]
            # two switches were lost
            if any(nxt[1] in (r[2][1], r[3][1]) for r in rows[i + 1:]
                   if r[0] < end):
                end = None
        else:
            end = None
        if end is None:
            unsure.setdefault(name_of(nxt), []).append((time, cpu, i))
        else:
            sure.setdefault(name_of(nxt), []).append((time, end, cpu))
    return sure, unsure


def compare(case, rows, data):
    """data: {name: [(start, end, cpu)]}"""
    sure, unsure = intervals(case, rows)
    for name in set(data) | set(sure):
        want = [v for v in sure.get(name, []) if v[0] < v[1]]
        got = [tuple(v) for v in data.get(name, []) if v[0] < v[1]]
        starts = [v[0] for v in got]
        expect(starts == sorted(starts), "{} has the intervals {}", name, got)
        for one in want:
            expect(one in got, "{} has no interval {}: {}", name, one, got)
        rest = [v for v in got if v not in want]
        for start, end, cpu in rest:
            match = [u for u in unsure.get(name, []) if u[:2] == (start, cpu)]
            expect(match, "{} has the interval {}", name, (start, end, cpu))
            # Not shown if the task is switched to again without an end
            i = match[0][2]
            pid = rows[i][3][1]
            for row in rows[i + 1:]:
                if row[2][1] == pid:
                    break
                expect(row[3][1] != pid, "{} has the interval {}, but is "
                       "switched to at {}", name, (start, end, cpu), row[0])
        expect(len(got) == len(set(got)), "{} has the intervals {}", name, got)
    labels = set()
    if sum(map(len, data.values())) < 3 or len(data) < 2:
        labels.add("trivial")
    if any(v[1] == rows[-1][0] for vals in data.values() for v in vals):
        labels.add("running at the end")
    if unsure:
        labels.add("lost ends")
    if len({n.rsplit("-", 1)[0] for n in data}) < len(data):
        labels.add("equal names")
    return labels


def expected_rows(case, rows):
    first = rows[0][0]
    if case["window"]:
        lo, hi = case["window"]
        rows = [r for r in rows if lo <= r[0] - first and
                (hi is None or r[0] - first <= hi)]
    if case["normalize"]:
        rows = [(r[0] - first,) + r[1:] for r in rows]
    return rows


def one_or_list(vals, alone):
    return vals[0] if alone and len(vals) == 1 else list(vals)


def prepare(case):
    rows = simulate(case)
    if not rows:
        raise harness.Skip()
    shown_rows = expected_rows(case, rows)
    if not shown_rows:
        raise harness.Skip()
    kwargs = dict(normalize_time=case["normalize"])
    if case["window"]:
        kwargs["window"] = tuple(case["window"])
    path = os.path.join(harness.fresh_dir("trace"), "trace.txt")
    with open(path, "w") as fout:
        fout.write(render(case, rows))
    filters = {}
    if case["execnames"]:
        filters["execnames"] = one_or_list(case["execnames"], case["alone"])
    if case["pids"]:
        filters["pids"] = one_or_list(case["pids"], case["alone"])
    return rows, shown_rows, path, kwargs, filters


def check_data(case):
    _, rows, path, kwargs, filters = prepare(case)
    trace = tr.parse(None, path=path, scope=case["scope"],
                     events=["sched_switch"], **kwargs)
    before = tr.frame_snapshot(trace.sched_switch.data_frame)
    data, procs, domain = get_trace_event_data(trace, **filters)
    expect(tr.diff(tr.frame_snapshot(trace.sched_switch.data_frame),
                   before) is None, "the trace has changed")
    expect([float(t) for t in domain] == [rows[0][0], rows[-1][0]],
           "the domain is {} instead of {}", domain,
           [rows[0][0], rows[-1][0]])
    labels = compare(case, rows, {k: [(float(a), float(b), int(c))
                                      for a, b, c in v]
                                  for k, v in data.items()})
    names = {name_of(r[3]) for r in rows if shown(case, r[3])}
    expect(set(procs) == names, "the tasks are {} instead of {}",
           sorted(procs), sorted(names))
    if filters:
        labels.add("filtered")
    return labels


def page():
    """The data of the plot in the page shown last"""
    text = tr.RECORDER.shown[-1].data
    scripts = re.findall(r"<script>(.*?)</script>", text, re.S)
    found = []
    for script in scripts:
        found += re.findall(
            r"EventPlot\.generate\('(\w+)', '[^']*', (\{.*\})\);\s*$", script,
            re.M)
    expect(len(found) == 1, "{} plots in the page", len(found))
    name, val = found[0]
    expect('<div id="{}" class="eventplot">'.format(name) in text,
           "the plot {} has no place", name)
    return json.loads(val)


def check_page(graph, data, lanes):
    """data: {name: [(start, end, lane)]}"""
    expect([l["label"] for l in graph["lanes"]] == lanes and
           [l["id"] for l in graph["lanes"]] == list(range(len(lanes))),
           "the lanes are {} instead of {}", graph["lanes"], lanes)
    got = {}
    for name, per_lane in graph["data"].items():
        got[name] = sorted((s, e, int(lane)) for lane, spans in
                           per_lane.items() for s, e in spans)
        for lane, spans in per_lane.items():
            starts = [s for s, _ in spans]
            want = [v[0] for v in data.get(name, []) if v[2] == int(lane)]
            expect(starts == want, "{} starts at {} in lane {} instead of {}",
                   name, starts, lane, want)
    for name in set(got) | set(data):
        want = sorted(data.get(name, []))
        expect(got.get(name, []) == want, "{} is shown as {} instead of {}",
               name, got.get(name), want)
    keys = graph["keys"]
    expect(len(set(keys)) == len(keys), "the tasks are {}", keys)
    want = {n for n, v in data.items() if any(s != e for s, e, _ in v)}
    expect(set(keys) == want, "the tasks {} are shown instead of {}", keys,
           sorted(want))


def check_plot(case):
    rows, _, path, _, filters = prepare(dict(case, window=None,
                                             normalize=True))
    del tr.RECORDER.shown[:]
    if case["object"]:
        trace = tr.parse(None, path=path, scope="sched")
        if case["object"] == "bare":
            frame = trace.sched_switch.data_frame
            trace = trappy.BareTrace()
            trace.add_parsed_event("sched_switch", frame)
    else:
        trace = path
    old = trappy.ftrace.GenericFTrace.disable_cache
    trappy.ftrace.GenericFTrace.disable_cache = not case["cache"]
    try:
        trappy.plotter.plot_trace(trace, **filters)
    finally:
        trappy.ftrace.GenericFTrace.disable_cache = old
    expect(len(tr.RECORDER.shown) == 1, "{} pages are shown",
           len(tr.RECORDER.shown))
    graph = page()
    data = {}
    for name, per_lane in graph["data"].items():
        data[name] = sorted((s, e, int(lane)) for lane, spans in
                            per_lane.items() for s, e in spans)
    rows = expected_rows(dict(case, window=None, normalize=True), rows)
    labels = compare(case, rows, data)
    cpus = case["cpus"] if case["header"] and case["object"] != "bare" else 1 + max(r[1] for r in rows)
    check_page(graph, data, ["CPU :{}".format(i) for i in range(cpus)])
    expect(graph["xDomain"] == [rows[0][0], rows[-1][0]],
           "the domain is {}", graph["xDomain"])
    expect(graph["showSummary"] is True and not graph["stride"],
           "summary is {} and stride {}", graph["showSummary"],
           graph["stride"])
    return labels


def check_intervals(case):
    data = {k: [list(e) for e in v] for k, v in case["data"]}
    copy = json.loads(json.dumps(data))
    lanes = case["lanes"] or None
    kwargs = dict(case["options"])
    if "color_map" in kwargs:
        kwargs["color_map"] = dict(kwargs["color_map"])
    if lanes is not None:
        kwargs["lanes"] = list(lanes)
        if case["both"]:
            kwargs["num_lanes"] = len(lanes) + 2
        known = {lane: i for i, lane in enumerate(lanes)}
    else:
        kwargs["num_lanes"] = case["num_lanes"]
        known = {i: i for i in range(case["num_lanes"])}
    used = {e[2] for v in data.values() for e in v}
    if lanes is None and not used <= set(known):
        raise harness.Skip()
    fine = used <= set(known) and known
    try:
        plot = EventPlot(data, list(data), tuple(case["domain"]), **kwargs)
    except RuntimeError as exc:
        expect(not fine, "the lanes {} are refused for {}: {}",
               lanes or case["num_lanes"], data, exc)
        return {"trivial", "refused"}
    expect(fine, "the lanes {} are accepted for {}",
           lanes or case["num_lanes"], data)
    expect(data == copy, "the data has changed to {}", data)
    del tr.RECORDER.shown[:]
    plot.view()
    graph = page()
    text = tr.RECORDER.shown[-1].data
    style = re.findall(r"<style>\n(.*?)\n?</style>", text, re.S)
    css = os.path.join(os.path.dirname(trappy.__file__), "plotter", "css",
                       "EventPlot.css")
    with open(css) as fin:
        expect(len(style) == 1 and style[0].rstrip("\n") ==
               fin.read().rstrip("\n"), "the style is not the plot's")
    check_page(graph, {k: [(s, e, known[lane]) for s, e, lane in v]
                       for k, v in data.items()},
               list(lanes) if lanes is not None else [
                   "{}{}".format(case["options"].get("lane_prefix", "Lane: "),
                                 i) for i in range(case["num_lanes"])])
    expect(graph["xDomain"] == case["domain"], "the domain is {}",
           graph["xDomain"])
    opts = case["options"]
    expect(graph["showSummary"] is opts.get("summary", True),
           "showSummary is {}", graph["showSummary"])
    expect(graph["stride"] is opts.get("stride", False), "stride is {}",
           graph["stride"])
    expect(graph["colorMap"] == kwargs.get("color_map"), "the colours are {}",
           graph["colorMap"])
    labels = {"lanes" if lanes is not None else "numbered lanes"}
    if sum(map(len, data.values())) < 3 or len(data) < 2:
        labels.add("trivial")
    return labels


@st.composite
def histories(draw, lost=True):
    cpus = draw(st.integers(1, 4))
    pids = draw(st.lists(st.integers(1, 12), min_size=draw(
        st.sampled_from([4, 3, 2, 1])), max_size=6,
                         unique=True))
    tasks = [[draw(st.sampled_from(COMMS)), pid] for pid in pids]
    if draw(st.integers(0, 2)) == 0:
        # One more name for the first pid
        tasks.append([draw(st.sampled_from(COMMS)), pids[0]])
    with_lost = lost and draw(st.integers(0, 2)) == 0
    step = st.fixed_dictionaries(dict(
        dt=st.integers(1, 6), cpu=st.integers(0, 3), prev=st.integers(0, 20),
        next=st.integers(0, 20), renamed=st.integers(0, 9).map(
            lambda n: n == 9),
        lost=st.integers(0, 4).map(lambda n: n == 4) if with_lost
        else st.just(False)))
    n = draw(st.sampled_from([20, 14, 30, 8, 3]))
    steps = draw(st.lists(step, min_size=n // 2, max_size=n))
    names = sorted({t[0] for t in tasks})
    window = None
    if draw(st.integers(0, 3)) == 0:
        lo = draw(st.integers(0, 20)) / 4
        window = [lo, draw(st.one_of(st.none(), st.integers(1, 60).map(
            lambda k: lo + k / 4)))]
    return dict(
        cpus=cpus, tasks=tasks, steps=steps, start=draw(st.integers(1, 900)),
        execnames=draw(st.lists(st.sampled_from(
            names + ["no", "s", names[0] + "2", "x" + names[-1]]),
                                max_size=2, unique=True)) if
        draw(st.integers(0, 3)) == 0 else [],
        pids=draw(st.lists(st.sampled_from(pids + [99]), max_size=3,
                           unique=True)) if draw(st.integers(0, 3)) == 0
        else [],
        alone=draw(st.booleans()), window=window,
        normalize=draw(st.booleans()), header=draw(st.booleans()),
        scope=draw(st.sampled_from(["sched", "custom"])))


@st.composite
def plots(draw):
    case = draw(histories())
    case["object"] = draw(st.sampled_from([False, True, "bare"]))
    case["cache"] = draw(st.integers(0, 3)) == 0
    return case


@st.composite
def interval_data(draw):
    num = draw(st.integers(0, 4))
    lanes = draw(st.one_of(st.none(), st.lists(st.sampled_from(
        ["b", "a", "LITTLE", "</script>", 7, 0, 2]), min_size=0, max_size=4,
        unique=True), st.lists(st.sampled_from(
            [0, "0", 1, "1", 2, "2", "Lane: 0", "", "01", "a", "A"]),
            min_size=1, max_size=5, unique_by=repr)))
    pool = lanes if lanes is not None else list(range(num))
    if draw(st.integers(0, 9)) == 0:
        pool = list(pool) + [draw(st.sampled_from(["nosuch", "3", 9]))]
    names = draw(st.lists(st.sampled_from(
        ["sh-1", "sh-2", "</script>", "a\"b", "it's", "x</y", "\\"]),
        min_size=0, max_size=4, unique=True))
    data = []
    unit = draw(st.sampled_from([2, 2, 2, 2**20, 2**24]))
    for name in names:
        time = 0
        spans = []
        for _ in range(draw(st.integers(0, 4)) if pool else 0):
            start = time + draw(st.integers(0, 4)) / 2
            time = start + draw(st.integers(0, 4)) / unit
            spans.append([start, time, draw(st.sampled_from(pool))])
        data.append([name, spans])
    options = {}
    for key, value in [("lane_prefix", st.sampled_from(["CPU ", "", "<"])),
                       ("summary", st.booleans()), ("stride", st.booleans()),
                       ("color_map", st.just([["sh-1", "red"],
                                              ["x</y", "#FF0000"]]))]:
        if draw(st.integers(0, 2)) == 0:
            options[key] = draw(value)
    return dict(data=data, lanes=lanes, num_lanes=num, options=options,
                both=draw(st.booleans()),
                domain=draw(st.sampled_from([[0.0, 20.0], [1.5, 3.0]])))


SUBS = [Sub("intervals", histories, check_data, quick=2000, shards=4),
        Sub("pages", plots, check_plot, quick=800, shards=2),
        Sub("any data", interval_data, check_intervals, quick=1600, shards=2)]
