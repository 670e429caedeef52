"""Generated runs of the thermal framework and power allocator, and what
trappy should derive from them.  Cases are plain JSON.

A run is a dict of name, start (in quarters of a second), and rows
[[dt, kind, values]]; clusters are [[mask, label]]."""
from hypothesis import strategies as st

MASKS = [["0000000f", "000000f0"], ["39", "06"], ["3", "c"], ["f0", "0f"],
         ["10", "ef"], ["00000003", "0000000c", "000000f0"], ["ff"], ["1"],
         ["00000000,0000000f", "0000ffff,00000000"], ["6", "9", "30"],
         ["3f", "c0"], ["10000000", "00000001"]]
LABELS = ["A53", "A57", "LITTLE", "big", "a b"]


def cpus_of(mask):
    return sum("{:04b}".format(int(c, 16)).count("1") for c in mask
               if c != ",")


def times(run):
    out, now = [], run["start"]
    for dt, _, _ in run["rows"]:
        now += dt
        out.append(now / 4)
    return out


def rows(run, kind):
    """[(time since the start of the run, values)]"""
    all_times = times(run)
    return [(t - all_times[0], vals) for t, (_, k, vals) in
            zip(all_times, run["rows"]) if k == kind]


def array(vals):
    return "{" + " ".join(str(v) for v in vals) + "}"


def payload(kind, v):
    if kind == "in":
        return "thermal_power_cpu_get_power: cpus={} freq={} load={} " \
            "dynamic_power={}".format(v["cpus"], v["freq"], array(v["load"]),
                                      v["power"])
    if kind == "out":
        return "thermal_power_cpu_limit: cpus={} freq={} cdev_state={} " \
            "power={}".format(v["cpus"], v["freq"], v["state"], v["power"])
    if kind == "gpu_in":
        return "thermal_power_devfreq_get_power: type=gpu freq={} load={} " \
            "dynamic_power={}".format(v["freq"], v["load"], v["power"])
    if kind == "gpu_out":
        return "thermal_power_devfreq_limit: type=gpu freq={} cdev_state={} " \
            "power={}".format(v["freq"], v["state"], v["power"])
    if kind == "temp":
        return "thermal_temperature: thermal_zone=zone{} id={} temp_prev={} " \
            "temp={}".format(v["id"], v["id"], v["prev"], v["temp"])
    if kind == "gov":
        return "thermal_power_allocator: thermal_zone_id={} req_power={} " \
            "total_req_power={} granted_power={} total_granted_power={} " \
            "current_temperature={} delta_temperature={}".format(
                v["id"], array(v["req"]), sum(v["req"]), array(v["granted"]),
                sum(v["granted"]), v["temp"], v["delta"])
    return "thermal_power_allocator_pid: thermal_zone_id={} err={} " \
        "err_integral={} p={} i={} d={} output={}".format(
            v["id"], v["err"], v["p"], v["p"], v["i"], v["d"], v["output"])


def render(run):
    out = ["version = 6", "cpus=8"]
    for time, (_, kind, vals) in zip(times(run), run["rows"]):
        out.append("   kworker/0:1-12 [000] {:.6f}: {}".format(
            time, payload(kind, vals)))
    return "\n".join(out) + "\n"


def carried(columns, more=()):
    """{name: [(time, value)]} -> ([times], {name: [value or None]})"""
    index = sorted({t for vals in columns.values() for t, _ in vals} |
                   set(more))
    out = {}
    for name, vals in columns.items():
        at = dict(vals)
        cur, res = None, []
        for t in index:
            if at.get(t) is not None:
                cur = at[t]
            res.append(cur)
        out[name] = res
    return index, out


def series(run, kind, clusters, value):
    labels = dict(clusters)
    out = {}
    for t, vals in rows(run, kind):
        if vals["cpus"] in labels:
            out.setdefault(labels[vals["cpus"]], []).append((t, value(vals)))
    return out


def freqs(run, kind, clusters):
    return series(run, kind, clusters, lambda v: v["freq"] / 1000)


def loads(run, clusters):
    return series(run, "in", clusters, lambda v: sum(v["load"]))


def norm_loads(run, clusters):
    top = {}
    for _, v in rows(run, "in"):
        top[v["cpus"]] = max(top.get(v["cpus"], 0), v["freq"])
    return series(run, "in", clusters, lambda v: sum(v["load"]) * v["freq"] /
                  (top[v["cpus"]] * cpus_of(v["cpus"])))


def gpu_freqs(run, kind):
    return [(t, v["freq"] / 1e6) for t, v in rows(run, kind)]


def gpu_loads(run):
    return [(t, v["load"]) for t, v in rows(run, "gpu_in")]


def gpu_norm_loads(run):
    vals = rows(run, "gpu_in")
    top = max([v["freq"] for _, v in vals] or [1])
    return [(t, v["load"] * v["freq"] / top) for t, v in vals]


def close(got, want):
    if want is None:
        return got != got
    return abs(got - want) <= 1e-9 * max(1, abs(got), abs(want))


def frame_error(dfr, columns, more=()):
    """Why a frame is not that of the columns carried forward, or None; its
    times may also be some of more"""
    index, want = carried(columns, {float(t) for t in dfr.index} & set(more))
    if set(dfr.columns) != set(want) or len(dfr.columns) != len(want):
        return "columns {} instead of {}".format(list(dfr.columns),
                                                 sorted(want))
    if [float(t) for t in dfr.index] != index:
        return "times {} instead of {}".format(list(dfr.index), index)
    for name, vals in want.items():
        got = [float(v) for v in dfr[name]]
        if not all(close(g, w) for g, w in zip(got, vals)):
            return "{}: {} instead of {}".format(name, got, vals)
    return None


@st.composite
def clusters(draw):
    masks = draw(st.permutations(draw(st.sampled_from(MASKS))))
    labels = draw(st.permutations(LABELS))
    return [[m, l] for m, l in zip(masks, labels)]


@st.composite
def runs(draw, clusters, gpu=None, actors=2, zones=(0, 1), complete=True,
         temps=True, most=14, unplugged=False):
    freq = st.integers(1, 40).map(lambda n: n * 50000)
    small = st.integers(0, 100)

    def values(kind, mask=None):
        mask = mask or draw(st.sampled_from([m for m, _ in clusters]))
        num = cpus_of(mask)
        if kind == "in":
            return dict(cpus=mask, freq=draw(freq), load=draw(
                st.lists(small, min_size=num, max_size=num)), power=draw(small))
        if kind == "out":
            return dict(cpus=mask, freq=draw(freq), state=draw(small),
                        power=draw(small))
        if kind == "gpu_in":
            return dict(freq=draw(freq) * 1000, load=draw(small),
                        power=draw(small))
        if kind == "gpu_out":
            return dict(freq=draw(freq) * 1000, state=draw(small),
                        power=draw(small))
        zone = draw(st.sampled_from(zones))
        temp = st.integers(20, 90).map(lambda n: n * 1000 + 250)
        if kind == "temp":
            return dict(id=zone, temp=draw(temp), prev=draw(temp))
        if kind == "gov":
            power = st.lists(st.integers(0, 3000), min_size=actors,
                             max_size=actors)
            return dict(id=zone, req=draw(power), granted=draw(power),
                        temp=draw(temp), delta=draw(
                            st.integers(-10, 10)) * 500)
        num = st.integers(-500, 500)
        return dict(id=zone, err=draw(num), p=draw(num), i=draw(num),
                    d=draw(num), output=draw(num))

    gpu = draw(st.booleans()) if gpu is None else gpu
    kinds = ["in", "out", "gov", "pid"] + ["gpu_in", "gpu_out"] * gpu + \
        ["temp"] * bool(temps)
    out = []
    if complete:
        for kind in kinds:
            if kind in ("in", "out"):
                out += [[kind, values(kind, m)] for m, _ in clusters]
            else:
                out.append([kind, values(kind)])
    n = draw(st.integers(0 if complete else 1, most))
    for _ in range(n):
        kind = draw(st.sampled_from(kinds + ["in", "in", "out"]))
        out.append([kind, values(kind)])
    out = draw(st.permutations(out))
    if unplugged and len(clusters) > 1 and draw(st.integers(0, 3)) == 0:
        # A cluster without events (of one kind)
        mask = draw(st.sampled_from([m for m, _ in clusters]))
        gone = draw(st.sampled_from([["in"], ["out"], ["in", "out"]]))
        out = [[k, v] for k, v in out
               if not (k in gone and v["cpus"] == mask)]
    return dict(name=draw(st.sampled_from(["", "run", "b b", "x"])),
                start=draw(st.integers(1, 4000)),
                rows=[[draw(st.integers(1, 5)), k, v] for k, v in out])
