"""C07: formats of the built-in events"""
import string

from hypothesis import strategies as st

import gen
import tr
from checks.c01 import compare, expected
from harness import Sub, Skip, expect

LEVEL = "exploration"
RULE = ("Lines of 26 built-in events in the formats the kernel prints, with "
        "generated field values, parsed in the widest scope, in the scheduler "
        "scope or by event name, with and without the cache; every row is "
        "compared with the values that were printed. Non-trivial: at least "
        "two lines of built-in events with a special format.")
ASSUMPTIONS = ["task names hold no ' word=' or ' ==> ' (the format is "
               "ambiguous then)", "no line contains another event's word"]

SPECIAL = {"sched_switch", "cpu_frequency", "cpu_capacity", "cpu_idle",
           "sched_load_avg_sg", "clock_enable", "clock_disable",
           "clock_set_rate", "sys_enter", "sys_exit"}
NAMES = {"thermal_temperature": "thermal",
         "thermal_power_allocator": "thermal_governor",
         "thermal_power_cpu_limit": "cpu_out_power",
         "thermal_power_cpu_get_power": "cpu_in_power",
         "thermal_power_allocator_pid": "pid_controller",
         "thermal_power_devfreq_get_power": "devfreq_in_power",
         "thermal_power_devfreq_limit": "devfreq_out_power",
         "sched_contrib_scale_f": "sched_contrib_scale_factor"}


def task():
    return st.one_of(
        st.sampled_from(["sh", "swapper/0", "a b", "kworker/0:1", "rcu-x",
                         "C1 Compiler", "<...>", "x=y", "a->b", "nan", "12",
                         "Binder:1_2", "[k]", "GL updater (1)",
                         "a==>b", "==>", "=> y"]),
        st.text(string.ascii_letters + "-_/.:#@<>()", min_size=1,
                max_size=15).filter(lambda s: not gen.is_int_text(s)))


num = st.integers(0, 2**31)
small = st.integers(0, 7)
mask = st.one_of(st.integers(1, 2**27).map("{:08x}".format),
                 st.sampled_from(["00000000", "0000000f", "00000030",
                                  "00000008"]))


def kvs(*pairs):
    """[(key, text strategy)] -> strategy of (data text, row)"""
    def build(vals):
        fields = list(zip([k for k, _ in pairs], [str(v) for v in vals]))
        return [" ".join("{}={}".format(k, v) for k, v in fields),
                {k: gen.value_of(v) for k, v in fields}]
    return st.tuples(*[s for _, s in pairs]).map(build)


def renamed(strategy, **names):
    return strategy.map(lambda x: [x[0], {names.get(k, k): v
                                          for k, v in x[1].items()}])


@st.composite
def switch(draw):
    prev = [("prev_comm", draw(task())), ("prev_pid", draw(num)),
            ("prev_prio", draw(small)),
            ("prev_state", draw(st.sampled_from(["S", "R", "R+", "D|K", "0",
                                                 "0x0", "1", "x"])))]
    nxt = [("next_comm", draw(task())), ("next_pid", draw(num)),
           ("next_prio", draw(small))]

    def text(fields):
        return " ".join("{}={}".format(k, v) for k, v in fields)
    arrow = draw(st.sampled_from([" ==> ", " "]))
    return [text(prev) + arrow + text(nxt),
            {k: gen.value_of(str(v)) for k, v in prev + nxt}]


@st.composite
def load_avg_sg(draw):
    cpus = draw(st.one_of(mask, mask, st.integers(0, 99999999).map(str),
                          st.integers(0, 2**20).map("{:x}".format)))
    data, row = draw(kvs(("load", num), ("utilization", num)))
    # always shown with eight digits
    shown = gen.value_of(cpus)
    return ["cpus={} {}".format(cpus, data),
            dict(row, cpus=str(shown).rjust(8, "0"))]


@st.composite
def clock(draw, rate=False):
    name = draw(st.sampled_from(["clk_uart", "clk-0", "pll1_main", "a.b",
                                 "12", "x:y"]))
    data, row = draw(kvs(("state", num), ("cpu_id", small)))
    if rate:
        row["rate"] = row.pop("state")
    return [name + " " + data, dict(row, clk_name=name)]


@st.composite
def fsync(draw, keys):
    row = {}
    parts = []
    for key in keys:
        val = draw(st.one_of(num.map(str),
                             st.sampled_from(["259,2", "8,1", "0"])))
        parts += [key, val]
        row["inode" if key == "ino" else key] = val
    return [" ".join(parts), row]


@st.composite
def f2fs(draw, keys, checkpoint=False):
    major, minor = draw(small), draw(small)
    row = {"dev": "({} {})".format(major, minor)}
    parts = ["dev = ({},{})".format(major, minor)]
    for key in keys:
        if key == "checkpoint":
            val = draw(st.sampled_from(["needed", "not needed"]))
            parts.append("checkpoint is " + val)
            row[key] = val
            continue
        val = draw(num.map(hex) if key in ("i_mode", "i_advise") else num)
        parts.append("{} = {}".format(key, val))
        row["inode" if key == "ino" else key] = gen.value_of(str(val))
    return [", ".join(parts), row]


@st.composite
def sys_enter(draw):
    nr = draw(st.one_of(st.just(-1), st.integers(0, 500)))
    args = [draw(st.one_of(small, st.integers(0, 2**63 - 1),
                           st.integers(0, 2**64 - 1))) for _ in range(6)]
    text = "NR {} ({})".format(nr, ", ".join("{:x}".format(a) for a in args))
    row = {"arg{}".format(i): a for i, a in enumerate(args)}
    return [text, dict(row, nr=nr)]


@st.composite
def sys_exit(draw):
    nr = draw(st.one_of(st.just(-1), st.integers(0, 500)))
    ret = draw(st.one_of(st.integers(-4095, 100),
                         st.integers(-2**63, 2**63 - 1)))
    return ["NR {} = {}".format(nr, ret), dict(nr=nr, ret=ret)]


idle_state = st.one_of(st.integers(0, 8), st.just(4294967295))
hexa = st.integers(0, 2**63 - 1).map(hex)
FORMATS = {
    "sched_switch": switch(),
    "sched_wakeup": kvs(("comm", task()), ("pid", num), ("prio", small),
                        ("success", small), ("target_cpu", st.sampled_from(
                            ["000", "001", "3"]))),
    "sched_wakeup_new": kvs(("comm", task()), ("pid", num), ("prio", small),
                            ("target_cpu", small)),
    "sched_migrate_task": kvs(("comm", task()), ("pid", num), ("prio", small),
                              ("orig_cpu", small), ("dest_cpu", small)),
    "sched_load_avg_sg": load_avg_sg(),
    "sched_load_avg_task": kvs(("comm", task()), ("pid", num), ("load", num)),
    "sched_load_avg_cpu": kvs(("cpu", small), ("load", num), ("util", num)),
    "sched_contrib_scale_f": kvs(("cpu", small), ("cpu_scale_factor", num)),
    "cpu_frequency": renamed(kvs(("state", num), ("cpu_id", small)),
                             state="frequency", cpu_id="cpu"),
    "cpu_capacity": renamed(kvs(("state", num), ("cpu_id", small)),
                            state="capacity", cpu_id="cpu"),
    "cpu_idle": kvs(("state", idle_state), ("cpu_id", small)).map(
        lambda x: [x[0], dict(x[1], state=-1 if x[1]["state"] == 4294967295
                              else x[1]["state"])]),
    "clock_enable": clock(), "clock_disable": clock(),
    "clock_set_rate": clock(rate=True),
    "ext4_da_write_begin": fsync(["dev", "ino", "pos", "len", "flags"]),
    "ext4_da_write_end": fsync(["dev", "ino", "pos", "len", "copied"]),
    "ext4_sync_file_enter": fsync(["dev", "ino", "parent", "datasync"]),
    "ext4_sync_file_exit": fsync(["dev", "ino", "ret"]),
    "f2fs_write_begin": f2fs(["ino", "pos", "len", "flags"]),
    "f2fs_write_end": f2fs(["ino", "pos", "len", "copied"]),
    "f2fs_sync_file_enter": f2fs(["ino", "pino", "i_mode", "i_size", "i_nlink",
                                  "i_blocks", "i_advise"]),
    "f2fs_sync_file_exit": f2fs(["ino", "checkpoint", "datasync", "ret"]),
    "sys_enter": sys_enter(), "sys_exit": sys_exit(),
    "function": kvs(("ip", hexa), ("parent_ip", hexa)),
    "funcgraph_entry": kvs(("func", hexa), ("depth", small)),
    "funcgraph_exit": kvs(("func", hexa), ("calltime", hexa),
                          ("rettime", hexa), ("overrun", small),
                          ("depth", small)),
    "thermal_temperature": kvs(("thermal_zone", st.sampled_from(
        ["soc", "cpu-0", "gpu therm"])), ("id", small), ("temp_prev", num),
        ("temp", num)),
    "thermal_power_cpu_limit": kvs(("cpus", mask), ("freq", num),
                                   ("cdev_state", small), ("power", num)),
    "thermal_power_cpu_get_power": kvs(("cpus", mask), ("freq", num),
                                       ("raw_cpu_power", num), ("power", num)),
    "thermal_power_allocator_pid": kvs(
        ("thermal_zone_id", small), ("err", st.integers(-9999, 9999)),
        ("p", num), ("i", num), ("d", num), ("output", num)),
    "thermal_power_devfreq_get_power": kvs(
        ("type", st.sampled_from(["gpu", "mali x"])), ("freq", num),
        ("load", small), ("dynamic_power", num), ("static_power", num)),
    "thermal_power_devfreq_limit": kvs(
        ("type", st.just("gpu")), ("freq", num), ("cdev_state", small),
        ("power", num)),
    "thermal_power_allocator": kvs(
        ("thermal_zone_id", small), ("total_req_power", num),
        ("current_temperature", num),
        ("delta_temperature", st.integers(-9999, 9999))),
}


def check(case):
    lines = case["lines"]
    text = gen.render(lines)
    for line in lines:
        full = gen.render_event(line)
        hits = [ev for ev in FORMATS if ev in full.replace(
            line["ev"] + ":", "") or
            (ev + ":" in full and ev != line["ev"])]
        if hits:
            raise Skip()
    present = sorted(set(line["ev"] for line in lines))
    if case["scope"] == "custom":
        events = present
    else:
        events = []
    trace = tr.parse(text, scope=case["scope"], events=events,
                     normalize_time=False, cache=case["cache"])
    if case["cache"]:
        trace = tr.parse(None, path=trace.trace_path, scope=case["scope"],
                         events=events, normalize_time=False, cache=True)
    want = expected(lines, list(FORMATS), lambda l: l["row"])
    for ev in FORMATS:
        name = NAMES.get(ev, ev)
        if name not in trace.class_definitions:
            expect(case["scope"] != "all" and
                   (case["scope"] != "custom" or ev not in present),
                   "{} is not among the events of the trace", name)
            continue
        compare(ev, tr.frame(trace, name), want[ev])
    if "sched_load_avg_task" in trace.class_definitions and \
            want["sched_load_avg_task"]:
        tasks = []
        for _, row in want["sched_load_avg_task"]:
            pair = [row["comm"], row["pid"]]
            if pair not in tasks:
                tasks.append(pair)
        if all(isinstance(c, str) for c, _ in tasks):
            key = tasks[0][0][:1]
            if key.isalnum():
                expect(trace.sched_load_avg_task.get_pids(key) ==
                       [t for t in tasks if key in t[0]],
                       "tasks {}", trace.sched_load_avg_task.get_pids(key))
    labels = {case["scope"]} | set(present)
    if case["cache"]:
        labels.add("from cache")
    if sum(line["ev"] in SPECIAL or "ino" in line["data"]
           for line in lines) < 2:
        labels.add("trivial")
    return labels


@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    clock_ = draw(gen.clocks(n))
    pool = draw(st.lists(st.sampled_from(sorted(FORMATS)), min_size=1,
                         max_size=3, unique=True))
    lines = []
    for i in range(n):
        line = draw(gen.simple_headers())
        line["ts"] = clock_[i]
        line["ev"] = draw(st.sampled_from(pool))
        line["gap3"] = draw(st.sampled_from([" ", "     ", "  "]))
        line["data"], line["row"] = draw(FORMATS[line["ev"]])
        lines.append(line)
    return dict(lines=lines, cache=draw(st.integers(0, 3)) == 0,
                scope=draw(st.sampled_from(["custom"] * 5 +
                                           ["all", "all", "sched", "thermal"])))


SUBS = [Sub("formats", cases, check, quick=5000, shards=8)]
