"""C09: scopes, requested events and registration"""
from hypothesis import strategies as st

import gen
import tr
import trappy
from harness import Sub, expect

LEVEL = "exploration"
RULE = ("Histories of registering and unregistering parsers (by name and word, "
        "by class, in any scope, replacing each other) and of opening traces "
        "with any scope and event list, compared with a model of the "
        "registry. Non-trivial: a trace is opened after a user event was "
        "registered, or with an event list beyond its scope.")
ASSUMPTIONS = ["the list of built-in events of each scope is the one of the "
               "pinned commit"]

THERMAL = dict(thermal="thermal_temperature:",
               thermal_governor="thermal_power_allocator:",
               cpu_out_power="thermal_power_cpu_limit",
               cpu_in_power="thermal_power_cpu_get_power",
               pid_controller="thermal_power_allocator_pid",
               devfreq_in_power="thermal_power_devfreq_get_power:",
               devfreq_out_power="thermal_power_devfreq_limit:")
SCHED = dict(sched_load_avg_sg="sched_load_avg_sg:",
             sched_load_avg_task="sched_load_avg_task:",
             sched_load_avg_cpu="sched_load_avg_cpu:",
             sched_contrib_scale_factor="sched_contrib_scale_f:",
             cpu_capacity="cpu_capacity:", sched_wakeup="sched_wakeup:",
             sched_wakeup_new="sched_wakeup_new:",
             sched_switch="sched_switch:", cpu_frequency="cpu_frequency:",
             sched_migrate_task="sched_migrate_task:")
DYNAMIC = dict(sys_enter="sys_enter", sys_exit="sys_exit", cpu_idle="cpu_idle",
               tracing_mark_write="tracing_mark_write:",
               clock_enable="clock_enable:", clock_disable="clock_disable:",
               clock_set_rate="clock_set_rate:",
               funcgraph_entry="funcgraph_entry",
               funcgraph_exit="funcgraph_exit", function="function",
               ext4_da_write_begin="ext4_da_write_begin:",
               ext4_da_write_end="ext4_da_write_end:",
               ext4_sync_file_enter="ext4_sync_file_enter:",
               ext4_sync_file_exit="ext4_sync_file_exit:",
               f2fs_write_begin="f2fs_write_begin:",
               f2fs_write_end="f2fs_write_end:",
               f2fs_sync_file_enter="f2fs_sync_file_enter:",
               f2fs_sync_file_exit="f2fs_sync_file_exit:")

# class name, attribute name, words it may be registered with
USER = [("MyEvent", "my_event", ["uword_a:", "uword_b", "uword_a"]),
        ("OtherThing", "other_thing", ["uword_c:", "uword_b", "uword_cc:"]),
        ("Third", "third", ["uword_d", "third:", "switch:", "uword_d_x:"]),
        ("CpuFrequency", "cpu_frequency", ["uword_e:"]),
        ("MyGPULoad", "my_gpuload", ["uword_f:", "uword_b"])]
LINE_EVENTS = ["uword_a", "uword_b", "uword_c", "uword_cc", "uword_d",
               "uword_d_x", "third", "cpu_frequency", "cpu_idle",
               "thermal_temperature", "uword_e", "uword_f",
               "sched_wakeup"]
REQUESTS = ["uword_a", "uword_b", "uword_c:", "my_event", "other_thing",
            "third", "cpu_frequency", "cpu_frequency:", "thermal",
            "thermal_temperature", "cpu_idle", "unknown_one",
            "sched_contrib_scale_f", "sched_wakeup", "uword_e"]


def model_trace(registry, scope, requested):
    """name -> (word, identity) or None if the words clash"""
    known = {}
    for table in ("thermal", "sched", "all"):
        known.update(registry[table])
    defs = {}
    for req in requested:
        for name, (word, ident) in known.items():
            if req == word or req + ":" == word or req == name:
                defs[name] = (word, ident)
                break
        else:
            defs[req] = (req + ":", None)
    tables = {"thermal": ["thermal", "all"], "sched": ["sched", "all"],
              "custom": []}.get(scope, ["thermal", "sched", "all"])
    for table in tables:
        defs.update(registry[table])
    words = [w for w, _ in defs.values()]
    for i, a in enumerate(words):
        for b in words[i + 1:]:
            if a in b or b in a:
                return None
    return defs


def check(case):
    restore = tr.pristine()
    registry = dict(
        thermal={n: (w, None) for n, w in THERMAL.items()},
        sched={n: (w, None) for n, w in SCHED.items()},
        all={n: (w, None) for n, w in DYNAMIC.items()})
    lines = []
    for i, ev in enumerate(LINE_EVENTS):
        lines.append(dict(k="ev", comm="sh", pid=i, cpu=0, ev=ev,
                          ts=["us", i + 1, "000000"], data="a={}".format(i)))
    text = gen.render(lines)
    classes = []
    labels = set()
    try:
        for num, oper in enumerate(case["ops"]):
            if oper["op"] == "register":
                cname, name, words = USER[oper["user"] % len(USER)]
                word = words[oper["word"] % len(words)]
                scope = oper["scope"]
                if oper["by_class"]:
                    from trappy.base import Base
                    cls = type(cname, (Base,), dict(unique_word=word))
                    if oper["named"]:
                        cls.name = name
                    else:
                        name = word.split(":")[0]
                    trappy.register_ftrace_parser(cls, scope)
                else:
                    kwargs = dict(scope=scope) if scope != "all" else {}
                    if oper["pivot"]:
                        kwargs["pivot"] = "a"
                    cls = trappy.register_dynamic_ftrace(cname, word, **kwargs)
                    expect(getattr(cls, "pivot", None) ==
                           ("a" if oper["pivot"] else None), "pivot is lost")
                expect(cls.name == name, "{} is called {}", cname, cls.name)
                classes.append(cls)
                registry[scope][name] = (word, cls)
            elif oper["op"] == "again":
                # The same class in another scope too
                if classes:
                    cls = classes[oper["which"] % len(classes)]
                    trappy.register_ftrace_parser(cls, oper["scope"])
                    registry[oper["scope"]][cls.name] = (cls.unique_word, cls)
            elif oper["op"] == "unregister":
                if classes:
                    cls = classes.pop(oper["which"] % len(classes))
                    # public for both kinds of registration
                    trappy.unregister_dynamic_ftrace(cls)
                    for table in registry.values():
                        for name in [n for n, (_, c) in table.items()
                                     if c is cls]:
                            del table[name]
            else:
                want = model_trace(registry, oper["scope"], oper["events"])
                kwargs = dict(scope=oper["scope"])
                if oper["events"]:
                    kwargs["events"] = list(oper["events"])
                    if oper["as_text"] and len(oper["events"]) == 1:
                        kwargs["events"] = oper["events"][0]
                what = "operation {}, {}".format(num, oper)
                try:
                    trace = tr.parse(text, normalize_time=False, **kwargs)
                except RuntimeError as exc:
                    expect(want is None, "{}: refused: {}", what, exc)
                    expect("substring" in str(exc), "{}: {}", what, exc)
                    labels.add("refused")
                    continue
                expect(want is not None, "{}: clashing words accepted", what)
                expect(set(trace.class_definitions) == set(want),
                       "{}: events {} unexpected, {} missing", what,
                       sorted(set(trace.class_definitions) - set(want)),
                       sorted(set(want) - set(trace.class_definitions)))
                for name, (word, ident) in want.items():
                    event = getattr(trace, name)
                    expect(event.unique_word == word, "{}: {} looks for {} "
                           "instead of {}", what, name, event.unique_word, word)
                    if ident is not None:
                        expect(type(event) is ident,
                               "{}: {} is not the registered class", what, name)
                        labels.add("registered")
                    dfr = event.data_frame
                    rows = [l["pid"] for l in lines if word in l["ev"] + ":"]
                    got = list(dfr["__pid"]) if len(dfr) else []
                    expect(got == rows, "{}: {} has rows {} instead of {}",
                           what, name, got, rows)
                for name in list(THERMAL) + list(SCHED) + list(DYNAMIC) + \
                        [u[1] for u in USER]:
                    if name in want:
                        continue
                    try:
                        getattr(trace, name)
                    except AttributeError:
                        continue
                    expect(False, "{}: trace has {}", what, name)
                if oper["events"] and oper["scope"] != "all":
                    labels.add("requested")
    finally:
        restore()
    if not labels & {"registered", "requested"}:
        labels.add("trivial")
    return labels


def ops():
    register = st.fixed_dictionaries(dict(
        op=st.just("register"), user=st.integers(0, 4), word=st.integers(0, 3),
        scope=st.sampled_from(["all", "all", "sched", "thermal"]),
        by_class=st.booleans(), named=st.booleans(), pivot=st.booleans()))
    opens = st.fixed_dictionaries(dict(
        op=st.just("open"),
        scope=st.sampled_from(["all", "sched", "thermal", "custom", "custom"]),
        events=st.lists(st.sampled_from(REQUESTS), max_size=4, unique=True),
        as_text=st.booleans()))
    unregister = st.fixed_dictionaries(dict(
        op=st.just("unregister"), which=st.integers(0, 5)))
    again = st.fixed_dictionaries(dict(
        op=st.just("again"), which=st.integers(0, 5),
        scope=st.sampled_from(["all", "sched", "thermal"])))
    return st.one_of(register, register, opens, opens, opens, unregister,
                     unregister, again)


def cases():
    return st.fixed_dictionaries(dict(
        ops=st.tuples(st.lists(ops(), min_size=1, max_size=8),
                      ops().filter(lambda o: o["op"] == "open")).map(
            lambda x: x[0] + [x[1]])))


SUBS = [Sub("histories", cases, check, quick=1000, shards=8)]
