"""C27: damaged traces"""
import os
import re

from hypothesis import strategies as st

import gen
import harness
import tr
import trappy
from trappy.exception import TrappyParseError
from harness import Sub, expect

LEVEL = "exploration"
RULE = ("Well-formed traces of several events are damaged by cutting them, "
        "overwriting, removing and inserting bytes, joining lines and inserting "
        "blocks of bytes; the rows of the lines that are still whole are "
        "compared with their fields, or the error with the lines that are not.  "
        "Non-trivial: a whole line comes after a damaged one, or it is refused.")
ASSUMPTIONS = ["a damaged line may give at most one row, of whatever it "
               "still says", "no garbage looks like the end of a systrace",
               "rows get later times than those before, also after a damaged "
               "time"]

EVENTS = {
    # name -> (class attribute, unique word)
    "evalpha": ("evalpha", "evalpha:"),
    "sched_switch": ("sched_switch", "sched_switch:"),
    "cpu_frequency": ("cpu_frequency", "cpu_frequency:"),
    "cpu_capacity": ("cpu_capacity", "cpu_capacity:"),
    "sys_enter": ("sys_enter", "sys_enter"),
    "sys_exit": ("sys_exit", "sys_exit"),
    "tracing_mark_write": ("tracing_mark_write", "tracing_mark_write:"),
    "sched_load_avg_sg": ("sched_load_avg_sg",
                          "sched_load_avg_sg:"),
    "thermal_power_cpu_get_power": ("cpu_in_power",
                                    "thermal_power_cpu_get_power"),
    "thermal_temperature": ("thermal", "thermal_temperature:"),
}

# Events whose data are fields and nothing else
FIELDS = ["evalpha", "sched_switch", "cpu_frequency", "cpu_capacity",
          "sched_load_avg_sg", "thermal_temperature"]

SYS_HEAD = ["<!DOCTYPE html>", "<title>Android System Trace</title>",
            '  <script class="trace-data" type="application/text">',
            "# tracer: nop", "#"]
SYS_TAIL = ["  </script>", "evalpha: a=1",
            "  sh-1 [000] 1.000000: evalpha: a=1"]


def data_of(event, nums, word):
    """Text of an event and its fields"""
    a, b, c = nums
    if event == "evalpha":
        return "a={} b={} s={}".format(a, hex(b), word), dict(
            a=a, b=b, s=gen.value_of(word))
    if event == "sched_switch":
        return ("prev_comm={} prev_pid={} prev_prio=120 prev_state={} ==> "
                "next_comm=n next_pid={} next_prio=1".format(word, a, b, c),
                dict(prev_comm=gen.value_of(word), prev_pid=a, prev_prio=120,
                     prev_state=b, next_comm="n", next_pid=c, next_prio=1))
    if event == "cpu_frequency":
        return "state={} cpu_id={}".format(a, b), dict(frequency=a, cpu=b)
    if event == "cpu_capacity":
        return "cpu={} state={}".format(a, b), dict(cpu=a, capacity=b)
    if event == "sys_enter":
        return "NR {} ({:x}, {:x}, 0, 1, 2, 3)".format(a, b, c), dict(
            nr=a, arg0=b, arg1=c, arg2=0, arg3=1, arg4=2, arg5=3)
    if event == "sys_exit":
        return "NR {} = {}".format(a, -b), dict(nr=a, ret=-b)
    if event == "tracing_mark_write":
        return "mark {} {}".format(word, a), dict(
            string="mark {} {}".format(word, a))
    if event == "sched_load_avg_sg":
        mask = "{:x}".format(1 + a * 7919) if c % 2 else str(a)
        return "cpus={} load={}".format(mask, b), dict(
            cpus=str(gen.value_of(mask)).rjust(8, "0"), load=b)
    if event == "thermal_power_cpu_get_power":
        return "cpus=000000f0 freq={} load={{{}}} dynamic_power={}".format(
            a, " ".join(str(n) for n in (b, c)), a + c), dict(
                cpus="000000f0", freq=a, load0=b, load1=c,
                dynamic_power=a + c)
    return "thermal_zone={} id={} temp_prev={} temp={}".format(
        word, a, b, c), dict(thermal_zone=gen.value_of(word), id=a,
                             temp_prev=b, temp=c)


class Line(object):
    def __init__(self, text, event=None, row=None, stamp=None):
        self.raw = text.encode("utf-8")
        self.event, self.row, self.stamp = event, row, stamp
        self.whole = True
        # Can't be read whatever one makes of it
        self.broken = False

    def damage(self, raw):
        if raw != self.raw:
            self.raw = raw
            self.whole = self.broken = False
            self.event = self.row = self.stamp = None


def build(case):
    lines = []
    for line in case["lines"]:
        data, fields = data_of(line["ev"], line["nums"], line["word"])
        rec = dict(line["head"], ev=line["ev"], ts=line["ts"], data=data)
        row = {"__comm": rec["comm"], "__pid": rec["pid"],
               "__cpu": rec["cpu"]}
        if line["ev"] == "tracing_mark_write" and case["sys"] and \
                line["word"] == "s":
            rec["data"] = "B|{}|f".format(line["nums"][0])
            row.update(event="B", pid=line["nums"][0], func="f", data=None)
        else:
            row.update(fields)
        lines.append(Line(gen.render_event(rec), line["ev"], row,
                          gen.ts_value(line["ts"])))
    for op in case["ops"]:
        i = op["at"] % len(lines)
        line = lines[i]
        pos = op["pos"] % (len(line.raw) + 1)
        junk = op["junk"].encode("latin-1")
        kind = op["op"]
        if kind == "overwrite":
            line.damage(line.raw[:pos] + junk + line.raw[pos + len(junk):])
        elif kind == "insert":
            line.damage(line.raw[:pos] + junk + line.raw[pos:])
        elif kind == "remove":
            line.damage(line.raw[:pos] + line.raw[pos + op["n"]:])
        elif kind == "shorten":
            line.damage(line.raw[:pos])
        elif kind == "head lost":
            line.damage(line.raw[pos:])
        elif kind == "field lost":
            parts = line.raw.split(b" ")
            n = op["n"] % len(parts)
            line.damage(b" ".join(parts[:n] + parts[n + 1:]))
        elif kind == "failed":
            head, sep, _ = line.raw.partition(b": ")
            line.damage(head + sep + (line.event or "evalpha").encode() +
                        b": [FAILED TO PARSE] " + junk)
        elif kind == "leading":
            # Text in front of the fields
            if line.event in FIELDS:
                before = line.event
                word = EVENTS[before][1].encode()
                head, sep, tail = line.raw.partition(word)
                line.damage(head + sep + b" " + op["word"].encode() + b" " +
                            tail.lstrip(b":").lstrip(b" "))
                line.broken = True
        elif kind == "join" and i + 1 < len(lines):
            other = lines.pop(i + 1)
            line.damage(line.raw[:pos] + other.raw[op["n"]:] + b" ")
        elif kind == "line":
            new = Line("")
            new.damage(junk + b"?")
            lines.insert(i + op["n"] % 2, new)
        elif kind == "copy":
            new = Line("")
            new.damage(line.raw[:pos] + b" ")
            lines.insert(i + op["n"] % 2, new)
    return lines


def physical(raw):
    """How many lines a piece followed by a newline is"""
    raw = raw[:-1] if raw.endswith(b"\r") else raw
    return 1 + len(re.findall(b"\r\n|\r|\n", raw))


def seconds(text):
    return float(text) if "." in text else float(text) / 1e9


def later(lines):
    """The latest time a damaged line may be read as"""
    out = 0
    for line in lines:
        if not line.whole:
            text = line.raw.decode("utf-8", "backslashreplace")
            out = max([out] + [seconds(t) for t in re.findall(
                r"([0-9]+(?:\.[0-9]+)?):", text)])
    return out


HEADER = re.compile(r"-\d+.*\[\d+\].*\s[0-9.]+: ")


def check_error(exc, lines):
    text = str(exc)
    expect(isinstance(exc, (TrappyParseError, ValueError)) and
           not isinstance(exc, UnicodeError),
           "a damaged trace is refused with {!r}", exc)
    bad = [line.raw.decode("utf-8", "backslashreplace") for line in lines
           if not line.whole]
    match = re.match(r"TRAPpy's parser for '(.*)' failed to parse the line:"
                     r"\n(.*)", text, re.S) or \
        re.match(r"failed to parse line (.*): ()", text, re.S)
    expect(match, "the error does not say where it is: {!r}", text)
    word, data = match.groups()
    if not data:
        # Events that are not made of fields
        word, data = "sys_e", word
    mine = [line for line in bad if word in line and HEADER.search(line)]
    expect(mine, "the error is about {!r}, the damaged lines are {}", word,
           bad)
    # Arrays are taken apart before
    if not any("={" in line or "==>" in line for line in mine):
        expect(any(data in line.replace("\t", " ") or data in line
                   for line in mine),
               "the error names {!r}, which is none of {}", data, mine)


def same_row(got, want):
    """A row has all the fields of its line and no others"""
    for col, val in got.items():
        if col == "__line":
            continue
        if col in want or not re.match(r"load\d+$", col):
            if not gen.same_value(val, want.get(col)):
                return "{} is {!r} instead of {!r}".format(
                    col, val, want.get(col))
        elif not gen.same_value(val, 0) and not gen.same_value(val, None):
            # Arrays get the length of the longest
            return "{} is {!r}".format(col, val)
    for col in want:
        if col not in got and want[col] is not None:
            return "{} is missing".format(col)
    return None


def check_rows(trace, lines, names):
    """Rows of whole lines are as they should be, at most one row of others"""
    starts, pos = [], 0
    for line in lines:
        starts.append(pos)
        pos += physical(line.raw)
    whole = [i for i, line in enumerate(lines) if line.whole]
    frames = {ev: tr.rows(tr.frame(trace, EVENTS[ev][0])) for ev in names}
    owner = {}
    for i, start in enumerate(starts):
        for n in range(physical(lines[i].raw)):
            owner[start + n] = i
    # The first line of the trace is the first one with a header
    bases = [n for n in range(pos + 1) if n <= (starts[whole[0]] if whole else
                                            pos)]
    problems = []
    for base in bases:
        problem = None
        for ev in names:
            seen = {}
            for t, row in frames[ev]:
                number = row["__line"] + base
                if number not in owner:
                    problem = "{}: a row of line {}, which is not there".format(
                        ev, number)
                    break
                if number in seen:
                    problem = "{}: two rows of line {}".format(ev, number)
                    break
                seen[number] = (t, row)
            if problem:
                break
            for number, (t, row) in seen.items():
                line = lines[owner[number]]
                if not line.whole:
                    continue
                if line.event != ev:
                    problem = "{}: a row of the line {!r}".format(ev, line.raw)
                    break
                problem = same_row(row, line.row)
                if problem:
                    problem = "{}, line {!r}: {}".format(ev, line.raw, problem)
                    break
            for i in whole:
                if lines[i].event == ev and starts[i] not in seen and \
                        not problem:
                    problem = "{}: no row for {!r}".format(ev, lines[i].raw)
            if problem:
                break
            order = [t for _, (t, _) in sorted(seen.items())]
            expect(order == sorted(order) and len(set(order)) == len(order),
                   "{}: the times are {}", ev, order)
            expect([n for n in seen] == sorted(seen),
                   "{}: the rows are out of order: {}", ev, list(seen))
            for i in whole:
                if lines[i].event != ev:
                    continue
                t = seen[starts[i]][0]
                late = later(lines[:i])
                if late < lines[i].stamp:
                    expect(t == lines[i].stamp, "{}: time {} of {!r}", ev, t,
                           lines[i].raw)
                else:
                    expect(t >= lines[i].stamp, "{}: time {} of {!r}", ev, t,
                           lines[i].raw)
        if not problem:
            return
        problems.append(problem)
    expect(False, "{}", "; or ".join(problems[-3:]))


def content(lines, case):
    body = b"\n".join(line.raw for line in lines)
    if lines:
        body += b"\n"
    if case["sys"]:
        return "\n".join(SYS_HEAD + [""]).encode() + body + \
            "\n".join(SYS_TAIL + [""]).encode()
    return b"version = 6\ncpus=4\n" + body


def names_of(case):
    return sorted(EVENTS) if case["scope"] == "all" else case["events"]


def open_trace(case, raw, cache=False):
    path = os.path.join(harness.fresh_dir("trace"), "trace.txt")
    with open(path, "wb") as fout:
        fout.write(raw)
    cls = trappy.SysTrace if case["sys"] else trappy.FTrace
    kwargs = dict(scope=case["scope"], normalize_time=False)
    if case["scope"] == "all":
        kwargs["events"] = ["evalpha"]
    else:
        kwargs["events"] = list(case["events"])
    try:
        out = tr.parse(None, cls=cls, path=path, cache=cache, **kwargs), None
    except Exception as exc:
        out = None, exc
    with open(path, "rb") as fin:
        expect(fin.read() == raw, "the trace file has changed")
    left = sorted(os.listdir(os.path.dirname(path)))
    allowed = ["trace.txt"] if not cache or out[1] else \
        [".trace.txt.cache", "trace.txt"]
    expect(left == allowed, "the files are {} instead of {}", left, allowed)
    if cache:
        # Reading it again makes no difference
        try:
            again = tr.parse(None, cls=cls, path=path, cache=True, **kwargs)
        except Exception as exc:
            expect(out[1] is not None and str(exc) == str(out[1]),
                   "opening it again fails with {!r} after {!r}", exc, out[1])
        else:
            expect(out[1] is None, "opening it again works after {!r}",
                   out[1])
            why = tr.diff(tr.trace_snapshot(again), tr.trace_snapshot(out[0]))
            expect(why is None, "opening it again: {}", why)
    return out


def check_damage(case):
    lines = build(case)
    labels = {op["op"] for op in case["ops"]}
    raw = content(lines, case)
    damaged = [i for i, line in enumerate(lines) if not line.whole]
    trace, exc = open_trace(case, raw, case["cache"])
    if exc is not None:
        check_error(exc, lines)
        return labels | {"refused"}
    for line in lines:
        expect(not line.broken, "{!r} is accepted", line.raw)
    check_rows(trace, lines, names_of(case))
    if not any(line.whole for line in lines[damaged[0] if damaged else
                                            len(lines):]):
        labels.add("trivial")
    if case["sys"]:
        labels.add("systrace")
    return labels


def check_cut(case):
    """A trace that ends anywhere"""
    lines = build(dict(case, ops=[]))
    raw = content(lines, case)
    pos = case["cut"] % (len(raw) + 1)
    if case["late"]:
        pos = max(0, len(raw) - case["cut"] % 120)
    start = len(raw.split(lines[0].raw)[0])
    trace, exc = open_trace(case, raw[:pos], case["cache"])
    left = []
    for line in lines:
        end = start + len(line.raw)
        if end > pos:
            if pos > start:
                line.damage(line.raw[:pos - start])
                left.append(line)
            break
        left.append(line)
        start = end + 1
    if exc is not None:
        check_error(exc, left)
        return {"refused"}
    check_rows(trace, left, names_of(case))
    if len(left) < 2:
        return {"trivial"}
    return {"whole" if left[-1].whole else "cut in a line"}


def words():
    return st.sampled_from(["s", "a b", "x-1", "café", "s", "word", "30",
                            "x:y", "FAILED", "TO PARSE", "[FAILED TO",
                            "failed to parse"])


@st.composite
def base_cases(draw):
    scope = draw(st.sampled_from(["all", "custom", "custom"]))
    events = draw(st.lists(st.sampled_from(sorted(EVENTS)), min_size=1,
                           max_size=4, unique=True))
    if draw(st.integers(0, 15)) == 0:
        events = ["sched_load_avg_sg"]
    n = draw(st.integers(2, 8))
    clock = draw(gen.clocks(n))
    num = st.one_of(st.integers(0, 9), st.integers(0, 10**6))
    lines = []
    for i in range(n):
        lines.append(dict(
            head=draw(gen.simple_headers()), ts=clock[i],
            ev=draw(st.sampled_from(events)), word=draw(words()),
            nums=[draw(num), draw(num), draw(num)]))
    return dict(lines=lines, scope=scope, events=events,
                sys=draw(st.integers(0, 3)) == 0, cache=draw(st.booleans()))


def garbage():
    return st.one_of(
        st.binary(min_size=1, max_size=12).map(lambda b: b.decode("latin-1")),
        st.text("0123456789=:[]{}()-. \t|,abx", min_size=1, max_size=12),
        st.sampled_from([
            "\0" * 40, "=", " = ", "{", "}", "={", "a={1 2", "}}", ": ", "\r",
            "\n", "\r\n", " evalpha: ", "[FAILED TO PARSE]", "-1 [000] ",
            "\x85", "\xe2\x80\xa8", "\xff\xfe", "\x1c", "a={b={1 2} 3}",
            "cpus=7", "version = 3", "# comment", "sched_switch: ", "NR ",
            "  x-1 [000] 5.0: evalpha: ", "  x-1 [000] 0.5: evalpha: a=1",
            "  x-1 [000] 7.0: sys_enter: NR 3", "x" * 300, "-1 (" * 60,
            " " * 300, "  x-1 [000]" + " " * 100, "0=" + "9" * 5000,
            "  -1 [999999999999999999999] 1.0: evalpha: a=1",
            "  -99999999999999999999999 [0] 1.0: evalpha: a=1"]))


@st.composite
def damages(draw):
    case = draw(base_cases())
    op = st.fixed_dictionaries(dict(
        op=st.sampled_from(["overwrite", "overwrite", "insert", "insert",
                            "remove", "shorten", "head lost", "field lost",
                            "failed", "join", "line", "line", "copy", "leading"]),
        at=st.integers(0, 9), pos=st.integers(0, 200), n=st.integers(0, 30),
        junk=garbage(), word=st.sampled_from(
            ["FAILED", "[FAILED TO", "oops", "failed to parse", "TO PARSE",
             "x y z", "(a)", "7", "-", "a:1"])))
    case["ops"] = draw(st.lists(op, min_size=1, max_size=3))
    return case


@st.composite
def cuts(draw):
    case = draw(base_cases())
    case["cut"] = draw(st.integers(0, 2000))
    case["late"] = draw(st.booleans())
    return case


def check_bytes(case):
    """Any file at all"""
    raw = b"".join(p.encode("latin-1") for p in case["parts"])
    trace, exc = open_trace(dict(case, scope="all", events=[]), raw,
                            case["cache"])
    line = Line("")
    text = raw.decode("utf-8", "backslashreplace")
    lines = []
    for part in re.split("\r\n|\r|\n", text):
        line = Line("")
        line.damage(part.encode("utf-8") + b" ")
        lines.append(line)
    if exc is not None:
        check_error(exc, lines)
        return {"refused"}
    rows = 0
    for name in trace.class_definitions:
        dfr = tr.frame(trace, name)
        rows += len(dfr)
        if not len(dfr):
            continue
        word = trace.class_definitions[name].unique_word
        mine = [l for l in lines
                if word in l.raw.decode("utf-8") and
                HEADER.search(l.raw.decode("utf-8"))]
        expect(len(dfr) <= len(mine), "{} has {} rows, {} lines may be its",
               name, len(dfr), len(mine))
        times = [float(t) for t in dfr.index]
        expect(times == sorted(times) and len(set(times)) == len(times),
               "{}: the times are {}", name, times)
    return {"rows"} if rows else {"trivial"}


@st.composite
def files(draw):
    words = sorted(w for _, w in EVENTS.values())
    head = st.builds("  {}-{} [{:03d}] {}: {} ".format, st.sampled_from(
        ["sh", "a b", "", "-"]), st.integers(0, 10), st.integers(0, 10),
        st.sampled_from(["1.5", "2.000001", "3", "1500000000", "0.0", "0"]),
        st.sampled_from(words))
    part = st.one_of(head, head, garbage(), garbage(), st.sampled_from(
        ["\n", "\n", "\n", "a=1 ", "b=c d ", "x={1 2 3} ", "version = 6\n",
         "cpus=8\n", "x={} ", "NR 1 = 2", "NR 1 (0, 1, 2, 3, 4, 5)",
         "cpu_id=1 ", "cpus=3 ", "comm=x pid=1 "]))
    parts = draw(st.lists(part, max_size=14))
    sys = draw(st.integers(0, 3)) == 0
    if sys:
        parts = ["\n".join(SYS_HEAD) + "\n"] * draw(st.integers(0, 1)) + parts
    return dict(parts=parts, sys=sys, cache=draw(st.booleans()))


SUBS = [Sub("damage", damages, check_damage, quick=1600, shards=4),
        Sub("cuts", cuts, check_cut, quick=600, shards=2),
        Sub("bytes", files, check_bytes, quick=600, shards=2)]
