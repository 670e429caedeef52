"""C30: several opens of a trace at the same time, and changes of the trace"""
import json
import os
import select
import shutil
import signal
import sys
import traceback

from hypothesis import strategies as st

import gen
import tr
from checks import c04
from harness import HarnessError, Sub, expect, fresh_dir

LEVEL = "exploration"
RULE = ("Two or three processes that open the same trace with the cache, and "
        "changes of the trace file, are interleaved at every file operation "
        "below the trace's directory, as a generated schedule says; some of "
        "the processes are killed on their way. Opens that do not overlap a "
        "change, and later ones, are compared with opens without cache. "
        "Non-trivial: two opens overlapped, or an open and a change.")
ASSUMPTIONS = ["file operations are atomic: processes only switch before one",
               "changes of the trace file are atomic",
               "the trace does not change and change back during an open"]


class Opener(object):
    """A process that stops before each of its file operations"""

    def __init__(self, where, path, oper):
        self.done = False
        self.result = None
        self.steps = 0
        self.name = None
        go_r, self.go = os.pipe()
        self.report, report_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 99
            try:
                os.close(self.go)
                os.close(self.report)
                signal.alarm(120)
                self.child(where, path, oper, go_r, report_w)
                code = 0
            finally:
                os._exit(code)
        os.close(go_r)
        os.close(report_w)
        self.text = b""

    @staticmethod
    def child(where, path, oper, go_r, report_w):
        active = [True]

        def audit(event, args):
            if not active[0] or not (event == "open" or
                                     event.startswith(("os.", "shutil."))):
                return
            name = args[0] if args else None
            if isinstance(name, bytes):
                name = os.fsdecode(name)
            if not isinstance(name, str) or (os.path.isabs(name) and
                                             not name.startswith(where)):
                return
            if not os.path.isabs(name) and event not in (
                    "os.remove", "os.rmdir"):
                return
            os.write(report_w, "{} {}\n".format(
                event, os.path.basename(name)).encode("utf-8", "replace"))
            if not os.read(go_r, 1):
                os._exit(98)

        os.write(report_w, b"start\n")
        os.read(go_r, 1)
        sys.addaudithook(audit)
        try:
            res = ["ok", tr.trace_snapshot(c04.open_trace(path, oper, True))]
        except BaseException as exc:
            res = ["raised", "{}: {}\n{}".format(
                type(exc).__name__, exc,
                "\n".join(traceback.format_exc().splitlines()[-8:]))]
        active[0] = False
        data = json.dumps(res).encode() + b"\n"
        while data:
            data = data[os.write(report_w, data):]

    def line(self):
        while b"\n" not in self.text:
            if not select.select([self.report], [], [], 100)[0]:
                self.kill()
                raise HarnessError("an open does not go on")
            part = os.read(self.report, 1 << 16)
            if not part:
                raise HarnessError("an open has ended without a result")
            self.text += part
        line, self.text = self.text.split(b"\n", 1)
        return line

    def advance(self):
        """Let it do what it is about to do and stop before the next one"""
        if self.name is not None:
            os.write(self.go, b".")
        line = self.line()
        if line.startswith(b"["):
            self.result = json.loads(line.decode())
            self.finish()
        else:
            self.name = line.decode()
            self.steps += 1

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        self.finish()

    def finish(self):
        self.done = True
        os.close(self.go)
        os.close(self.report)
        os.waitpid(self.pid, 0)


def check(case):
    where = fresh_dir("trace")
    base = os.path.join(os.path.dirname(where), "plain")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    path = os.path.join(where, "t.txt")
    texts = [gen.render(lines) for lines in case["traces"]]
    want = {}

    def plain(text, oper):
        key = (text, json.dumps(oper, sort_keys=True))
        if key not in want:
            other = os.path.join(base, "t.txt")
            gen.write(other, texts[text])
            want[key] = tr.trace_snapshot(c04.open_trace(other, oper, False))
        return want[key]

    for i in range(len(texts)):
        for oper in case["opens"] + case["before"] + case["later"]:
            plain(i, oper)
    gen.write(path, texts[0])
    current = 0
    for oper in case["before"]:
        c04.open_trace(path, oper, True)
    changes = list(case["changes"])
    procs = {}              # number -> Opener
    waiting = list(range(len(case["opens"])))
    began, clean = {}, {}
    killed = set()
    labels = set()
    trail = []
    try:
        todo = [who for who, times in case["schedule"] for _ in range(times)]
        rest = case["order"] + ["change"]
        while todo or rest:
            which = todo.pop(0) if todo else rest[0]
            running = sorted(n for n, p in procs.items() if not p.done)
            what = ("change" if which == "change" else
                    "go" if which in procs else "begin")
            if not changes if what == "change" else (
                    procs[which].done if which in procs else
                    which not in waiting):
                if not todo and rest:
                    rest.pop(0)
                continue
            if what == "begin":
                waiting.remove(which)
                if running:
                    labels.add("opens overlap")
                procs[which] = Opener(where, path, case["opens"][which])
                procs[which].advance()
                began[which] = current
                clean[which] = True
            elif what == "change":
                change = changes.pop(0)
                current += 1
                if change["how"] == "replace":
                    gen.write(path + ".new", texts[current])
                    os.rename(path + ".new", path)
                else:
                    gen.write(path, texts[current])
                for n in running:
                    clean[n] = False
                    labels.add("change during an open")
                trail.append("trace is {}".format(current))
            else:
                proc = procs[which]
                trail.append("{}: {}".format(which, proc.name))
                if case["kill"] == [which, proc.steps]:
                    proc.kill()
                    killed.add(which)
                    labels.add("killed")
                    continue
                proc.advance()
                if proc.done:
                    status, res = proc.result
                    if not clean[which]:
                        continue
                    text = "open {} of {}".format(which, ", ".join(trail[-60:]))
                    expect(status == "ok", "{} raised {}", text, res)
                    diff = tr.diff(res, plain(began[which],
                                              case["opens"][which]))
                    expect(diff is None, "{} differs from one without cache "
                           "at {}", text, diff)
    finally:
        for proc in procs.values():
            if not proc.done:
                proc.kill()
    with open(path, encoding="utf-8") as fin:
        expect(fin.read() == texts[current], "the trace has changed")
    for num, oper in enumerate(case["later"]):
        got = tr.trace_snapshot(c04.open_trace(path, oper, True))
        diff = tr.diff(got, plain(current, oper))
        expect(diff is None, "open {} after {} differs from one without cache "
               "at {}", num + 1, ", ".join(trail[-80:]), diff)
    if not labels - {"killed"}:
        labels.add("trivial")
    return labels


@st.composite
def cases(draw):
    trace = gen.kv_traces(max_lines=5, rich=False, vals=c04.cache_values(),
                          events=c04.EVENTS)
    oper = st.fixed_dictionaries(dict(
        op=st.just("open"), scope=st.just("custom"),
        events=st.lists(st.sampled_from(c04.EVENTS), min_size=1, max_size=2,
                        unique=True),
        cls=st.sampled_from(["FTrace"] * 5 + ["SysTrace"]),
        window=st.none(), abs_window=st.none(), normalize=st.booleans()))
    traces = draw(st.lists(trace, min_size=1, max_size=3, unique_by=str))
    count = draw(st.sampled_from([1, 2, 2, 2, 3]))
    change = st.fixed_dictionaries(dict(
        how=st.sampled_from(["write", "replace"])))
    # Runs of one process, and switches. The last ones run to their ends.
    schedule = [(draw(st.integers(0, count - 1)), draw(st.integers(1, 14)))
                for _ in range(draw(st.integers(2 if count > 1 else 1, 8)))]
    if len(traces) > 1 and count > 1 and draw(st.booleans()):
        # The trace changes under the first one and the second one has time to
        # find what the first one did
        schedule[:0] = [(0, draw(st.integers(3, 9))), ("change", 1),
                        (1, draw(st.integers(4, 16)))]
    for _ in traces[1:]:
        schedule.insert(draw(st.integers(1, len(schedule))), ("change", 1))
    return dict(
        traces=traces, opens=[draw(oper) for _ in range(count)],
        before=draw(st.lists(oper, max_size=1)),
        later=draw(st.lists(oper, min_size=1, max_size=3)),
        changes=[draw(change) for _ in traces[1:]],
        schedule=schedule, order=draw(st.permutations(range(count))),
        kill=[draw(st.integers(0, count - 1)), draw(st.integers(1, 25))]
        if draw(st.integers(0, 3)) == 0 else None)


SUBS = [Sub("schedules", cases, check, quick=1500, shards=7, cpu_limit=200)]
