"""C05: crashes and I/O errors while the cache is used"""
import errno
import json
import os
import resource
import shutil
import signal
import sys
import traceback

from hypothesis import strategies as st

import gen
import tr
from checks import c04
from harness import Sub, Skip, HarnessError, expect, fresh_dir

LEVEL = "fault_enumeration"
RULE = ("A generated trace, up to two earlier opens, one open that is "
        "interrupted and up to two later opens. The interrupted open runs in a "
        "forked child once for every file operation it does on anything but "
        "the trace itself (killed there, that operation failing, or it and all later "
        "ones failing) and for a range of file size limits (killed or failing in the middle of "
        "a write); truncations cut every cache file at many lengths. "
        "evaluations counts histories, the class 'injections' the faults. "
        "Non-trivial: at least three faults were injected.")
ASSUMPTIONS = ["a killed process is modelled by exiting at the operation; "
               "reordering of writes by the file system is not modelled",
               "reading the trace file itself does not fail"]

AUDITED = {"open", "os.mkdir", "os.remove", "os.rmdir", "os.rename",
           "os.listdir", "os.scandir", "os.truncate", "os.link", "os.symlink",
           "os.chmod"}


def in_child(func):
    """Run func() in a forked child; (status, result of func)"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(rfd)
            signal.alarm(60)
            try:
                res = ("ok", func())
            except BaseException as exc:
                res = ("raised", "{}: {}\n{}".format(
                    type(exc).__name__, exc,
                    "\n".join(traceback.format_exc().splitlines()[-8:])))
            with os.fdopen(wfd, "w") as fout:
                json.dump(res, fout)
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    with os.fdopen(rfd) as fin:
        data = fin.read()
    _, status = os.waitpid(pid, 0)
    return status, (json.loads(data) if data else None)


def hook(where, trace_path, action):
    """Call action() at each file operation under where"""
    def audit(event, args):
        if event not in AUDITED:
            return
        path = args[0] if args else None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not isinstance(path, str):
            return
        # rmtree works relative to a directory descriptor
        absolute = os.path.isabs(path)
        if absolute and not path.startswith(where):
            return
        if not absolute and event not in ("os.remove", "os.rmdir", "open"):
            return
        if os.path.abspath(path) == trace_path:
            return
        action(event, path)
    sys.addaudithook(audit)


def tree(path):
    """Contents of all the files under path"""
    out = {}
    for base, _dirs, files in os.walk(path):
        for name in files:
            full = os.path.join(base, name)
            with open(full, "rb") as fin:
                out[os.path.relpath(full, path)] = fin.read()
    return out


def put_back(saved, where):
    shutil.rmtree(where)
    shutil.copytree(saved, where)


def later_opens(path, case, want, what):
    for num, oper in enumerate(case["later"]):
        got = tr.trace_snapshot(c04.open_trace(path, oper, True))
        res = tr.diff(got, want[num])
        expect(res is None, "{}: open {} after it differs from one without "
               "cache at {}", what, num + 1, res)


def check(case):
    where = fresh_dir("trace")
    saved = os.path.join(os.path.dirname(where), "saved")
    shutil.rmtree(saved, ignore_errors=True)
    path = os.path.join(where, "t.txt")
    text = gen.render(case["lines"])
    gen.write(path, text)
    gen.write(os.path.join(where, "other.txt"), "keep me\n")
    for num, oper in enumerate(case["history"]):
        c04.open_trace(path, oper, True)
    if case["stale"]:
        text = gen.render(case["lines"][:-1] or case["lines"])
        gen.write(path, text)
    shutil.copytree(where, saved)
    want = tr.trace_snapshot(c04.open_trace(path, case["open"], False))
    want_later = [tr.trace_snapshot(c04.open_trace(path, oper, False))
                  for oper in case["later"]]

    mode = case["mode"]
    count = [0]

    def counted():
        names = []
        hook(where, path, lambda event, p: names.append(
            [event, os.path.basename(p)]))
        snap = tr.trace_snapshot(c04.open_trace(path, case["open"], True))
        return [names[:], snap]

    status, res = in_child(counted)
    if res is None:
        raise HarnessError("counting run ended with {}".format(status))
    expect(res[0] == "ok", "open without a fault: {}", res[1])
    operations, snap = res[1]
    delta = tr.diff(snap, want)
    expect(delta is None, "open without a fault: {}", delta)
    sizes = sorted(set(len(v) for k, v in tree(where).items()
                       if ".cache" in k))

    if mode in ("limit_kill", "limit_fail"):
        points = sorted(set([0, 1] + [x for s in sizes for x in (
            s // 4, s // 2, s - 2, s - 1) if x >= 0]))[:24]
    else:
        points = list(range(len(operations)))
    injections = 0
    for point in points:
        put_back(saved, where)

        def faulty():
            if mode.startswith("limit"):
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if
                              mode == "limit_kill" else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (point, point))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            else:
                seen = [0]

                def action(_event, _path):
                    num = seen[0]
                    seen[0] += 1
                    if mode == "kill" and num == point:
                        os._exit(77)
                    if (mode == "fail_once" and num == point) or \
                            (mode == "fail_from" and num >= point):
                        raise OSError(case["errno"],
                                      os.strerror(case["errno"]), _path)
                hook(where, path, action)
            return tr.trace_snapshot(
                c04.open_trace(path, case["open"], True))

        what = "{} at {}".format(mode, point if mode.startswith("limit")
                                 else operations[point])
        status, res = in_child(faulty)
        if res is None:
            expect(mode in ("kill", "limit_kill"),
                   "{}: the process died ({})", what, status)
            expect((os.WIFSIGNALED(status) and
                    os.WTERMSIG(status) == signal.SIGXFSZ) or
                   (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77),
                   "{}: the process died ({})", what, status)
        else:
            # the operation may not have been reached, or only matter later
            expect(res[0] == "ok", "{}: the open raised {}", what, res[1])
            delta = tr.diff(res[1], want)
            expect(delta is None, "{}: wrong data at {}", what, delta)
        injections += 1
        files = tree(where)
        expect(files.get("t.txt") == text.encode("utf-8"),
               "{}: the trace file changed", what)
        expect(files.get("other.txt") == b"keep me\n",
               "{}: another file changed", what)
        extra = [k for k in files if k not in ("t.txt", "other.txt") and
                 not k.startswith(".t.txt.cache" + os.sep)]
        expect(not extra, "{}: left {} behind", what, extra)
        later_opens(path, case, want_later, what)
    labels = {mode: 1, "injections": injections}
    if injections < 3:
        labels["trivial"] = 1
    if case["stale"]:
        labels["stale cache"] = 1
    return labels


def check_cuts(case):
    """Every cache file cut at many lengths"""
    where = fresh_dir("trace")
    path = os.path.join(where, "t.txt")
    gen.write(path, gen.render(case["lines"]))
    c04.open_trace(path, case["open"], True)
    want = tr.trace_snapshot(c04.open_trace(path, case["open"], False))
    cache = os.path.join(where, ".t.txt.cache")
    before = tree(cache)
    done = 0
    for name in sorted(before):
        data = before[name]
        ends = [i + 1 for i, c in enumerate(data) if c == 10]
        cuts = set([0, 1, len(data) - 1] + ends)
        cuts.update(int(len(data) * f) for f in case["at"])
        for cut in sorted(c for c in cuts if 0 <= c < len(data)):
            for other in before:
                with open(os.path.join(cache, other), "wb") as fout:
                    fout.write(before[other])
            with open(os.path.join(cache, name), "wb") as fout:
                fout.write(data[:cut])
            got = tr.trace_snapshot(c04.open_trace(path, case["open"], True))
            res = tr.diff(got, want)
            expect(res is None, "{} cut to {} of {} bytes: {}", name, cut,
                   len(data), res)
            done += 1
    labels = {"injections": done}
    if done < 3:
        labels["trivial"] = 1
    return labels


@st.composite
def small_traces(draw):
    return draw(gen.kv_traces(max_lines=6, rich=False,
                              vals=c04.cache_values(), events=c04.EVENTS))


def plain_open(events):
    return st.fixed_dictionaries(dict(
        op=st.just("open"), scope=st.just("custom"),
        events=st.lists(st.sampled_from(events), min_size=1, max_size=3,
                        unique=True),
        cls=st.just("FTrace"), window=st.none(), abs_window=st.none(),
        normalize=st.booleans()))


def cases():
    opens = plain_open(c04.EVENTS)
    return st.fixed_dictionaries(dict(
        lines=small_traces(), history=st.lists(opens, max_size=2),
        open=opens, later=st.lists(opens, min_size=1, max_size=2),
        stale=st.booleans(),
        mode=st.sampled_from(["kill", "kill", "fail_once", "fail_from",
                              "limit_kill", "limit_fail"]),
        errno=st.sampled_from([errno.EIO, errno.ENOSPC, errno.EACCES,
                               errno.EROFS])))


def cut_cases():
    return st.fixed_dictionaries(dict(
        lines=small_traces(), open=plain_open(c04.EVENTS),
        at=st.lists(st.floats(0, 1).map(lambda f: round(f, 4)), max_size=6)))


SUBS = [
    Sub("faults", cases, check, quick=320, shards=7, cpu_limit=300,
        rule="one fault at every operation or size limit of one open"),
    Sub("truncations", cut_cases, check_cuts, quick=50, shards=1,
        cpu_limit=300, rule="one cache file shortened, then opened"),
]
