"""Helpers around the public trappy API used by the checks"""
import os
import sys
import types


class Recorder(object):
    """Stand-in for IPython.display, so that nothing needs a notebook"""

    def __init__(self):
        self.shown = []

    def display(self, *args, **_kw):
        self.shown.extend(args)

    class HTML(object):
        def __init__(self, data=None, *_a, **_k):
            self.data = data


RECORDER = Recorder()


def _patch_ipython():
    import IPython.display
    IPython.display.display = RECORDER.display
    IPython.display.HTML = Recorder.HTML


_patch_ipython()

import trappy                                                  # noqa: E402
from trappy.ftrace import GenericFTrace                         # noqa: E402
import harness                                                 # noqa: E402

if not os.path.abspath(trappy.__file__).startswith(
        os.path.abspath(harness.REPO) + os.sep):
    raise harness.HarnessError("trappy is not imported from the repository")


def caching(on):
    GenericFTrace.disable_cache = not on


def parse(text, cls=None, path=None, cache=False, **kwargs):
    """Parse a trace text with a public trace class"""
    if path is None:
        path = os.path.join(harness.fresh_dir("trace"), "trace.txt")
    if text is not None:
        with open(path, "w", encoding="utf-8") as fout:
            fout.write(text)
    old = GenericFTrace.disable_cache
    GenericFTrace.disable_cache = not cache
    try:
        return (cls or trappy.FTrace)(path, **kwargs)
    finally:
        GenericFTrace.disable_cache = old


def frame(trace, name):
    return getattr(trace, name).data_frame


def rows(dfr):
    """[(time, {column: value})] of a frame"""
    cols = list(dfr.columns)
    out = []
    for i, t in enumerate(dfr.index):
        out.append((t, {c: dfr[c].iloc[i] for c in cols}))
    return out


def pristine():
    """Snapshot of the parser registry, restored by the returned function"""
    names = ["thermal_classes", "sched_classes", "dynamic_classes"]
    saved = {n: dict(getattr(GenericFTrace, n)) for n in names}

    def restore():
        for n in names:
            cur = getattr(GenericFTrace, n)
            cur.clear()
            cur.update(saved[n])
    return restore


def cell(val):
    """A comparable, printable form of a frame's cell: its type and value"""
    import numpy as np
    if isinstance(val, (float, np.floating)):
        return ("float", "nan" if val != val else repr(float(val)))
    if isinstance(val, (bool, np.bool_)):
        return ("bool", repr(bool(val)))
    if isinstance(val, (int, np.integer)):
        return ("int", repr(int(val)))
    if val is None:
        return ("None", "")
    return (type(val).__name__, str(val))


def frame_snapshot(dfr):
    """Everything observable of a frame, in plain form"""
    return dict(
        index=[repr(float(t)) for t in dfr.index],
        columns=[str(c) for c in dfr.columns],
        dtypes=[str(t) for t in dfr.dtypes],
        data=[[cell(v) for v in dfr.iloc[:, i]]
              for i in range(dfr.shape[1])])


def trace_snapshot(trace):
    out = dict(basetime=repr(float(trace.basetime)),
               endtime=repr(float(trace.endtime)),
               duration=repr(float(trace.get_duration())),
               normalized=bool(trace.normalized_time),
               cpus=str(getattr(trace, "_cpus", "undefined")),
               version=str(getattr(trace, "_version", "undefined")),
               names=sorted(trace.class_definitions), events={})
    for name in trace.class_definitions:
        out["events"][name] = frame_snapshot(frame(trace, name))
    return out


def diff(got, want, path=""):
    """First difference of two snapshots, as text; None if they are equal"""
    if isinstance(want, dict) and isinstance(got, dict):
        for key in want:
            if key not in got:
                return "{}.{} missing".format(path, key)
            res = diff(got[key], want[key], path + "." + str(key))
            if res:
                return res
        for key in got:
            if key not in want:
                return "{}.{} unexpected".format(path, key)
        return None
    if isinstance(want, (list, tuple)) and isinstance(got, (list, tuple)):
        if len(got) != len(want):
            return "{}: {} items instead of {}".format(
                path, len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            res = diff(g, w, "{}[{}]".format(path, i))
            if res:
                return res
        return None
    if got != want:
        return "{}: {!r} instead of {!r}".format(path, got, want)
    return None
