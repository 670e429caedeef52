"""C29: the scripts of interactive plots are where their pages look"""
import io
import json
import os
import posixpath
import re
import urllib.error
import urllib.parse
import urllib.request

from hypothesis import strategies as st

import harness
import tr
import pandas as pd
import trappy
from trappy.plotter import IPythonConf
from trappy.plotter.EventPlot import EventPlot
from harness import Sub, expect

LEVEL = "fault_enumeration"
RULE = ("Histories of showing interactive plots in a notebook server's "
        "directory: libraries come from a stand-in for the network that "
        "fails, or stops early, for generated ones, installed files are "
        "removed or changed in between.  After each plot that is shown, what "
        "its page loads has to be there, whole.  Non-trivial: at least two "
        "plots, one of them shown.")
ASSUMPTIONS = ["downloads go through urllib.request.urlopen",
               "what is at an address does not change"]

PACKAGE = os.path.dirname(os.path.abspath(trappy.__file__))
LIBS = {"line": [IPythonConf.DYGRAPH_COMBINED_URL,
                 IPythonConf.DYGRAPH_SYNC_URL, IPythonConf.UNDERSCORE_URL],
        "event": [IPythonConf.D3_PLOTTER_URL, IPythonConf.D3_TIP_URL]}
NAMES = {"line": "ILinePlot", "event": "EventPlot"}


OLD = b"// of an old version"


def content(url):
    return ("/* {} */\n".format(url) * 700).encode()


class Answer(io.BytesIO):
    """What urlopen returns"""

    def __init__(self, url, size):
        whole = content(url)
        io.BytesIO.__init__(self, whole[:size])
        self.url = url
        self.headers = {"Content-Length": str(len(whole)),
                        "content-length": str(len(whole))}
        self.status = self.code = 200
        self.length = len(whole)

    def info(self):
        return self.headers

    def geturl(self):
        return self.url

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def getcode(self):
        return 200


class Breaks(Answer):
    """Ends with an error of the network"""

    def read(self, size=-1):
        data = Answer.read(self, size)
        if not data or size is None or size < 0:
            raise ConnectionResetError("connection reset")
        return data

    def readinto(self, buf):
        num = Answer.readinto(self, buf)
        if not num:
            raise ConnectionResetError("connection reset")
        return num


class Network(object):
    def __init__(self):
        self.faults = {}
        self.asked = []

    def open(self, url, *_args, **_kwargs):
        url = getattr(url, "full_url", url)
        self.asked.append(url)
        fault = self.faults.get(url)
        if fault is None:
            return Answer(url, None)
        kind, size = fault
        if kind == "refused":
            raise urllib.error.URLError("no network")
        if kind == "missing":
            raise urllib.error.HTTPError(url, 404, "Not Found", {}, None)
        return (Answer if kind == "short" else Breaks)(
            url, int(size * len(content(url))))


def wanted(kind):
    """{address in the page: what it has to be}"""
    want = {}
    for url in LIBS[kind]:
        want[posixpath.basename(urllib.parse.urlparse(url).path)] = \
            content(url)
    with open(os.path.join(PACKAGE, "plotter", "js",
                           NAMES[kind] + ".js"), "rb") as fin:
        want[NAMES[kind] + ".js"] = fin.read()
    return want


def addresses(page):
    """What the page's loader is told"""
    return dict(re.findall(r'^\s*"([\w-]+)": \'([^\']*)\',?$', page, re.M))


def show(kind):
    del tr.RECORDER.shown[:]
    if kind == "line":
        trappy.ILinePlot(pd.DataFrame({"a": [1.0, 2]}, index=[1.0, 2.0]),
                         column="a").view()
    else:
        EventPlot({"t": [[1, 2, 0]]}, ["t"], (0, 5), num_lanes=2).view()
    expect(len(tr.RECORDER.shown) == 1, "{} pages are shown",
           len(tr.RECORDER.shown))
    return tr.RECORDER.shown[0].data


def check(case):
    base = harness.fresh_dir("jupyter")
    data = os.path.join(base, *case["dir"])
    if case["exists"]:
        os.makedirs(data)
    network = Network()
    old = {k: os.environ.get(k) for k in ("JUPYTER_DATA_DIR",
                                          "JUPYTER_PLATFORM_DIRS")}
    real = urllib.request.urlopen
    os.environ["JUPYTER_DATA_DIR"] = data
    os.environ.pop("JUPYTER_PLATFORM_DIRS", None)
    urllib.request.urlopen = network.open
    try:
        return history(case, data, network)
    finally:
        urllib.request.urlopen = real
        for key, val in old.items():
            os.environ.pop(key, None)
            if val is not None:
                os.environ[key] = val


def history(case, data, network):
    labels = {}
    seen = {}
    shown = 0
    files = []
    for num, step in enumerate(case["steps"]):
        if step["do"] == "spoil":
            # The user removes a file or updates trappy
            known = sorted(f for f in files if os.path.isfile(f))
            if not known:
                continue
            path = known[step["which"] % len(known)]
            if step["remove"] or not path.endswith("Plot.js"):
                os.remove(path)
                labels["removed"] = 1
            else:
                with open(os.path.join(PACKAGE, "plotter", "js",
                                       os.path.basename(path)), "rb") as fin:
                    size = len(fin.read())
                with open(path, "wb") as fout:
                    fout.write(OLD.ljust(size + step["longer"], b" "))
                if step["touched"] is not None:
                    os.utime(path, (step["touched"], step["touched"]))
                labels["old version"] = 1
            continue
        kind = step["kind"]
        network.faults = {LIBS[kind][i % len(LIBS[kind])]: fault
                          for i, fault in step["faults"]}
        del network.asked[:]
        present = {url for url in LIBS[kind] for f in files
                   if os.path.isfile(f) and
                   posixpath.basename(url) == os.path.basename(f)}
        what = "{}: {} with {}".format(num, NAMES[kind], network.faults)
        broken = {u for u in network.faults if u not in present}
        try:
            page = show(kind)
        except ImportError as exc:
            expect(broken, "{}: refused with {}", what, exc)
            labels["refused"] = labels.get("refused", 0) + 1
            failed = True
        else:
            failed = False
        expect(not set(network.asked) & present, "{}: {} are fetched again",
               what, sorted(set(network.asked) & present))
        expect(len(network.asked) == len(set(network.asked)),
               "{}: something is fetched twice: {}", what, network.asked)
        # Nothing is there in part
        found = {}
        for root, _, names in os.walk(data):
            for name in names:
                path = os.path.join(root, name)
                found[path] = name
        whole = {}
        for k in LIBS:
            whole.update(wanted(k))
        for path, name in found.items():
            if name not in whole:
                continue
            with open(path, "rb") as fin:
                text = fin.read()
            if name in ("EventPlot.js", "ILinePlot.js") and \
                    text.startswith(OLD):
                expect(failed or name != NAMES[kind] + ".js",
                       "{}: {} is of an old version", what, name)
                continue
            expect(text == whole[name], "{}: {} has {} of {} bytes", what,
                   name, len(text), len(whole[name]))
        files = sorted(found)
        if failed:
            continue
        expect(not broken, "{}: shown without {}", what, sorted(broken))
        shown += 1
        paths = addresses(page)
        want = wanted(kind)
        expect(len(paths) == len(want), "{}: the page loads {} instead of {}",
               what, paths, sorted(want))
        got = set()
        for name, address in paths.items():
            expect(address.startswith("/nbextensions/"),
                   "{}: the page loads {} from {}", what, name, address)
            path = os.path.join(data, address.lstrip("/")) + ".js"
            expect(os.path.isfile(path), "{}: {} is not there: {}", what,
                   address, files)
            got.add(os.path.basename(path))
        expect(got == set(want), "{}: the page loads {} instead of {}", what,
               sorted(got), sorted(want))
        if kind == "event":
            path = os.path.join(data, "nbextensions", "plotter_scripts",
                                "EventPlot", "EventPlot_help.jpg")
            expect(os.path.isfile(path), "{}: the help's image is missing",
                   what)
        seen[kind] = seen.get(kind, 0) + 1
        labels["shown"] = shown
    if shown < 1 or len([s for s in case["steps"] if s["do"] == "show"]) < 2:
        labels["trivial"] = 1
    return labels


def cases():
    fault = st.tuples(
        st.sampled_from(["refused", "missing", "short", "broken", "broken"]),
        st.sampled_from([0, 0.1, 0.5, 0.9, 1])).filter(
            lambda f: f[1] < 1)
    show_step = st.fixed_dictionaries(dict(
        do=st.just("show"), kind=st.sampled_from(["line", "event"]),
        faults=st.one_of(st.just([]), st.lists(
            st.tuples(st.integers(0, 2), fault), max_size=2))))
    return st.fixed_dictionaries(dict(
        dir=st.sampled_from([["jupyter"], ["a b", "jupyter"]]),
        exists=st.booleans(),
        steps=st.lists(st.one_of(show_step, show_step, show_step,
                                 st.fixed_dictionaries(dict(
                                     do=st.just("spoil"),
                                     which=st.integers(0, 12),
                                     longer=st.sampled_from([-10**6, -1, 0,
                                                             1, 500]),
                                     touched=st.sampled_from([None, 0,
                                                              4102444800]),
                                     remove=st.booleans()))),
                       min_size=1, max_size=6)))


SUBS = [Sub("install", cases, check, quick=300, shards=4)]
