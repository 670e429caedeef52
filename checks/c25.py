"""C25: exported notebooks"""
import copy
import os
import re

from hypothesis import strategies as st

import tr
import nbformat.v4 as v4
from bs4 import BeautifulSoup
from nbconvert.exporters.html import HTMLExporter
import trappy
from trappy.nbexport import HTML
from trappy.plotter import IPythonConf
from trappy.plotter.EventPlot import EventPlot
from browser import BROWSER, MODULES
from harness import Sub, expect

LEVEL = "exploration"
RULE = ("Notebooks of generated outputs, with blocks and lines to remove, "
        "files to import and libraries to load among other lines, or with "
        "plots, are exported and the outputs in the page compared with the "
        "generated blocks.  Non-trivial: at least two kinds of blocks.")
ASSUMPTIONS = ["blocks to remove are closed, each marker has its own line"]

IPythonConf.iplot_install = lambda _name: None
PLAIN = HTMLExporter()
BASE = os.path.dirname(os.path.abspath(trappy.__file__))
FILES = ["plotter/js/ILinePlot.js", "plotter/js/EventPlot.js",
         "plotter/css/EventPlot.css", "__init__.py"]
URLS = ["https://cdn/d3.min.js", "http://x/y?a=1&b=2", "u",
        # Parts of others
        "https://cdn/d3", "cdn/d3.min.js", "http://x/y?a=1", "d3.min.js"]


def render(block):
    kind = block["k"]
    if kind == "line":
        return [block["text"]]
    if kind == "remove":
        return [block["pre"] + "/* TRAPPY_PUBLISH_REMOVE_START */"] + \
            block["lines"] + ["/* TRAPPY_PUBLISH_REMOVE_STOP */" +
                              block["post"]]
    if kind == "gone":
        return [block["text"] + "/* TRAPPY_PUBLISH_REMOVE_LINE */" +
                block["post"]]
    if kind == "import":
        return [block["pre"] + '/* TRAPPY_PUBLISH_IMPORT = "{}" */'.format(
            block["file"])]
    return [block["pre"] + '<!-- TRAPPY_PUBLISH_SOURCE_LIB = "{}" -->'.format(
        block["url"])]


def expected(block, seen):
    kind = block["k"]
    if kind == "line":
        return [block["text"]]
    if kind in ("remove", "gone"):
        return []
    name = block.get("file") or block["url"]
    if name in seen:
        return []
    seen.add(name)
    if kind == "import":
        with open(os.path.join(BASE, name)) as fin:
            text = fin.read()
        return (text[:-1] if text.endswith("\n") else text).split("\n")
    return ['<script src="{}" type="text/javascript" charset="utf-8">'
            '</script>'.format(name)]


def notebook(cells):
    out = []
    for cell in cells:
        if isinstance(cell, str):
            out.append(v4.new_markdown_cell(cell))
            continue
        outputs = []
        for kind, text in cell:
            if kind == "stream":
                outputs.append(v4.new_output("stream", text=text))
            elif kind == "picture":
                outputs.append(v4.new_output("display_data", data={
                    "image/png": "iVBORw0KGgo=", "text/plain": text}))
            else:
                outputs.append(v4.new_output(
                    kind, data={"text/html": text, "text/plain": "plain"}))
        out.append(v4.new_code_cell("code", outputs=outputs))
    return v4.new_notebook(cells=out)


def check(case):
    exporter = HTML()
    labels = set()
    for cells in case["notebooks"]:
        seen = set()
        want = []
        made = []
        for cell in cells:
            if cell["k"] == "text":
                made.append("some *text*")
                continue
            outs = []
            for output in cell["outputs"]:
                if output["kind"] != "display_data":
                    lines = ["plain /* output */"]
                    blocks = []
                else:
                    blocks = output["blocks"]
                    lines = [l for b in blocks for l in render(b)]
                    labels |= {b["k"] for b in blocks}
                want.append("\n".join(
                    [l for b in blocks for l in expected(b, seen)]))
                outs.append((output["kind"], "\n".join(lines)))
            made.append(outs)
        node = notebook(made)
        before = copy.deepcopy(node)
        body, _ = exporter.from_notebook_node(node)
        expect(node == before, "the notebook has changed")
        # A page of the expected outputs
        outputs = [output for cell in node.cells if cell.cell_type == "code"
                   for output in cell.outputs]
        for i, (output, text) in enumerate(zip(outputs, want)):
            if output.output_type == "display_data" and \
               "text/html" in output.data:
                output.data["text/html"] = text
        plain, _ = PLAIN.from_notebook_node(node)
        if body != plain:
            at = next(i for i, (a, b) in enumerate(zip(body + "\0",
                                                       plain + "\0"))
                      if a != b)
            expect(False, "the page has {!r} instead of {!r}",
                   body[max(at - 60, 0):at + 60], plain[max(at - 60, 0):
                                                        at + 60])
    if len(labels) < 2:
        labels.add("trivial")
    if len(case["notebooks"]) > 1:
        labels.add("several notebooks")
    return labels


def check_plots(case):
    """Pages with plots keep their data and load each asset once"""
    import pandas as pd
    del tr.RECORDER.shown[:]
    for n, kind in enumerate(case["plots"]):
        if kind == "line":
            dfr = pd.DataFrame({"a": [1.0 * n, 2]}, index=[1.0, 2.0])
            trappy.ILinePlot(dfr, column="a").view(test=True)
        else:
            EventPlot({"t": [[1, 2 + n, 0]]}, ["t"], (0, 5),
                      num_lanes=2).view()
    pages = [page.data for page in tr.RECORDER.shown]
    cells = [[("display_data", text) for text in pages[i:i + case["size"]]]
             for i in range(0, len(pages), case["size"])]
    body, _ = HTML().from_notebook_node(notebook(cells))
    expect("TRAPPY_PUBLISH" not in body, "a marker is left")
    libs = {"line": [IPythonConf.DYGRAPH_COMBINED_URL,
                     IPythonConf.DYGRAPH_SYNC_URL,
                     IPythonConf.UNDERSCORE_URL],
            "event": [IPythonConf.D3_PLOTTER_URL, IPythonConf.D3_TIP_URL]}
    soup = BeautifulSoup(body, "html.parser")
    loaded = [tag["src"] for tag in soup.find_all("script", src=True)]
    for kind, urls in libs.items():
        times = int(kind in case["plots"])
        for url in urls:
            expect(loaded.count(url) == times, "{} is loaded {} times", url,
                   loaded.count(url))
        name = "ILinePlot" if kind == "line" else "EventPlot"
        with open(os.path.join(BASE, "plotter/js/{}.js".format(name))) as fin:
            source = fin.read().rstrip("\n")
        expect(body.count(source) == times, "{}.js is there {} times", name,
               body.count(source))
    for page in pages:
        for line in page.split("\n"):
            if re.search(r"var fig_\w+_data|(ILinePlot|EventPlot)\.generate",
                         line):
                expect(line in body, "{!r} is lost", line)
        for tag in BeautifulSoup(page, "html.parser").find_all("div", id=True):
            expect(len(soup.find_all("div", id=tag["id"])) == 1,
                   "the place of {} is lost", tag["id"])
    scripts = re.findall(r"<script>(.*?)</script>", body, re.S)
    calls = [s for s in scripts if re.search(
        r"(ILinePlot|EventPlot)\.generate\('?fig", s)]
    expect(len(calls) == len(pages), "{} of {} plots are drawn", len(calls),
           len(pages))
    for script in calls:
        rest = script
        for kind in ("ILinePlot", "EventPlot"):
            with open(os.path.join(BASE, "plotter/js/{}.js".format(
                    kind))) as fin:
                rest = rest.replace(fin.read().rstrip("\n"), "")
        for a, b in ("()", "{}"):
            plain = re.sub(r'"(\\.|[^"\\])*"', "", rest)
            expect(plain.count(a) == plain.count(b), "unbalanced script {!r}",
                   rest)
        expect("require" not in rest and "req(" not in rest,
               "the notebook's loader is used in {!r}", rest)
    # The page works without the notebook around it
    text = BROWSER.run(dict(
        kind="event", divs=[[tag["id"], 600] for tag in soup.find_all(
            ["div", "td"], id=re.compile(r"^fig_"))],
        modules=MODULES, loaded=True, actions=[
            {"do": "script", "text": s, "id": name}
            for s in scripts if "fig_" in s
            for name in re.findall(r"fig_[0-9a-f]+", s)[:1]]))
    plots = text[-1]["plots"]
    for i, page in enumerate(pages):
        name = re.findall(r'id="(fig_[0-9a-f]+)"', page)[0]
        if case["plots"][i] == "event":
            expect(name in plots and [p["tip"].count("t") > 0 for p in
                                      plots[name]["main"]] == [True],
                   "the page has no plot {}: {}", name, plots)
            part = plots[name]["main"][0]["parts"][0]
            per = plots[name]["range"][1] / 5.0
            want = [per, per * (2 + i)]
            expect(all(abs(a - b) < 1e-6 for a, b in zip(part, want)),
                   "{} is drawn at {} instead of {}", name, part, want)
        else:
            expect(name in text[-1]["graphs"] and
                   text[-1]["graphs"][name] == [[1.0, 1.0 * i], [2.0, 2]],
                   "the page draws {} for {}", text[-1]["graphs"], name)
    if len(pages) < 2:
        return {"trivial"}
    return {"{} kinds".format(len(set(case["plots"])))}


TEXT = st.one_of(
    st.text("ab <>/*\"'{}\t\r\\&;é-=!", max_size=12),
    st.sampled_from(["", "<script>", "</script>", "/* TRAPPY_PUBLISH */",
                     "<!-- a comment -->", "REMOVE_START", "x\r",
                     "/* TRAPPY_PUBLISH_IMPORT = */", "  indented  "]))
INDENT = st.sampled_from(["", "  ", "\t"])


@st.composite
def notebooks(draw):
    block = st.one_of(
        st.fixed_dictionaries(dict(k=st.just("line"), text=TEXT)),
        st.fixed_dictionaries(dict(k=st.just("line"), text=TEXT)),
        st.fixed_dictionaries(dict(
            k=st.just("remove"), pre=INDENT, post=INDENT,
            lines=st.lists(TEXT, max_size=3).flatmap(lambda l: st.sampled_from(
                [l, l + ['/* TRAPPY_PUBLISH_IMPORT = "{}" */'.format(
                    FILES[0])], l + ["a /* TRAPPY_PUBLISH_REMOVE_LINE */"]])))),
        st.fixed_dictionaries(dict(k=st.just("gone"), text=TEXT,
                                   post=INDENT)),
        st.fixed_dictionaries(dict(k=st.just("import"), pre=INDENT,
                                   file=st.sampled_from(FILES))),
        st.fixed_dictionaries(dict(k=st.just("lib"), pre=INDENT,
                                   url=st.sampled_from(URLS))))
    output = st.fixed_dictionaries(dict(
        kind=st.sampled_from(["display_data"] * 6 + [
            "execute_result", "stream", "picture"]),
        blocks=st.lists(block, max_size=7)))
    cell = st.one_of(
        st.fixed_dictionaries(dict(k=st.just("code"), outputs=st.lists(
            output, max_size=3))),
        st.fixed_dictionaries(dict(k=st.just("code"), outputs=st.lists(
            output, min_size=1, max_size=3))),
        st.just(dict(k="text")))
    return dict(notebooks=draw(st.lists(st.lists(cell, min_size=1, max_size=4),
                                        min_size=1, max_size=3)))


def plots():
    return st.fixed_dictionaries(dict(
        plots=st.lists(st.sampled_from(["line", "event"]), min_size=1,
                       max_size=4), size=st.integers(1, 3)))


SUBS = [Sub("outputs", notebooks, check, quick=1200, shards=8),
        Sub("plots", plots, check_plots, quick=40, shards=1)]
