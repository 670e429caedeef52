"""Runs the scripts of pages in node, see page.js"""
import json
import os
import re
import select
import shutil
import subprocess

import harness
import trappy
from harness import HarnessError, expect

JS = os.path.join(os.path.dirname(os.path.abspath(trappy.__file__)),
                  "plotter", "js")
MODULES = {name: os.path.join(JS, name + ".js")
           for name in ("EventPlot", "ILinePlot")}
DRIVER = os.path.join(os.path.dirname(os.path.abspath(__file__)), "page.js")


class Browser(object):
    """A node that runs pages"""

    def __init__(self):
        self.proc = None
        self.pid = None

    def run(self, request):
        if self.proc is None or self.pid != os.getpid():
            node = shutil.which("node") or "/usr/bin/node"
            self.proc = subprocess.Popen(
                [node, DRIVER], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
            self.pid = os.getpid()
        self.proc.stdin.write(json.dumps(request).encode() + b"\n")
        self.proc.stdin.flush()
        text = b""
        fd = self.proc.stdout.fileno()
        while not text.endswith(b"\n"):
            if not select.select([fd], [], [], 45)[0]:
                self.proc.kill()
                self.proc = None
                expect(False, "the page does not answer")
            part = os.read(fd, 1 << 20)
            if not part:
                self.proc = None
                raise HarnessError("node has ended")
            text += part
        res = json.loads(text.decode())
        if "error" in res:
            if "UNSUPPORTED" in res["error"]:
                raise harness.Skip()
            expect(False, "the page fails with {}", res["error"][:600])
        return res["ok"]


BROWSER = Browser()


def scripts(page):
    return re.findall(r"<script>(.*?)</script>", page, re.S)
