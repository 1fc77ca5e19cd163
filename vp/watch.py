"""Records which lines and branch directions of the package an execution goes through."""
import os
import sys

TOOL = 3  # an id that no profiler or debugger claims by default


class Watch:
    """Lines as (file, line), branches as (file, line, offset, target); each reported once."""

    def __init__(self, folder):
        self.folder = os.path.join(os.path.realpath(folder), "")
        self.lines = set()
        self.branches = set()
        self.files = {}

    def name(self, code):
        path = self.files.get(code.co_filename)
        if path is None:
            full = os.path.realpath(code.co_filename)
            path = full[len(self.folder) :] if full.startswith(self.folder) else ""
            self.files[code.co_filename] = path
        return path

    def on_line(self, code, line):
        path = self.name(code)
        if path:
            self.lines.add((path, line))
        return sys.monitoring.DISABLE

    def on_branch(self, code, offset, target):
        path = self.name(code)
        if not path:
            return sys.monitoring.DISABLE
        key = (path, code.co_qualname, code.co_firstlineno, offset)
        self.branches.add(key + (target,))
        return None

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None or mon.get_tool(TOOL) is not None:
            return self
        mon.use_tool_id(TOOL, "vp")
        mon.register_callback(TOOL, mon.events.LINE, self.on_line)
        mon.set_events(TOOL, mon.events.LINE)
        if os.environ.get("VERIF_BRANCHES"):
            mon.register_callback(TOOL, mon.events.BRANCH, self.on_branch)
            mon.set_events(TOOL, mon.events.LINE | mon.events.BRANCH)
        return self

    def take(self):
        res = self.lines, self.branches
        self.lines, self.branches = set(), set()
        return res
