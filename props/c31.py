"""C31: logs, messages, file checks and cost plots report exactly what they were given."""
import contextlib
import io
import logging
import os
import re
import shutil
import sys
import tempfile
import warnings

import matplotlib.figure as mfig
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from modopt.interface.errors import catch_error, file_name_error, is_exe, is_executable, warn
from modopt.interface.log import close_log, set_up_log
from modopt.opt.cost import costObj
from modopt.plot.cost_plot import plotCost

from harness.core import Prop
from harness.gen import fixed
from harness.oracle import close, equal, need, raises

PROP = Prop(
    "C31",
    [
        "every file lives in a scratch directory that the case creates and removes",
        "a log file is not opened a second time before it is closed",
        "the plotted curve is read from the matplotlib figure at the moment it is saved",
    ],
)
TEXT = st.text(alphabet=st.sampled_from(list("abcXYZ 019:%{}'\"_-é")), min_size=1, max_size=20).map(lambda s: s.strip() or "m")


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="verif_c31_")
        self.env, self.cwd = os.environ.get("PATH"), os.getcwd()
        return self.path

    def __exit__(self, *a):
        os.chdir(self.cwd)
        os.environ["PATH"] = self.env
        shutil.rmtree(self.path, ignore_errors=True)
        return False


class Capture:
    def __enter__(self):
        self.saved = sys.stdout, sys.stderr
        self.out, self.err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = self.out, self.err
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.saved
        return False


def files_open(top):
    """Files below a directory which this process holds open."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            out.append(os.readlink(f"/proc/self/fd/{fd}"))
    return sorted(os.path.relpath(f, top) for f in out if f.startswith(top + "/"))


class Spy(logging.Handler):
    """A handler of the user, attached to a log next to the file."""

    def __init__(self):
        super().__init__()
        self.got, self.is_closed = [], False

    def emit(self, record):
        self.got.append(record.getMessage().rstrip("\n"))

    def close(self):
        self.is_closed = True
        super().close()


log_step = st.one_of(
    st.tuples(st.just("open"), st.integers(0, 2), st.booleans()), st.tuples(st.just("close"), st.integers(0, 2), st.booleans()),
    st.tuples(st.just("write"), st.integers(0, 2), TEXT), st.tuples(st.just("write"), st.integers(0, 2), TEXT), st.tuples(st.just("error"), st.integers(0, 2), st.one_of(TEXT, TEXT.map(lambda t: f"  {t} "))),
    st.tuples(st.just("extra"), st.integers(0, 2), st.integers(0, 3)),
)
LINE = re.compile(r"^\d\d/\d\d/\d{4} \d\d:\d\d:\d\d (.*)$")


@PROP.sub("logs", fixed(steps=st.lists(log_step, min_size=10, max_size=30)), quick=1200, factor=20, shards=8, rule="a message was written to an open log")
def logs(c):
    names = ["a", "b.c", "sub/d"]
    opened, content, wrote = {}, {}, False
    with Scratch() as top:
        os.mkdir(os.path.join(top, "sub"))
        handles, extra = {}, {i: [] for i in range(3)}
        for kind, i, arg in c["steps"]:
            base = os.path.join(top, names[i])
            if kind == "open" and i not in opened:
                with Capture() as cap:
                    log = set_up_log(base, verbose=arg)
                need((base + ".log" in cap.out.getvalue()) == arg, lambda: f"verbose={arg}, printed {cap.out.getvalue()!r}")  # noqa: B023
                need(isinstance(log, logging.Logger), "set_up_log did not return a logger")
                opened[i] = handles[i] = log
                content[i] = ["The log file has been set-up."]
            elif kind == "close" and i in opened:
                with Capture() as cap:
                    close_log(opened.pop(i), verbose=arg)
                need(bool(cap.out.getvalue()) == arg, lambda: f"verbose={arg}, printed {cap.out.getvalue()!r}")  # noqa: B023
                content[i].append("The log file has been closed.")
                need(handles[i].handlers == [], "a closed log still has handlers")
                held = files_open(top)
                need(held == sorted(names[k] + ".log" for k in opened), lambda: f"files held open {held}, open logs {sorted(opened)}")  # noqa: B023
                for h, since in extra[i]:
                    need(h.is_closed, "a handler attached to a log is still open after the log was closed")
                    need(h.got == content[i][since:], lambda: f"a handler attached to log {names[i]} got {h.got}, the file {content[i][since:]}")  # noqa: B023
                extra[i] = []
            elif kind == "extra" and i in opened:  # the user sends the messages somewhere else as well
                h = Spy()
                opened[i].addHandler(h)
                if arg == 0 and len(opened[i].handlers) > 1:  # in front of the file
                    opened[i].handlers.insert(0, opened[i].handlers.pop())
                extra[i].append((h, len(content[i])))
            elif kind == "write" and i in handles:
                with Capture():
                    handles[i].log([logging.INFO, logging.DEBUG, logging.WARNING, logging.ERROR][len(arg) % 4], "%s", arg)
                if i in opened:
                    content[i].append(arg)
                    wrote = True
            elif kind == "error" and i in opened:
                with Capture() as cap:
                    catch_error(arg, log=opened[i])
                need(cap.err.getvalue().endswith(f": {arg}\n") and "ERROR" in cap.err.getvalue(), lambda: f"catch_error printed {cap.err.getvalue()!r}")  # noqa: B023
                content[i].append(f"ERROR: {arg}")
        for i in list(opened):
            with Capture():
                close_log(opened.pop(i), verbose=False)
            content[i].append("The log file has been closed.")
        for i, lines in content.items():
            with open(os.path.join(top, names[i] + ".log"), encoding=None) as fh:
                raw = fh.read().split("\n")
            got = [m.group(1) for m in map(LINE.match, raw) if m]
            need(got == lines, lambda: f"log {names[i]} holds {got}, expected {lines}")  # noqa: B023
        files = sorted(os.path.relpath(os.path.join(d, f), top) for d, _, fs in os.walk(top) for f in fs)
        need(files == sorted(names[i] + ".log" for i in content), lambda: f"files {files}")
    return wrote


@PROP.sub("messages", fixed(txt=st.one_of(TEXT, st.text(alphabet=st.sampled_from(list("ab  \t\n:%{}\\.é")), max_size=12), TEXT.map(lambda s: s * 40), TEXT.map(lambda s: s * 700)), log=st.booleans()), quick=400, factor=10, shards=2, rule="every case")
def messages(c):
    with Capture() as cap, warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        logging.captureWarnings(False)
        warn(c["txt"], log=logging.getLogger("verif.unused") if c["log"] else None)
    err = cap.err.getvalue()
    need("WARNING" in err and err.endswith(f": {c['txt']}\n") and cap.out.getvalue() == "", lambda: f"warn printed {err!r}")
    texts = [str(w.message) for w in caught]
    need(texts == ([c["txt"]] if c["log"] else []), lambda: f"python warnings issued: {texts} (log given: {c['log']})")
    with Capture() as cap:
        catch_error(ValueError(c["txt"]))
    need("ERROR" in cap.err.getvalue() and cap.err.getvalue().endswith(f": {c['txt']}\n"), lambda: f"catch_error printed {cap.err.getvalue()!r}")
    return True


@st.composite
def tree_case(draw):
    ents = draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from(["tool", "x", "y.sh"]), st.sampled_from(["exe", "plain", "dir", "link", "broken"])), max_size=7))
    return {"ents": ents, "query": draw(st.sampled_from(["tool", "x", "y.sh", "none", "d0/tool", "d1/x", "d2/y.sh", "./d0/x", "d0", ""])), "order": draw(st.permutations([0, 1, 2])), "extra": draw(st.booleans()), "here": draw(st.sampled_from([None, None, None, 0, 1, 5])), "filler": draw(st.sampled_from([0, 0, 0, 3, 70, 150]))}


@PROP.sub("files", tree_case(), quick=1200, factor=20, shards=8, rule="the queried name exists somewhere")
def files(c):
    with Scratch() as top:
        for d in range(3):
            os.mkdir(os.path.join(top, f"d{d}"))
        real = os.path.join(top, "real_exe")
        with open(real, "w") as fh:
            fh.write("#!/bin/sh\n")
        os.chmod(real, 0o755)
        for d, name, kind in c["ents"]:
            p = os.path.join(top, f"d{d}" if d < 3 else ".", name)
            if os.path.lexists(p):
                continue
            if kind == "dir":
                os.mkdir(p)
            elif kind == "link":
                os.symlink(real, p)
            elif kind == "broken":
                os.symlink(os.path.join(top, "nowhere"), p)
            else:
                with open(p, "w") as fh:
                    fh.write("x")
                os.chmod(p, 0o755 if kind == "exe" else 0o644)
        os.chdir(top)
        dirs = [os.path.join(top, f"d{i}") for i in c["order"]]
        if c["extra"]:
            dirs.insert(1, os.path.join(top, "missing"))
        dirs = [os.path.join(top, "gone", str(i)) for i in range(c["filler"])] + dirs  # places that do not exist
        if c["here"] is not None:  # an empty entry is the current directory
            dirs.insert(c["here"], "")
        os.environ["PATH"] = os.pathsep.join(dirs)
        q = c["query"]
        runs = lambda p: os.path.isfile(p) and bool(os.stat(p).st_mode & 0o111)
        need(bool(is_exe(q)) == runs(q), lambda: f"is_exe({q!r}) = {is_exe(q)!r}")
        found = runs(q) if "/" in q else any(runs(os.path.join(d, q)) for d in dirs)
        if found:
            is_executable(q)
        else:
            raises(OSError, lambda: is_executable(q), f"is_executable({q!r})")
        name = os.path.join(top, q) if c["extra"] and q else q
        if q and os.path.isfile(name):
            file_name_error(name)
        else:
            raises(OSError, lambda: file_name_error(name), f"file_name_error({name!r})")
        with open("-" + q.replace("/", "_"), "w") as fh:
            fh.write("x")
        raises(OSError, lambda: file_name_error("-" + q.replace("/", "_")), "file name starting with a dash")
        for bad in (1, None, ["tool"]):
            raises(TypeError, lambda: is_executable(bad), f"is_executable({bad!r})")  # noqa: B023
        return found


@PROP.sub("plots", fixed(costs=st.lists(st.one_of(st.integers(1, 10**6).map(lambda i: i / 997.0), st.integers(1, 10**6).map(lambda i: i / 997.0), st.sampled_from([1e-300, 1e-17, 1e300, 0.0, -2.5, -1e-3])), min_size=1, max_size=40), interval=st.sampled_from([1, 1, 1, 2, 5]), out=st.sampled_from([None, "p", "sub/run1", "a.b"]), via=st.sampled_from(["direct", "array", "costobj"]), render=st.integers(0, 9)), quick=300, factor=10, shards=8, rule="more than one cost value")
def plots(c):
    seen = []
    orig = mfig.Figure.savefig
    before = list(plt.get_fignums())

    def spy(self, fname, *a, **k):
        seen.append((str(fname), [np.array(ln.get_ydata(), dtype=float) for ax in self.axes for ln in ax.get_lines()], [np.array(ln.get_xdata(), dtype=float) for ax in self.axes for ln in ax.get_lines()], [ax.get_yscale() for ax in self.axes]))
        if c["render"] == 0 and min(c["costs"]) > 0:
            return orig(self, fname, *a, **k)
        with open(fname, "wb"):
            return None

    class Op:
        def __init__(self):
            self.k = 0

        def cost(self, *a, **k):
            self.k += 1
            return c["costs"][self.k - 1]

    with Scratch() as top:
        os.mkdir(os.path.join(top, "sub"))
        os.chdir(top)
        mfig.Figure.savefig = spy
        try:
            if c["via"] == "costobj":
                obj = costObj([Op()], verbose=False, plot_output=c["out"], cost_interval=c["interval"])
                for _ in range(len(c["costs"]) * c["interval"]):
                    obj.get_cost(np.ones(2))
                with np.errstate(all="ignore"):
                    obj.plot_cost()
            else:
                arg = list(c["costs"]) if c["via"] == "direct" else np.array(c["costs"])
                with np.errstate(all="ignore"):
                    plotCost(arg, c["out"]) if c["out"] is not None else plotCost(arg)
        finally:
            mfig.Figure.savefig = orig
        want = "cost_function.png" if c["out"] is None else f"{c['out']}_cost_function.png"
        made = sorted(os.path.relpath(os.path.join(d, f), top) for d, _, fs in os.walk(top) for f in fs)
        need(made == [want], lambda: f"files written: {made}, expected {want}")
    need(list(plt.get_fignums()) == before, "plotCost left a figure open")
    need(len(seen) == 1 and len(seen[0][1]) == 1, lambda: f"{len(seen)} figures saved, {[len(s[1]) for s in seen]} curves")
    y = seen[0][1][0]
    with np.errstate(all="ignore"):
        want_y = np.array(c["costs"]) if seen[0][3][0] == "log" else np.log10(c["costs"])
    close(y, want_y, "plotted curve", rtol=1e-10, atol=1e-12)
    equal(np.diff(seen[0][2][0]), np.ones(len(c["costs"]) - 1), "spacing of the iterations")
    return len(c["costs"]) > 1
