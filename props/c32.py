"""C32: the wrapper of the external wavelet program passes data through unchanged and cleans up."""
import os
import re
import shutil
import tempfile

import numpy as np
from astropy.io import fits
from hypothesis import strategies as st
from modopt.signal.wavelet import call_mr_transform, execute, get_mr_filters, trim_filter

from harness.core import Prop
from harness.gen import array, fixed, lay, layouts, seeds, expand
from harness.oracle import Frozen, close, equal, need, raises

PROP = Prop(
    "C32",
    [
        "the external program is replaced by a recording stand-in in a scratch directory put on PATH: what is checked is everything the wrapper does around it",
        "every file lives in a scratch directory that the case creates and removes",
    ],
)

STUB = """#!/bin/sh
for a in "$@"; do printf '%s\\n' "$a" >> "$VERIF_STUB/args"; prev=$last; last=$a; done
printf 'end\\n' >> "$VERIF_STUB/args"
cp "$prev" "$VERIF_STUB/input.fits"
[ -f "$VERIF_STUB/output.fits" ] && cp "$VERIF_STUB/output.fits" "$last"
cat "$VERIF_STUB/stdout"
cat "$VERIF_STUB/stderr" >&2
"""


class Scratch:
    """A scratch directory with the stand-in program first on PATH and an empty work directory."""

    def __init__(self, output=None, stdout="", stderr="", missing=False):
        self.output, self.stdout, self.stderr, self.missing = output, stdout, stderr, missing

    def __enter__(self):
        self.top = tempfile.mkdtemp(prefix="verif_c32_")
        self.saved = os.environ.get("PATH"), os.getcwd()
        for d in ("bin", "rec", "work", "work/out"):
            os.mkdir(os.path.join(self.top, d))
        exe = os.path.join(self.top, "bin", "mr_transform")
        if not self.missing:
            with open(exe, "w") as fh:
                fh.write(STUB)
            os.chmod(exe, 0o755)
        for n in ("stdout", "stderr"):
            with open(os.path.join(self.top, "rec", n), "w") as fh:
                fh.write(getattr(self, n))
        if self.output is not None:
            fits.writeto(os.path.join(self.top, "rec", "output.fits"), self.output)
        os.environ["VERIF_STUB"] = os.path.join(self.top, "rec")
        os.environ["PATH"] = os.path.join(self.top, "bin") + os.pathsep + "/usr/bin:/bin" if not self.missing else os.path.join(self.top, "bin")
        os.chdir(os.path.join(self.top, "work"))
        return self

    def args(self):
        """One list of arguments per call."""
        path = os.path.join(self.top, "rec", "args")
        if not os.path.exists(path):
            return []
        calls, cur = [], []
        for ln in open(path).read().split("\n")[:-1]:
            if ln == "end":
                calls.append(cur)
                cur = []
            else:
                cur.append(ln)
        return calls

    def seen(self):
        return fits.getdata(os.path.join(self.top, "rec", "input.fits"))

    def left(self):
        work = os.path.join(self.top, "work")
        return sorted(os.path.relpath(os.path.join(d, f), work) for d, _, fs in os.walk(work) for f in fs)

    def __exit__(self, *a):
        os.chdir(self.saved[1])
        os.environ["PATH"] = self.saved[0]
        os.environ.pop("VERIF_STUB", None)
        shutil.rmtree(self.top, ignore_errors=True)
        return False


@st.composite
def case(draw):
    shape = tuple(draw(st.lists(st.integers(1, 7), min_size=2, max_size=2)))
    dt = draw(st.sampled_from(["float64", "float64", "float32", "int32", "int64"]))
    return {
        "x": draw(array(shape, dtype=dt)), "order": draw(layouts), "scales": draw(st.integers(1, 4)), "seed": draw(seeds), "outdt": draw(st.sampled_from([">f4", ">f8", "f4"])),
        "opt": draw(st.sampled_from(["", "-t 2", "-n 4  -t 24", ["-t2", "-n3"], [], "-v"])), "path": draw(st.sampled_from([None, "./", "out/", "out/pre_"])), "keep": draw(st.booleans()), "calls": draw(st.integers(1, 3)),
        "noise": draw(st.sampled_from(["", "done\n", "Number of scales = 4\n"])),
    }


@PROP.sub("transform", case(), quick=500, factor=15, shards=8, rule="non-constant data or several calls")
def transform(c):
    x = lay(c["x"], c["order"])
    out = expand(c["seed"], (c["scales"], *x.shape), "normal").astype(c["outdt"]) * 5
    with Scratch(output=out, stdout=c["noise"]) as s:
        kw = {} if c["path"] is None else {"path": c["path"]}
        if c["opt"] != "":
            kw["opt"] = c["opt"]
        if c["keep"]:
            kw["remove_files"] = False
        opt = list(c["opt"]) if isinstance(c["opt"], list) else c["opt"]
        for k in range(c["calls"]):
            with Frozen("call_mr_transform", x=x):
                res = call_mr_transform(x, **kw)
            equal(res, out.astype(x.dtype), "result")
            need(res.dtype == x.dtype, lambda: f"result dtype {res.dtype} for data of dtype {x.dtype}")  # noqa: B023
            equal(np.asarray(s.seen()), c["x"], "data handed to the program")
        need(c["opt"] == opt, "the list of options was modified")
        want = opt if isinstance(opt, list) else opt.split()
        calls = s.args()
        need(len(calls) == c["calls"], lambda: f"{len(calls)} runs of the program for {c['calls']} calls")
        pre = c["path"] if c["path"] is not None else "./"
        names = []
        for a in calls:
            need(a[:-2] == list(want), lambda: f"options {a[:-2]}, expected {want}")  # noqa: B023
            need(a[-2].startswith(pre) and a[-1].startswith(pre) and a[-2] != a[-1], lambda: f"files {a[-2:]}, expected under {pre}")  # noqa: B023
            names += [os.path.relpath(p) for p in a[-2:]]
        need(len(set(names)) == len(names), "temporary file names are reused")
        left = s.left()
        need(left == (sorted(names) if c["keep"] else []), lambda: f"files left: {left}, program used {names}, remove_files={not c['keep']}")
    return float(np.ptp(c["x"])) > 0 or c["calls"] > 1


@PROP.sub("failure", fixed(word=st.sampled_from(["bad option", "Error: no file", "Sorry, not implemented", "bad"]), pre=st.sampled_from(["", "line one\n"]), keep=st.booleans(), out=st.booleans()), quick=120, factor=5, shards=4, rule="every case is a failed run")
def failure(c):
    x = np.arange(6.0).reshape(2, 3)
    with Scratch(output=x[None] if c["out"] else None, stdout=c["pre"] + c["word"] + "\n") as s:
        try:
            call_mr_transform(x, remove_files=not c["keep"])
        except RuntimeError as exc:
            need(c["word"] in str(exc), lambda: f"message {exc} does not report the program output")  # noqa: F821
        else:
            need(False, "a failed run was accepted")
        if not c["keep"]:
            need(not [f for f in s.left() if f.endswith(".fits")], lambda: f"input file left behind: {s.left()}")
    with Scratch(missing=True) as s:
        raises(OSError, lambda: call_mr_transform(x), "mr_transform is not installed")
        need(s.left() == [], "files written although the program is missing")
    with Scratch(output=x[None]) as s:
        for bad in (x[0], x[None], [[1.0]], 3.0):
            raises(ValueError, lambda: call_mr_transform(bad), f"input {bad!r}")  # noqa: B023
        need(s.left() == [] and s.args() == [], "the program was run on invalid input")
    return True


@st.composite
def filter_case(draw):
    shape = tuple(draw(st.lists(st.one_of(st.integers(2, 9), st.integers(2, 9), st.integers(2, 9), st.integers(10, 90)), min_size=2, max_size=2)))
    return {"shape": shape, "kind": draw(st.sampled_from([tuple, list, np.array])), "scales": draw(st.integers(2, 4)), "seed": draw(seeds), "coarse": draw(st.booleans()), "trim": draw(st.booleans()), "same": draw(st.booleans())}


@PROP.sub("filters", filter_case(), quick=500, factor=15, shards=8, rule="at least two scales are returned")
def filters(c):
    h, w = (n if n % 2 else n - 1 for n in c["shape"])
    rs = np.random.RandomState(c["seed"])
    out = np.zeros((c["scales"], h, w))
    boxes = []
    for k in range(c["scales"]):
        r0, c0 = rs.randint(h), rs.randint(w)
        r1, c1 = rs.randint(r0, h), rs.randint(c0, w)
        if c["same"] and boxes:
            r0, r1, c0, c1 = boxes[0]
        blk = np.round(rs.standard_normal((r1 - r0 + 1, c1 - c0 + 1)), 2)
        blk[0, 0] = blk[-1, -1] = 0.5
        out[k, r0 : r1 + 1, c0 : c1 + 1] = blk
        boxes.append((r0, r1, c0, c1))
    arg = c["kind"](c["shape"])
    with Scratch(output=out) as s:
        res = get_mr_filters(arg, coarse=c["coarse"], trim=c["trim"])
        need(tuple(arg) == c["shape"], "data_shape was modified")
        fake = np.zeros((h, w))
        fake[h // 2, w // 2] = 1
        equal(np.asarray(s.seen()), fake, "the program is given a centred Dirac of odd size")
        need(s.left() == [], "files left behind")
    n = c["scales"] if c["coarse"] else c["scales"] - 1
    need(len(res) == n, lambda: f"{len(res)} filters, expected {n} (coarse={c['coarse']})")
    for k in range(n):
        r0, r1, c0, c1 = boxes[k]
        ref = out[k, r0 : r1 + 1, c0 : c1 + 1] if c["trim"] else out[k]
        close(np.asarray(res[k], dtype=float), ref, f"filter {k}", rtol=1e-12, atol=0)
    return n > 1


@PROP.sub("trim", fixed(x=array(st.one_of(*[st.tuples(st.integers(1, 6), st.integers(1, 6))] * 7, st.sampled_from([(90, 90), (140, 150), (1, 5000), (130, 70), (300, 5)])), styles=("sparse", "normal", "ties")), pad=st.lists(st.integers(0, 4), min_size=4, max_size=4), order=layouts, corner=st.one_of(st.none(), st.integers(0, 3))), quick=2000, factor=20, shards=4, rule="a zero border is removed")
def trim(c):
    x, p = c["x"], c["pad"]
    if c["corner"] is not None:  # half of the pixels, in front of a chosen corner
        x = np.rot90(np.triu(np.rot90(x, c["corner"])), -c["corner"])
    if not np.any(x):
        return False
    big = np.pad(x, ((p[0], p[1]), (p[2], p[3])))
    arg = lay(big, c["order"])
    with Frozen("trim_filter", arg=arg):
        t = trim_filter(arg)
    r, q = np.where(big != 0)
    equal(t, big[r.min() : r.max() + 1, q.min() : q.max() + 1], "trim_filter")
    equal(trim_filter(t), t, "trim_filter is idempotent")
    close(float(np.sum(t)), float(np.sum(big)), "the sum of the filter", rtol=1e-9, atol=1e-9, scale=float(np.sum(np.abs(big))))
    return t.shape != big.shape


@PROP.sub("execute", fixed(words=st.lists(st.text(alphabet=st.sampled_from(list("ab1-_.*$;|&éß")), min_size=1, max_size=6), min_size=1, max_size=5), sep=st.sampled_from([" ", "  ", "\t"]), bad=st.sampled_from([None, 1, ["echo"], b"echo"])), quick=120, factor=5, shards=4, rule="several arguments")
def execute_(c):
    out, err = execute("printf %s\\n " + c["sep"].join(c["words"]))
    need(out == "".join(w + "\n" for w in c["words"]) and err == "", lambda: f"output {out!r}, errors {err!r} for {c['words']}")
    out, err = execute("ls /nonexistent-verif-path")
    need(out == "" and re.search("nonexistent-verif-path", err) is not None, lambda: f"output {out!r}, errors {err!r}")
    raises(TypeError, lambda: execute(c["bad"]), f"execute({c['bad']!r})")
    return len(c["words"]) > 1
