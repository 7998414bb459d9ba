"""C43: arguments mean the same in every spelling."""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

from harness.core import Prop
from harness.gen import fixed, seeds
from harness.oracle import need
from props.catalogue import ENTRIES, SOLVERS, Call, flat, respell
from props.c37 import Case

PROP = Prop(
    "C43",
    [
        "the order of the arguments is that of the signatures at the pinned commit",
        "numbers are spelled as Python numbers and as numpy scalars; those of single precision are exact, but may lower the precision of what is computed with them (compared to 1e-4)",
        "results are compared to 1e-12 of their size",
    ],
)


def respelled(call, spell):
    """The call with its arguments spelled differently: result, how, number given by position."""
    s = Case(spell, False, False)
    k = s.n(0, call.limit) if s.flag() else call.limit
    extra = dict(call.extra)
    if extra:
        extra = {"factor": respell(s, extra["factor"], "float"), "where": s.flag()}
    if call.name in SOLVERS:
        extra["spelled"] = True
    pos = [respell(s, a.value, a.kind) for a in call.args[:k]]
    rest = [(a.name, respell(s, a.value, a.kind)) for a in call.args[k:]]
    kw = dict(rest[i] for i in s.perm(len(rest)))
    how = [("", "", v) for v in extra.values()] + [(a.name, a.kind, v) for a, v in zip(call.args, pos)] + [(n, "by name", v) for n, v in kw.items()]
    return call.fn(*pos, **kw, **extra), how, k


def check(c):
    case = Case(0, False, False)
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        want = Call(c["name"], c["seed"])()
        try:
            got, how, k = respelled(Call(c["name"], c["seed"]), c["spell"])
        except Exception as e:
            raise need(False, lambda: f"{c['name']}: {type(e).__name__}: {e}, fine when every argument is given by name with plain values") from e
    got, want = flat(got), flat(want)
    half = any(isinstance(v, np.float32) for _, _, v in how)
    tell = f"{c['name']} with {[(n, kind, v) for n, kind, v in how if not callable(v)]}"[:700]
    need(len(got) == len(want), lambda: f"{tell}: {len(got)} results, {len(want)} when every argument is given by name with plain values")
    for g, w in zip(got, want):
        if w.dtype.kind in "OUS":
            need(g.dtype.kind == w.dtype.kind, lambda: f"{tell}: other results")
            continue
        case.same(f"{tell}, against all arguments by name with plain values", g, w, rtol=1e-4 if half else 1e-12, slack=0)
    return (k > 0 or c["name"] in ("positivity_op", "cost_options")) and any(case.pairs)


def register(sub_name, names, quick, shards):
    def sub(c):
        return check(c)

    sub.__doc__ = f"The same call spelled differently: {', '.join(names)}."
    PROP.sub(sub_name, fixed(name=st.sampled_from(names), seed=seeds, spell=seeds), quick=quick, factor=20, shards=shards, rule="something is spelled differently and some result is not zero")(sub)


register("solvers", sorted(SOLVERS | {"condat_at_once"}), 1500, 8)
register("functions", sorted(set(ENTRIES) - SOLVERS - {"condat_at_once"}), 4000, 8)
