"""Fork-join map over roots (the program index is shared copy-on-write)."""
import os
from multiprocessing import get_context
import absint

_job = {}


def _call(i):
    f, xs = _job["f"], _job["xs"]
    try:
        return ("ok", f(xs[i]))
    except absint.EngineError as e:
        return ("err", str(e))


def pmap(f, xs):
    xs = list(xs)
    if not xs:
        return []
    _job["f"], _job["xs"] = f, xs
    with get_context("fork").Pool(min(8, len(xs), os.cpu_count() or 1)) as p:
        return p.map(_call, range(len(xs)), chunksize=1)
