"""Execution points of the library: every call, line and return event in its
files, and the instructions that store to shared state."""
import dis
import os
import sys
from functools import lru_cache

from . import base

STORES = {"STORE_ATTR", "DELETE_ATTR", "STORE_GLOBAL", "DELETE_GLOBAL", "STORE_DEREF"}


def _dirs():
    r = os.path.realpath(base.REPO)
    return tuple({os.path.join(d, "schubertpy") + os.sep for d in (r, base.REPO)})


DIRS = _dirs()


@lru_cache(maxsize=None)
def mine(filename):
    return filename.startswith(DIRS) and "testcases" not in filename


@lru_cache(maxsize=None)
def stores(code):
    """Offsets of the instructions that write shared state."""
    return frozenset(i.offset for i in dis.get_instructions(code) if i.opname in STORES)


def tracer(point, opcodes=True):
    """A trace function calling point(kind, code, where) at every point."""
    def local(frame, event, arg):
        if event == "line":
            point("line", frame.f_code, frame.f_lineno)
        elif event == "opcode":
            if frame.f_lasti in stores(frame.f_code):
                point("store", frame.f_code, frame.f_lasti)
        elif event == "return":
            point("return", frame.f_code, frame.f_lineno)
        return local

    def trace(frame, event, arg):
        if event != "call" or not mine(frame.f_code.co_filename):
            return None
        if opcodes and stores(frame.f_code):
            frame.f_trace_opcodes = True
        point("call", frame.f_code, 0)
        return local
    return trace


def record(text, ns):
    """Run an operation and list its points as (kind, function, where)."""
    pts = []

    def point(kind, code, where):
        pts.append((kind, code.co_filename.rsplit("/", 1)[-1] + ":" + code.co_name, where))
    sys.settrace(tracer(point))
    try:
        eval(text, ns)
    except Exception:
        pass
    finally:
        sys.settrace(None)
    return pts


def choose(pts, first, last):
    """Indices of the first and last few occurrences of each location; all if first is None."""
    if first is None:
        return list(range(len(pts)))
    occ = {}
    for i, p in enumerate(pts):
        occ.setdefault(p, []).append(i)
    out = set()
    for v in occ.values():
        out.update(v[:first])
        out.update(v[len(v) - last:] if last else [])
    return sorted(out)
