"""Encoding between Python and the specification: numbers are [hi, lo] halves of binary64."""
import struct
import numpy as np

INT_KEYS = {"dimensions", "coordinates", "i", "j", "k", "max_substeps", "max_time_step_attempts",
            "cg_max_iter", "save_interval", "max_steps"}


def raw(x):
    hi, lo = struct.unpack(">ii", struct.pack(">d", float(x)))
    return [hi, lo]


def unraw(p):
    return struct.unpack(">d", struct.pack(">ii", *p))[0]


def arr(a):
    return [raw(x) for x in np.asarray(a, dtype=np.float64).reshape(-1)]


def doc(v, key=None):
    """A configuration document: numbers become pairs, except counters; None entries are dropped."""
    if isinstance(v, dict):
        d = {k: doc(x, k) for k, x in v.items() if x is not None}
        return d if d else {"none": 0}
    if isinstance(v, (list, tuple)):
        return [doc(x, key) for x in v]
    if isinstance(v, bool) or isinstance(v, str):
        return v
    if key in INT_KEYS:
        return int(v)
    return raw(v)
