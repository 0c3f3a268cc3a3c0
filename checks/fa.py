"""Function approximator set-ups."""
from .common import *

KINDS = ["WLS", "WLS-no-offset", "RBFN", "LWR", "LWR-1", "GPR"]


def mk_fa(w, kind, d_in=1, reg=None):
    reg = reg if reg is not None else S("reg", lo="0.05", hi="0.3")
    if kind == "WLS":
        return w.new("FunctionApproximatorWLS", TRUEV, reg)
    if kind == "WLS-no-offset":
        return w.new("FunctionApproximatorWLS", FALSEV, reg)
    n = {1: num(3), 2: w.list(num(2), num(3))}[d_in]
    if kind == "RBFN":
        return w.new("FunctionApproximatorRBFN", n, S("height", lo="0.3", hi="0.8"), reg)
    if kind == "LWR":
        return w.new("FunctionApproximatorLWR", n, S("height", lo="0.3", hi="0.8"), reg)
    if kind == "LWR-1":
        return w.new("FunctionApproximatorLWR", {1: num(1), 2: w.list(num(1), num(1))}[d_in], S("height", lo="0.3", hi="0.8"), reg)
    return w.new("FunctionApproximatorGPR", S("cov", lo="0.5", hi="2"), S("len", lo="0.5", hi="1"))


NS = {1: 5, 2: 8}


def data(w, d_in, flat=False, pre="", n=None, tcol=False):
    n = n or NS[d_in]
    x = w.arr(pre + "X", n, lo="-2", hi="2") if flat else w.arr(pre + "X", n, d_in, lo="-2", hi="2")
    return x, w.arr(pre + "t", *((n, 1) if tcol else (n,)), lo="-3", hi="3")


def fmods(n=3):
    return [ri.Model(2100 + 31 * k + 1000 * int(os.environ.get("VERIF_SEED") or 1)) for k in range(n * (3 if thorough() else 1))]


CLS = {"WLS": "FunctionApproximatorWLS", "WLS-no-offset": "FunctionApproximatorWLS", "RBFN": "FunctionApproximatorRBFN",
       "LWR": "FunctionApproximatorLWR", "LWR-1": "FunctionApproximatorLWR", "GPR": "FunctionApproximatorGPR"}
