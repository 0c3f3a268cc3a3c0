"""DMP set-ups shared by several checks."""
from .common import *

DMP_TYPES = ["IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013", "SCT23_NO_SCALING_DAMPING", "SCT23_DAMPING", "2022"]
SCALINGS = ["NO_SCALING", "G_MINUS_Y0_SCALING", "AMPLITUDE_SCALING"]


def mk_dmp(w, D, dmp_type=None, scaling=None, fas=True, pre="", **kw):
    fl = fa_list(w, D) if fas else w.list()
    a = {}
    if dmp_type:
        a["dmp_type"] = strv(dmp_type)
    if scaling:
        a["forcing_term_scaling"] = strv(scaling)
        if scaling == "AMPLITUDE_SCALING":
            a["scaling_amplitudes"] = w.arr(pre + "amp", D, pos=True)
    a.update(kw)
    rg = dict(lo="0.1", hi="0.9") if dmp_type and "SCT23" in dmp_type else {}
    rg2 = dict(lo="1.1", hi="2.5") if dmp_type and "SCT23" in dmp_type else {}
    return w.new("Dmp", S(pre + "tau", pos=True), w.arr(pre + "y0", D, **rg), w.arr(pre + "g", D, **rg2), fl, **a)
