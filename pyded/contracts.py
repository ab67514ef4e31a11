"""All contracts of one package."""
from . import c_math1, c_num, c_sym, c_utils, c_intsct, c_od


def build(pkg):
    c_math1.build(pkg)
    H = c_num.build(pkg)
    H.update(c_sym.build(pkg, H))
    H.update(c_utils.build(pkg, H))
    H.update(c_intsct.build(pkg, H))
    H.update(c_od.build(pkg, H))
