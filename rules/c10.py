import m2
from common import *

def check(c):
    units = [("c10.cc", ["MARKED=%s" % m] + d, "_%s_%d" % (m, len(d))) for m in ("0", "0x0b35", "0x14ca", "0x0f0f") for d in ([], ["LI_DERIVATIVE"])]
    m2.decide(c, units, floor=60)
    c.assumptions = ["grid of two elements, uninterpreted local interpolation, geometry and function", "the number of coefficients per node is at most two"]

main("C10", check)
