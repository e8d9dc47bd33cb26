import m2
from common import *

def check(c):
    u = [(0, p, ["SECOND"]) for p in (3, 2, 1, 0)] + [(1, 2, []), (2, 2, [])] + [(4, p, ["SECOND", "ONLYDERIVATIVES=%d" % s]) for p in (2, 1) for s in (0, 1)] \
        + [(1, 1, []), (2, 1, []), (3, 1, [])] + [(d, p, ["NOEVAL"]) for d, p in ((1, 3), (1, 0), (2, 0))]
    m2.decide(c, [("c21.cc", ["PART=%d" % d, "PORDER=%d" % p] + x, "_%d" % i) for i, (d, p, x) in enumerate(u)], floor=82)
    c.assumptions = ["the grid is structured and ordered lexicographically, as documented", "knot vectors are fixed: uniform, and one with distinct knots at non-uniform distances"]

main("C21", check)
