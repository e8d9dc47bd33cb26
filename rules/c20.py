import m2
from common import *

def check(c):
    u = [("c20n.cc", ["PART=%d" % i, "-ffinite-math-only"], "n%d" % i) for i in (1, 0, 2, 5, 6, 4, 3)]
    u += [("c20.cc", ["PART=%d" % i] + x, "p%d%d" % (i, len(x))) for i in (0, 1) for x in ([], ["DIAGONAL"])]
    m2.decide(c, u, floor=50, compile_is_violation=m2.repo_error)
    c.assumptions = ["Jacobian, inverse Jacobian and integration element of the geometry are uninterpreted functions of element and position; local bases of the Piola witnesses are uninterpreted, those of the node witnesses are dune-localfunctions'",
                     "nearest-face regions of the normal field are represented by one interior point each"]

main("C20", check)
