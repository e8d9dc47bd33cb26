import m2
from common import *

def check(c):
    m2.decide(c, [("c17.cc", ["PART=%d" % i], "_%d" % i) for i in range(9)] + [("c17.cc", ["PART=%d" % i, "TEMPORARY"], "_%dt" % i) for i in (0, 3, 6)], floor=70, compile_is_violation=m2.repo_error)
    c.assumptions = ["grid topology: a constant two-dimensional mock grid (one quadrilateral, two triangles, inner, boundary and processor-boundary edges); the entity mapper and the reference elements are stand-ins with that topology; sub-domains: 13 insertion sequences, interfaces: 10 pairs"]

main("C17", check)
