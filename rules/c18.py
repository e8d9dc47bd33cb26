import m2
from common import *

def check(c):
    u = [("c18b.cc", ["PART=%d" % i], "b%d" % i) for i in (14, 15, 10)]
    u += [("c18o.cc", ["PART=%d" % i, "-ffinite-math-only"], "o%d" % i) for i in (10, 11, 15, 17, 16, 14)]
    u += [("c18m.cc", ["PART=%d" % i], "m%d" % i) for i in (1, 5, 3, 4, 0, 2)]
    u += [("c18p.cc", ["PART=%d" % i], "p%d" % i) for i in range(14, -1, -1)]
    u += [("c18t.cc", ["PART=%d" % i], "t%d" % i) for i in range(4)]
    u += [("c18b.cc", ["PART=%d" % i], "b%d" % i) for i in list(range(13, 10, -1)) + list(range(9, -1, -1))]
    u += [("c18.cc", ["PART=%d" % i], "n%d" % i) for i in range(12, -1, -1)]
    u += [("c18o.cc", ["PART=%d" % i, "-ffinite-math-only"], "o%d" % i) for i in (13, 12, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0)]
    m2.decide(c, u, floor=60, compile_is_violation=m2.repo_error)
    c.assumptions = ["grids: single elements of every reference topology and mixed two/three-dimensional meshes with symbolic sizes; sub-entity indices and vertex ids as documented by the grid interface; the entity mapper and reference elements are stand-ins",
                     "dune-localfunctions places the Lagrange nodes of order k lexicographically in its own vertex order (checked there, not here)",
                     "orientation witnesses are decided under finite-math rules"]

main("C18", check)
