import m2
from common import *

def check(c):
    F = ["-ffinite-math-only"]
    # the Argyris element is split into groups of functions
    u = [("c19.cc", ["ELEMENT=1", "DUAL=%d" % k] + F, "a%d" % k) for k in range(7)] + [("c19.cc", ["ELEMENT=1", p] + F, "a" + p[0]) for p in ("PARTIAL", "STENCIL")]
    f = [("c19.cc", ["ELEMENT=%d" % e, "FUNCTIONALS"] + F, "f%d" % e) for e in (5, 1, 0, 2, 3, 4)]
    s = [("c19.cc", ["ELEMENT=%d" % e, p] + F, "%s%d" % (p[0].lower(), e)) for e in (5, 3, 0, 4, 2) for p in ("PARTIAL", "STENCIL", "DUAL=0")]
    f += [("c19.cc", ["ELEMENT=%d" % e, "CONSTSIZES"] + F, "m%d" % e) for e in (3, 5)]
    m2.decide(c, f + s + u, floor=46, compile_is_violation=m2.repo_error)
    c.assumptions = ["elements are affine images of the reference simplex with symbolic matrix, offset and volume; all six vertex orders of a triangle for edge functionals",
                     "vertex mesh sizes are opaque values in the duality and functional witnesses; their computation is decided on a mesh of three elements with symbolic volumes",
                     "floating point expressions are compared as rational functions (with square roots) of their inputs, up to a relative rounding of 1e-10 in the coefficients"]

main("C19", check)
