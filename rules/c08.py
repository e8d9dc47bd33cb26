import m2
from common import *

def check(c):
    m2.decide(c, [("c08.cc", ["PART=%d" % i], "_%d" % i) for i in (0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 13, 14)] + [("c08.cc", ["PART=%d" % p, "FINECASE=%d" % k], "_%d_%d" % (p, k)) for p in (6, 12, 15) for k in range(5)], floor=160)
    c.assumptions = ["grid, geometry, basis and functions are uninterpreted except for the topology of the witness (two children per element, at most two levels between coarse and fine)", "allocation succeeds", "floating point sums are compared up to association"]

main("C08", check)
