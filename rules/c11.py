import m2
from common import *

def check(c):
    m2.decide(c, [("c11.cc", ["PART=%d" % i, "SUB=%d" % k], "_%d_%d" % (i, k)) for i, n in ((1, 7), (0, 1), (2, 1)) for k in range(n)], floor=44)
    c.assumptions = ["allocation succeeds", "containers of up to three entries per level, digits symbolic"]

main("C11", check)
