import m2
from common import *

def check(c):
    m2.decide(c, [("c05.cc", ["PART=%d" % i], "_%d" % i) for i in range(6)], floor=130)
    c.assumptions = ["children are uninterpreted pre-bases with 1 or 2 index digits and fixed local sizes; 1 to 3 children", "size_type digits below 2^16 (no overflow of the merged digits)"]

main("C05", check)
