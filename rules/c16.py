import m2
from common import *

def check(c):
    m2.decide(c, [("c16.cc", ["PART=%d" % i], "_%d" % i) for i in range(4)], floor=58)
    c.assumptions = ["capacity up to four, element values symbolic; every state (first slot, size) of the ring buffer is reached once, then each operation and two more are applied"]

main("C16", check)
