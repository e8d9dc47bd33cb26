import m2
from common import *

def check(c):
    m2.decide(c, [("c03.cc", ["PART=%d" % i], "_%d" % i) for i in range(5)], floor=68)
    c.assumptions = ["allocation succeeds"]

main("C03", check)
