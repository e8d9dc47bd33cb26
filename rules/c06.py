import m2
from common import *

def check(c):
    m2.decide(c, [("c06.cc", ["PART=%d" % i] + ["_GLIBCXX_ASSERTIONS"]*(i == 3), "_%d" % i) for i in range(4)], floor=48)
    c.assumptions = ["pre-bases are uninterpreted; their answers depend on the grid view and on the grid view of the last index initialisation", "index digits below 2^16"]

main("C06", check)
