import m2
from common import *

def check(c):
    m2.decide(c, [("c14.cc", ["PART=%d" % i], "_%d" % i) for i in range(13)], floor=200, compile_is_violation=m2.repo_error)
    c.assumptions = ["leaf bases are flat with uninterpreted sizes", "std::set is modelled by a sorted array", "allocation succeeds"]

main("C14", check)
