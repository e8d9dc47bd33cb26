import m2
from common import *

def check(c):
    m2.decide(c, [("c13.cc", ["PART=%d" % i], "_%d" % i) for i in range(3)], floor=45, compile_is_violation=m2.repo_error)
    c.assumptions = ["polynomials over exact (wrapping) integers, floating point products up to association", "up to five coefficients; monomial degree up to three (five in one dimension)"]

main("C13", check)
