import m2
from common import *

def check(c):
    m2.decide(c, [("c02.cc", [], "")], floor=50)
    c.assumptions = ["allocation succeeds", "self-move-assignment is outside the contract (documented in the code)"]

main("C02", check)
