"""C10: trusted third party: any history of requests and sessions stays in lockstep."""
from _tuples import *


def go(c):
    run(c, "TTP", [2, 3, 1, 4, 2] if c.thorough else [2, 3, 1, 4], 24 if c.thorough else 9, 26 if c.thorough else 18, 3, "ttp")


main("C10", go)
