"""C09: correlated randomness (first-party provider) over histories of computing, tracing, filling, saving, loading."""
from _tuples import *


def go(c):
    c.model("TupleCacheMC", "SPECIFICATION Spec\nINVARIANT SingleUse CacheUnused Repetition\nCONSTANTS KeySet = {1, 2}\nMaxId = 4\nMaxLen = %d\n" % (9 if c.thorough else 7))
    run(c, "TFP", [2, 3, 1, 2, 4] if c.thorough else [2, 3, 1, 2], 40 if c.thorough else 14, 30 if c.thorough else 20, 0, "tfp")


main("C09", go)
