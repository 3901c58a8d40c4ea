"""C18: statistics = sum of the operations' costs; histories from CommGen.tla, running totals kept by CommTrace.tla."""
from _comm import *


def go(c):
    ops = ["bcast", "scatter", "gather", "allgather", "reduce", "allreduce", "send", "barrier", "bcastobj", "sendobj", "toggle", "reset", "stats", "stats", "stats"]
    comm_check(c, ops, [1, 2, 3, 4, 5, 6] if c.thorough else [1, 2, 3, 4, 5], 60 if c.thorough else 14, 30)


main("C18", go)
