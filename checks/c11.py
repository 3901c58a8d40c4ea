"""C11: what communication operations deliver; histories from CommGen.tla, verdict by CommTrace.tla."""
from _comm import *


def go(c):
    ops = ["bcast", "scatter", "gather", "allgather", "reduce", "allreduce", "allreduce", "send", "barrier", "bcastobj", "sendobj", "bcastgrp", "bcastobjgrp"]
    comm_check(c, ops, [1, 2, 3, 4, 5, 6] if c.thorough else [1, 2, 3, 4, 5], 60 if c.thorough else 14, 25)


main("C11", go)
