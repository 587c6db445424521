"""C09: Thorne, Avanzini and De la Torre return two states of one and the same conic."""
from .c07 import LEVEL, METHOD, BOUNDS, ASSUMPTIONS, jobs_of

NAMES = ("thorne2004", "avanzini2008", "delatorre2018")


def jobs(tier):
    return jobs_of(NAMES, tier)
