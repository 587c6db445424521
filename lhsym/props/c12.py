"""C12: Direct transfers of Jiang, Pan, Thorne, Avanzini, Gauss and Battin take the requested time."""
from .c10 import LEVEL, METHOD, BOUNDS, ASSUMPTIONS, jobs_of

NAMES = ("jiang2016", "pan2016", "thorne2004", "avanzini2008", "gauss1809", "battin1984")


def jobs(tier):
    return jobs_of(NAMES, tier)
