"""C11: Direct transfers of Vallado, Negrete, McElreath and De la Torre take the requested time."""
from .c10 import LEVEL, METHOD, BOUNDS, ASSUMPTIONS, jobs_of

NAMES = ("vallado2013", "negrete2024", "mcelreath2025", "delatorre2018")


def jobs(tier):
    return jobs_of(NAMES, tier)
