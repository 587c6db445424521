"""C08: Universal-variable solvers return two states of one and the same conic."""
from .c07 import LEVEL, METHOD, BOUNDS, ASSUMPTIONS, jobs_of

NAMES = ("gooding1990", "izzo2015", "der2011", "arora2013", "vallado2013", "negrete2024", "mcelreath2025")


def jobs(tier):
    return jobs_of(NAMES, tier)
