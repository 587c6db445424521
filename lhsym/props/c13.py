"""C13: Multi-revolution transfers take the requested time in the requested revolutions."""
from .common import TRUST, MULTI
from . import transfer as T, c10

NAMES = MULTI
LEVEL = "other"
METHOD = (c10.METHOD + " With M revolutions that combination of angles has to lie between 2 pi M and 2 pi (M + 1), so that a transfer is returned only if there is one. "
          "Whether an impossible request is refused with ValueError is replayed for problems far below the minimum.")
BOUNDS = T.BOUNDS.replace("M in {0, 1, 2}", "M in {1, 2}")
ASSUMPTIONS = c10.ASSUMPTIONS
on_return = c10.on_return


def jobs(tier):
    js = c10.jobs_of(NAMES, tier, Ms=(1, 2), checks=("tof", "revs"))
    for j in js:
        if tier == "quick":
            j["budget"] = 30
    return [j for j in js if tier != "quick" or j["args"]["M"] == 1 or j["args"]["pro"]]
