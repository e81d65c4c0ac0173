from .. import families as F
from .. import opt as O

BOUNDS = ("orders: every cost assignment from 3-letter alphabets to up to 3 particles x 3 iterations (quick); "
          "needle: one deviating evaluation at every place of runs up to 130 iterations / 64 particles; "
          "configs: every configuration within 2 changes of the default, random draws with <=1 deviating call; "
          "calls: every sequence of 2 (thorough 3) optimize() calls over 3 cost levels and 3 lengths")
BOUNDS += F.SCALE_NOTE
BOUNDS += F.KINDS_NOTE
ASSUMPTIONS = ["costs are comparable floats or integers (no NaN)", "iters >= 1", "k within the documented range"]
HARNESSES = [
    F.orders([O.mon_best], shapes=F.default_shapes),
    F.needle([O.mon_best]),
    F.configs_family([O.mon_best], O.DEFAULT),
    F.configs_family([O.mon_best], dict(O.DEFAULT, opt="general:ring", bounds="asym", n=4), name="configs_ring", bound=1),
    F.calls_family([O.mon_best]),
    F.scale_family([O.mon_best]),
    F.extreme_family([O.mon_best]),
    F.kinds_family([O.mon_best], snapshots=False),
]
