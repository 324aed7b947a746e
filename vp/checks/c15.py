"""C15: every HMC iteration is one Metropolis-corrected leapfrog trajectory of
the given target, chain by chain."""
from vp import hmcrun
from vp.core import Sub


SUBCHECKS = [
    Sub('transition', lambda: hmcrun.hmc_case('none'), hmcrun.run),
    Sub('law', lambda: hmcrun.law_case(False), hmcrun.law),
]
