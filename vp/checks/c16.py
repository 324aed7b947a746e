"""C16: step-size and mass adaptation."""
from vp import hmcrun
from vp.core import Sub

SUBCHECKS = [
    Sub('adaptation', lambda: hmcrun.hmc_case('any'), hmcrun.run),
    Sub('law', lambda: hmcrun.law_case(True), hmcrun.law),
]
