"""DP environment matrix: derivatives"""
from checks.p05 import grid, ASSUMPTIONS                                       # noqa: F401


def cases(tier):
    return grid("deriv", tier)
