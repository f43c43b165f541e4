"""C02: see dst/storecheck.py."""
from dst import storecheck
from dst.stores import STORES
from dst.storecheck import ASSUME, MEASURE, REAL, RULE, STUB, nontrivial, run, simplify  # noqa: F401

ID = 'C02'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 400000, 'seconds': 800}}
SHRINK = ('ops', 'faults')


def gen(rng, tier, i):
    return storecheck.gen(STORES['sounding'], rng, tier, i)
