"""C01: see dst/storecheck.py."""
from dst import storecheck
from dst.stores import STORES
from dst.storecheck import ASSUME, MEASURE, REAL, RULE, STUB, nontrivial, run, simplify  # noqa: F401

ID = 'C01'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 400000, 'seconds': 800}}
SHRINK = ('ops', 'faults')


def gen(rng, tier, i):
    return storecheck.gen(STORES['grid'], rng, tier, i)
