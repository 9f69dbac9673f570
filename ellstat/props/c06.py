"""C06: invalid ellipsoids and hyperplanes cannot be constructed."""
from .rejects import make

RULE, FLOOR, scenarios = make('C06', 100)
