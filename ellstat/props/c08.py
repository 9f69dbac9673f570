"""C08: numeric routines reject arguments outside their domain."""
from .rejects import make

RULE, FLOOR, scenarios = make('C08', 150)
