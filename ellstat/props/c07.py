"""C07: operations reject collections with unsuitable members or sizes."""
from .rejects import make

RULE, FLOOR, scenarios = make('C07', 300)
