import numpy as np
from ellipy.gras.sym.sym import is_dependent, var_replace

assert is_dependent(np.array([['1', 't'], ['0', 'x']]))
assert is_dependent(np.array([['t']]))
