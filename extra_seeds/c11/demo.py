import numpy as np
from ellipy.gras.sym.sym import is_dependent, var_replace

assert is_dependent(np.array([['1', '2*k'], ['0', 'x']]), True)
