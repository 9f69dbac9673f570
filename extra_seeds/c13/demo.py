import numpy as np
from ellipy.gras.sym.sym import is_dependent, var_replace

assert var_replace(np.array([['t**2', '3*t']]), 't', 'a')[0, 0] == '(a)**2'
