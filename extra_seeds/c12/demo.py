import numpy as np
from ellipy.gras.sym.sym import is_dependent, var_replace

assert var_replace(np.array([['t*t+1']]), 't', 'a')[0, 0] == '(a)*(a)+1'
