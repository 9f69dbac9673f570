import numpy as np
from ellipy.gras.sym.sym import is_dependent, var_replace

assert var_replace(np.array([[-1e-5]]), 't', 'a')[0, 0] == '-0.00001'
