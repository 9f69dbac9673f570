import numpy as np
from ellipy.gras.la.la import orth_transl
a = np.array([1., 0.]); b = np.array([-np.cos(0.02), np.sin(0.02)])
o = orth_transl(a, b)
assert np.allclose(o @ a, b, atol=1e-9)
