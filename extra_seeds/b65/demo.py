import numpy as np
from ellipy.gras.geom.tri.tri import *
from ellipy.gras.gen.gen import sort_rows_tol

v = np.array([[0., 0, 0], [1, 0, 0], [0, 1, 0]])
w = np.array([[0., 0, 0], [1, 0, 0], [0, 1.5, 0]])
f = np.array([[0, 1, 2]])
assert not is_tri_equal(v, f, w, f, 1e-6)[0] and not is_tri_equal(w, f, v, f, 1e-6)[0]
