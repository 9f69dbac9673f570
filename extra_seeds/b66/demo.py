import numpy as np
from ellipy.gras.geom.tri.tri import *
from ellipy.gras.gen.gen import sort_rows_tol

v = np.array([[0., 0, 0], [1, 0, 0], [0, 1, 0]])
w, f = shrink_face_tri(v, np.array([[0, 1, 2], [0, 2, 1]]), 0., 1, lambda x: 2 * x)
assert np.array_equal(w[:3], v)
