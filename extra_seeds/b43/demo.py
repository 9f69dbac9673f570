import numpy as np
from ellipy.gras.geom.ell.ell import quad_mat
q = np.diag([1., 2.]); x = np.array([3., 4.]); c = np.array([[1.], [2.]])
assert np.allclose(quad_mat(q, x, c), 4. + 8.)
