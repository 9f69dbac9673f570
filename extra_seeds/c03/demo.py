import numpy as np
from ellipy.gras.geom.sup.sup import sup_geom_diff_2d, sup_geom_diff_3d

e = np.eye(3)
l = np.hstack((e, -e, np.array([[1., 1, 0]]).T / np.sqrt(2)))
r1 = np.array([3., 3, 3, 3, 3, 3, 9]); r2 = np.ones(7)
d = sup_geom_diff_3d(r1, r2, l)
assert np.allclose(d[:6], 2.) and np.allclose(d[6], 2 * np.sqrt(2)), d
