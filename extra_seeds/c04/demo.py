import numpy as np
from ellipy.gras.geom.sup.sup import sup_geom_diff_2d, sup_geom_diff_3d

e = np.eye(3)
l = np.hstack((e, -e))
r1 = np.array([3., 4, 5, 2, 6, 7]); r2 = np.ones(6)
assert np.allclose(sup_geom_diff_3d(r1, r2, l), r1 - r2)
