import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

from ellipy.gras.geom.sup.sup import sup_geom_diff_3d
e = np.eye(3)
l = np.hstack((e, -e))
assert raises(lambda: sup_geom_diff_3d(np.array([1., 2, 2, 2, 2, 2]), np.ones(6), l))
