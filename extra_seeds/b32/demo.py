import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

from ellipy.gras.la.la import reg_mat
r = reg_mat(np.diag([3., 0.]), 1e-2)
assert np.allclose(r, np.diag([3., 1e-2]), atol=1e-9)
