import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

a = Ellipsoid(np.array([1000., 0.]), np.eye(2), rel_tol=1e-2)
b = Ellipsoid(np.array([1001., 0.]), np.eye(2), rel_tol=1e-6)
assert (a == b) == (b == a)
