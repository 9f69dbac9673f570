import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

e = Ellipsoid(np.array([1., 2.]), np.diag([4., 0.]))
s, b = Ellipsoid.rho(e, np.array([[1., 0.], [0., 1.]]))
assert np.allclose(b[:, 1], [1., 2.])
