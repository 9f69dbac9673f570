import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

s, x = Ellipsoid.rho(Ellipsoid(np.eye(2)), np.ones((2, 2, 3, 2)))
assert s.shape == (2, 3, 2)
