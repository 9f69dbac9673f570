import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

assert raises(lambda: Hyperplane(np.array([1., 0.]), np.inf))
assert raises(lambda: Hyperplane(np.array([1., 0.]), -np.inf))
