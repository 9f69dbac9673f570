import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

h = Hyperplane(np.array([1., -1., 1.]), 2.)
assert not Hyperplane.contains([h], np.array([[np.inf], [np.inf], [2.]])).flat[0]
