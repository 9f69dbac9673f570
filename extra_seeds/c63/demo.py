import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

from ellipy.gras.gen.gen import mat_dot
assert raises(lambda: mat_dot(np.ones((2, 3, 2)), np.ones((2, 3, 2))))
