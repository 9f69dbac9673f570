import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

a = [Ellipsoid(np.eye(2), abs_tol=1e-1), Ellipsoid(np.eye(2), abs_tol=1e-8)]
assert not Ellipsoid.is_internal(a, np.array([[1.05], [0.]]), 'i')[0, 0]
