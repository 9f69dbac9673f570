import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

e = Ellipsoid(np.array([1., 2.]), np.eye(2))
c = e.get_center_vec()
c[0] = 100.
assert e.get_center_vec()[0] == 1.
