import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

a = np.empty((8,), dtype=object)
for i in range(8):
    a[i] = Ellipsoid(np.array([float(i), 0.]), np.eye(2))
a = a.reshape((2, 2, 2))
c = Ellipsoid.get_copy(a)
for x, y in zip(a.flat, c.flat):
    assert x.get_center_vec()[0] == y.get_center_vec()[0]
