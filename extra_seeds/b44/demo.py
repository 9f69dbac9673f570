import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

a = np.empty((4,), dtype=object)
for i in range(4):
    a[i] = Ellipsoid(np.eye(2) * (i + 1.))
a = a.reshape((2, 2))
p = Ellipsoid.polar(a)
assert np.allclose(p[0, 1].get_shape_mat(), np.eye(2) / 2.)
