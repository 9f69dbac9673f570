import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

a = np.empty((6,), dtype=object)
for i in range(6):
    a[i] = Ellipsoid(np.array([float(i), 0.]), np.eye(2))
a = a.reshape((2, 3)).T
d = Ellipsoid.to_dict(a)[0]
for x, y in zip(a.flat, d.flat):
    assert x.get_center_vec()[0] == y['center_vec'][0]
