import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

a = np.array([Ellipsoid(np.eye(2)) for _ in range(18)], dtype=object)
a[3] = Hyperplane(np.array([1., 0.]), 1.)
assert raises(lambda: Ellipsoid.is_empty(a))
assert raises(lambda: Ellipsoid.get_copy(a))
