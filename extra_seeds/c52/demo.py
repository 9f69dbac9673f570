import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

a = [Hyperplane(np.array([1., 0.]), 1.), Hyperplane()]
assert raises(lambda: Hyperplane.contains(a, np.eye(2)))
assert raises(lambda: Hyperplane.contains(a, np.ones((2, 1))))
