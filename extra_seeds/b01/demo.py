import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

h1 = Hyperplane(np.array([3., 4.]), 10.)
h2 = Hyperplane(np.array([6., 8.]), 1.)
Hyperplane.is_parallel([h1], [h2])
n1, s1 = h1.parameters()
assert np.allclose(n1, [3., 4.]) and s1 == 10., n1
