import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

r = Hyperplane.is_parallel([Hyperplane(np.array([1., 0.]), 1.)], [Hyperplane(np.array([1., 0., 0.]), 1.)])
assert np.array(r).flat[0] is not None and np.array(r).flat[0] == False
