import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

assert not Hyperplane.is_parallel([Hyperplane(np.array([1., 0.]), 1.)], [Hyperplane(np.array([0., -1.]), 1.)])[0]
