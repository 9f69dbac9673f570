import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

from ellipy.gras.gen.gen import sqrt_pos
assert raises(lambda: sqrt_pos(np.array([1., -1.]), 1e-3))
