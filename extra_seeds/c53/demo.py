import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

a = [Ellipsoid(np.eye(2)), Ellipsoid(np.diag([1., 0.]))]
assert raises(lambda: Ellipsoid.polar(a))
