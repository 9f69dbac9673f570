import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

e = Ellipsoid(np.eye(3))
assert raises(lambda: Ellipsoid.get_projection([e], np.array([[1., -1.], [0., 1.], [0., 0.]])))
