import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

a = [Ellipsoid(np.diag([1., 4., 0.])), Ellipsoid(np.eye(3))]
d = np.array([[0.], [0.], [1.]])
try:
    r = Ellipsoid.minksum_ea(a, d)[0]
    ok = np.all(np.isfinite(r.get_shape_mat()))
except ValueError:
    ok = False
assert ok
