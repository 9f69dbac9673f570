import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

q = np.diag([1., 1e-4])
r = Ellipsoid.is_degenerate([Ellipsoid(q, abs_tol=1e-3), Ellipsoid(q, abs_tol=1e-7)])
assert r.tolist() == [True, False]
