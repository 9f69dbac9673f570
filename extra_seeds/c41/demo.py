import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

h = Hyperplane(np.array([1., 0.]), 0.)
x = np.array([[1e-3], [0.]])
a = Hyperplane.contains(h, x).flat[0] if hasattr(Hyperplane.contains(h, x), 'flat') else Hyperplane.contains(h, x)
Properties.set_abs_tol(1e-2)
b = np.array(Hyperplane.contains(h, x)).flat[0]
Properties.set_abs_tol(1e-6)
assert bool(a) == bool(b)
