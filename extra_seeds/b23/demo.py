import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

h = Hyperplane(np.array([1., 0.]), 1., rel_tol=1e-2)
c = Hyperplane.get_copy([h])
assert Hyperplane.get_rel_tol(c, f_prop_fun=None).flat[0] == 1e-2
