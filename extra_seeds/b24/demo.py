import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

d = {'abs_tol': 1e-3, 'x': 1}
Properties.parse_prop(d, ['abs_tol'])
assert d == {'abs_tol': 1e-3, 'x': 1}
