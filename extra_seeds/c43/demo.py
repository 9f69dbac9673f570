import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

e = Ellipsoid(np.eye(2))
Properties.set_rel_tol(1e-9)
d = Ellipsoid.to_dict([e], True)[0][0]
Properties.set_rel_tol(1e-5)
assert d['rel_tol'] == 1e-5
