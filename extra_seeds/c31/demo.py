import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

import sys, io
err = io.StringIO(); sys.stderr = err
e = Ellipsoid(np.zeros(2), np.diag([1., 0.]), abs_tol=1e-3)
Ellipsoid.minksum_ea([e, Ellipsoid(np.eye(2))], np.eye(2))
sys.stderr = sys.__stderr__
assert err.getvalue() == '', err.getvalue()
