import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

q = np.diag([1., -5e-4])
e = [Ellipsoid(q, abs_tol=1e-3), Ellipsoid(q, abs_tol=1e-3)]
d = np.array([[0.], [1.]])
s, _ = Ellipsoid.rho(e, d)
old = Properties.get_abs_tol()
Properties.set_abs_tol(1e-9)
try:
    t, _ = Ellipsoid.rho(e, d)
finally:
    Properties.set_abs_tol(old)
assert np.array_equal(s, t)
