import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

e = Ellipsoid(np.array([1., 2.]), np.diag([4., 9.]))
d = np.arange(1., 13.).reshape((2, 2, 3))
s, b = Ellipsoid.rho(e, d)
assert s.shape == (2, 3)
for i in range(2):
    for j in range(3):
        l = d[:, i, j]
        assert abs(s[i, j] - (l @ [1., 2.] + np.sqrt(4 * l[0] ** 2 + 9 * l[1] ** 2))) < 1e-9
