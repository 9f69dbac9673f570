import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

e = Ellipsoid(np.array([1., 2., 3.]), np.diag([1., 4., 9.]))
p = Ellipsoid.get_projection([e], np.array([[2., 0.], [0., 5.], [0., 0.]]))[0]
assert np.allclose(p.get_center_vec(), [1., 2.]) and np.allclose(p.get_shape_mat(), np.diag([1., 4.]))
