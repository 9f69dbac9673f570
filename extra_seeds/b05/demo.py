import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

e = Ellipsoid(np.eye(3), n_plot_2d_points=50, n_plot_3d_points=300)
c = Ellipsoid.get_copy([e])
assert Ellipsoid.get_n_plot_3d_points(c).flat[0] == 300
