import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

e = Ellipsoid(np.eye(3), n_plot_3d_points=200)
n = e.get_rho_boundary()[3].shape
Properties.set_n_plot_3d_points(2000)
m = e.get_rho_boundary()[3].shape
Properties.set_n_plot_3d_points(200)
assert n == m, (n, m)
