import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

from ellipy.gras.gen.gen import SquareMatVector
a = np.dstack((np.eye(2), np.array([[1., 2.], [0., 1.]])))
assert raises(lambda: SquareMatVector.make_pos_definite_by_eig(a))
