import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False

old = Properties.get_abs_tol()
Properties.set_abs_tol(-1.)
try:
    r = raises(lambda: Properties.parse_prop({}, ['abs_tol']))
finally:
    Properties.set_abs_tol(old)
assert r
