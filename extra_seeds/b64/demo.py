import numpy as np
from ellipy.gras.geom.tri.tri import *
from ellipy.gras.gen.gen import sort_rows_tol

v, f = sphere_tri_ext(3, 42)
assert v.shape[0] == 42
