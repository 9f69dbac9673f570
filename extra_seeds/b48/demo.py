import numpy as np
from ellipy.gras.la.la import is_mat_not_deg
assert is_mat_not_deg(np.diag([1., 1.5e-3]), 1e-3)
