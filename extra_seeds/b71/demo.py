import numpy as np
from ellipy.gen.common.common import abs_rel_compare, is_member
from ellipy.gen.dict.dict import dict_compare, dict_compare_vec

r = abs_rel_compare(np.array([1000., 1.]), np.array([1010., 1.5]), .1, .1, np.abs)
assert abs(r[4] - .5) < 1e-12, r
