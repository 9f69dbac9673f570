import numpy as np
from ellipy.gen.common.common import abs_rel_compare, is_member
from ellipy.gen.dict.dict import dict_compare, dict_compare_vec

a = np.array([[{'a': 1.}, {'a': 2.}], [{'a': 3.}, {'a': 4.}]])
assert dict_compare(a, np.asfortranarray(a))[0]
