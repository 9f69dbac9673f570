import numpy as np
from ellipy.gen.common.common import abs_rel_compare, is_member
from ellipy.gen.dict.dict import dict_compare, dict_compare_vec

assert dict_compare({'a': [1000.]}, {'a': [1000.1]}, 1e-9, 1e-3)[0]
