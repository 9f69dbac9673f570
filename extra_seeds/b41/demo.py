import numpy as np
from ellipy.gras.gen.gen import MatVector as M
a = np.arange(8.).reshape((2, 2, 2)); b = np.array([[1., 2.], [3., 5.]])
assert np.allclose(M.r_multiply(a, b, use_sparse_matrix=True), M.r_multiply(a, b))
