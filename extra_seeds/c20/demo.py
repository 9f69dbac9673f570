import numpy as np
from ellipy.gras.gen.gen import MatVector, SquareMatVector, SymmetricMatVector
r = np.random.RandomState(1)

b = r.rand(2, 2, 3) + 3 * np.eye(2)[:, :, None]
v = r.rand(2, 1)
o = SquareMatVector.lr_divide_vec(b, v)
assert np.allclose(o, [float(v.T @ np.linalg.inv(b[:, :, t]) @ v) for t in range(3)])
