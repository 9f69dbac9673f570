import numpy as np
from ellipy.gras.gen.gen import MatVector, SquareMatVector, SymmetricMatVector
r = np.random.RandomState(1)

b, a = r.rand(3, 3, 4), r.rand(2, 3)
o = SquareMatVector.lr_multiply(b, a, 'L')
assert np.allclose(o, np.dstack([a @ b[:, :, t] @ a.T for t in range(4)]))
