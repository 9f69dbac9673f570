import numpy as np
from ellipy.gras.geom.sup.sup import sup_geom_diff_2d, sup_geom_diff_3d

a = np.linspace(0, 2 * np.pi, 8, endpoint=False)
l = np.vstack((np.cos(a), np.sin(a)))
sq = np.abs(l).sum(axis=0) * 2.
for k in range(8):
    r = np.roll(np.arange(8), k)
    # square minus a disk: the square shrinks by the radius
    d = sup_geom_diff_2d(sq[r], np.ones(8), l[:, r])
    assert np.allclose(d, (np.abs(l).sum(axis=0))[r]), (k, d)
