"""Meshes without interior edges."""
import numpy as np
from . import gen

def islands(c):
    """A mesh made of triangles that share no edge: every edge is a boundary edge."""
    rng = c.rng
    pts, tris = [], []
    for i in range(int(rng.integers(1, 5))):
        while True:
            q = rng.uniform(-1, 1, (3, 2))
            if gen.quality(q, np.array([[0, 1, 2]]))[0][0] > .1:
                break
        tris.append([len(pts), len(pts)+1, len(pts)+2] if rng.random() < .5 else [len(pts)+2, len(pts)+1, len(pts)])
        pts += (q + [3*i, 0]).tolist()
    pts = np.array(pts)*float(rng.choice([1., 1e-3, 50.])) 
    z = float(rng.choice([0, 0, 1., -3.]))
    return gen.Spec(np.c_[pts, np.full(len(pts), z)], tris, gen.ids(rng, 'sparse', len(pts)), gen.ids(rng, 'shuffle', len(tris)), base='islands')
