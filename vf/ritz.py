"""Independent continuum reference: Ritz solution of a rectangular first-order shear-deformable
laminate with Legendre polynomials (static deflection under pressure, and buckling)."""
import numpy as np
from numpy.polynomial import legendre as L

def basis(n, left, right, x):
    """n polynomials on [-1,1] (values, d/dxi), vanishing at the marked ends."""
    V = L.legvander(x, n+1)
    C = np.eye(n+2)
    D = np.array([L.legval(x, L.legder(C[i])) if i else 0*x for i in range(n+2)]).T
    f, df = np.ones_like(x), np.zeros_like(x)
    if left:
        f, df = f*(1+x), df*(1+x) + f
    if right:
        f, df = f*(1-x), df*(1-x) - f
    V, D = V[:, :n], D[:, :n]
    return f[:, None]*V, df[:, None]*V + f[:, None]*D

def field(n, fix, xi, eta):
    """fix: (x-, x+, y-, y+) True where the field vanishes; returns N, Nx, Ny at tensor points."""
    a, da = basis(n, fix[0], fix[1], xi)
    b, db = basis(n, fix[2], fix[3], eta)
    k = lambda p, q: np.einsum('ai,bj->abij', p, q).reshape(len(xi)*len(eta), -1)
    return k(a, b), k(da, b), k(a, db)

def plate(A, B, D, G, a, b, fixes, n=8):
    """Stiffness and evaluation helpers.  fixes: dict u,v,w,px,py -> 4 booleans.
    A,B,D 3x3 laminate; G = (k13*Gxz*h, k23*Gyz*h)."""
    xi, wx = L.leggauss(n+4)
    W = np.outer(wx, wx).ravel()*a*b/4
    F = {}
    for k in ('u', 'v', 'w', 'px', 'py'):
        N, X, Y = field(n, fixes[k], xi, xi)
        F[k] = (N, X*2/a, Y*2/b)
    m = F['w'][0].shape[1]
    Z = np.zeros_like(F['w'][0])
    col = lambda **kw: np.hstack([kw.get(k, Z) for k in ('u', 'v', 'w', 'px', 'py')])
    ex = col(u=F['u'][1]); ey = col(v=F['v'][2]); exy = col(u=F['u'][2], v=F['v'][1])
    kx = col(px=F['px'][1]); ky = col(py=F['py'][2]); kxy = col(px=F['px'][2], py=F['py'][1])
    gx = col(w=F['w'][1], px=F['px'][0]); gy = col(w=F['w'][2], py=F['py'][0])
    C = np.block([[A, B], [B, D]])
    S = [ex, ey, exy, kx, ky, kxy]
    K = sum(C[i, j]*(S[i]*W[:, None]).T @ S[j] for i in range(6) for j in range(6))
    K = K + G[0]*(gx*W[:, None]).T @ gx + G[1]*(gy*W[:, None]).T @ gy
    q = col(w=F['w'][0])
    return dict(K=K, load=(q*W[:, None]).sum(axis=0), wx=col(w=F['w'][1]), wy=col(w=F['w'][2]), W=W, ww=(q*W[:, None]).T @ q, n=n, fixes=fixes, a=a, b=b, m=m)

def center(P, at=(0., 0.)):
    N, _, _ = field(P['n'], P['fixes']['w'], np.array([at[0]]), np.array([at[1]]))
    v = np.zeros(5*P['m']); v[2*P['m']:3*P['m']] = N[0]
    return v

def solve(P, f):
    K = P['K']
    d = 1/np.sqrt(np.diag(K))
    return d*np.linalg.lstsq(K*np.outer(d, d), d*f, rcond=None)[0]

def buckling(P, Nx, Ny, Nxy):
    """Positive load factors (smallest first) for uniform in-plane resultants (tension positive), and
    the mean square wave number of the first mode."""
    import scipy.linalg
    W = P['W'][:, None]
    XX, YY, XY = (P['wx']*W).T @ P['wx'], (P['wy']*W).T @ P['wy'], (P['wx']*W).T @ P['wy']
    G = Nx*XX + Ny*YY + Nxy*(XY + XY.T)
    K = P['K']
    d = 1/np.sqrt(np.diag(K)); K = K*np.outer(d, d); G = G*np.outer(d, d)
    mu, V = scipy.linalg.eigh(-G, K)
    v = d*V[:, -1]
    wave = (v @ (XX + YY) @ v)/(v @ P['ww'] @ v)
    mu = mu[mu > 1e-10*np.abs(mu).max()]
    return np.sort(1/mu), wave

def bc(kind, free_inplane=False):
    """kind per edge (x-, x+, y-, y+): 's' hard simple support, 'c' clamped, 'f' free."""
    t = lambda s: tuple(s)
    w = tuple(k != 'f' for k in kind)
    px = tuple((k == 'c') or (k == 's' and i >= 2) for i, k in enumerate(kind))
    py = tuple((k == 'c') or (k == 's' and i < 2) for i, k in enumerate(kind))
    ip = (False,)*4 if free_inplane else (True,)*4
    return dict(w=w, px=px, py=py, u=ip, v=ip)
