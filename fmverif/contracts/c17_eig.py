"""C17: gradient rule of the eigendecomposition."""
from ..registry import contract
from .common import bshape

BATCH = [(), ("B",), ("B1", "B2")]
# eps is None for the default broadening
EPS = [None, 1e-3]


def broadened(k, lam, eps):
    """conj(D) / (|D|^2 + e), D_ij = lam_j - lam_i, zero on the diagonal."""
    jnp = k.np
    delta = lam[..., None, :] - lam[..., :, None]
    sq = jnp.abs(delta) ** 2
    e = jnp.maximum((1e-12 if eps is None else eps) * jnp.amax(sq, axis=(-2, -1), keepdims=True), 1e-24)
    return jnp.conj(delta) / (sq + e) * (1 - jnp.eye(lam.shape[-1]))


def setup(k, b, eps):
    b = bshape(k, b)
    n = k.dim("N", 1, 5)
    a = k.carray("A", b + (n, n))
    gl, gv = k.carray("gl", b + (n,)), k.carray("gv", b + (n, n))
    (lam, vec), pull = k.vjp(k.m.utils.eig, a, *(() if eps is None else (eps,)))
    return b, n, a, gl, gv, lam, vec, pull


@contract("C17", funcs=["utils.eig", "utils._eig_fwd", "utils._eig"], b=BATCH, eps=EPS, samples=2)
def forward(k, b, eps):
    """The forward rule returns the plain decomposition, also when differentiated."""
    b, n, a, gl, gv, lam, vec, pull = setup(k, b, eps)
    w, v = k.np.linalg.eig(a)
    k.eq("eigenvalues", lam, w)
    k.eq("eigenvectors", vec, v)
    lam0, vec0 = k.m.utils.eig(a)
    k.eq("eigenvalues without differentiation", lam0, w)
    k.eq("eigenvectors without differentiation", vec0, v)


@contract("C17", funcs=["utils.eig", "utils._eig_bwd"], b=BATCH, eps=EPS, samples=3, tol=1e-6)
def gradient(k, b, eps):
    """V^H conj(g) = R V^H with R the cotangent of P = V^-1 dA V."""
    jnp = k.np
    b, n, a, gl, gv, lam, vec, pull = setup(k, b, eps)
    g = pull((gl, gv))
    k.shape("shape", g, b + (n, n))
    k.eq("defining equation", jnp.swapaxes(vec, -1, -2) @ g, jnp.conj(cotangent(k, lam, vec, gl, gv, eps)) @ jnp.swapaxes(vec, -1, -2))


def cotangent(k, lam, vec, gl, gv, eps):
    jnp = k.np
    adj = lambda x: jnp.conj(jnp.swapaxes(x, -1, -2))
    eye = jnp.eye(lam.shape[-1])
    F = broadened(k, lam, eps)
    S = adj(vec) @ jnp.conj(gv)
    D = jnp.real(jnp.sum(S * eye, axis=-2))
    return jnp.conj(gl)[..., None, :] * eye + jnp.conj(F) * (S - (adj(vec) @ vec) * D[..., None, :])


@contract("C17", funcs=[], b=BATCH, samples=2)
def perturbation_theory(k, b):
    """Lemma: R is the adjoint of first-order perturbation theory, i.e. for every dA = V P V^-1,
    Re<R, P> = Re(<gl, dlam> + <gv, dV>) with dlam = diag P, dV = V (F o P), kept at unit norm."""
    jnp = k.np
    b = bshape(k, b)
    n = k.dim("N", 1, 5)
    lam, vec = k.carray("lam", b + (n,)), k.carray("vec", b + (n, n))
    gl, gv, p = k.carray("gl", b + (n,)), k.carray("gv", b + (n, n)), k.carray("P", b + (n, n))
    F = broadened(k, lam, None)
    R = cotangent(k, lam, vec, gl, gv, None)
    eye = jnp.eye(n)
    dl = jnp.sum(p * eye, axis=-1)
    dv0 = vec @ (F * p)
    growth = jnp.real(jnp.sum(jnp.conj(vec) * dv0, axis=-2))        # d|v| for unit vectors
    dv = dv0 - vec * growth[..., None, :]
    lhs = jnp.real(jnp.sum(jnp.conj(R) * p, axis=(-2, -1)))
    k.eq("adjoint of the perturbation", lhs, jnp.real(jnp.sum(gl * dl, axis=-1) + jnp.sum(gv * dv, axis=(-2, -1))))
