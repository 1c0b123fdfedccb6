"""C16: tangent vector fields."""
from ..registry import contract
from .common import bshape
from .c01_basis import lattice, recip

BATCH = [(), ("B",), ("B1", "B2")]


def field(k, b, kind, name="f"):
    b = bshape(k, b)
    shape = b + (k.dim("nx", 1), k.dim("ny", 1), 2)
    if kind == "zero":
        return k.np.zeros(shape)
    f = (k.rarray if kind == "r" else k.carray)(name, shape)
    if not k.symbolic:
        # some elements vanish, some are tiny
        g = k.rng("zeros").random(size=shape[:-1])[..., None]
        f = k.np.where(g < 0.2, 0.0, f) * (10.0 ** k.rng("scale").integers(-6, 7))
    return f


def magnitude(k, f):
    return k.np.sqrt(k.np.sum(k.np.abs(f) ** 2, axis=-1, keepdims=True))


@contract("C16", funcs=["vector.normalize", "vector._max_field_magnitude", "vector._field_magnitude"], b=BATCH, kind=["c", "r", "zero"], samples=3)
def normalize(k, b, kind):
    """The field is divided by its largest magnitude; (near-)zero fields are left alone."""
    jnp = k.np
    f = field(k, b, kind)
    top = jnp.amax(magnitude(k, f), axis=(-3, -2), keepdims=True)
    k.eq("divided by the largest magnitude", k.m.vector.normalize(f), f / jnp.where(top <= 1e-8, 1.0, top))


@contract("C16", funcs=["vector.normalize_elementwise", "vector._field_magnitude"], b=BATCH, kind=["c", "r", "zero"], samples=3)
def normalize_elementwise(k, b, kind):
    """Every element is divided by its magnitude; (near-)zero elements are left alone."""
    jnp = k.np
    f = field(k, b, kind)
    m = magnitude(k, f)
    k.eq("divided by its magnitude", k.m.vector.normalize_elementwise(f), f / jnp.where(m <= 1e-8, 1.0, m))


@contract("C16", funcs=["vector.normalize_jones", "vector._angle"], b=BATCH, kind=["r", "zero"], samples=3)
def normalize_jones(k, b, kind):
    """Jones fields have unit magnitude everywhere."""
    jnp = k.np
    f = field(k, b, kind)
    j = k.m.vector.normalize_jones(f)
    k.shape("shape", j, f.shape)
    k.eq("unit magnitude", jnp.real(jnp.sum(j * jnp.conj(j), axis=-1)), jnp.ones(f.shape[:-1]))


def scaled(k, lv):
    jnp = k.np
    area = jnp.abs(lv.u[0] * lv.v[1] - lv.u[1] * lv.v[0])
    return lv.u / jnp.sqrt(area), lv.v / jnp.sqrt(area)


@contract("C16", funcs=["vector.compute_gradient", "vector._transform_gradient", "vector._metric_tensor", "vector._unpad"],
          b=BATCH, kind=["c", "r"], samples=3)
def gradient_periodic(k, b, kind):
    """grad . u and grad . v are the periodic central differences, in the lattice normalised to unit area."""
    jnp = k.np
    b = bshape(k, b)
    nx, ny = k.dim("nx", 1), k.dim("ny", 1)
    a = (k.rarray if kind == "r" else k.carray)("a", b + (nx, ny))
    lv = lattice(k)
    g = k.m.vector.compute_gradient(a, lv)
    k.shape("shape", g, b + (nx, ny, 2))
    u, v = scaled(k, lv)
    along = lambda w: g[..., 0] * w[0] + g[..., 1] * w[1]
    k.eq("derivative along u", along(u), nx * (jnp.roll(a, -1, axis=-2) - jnp.roll(a, 1, axis=-2)) / 2)
    k.eq("derivative along v", along(v), ny * (jnp.roll(a, -1, axis=-1) - jnp.roll(a, 1, axis=-1)) / 2)


@contract("C16", funcs=["vector.compute_gradient"], b=[(), ("B",)], samples=3)
def gradient_scale_invariant(k, b):
    b = bshape(k, b)
    a = k.rarray("a", b + (k.dim("nx", 1), k.dim("ny", 1)))
    lv = lattice(k)
    s = k.rarray("s", (), sign="+")
    lv2 = k.m.basis.LatticeVectors(u=lv.u * s, v=lv.v * s)
    k.eq("unit cell scale", k.m.vector.compute_gradient(a, lv2), k.m.vector.compute_gradient(a, lv))


@contract("C16", funcs=["vector.compute_gradient"], axis=[0, 1], samples=3)
def gradient_one_direction(k, axis):
    """Media varying along one cell index only have a gradient perpendicular to the other lattice vector."""
    jnp = k.np
    nx, ny = k.dim("nx", 1), k.dim("ny", 1)
    p = k.rarray("p", (nx if axis == 0 else ny,))
    a = jnp.broadcast_to(p[:, None] if axis == 0 else p[None, :], (nx, ny))
    lv = lattice(k)
    g = k.m.vector.compute_gradient(a, lv)
    w = lv.v if axis == 0 else lv.u
    k.eq("perpendicular to the constant direction", g[..., 0] * w[0] + g[..., 1] * w[1], jnp.zeros((nx, ny)))


@contract("C16", funcs=["vector._vector_field_forward_difference_gradient", "vector._scalar_field_forward_difference_gradient",
                        "vector._periodic_forward_difference", "vector._transform_gradient", "vector._metric_tensor"], kind=["c", "r"], samples=3)
def forward_difference(k, kind):
    """The gradient in the smoothness loss: grad . u and grad . v are the periodic forward differences."""
    jnp = k.np
    nx, ny = k.dim("nx", 1), k.dim("ny", 1)
    f = (k.rarray if kind == "r" else k.carray)("f", (nx, ny, 2))
    lv = lattice(k)
    gs = k.m.vector._vector_field_forward_difference_gradient(f, lv)
    u, v = scaled(k, lv)
    for c in (0, 1):
        g = gs[c]
        along = lambda w: g[..., 0] * w[0] + g[..., 1] * w[1]
        k.eq(f"component {c} along u", along(u), nx * (jnp.roll(f[..., c], -1, axis=0) - f[..., c]))
        k.eq(f"component {c} along v", along(v), ny * (jnp.roll(f[..., c], -1, axis=1) - f[..., c]))


@contract("C16", funcs=["vector._smoothness_loss", "vector._fourier_loss", "vector._alignment_loss"], samples=3)
def losses(k):
    """Alignment: weighted mean squared deviation.  Fourier: sum |f|^2 |k|^2 area.  Smoothness: mean squared forward difference gradient."""
    jnp = k.np
    nx, ny, n = k.dim("nx", 1), k.dim("ny", 1), k.dim("N", 1)
    lv = lattice(k)
    ex = k.expansion("ex", n)
    f, t, w = k.carray("f", (nx, ny, 2)), k.carray("t", (nx, ny, 2)), k.rarray("w", (nx, ny, 1))
    k.eq("alignment loss", k.m.vector._alignment_loss(f, t, w),
         jnp.sum(w * jnp.sum(jnp.abs(f - t) ** 2, axis=-1, keepdims=True)) / (nx * ny))
    y = k.carray("y", (n, 2))
    ru, rv = recip(k, lv)
    g = ex.basis_coefficients
    kt = 2 * jnp.pi * (g[:, 0, None] * ru + g[:, 1, None] * rv)
    area = jnp.abs(lv.u[0] * lv.v[1] - lv.u[1] * lv.v[0])
    k.eq("fourier loss", k.m.vector._fourier_loss(y, ex, lv), jnp.sum(jnp.abs(y) ** 2 * jnp.sum(kt ** 2, axis=-1, keepdims=True)) * area)
    gs = k.m.vector._vector_field_forward_difference_gradient(f, lv)
    k.eq("smoothness loss", k.m.vector._smoothness_loss(f, lv), (jnp.sum(jnp.abs(gs[0]) ** 2) + jnp.sum(jnp.abs(gs[1]) ** 2)) / (4 * nx * ny))


# name -> (Jones-direct target, Fourier loss weight, smoothness loss weight, final normalisation)
SCHEMES = {
    "jones_direct": (True, 0.0, 0.5, None), "jones": (False, 0.0, 2.0, "jones"), "normal": (False, 0.0, 2.0, "elementwise"), "pol": (False, 0.0, 2.0, None),
    "jones_direct_fourier": (True, 0.05, 0.0, None), "jones_fourier": (False, 0.2, 0.0, "jones"),
    "normal_fourier": (False, 0.2, 0.0, "elementwise"), "pol_fourier": (False, 0.2, 0.0, None),
}


def opaque_tangent_field(k):
    """Symbolic runs: the tangent field is an arbitrary field determined by the medium, expansion, lattice and losses."""
    import inspect
    vec = k.m.vector
    if not k.symbolic or not hasattr(vec, "compute_tangent_field"):
        return
    sig = inspect.signature(vec.compute_tangent_field)

    def fake(*args, **kw):
        b = sig.bind(*args, **kw)
        b.apply_defaults()
        a = b.arguments
        tag = k.fingerprint(a["arr"], a["primitive_lattice_vectors"].u, a["primitive_lattice_vectors"].v, a["expansion"].basis_coefficients)
        rest = tuple(sorted((n, str(v)) for n, v in a.items() if n not in ("arr", "primitive_lattice_vectors", "expansion")))
        return tuple(k.carray(f"t{c}:{tag}:{rest}", a["arr"].shape) for c in "xy")
    k.abstract(vec, "compute_tangent_field", fake)


@contract("C16", funcs=["vector.VECTOR_FIELD_SCHEMES", "vector.compute_field_jones_direct", "vector.compute_field_jones", "vector.compute_field_normal",
                        "vector.compute_field_pol"], scheme=list(SCHEMES), b=[(), ("B",)], samples=1)
def named_schemes(k, scheme, b):
    """Every named scheme minimises its own documented losses and applies its own final normalisation."""
    jnp, vec = k.np, k.m.vector
    opaque_tangent_field(k)
    lv = lattice(k)
    if k.symbolic:
        ex = k.expansion("ex", k.dim("N", 1))
        arr = k.rarray("arr", bshape(k, b) + (k.dim("nx", 1), k.dim("ny", 1)))
    else:
        ex, arr, lv = medium(k, bshape(k, b), "generic")
    direct, wf, ws, final = SCHEMES[scheme]
    out = vec.VECTOR_FIELD_SCHEMES[scheme](arr, ex, lv)
    t = jnp.stack(vec.compute_tangent_field(arr=arr, expansion=ex, primitive_lattice_vectors=lv, use_jones_direct=direct,
                                            fourier_loss_weight=wf, smoothness_loss_weight=ws), axis=-1)
    if final:
        t = getattr(vec, "normalize_" + final)(t)
    k.eq("x component", out[0], t[..., 0])
    k.eq("y component", out[1], t[..., 1])


# --- bounded contracts: the Newton iteration of the tangent field is differentiated by jax (concrete runs only) -----------
def medium(k, b, kind):
    """Expansion, arrays on a grid and lattice; kind "generic" or "1d0" / "1d1": varying along one cell index only."""
    jnp, onp = k.np, k.onp
    r = k.rng("medium", kind)
    ang = r.uniform(0.4, 2.6)
    lv = k.m.basis.LatticeVectors(u=jnp.asarray(r.uniform(0.6, 1.6) * onp.array([1.0, r.uniform(-0.4, 0.4)])),
                                  v=jnp.asarray(r.uniform(0.6, 1.6) * onp.array([onp.cos(ang), onp.sin(ang)])))
    ex = k.m.basis.generate_expansion(primitive_lattice_vectors=lv, approximate_num_terms=int(r.integers(5, 16)),
                                      truncation=[k.m.basis.Truncation.CIRCULAR, k.m.basis.Truncation.PARALLELOGRAMIC][int(r.integers(0, 2))])
    ms = k.m.fft.min_array_shape_for_expansion(ex)
    n0, n1 = (int(m) + int(r.integers(0, 8)) for m in ms)
    if kind == "generic":
        arr = onp.asarray(1 + 2 * r.random(b + (n0, n1)) + 3 * (r.random(b + (n0, n1)) < 0.4))
    else:
        axis = int(kind[-1])
        p = 1 + 3 * (r.random(b + ((n0, n1)[axis],)) < 0.5) + 0.3 * r.random(b + ((n0, n1)[axis],))
        p[..., 0] += 2
        arr = onp.broadcast_to(onp.expand_dims(p, -1 if axis == 0 else -2), b + (n0, n1))
    return ex, jnp.asarray(arr), lv


def minimiser(k, arr, ex, lv, direct, wf, ws):
    """Tangent field of one medium: least-squares minimum of the weighted losses over Fourier coefficients."""
    onp, jnp, vec, fft = k.onp, k.np, k.m.vector, k.m.fft
    N = ex.num_terms
    g = vec.compute_gradient(arr, lv)
    ms = fft.min_array_shape_for_expansion(ex)
    shape = tuple(int(m) * (2 if d > 1 else 1) for m, d in zip(ms, arr.shape))
    g = jnp.stack([fft.ifft(fft.fft(g[..., c], ex), ex, shape) for c in (0, 1)], axis=-1)
    g = vec.normalize(g)
    w = onp.sqrt(onp.sum(onp.abs(onp.asarray(g)) ** 2, axis=-1, keepdims=True))
    t = vec.normalize_elementwise(jnp.stack([g[..., 1], -g[..., 0]], axis=-1))
    if direct:
        t = vec.normalize_jones(t)
    t = onp.asarray(t)
    # synthesis matrix (points x orders) and forward differences
    eye = onp.eye(N)
    syn = onp.asarray(fft.ifft(jnp.asarray(eye, dtype=complex), ex, shape, axis=-2)).reshape(-1, N)
    rows, rhs = [], []
    P = syn.shape[0]
    for c in (0, 1):
        sel = onp.zeros((1, 2)); sel[0, c] = 1
        rows.append(onp.kron(onp.sqrt(w.reshape(-1, 1) / P) * syn, sel)); rhs.append((onp.sqrt(w / P) * t[..., c:c + 1]).reshape(-1))
    u, v = (onp.asarray(x) for x in scaled(k, lv))
    if wf > 0:
        ru, rv = (onp.asarray(x) for x in recip(k, k.m.basis.LatticeVectors(u=jnp.asarray(u), v=jnp.asarray(v))))
        G = onp.asarray(ex.basis_coefficients)
        kt = 2 * onp.pi * onp.linalg.norm(G[:, :1] * ru + G[:, 1:] * rv, axis=-1)
        rows.append(onp.sqrt(wf / N) * onp.kron(onp.diag(kt), onp.eye(2))); rhs.append(onp.zeros(2 * N))
    if ws > 0:
        s = syn.reshape(shape + (N,))
        du, dv = shape[0] * (onp.roll(s, -1, 0) - s), shape[1] * (onp.roll(s, -1, 1) - s)
        inv = onp.linalg.inv(onp.stack([u, v]))                       # rows u, v: grad = inv @ (du, dv)
        for c in (0, 1):
            grad = (inv[c, 0] * du + inv[c, 1] * dv).reshape(-1, N)
            rows.append(onp.sqrt(ws / N / (4 * P)) * onp.kron(grad, onp.eye(2))); rhs.append(onp.zeros(2 * P))
    x = onp.linalg.lstsq(onp.concatenate(rows), onp.concatenate(rhs), rcond=None)[0].reshape(N, 2)
    f = fft.ifft(jnp.asarray(x), ex, arr.shape, axis=-2)
    return vec.normalize(f)


@contract("C16", funcs=["vector.compute_tangent_field", "vector._compute_tangent_field_no_batch", "vector.field_loss_value_jac_and_hessian",
                        "vector._field_loss", "vector._filter_and_adjust_resolution"],
          direct=[True, False], w=[(0.2, 0.0), (0.0, 2.0), (0.3, 0.7)], b=[(), ("B",)], samples=2, tol=1e-5, sym=False)
def tangent_field_minimises_losses(k, direct, w, b):
    """The tangent field of every batch entry is the normalised minimiser of the documented quadratic losses."""
    jnp = k.np
    b = bshape(k, b, 2)
    ex, arr, lv = medium(k, b, "generic")
    tx, ty = k.m.vector.compute_tangent_field(arr, ex, lv, direct, w[0], w[1])
    flat = arr.reshape((-1,) + arr.shape[-2:])
    want = jnp.stack([minimiser(k, a, ex, lv, direct, *w) for a in flat]).reshape(arr.shape + (2,))
    k.eq("minimiser, x", tx, want[..., 0])
    k.eq("minimiser, y", ty, want[..., 1])


@contract("C16", funcs=["vector.VECTOR_FIELD_SCHEMES", "vector.compute_tangent_field", "vector._is_1d_field", "vector._direction_angle", "vector._field_at_max_magnitude"],
          scheme=list(SCHEMES), kind=["1d0", "1d1"], samples=2, tol=1e-5, sym=False)
def one_direction(k, scheme, kind):
    """For media varying in one direction only, the tangent field is perpendicular to the variation."""
    jnp = k.np
    ex, arr, lv = medium(k, (), kind)
    tx, ty = k.m.vector.VECTOR_FIELD_SCHEMES[scheme](arr, ex, lv)
    const = lv.v if kind == "1d0" else lv.u                     # the medium does not change along this direction
    k.eq("parallel to the constant direction", tx * const[1] - ty * const[0], jnp.zeros(arr.shape))
    k.eq("nonzero", jnp.abs(tx) ** 2 + jnp.abs(ty) ** 2, jnp.ones(arr.shape))


@contract("C16", funcs=["vector.VECTOR_FIELD_SCHEMES", "vector.compute_tangent_field"], scheme=list(SCHEMES), samples=1, tol=1e-5, sym=False)
def invariances(k, scheme):
    """Independence of the unit-cell scale and of the amplitude of the medium array; batch entries are independent."""
    jnp = k.np
    ex, arr, lv = medium(k, (2,), "generic")
    fn = k.m.vector.VECTOR_FIELD_SCHEMES[scheme]
    s = 10.0 ** k.rng("s").uniform(-3, 3)
    base = jnp.stack(fn(arr, ex, lv))
    k.eq("unit cell scale", jnp.stack(fn(arr, ex, k.m.basis.LatticeVectors(u=lv.u * s, v=lv.v * s))), base)
    k.eq("amplitude", jnp.stack(fn(3.0 + 0.7 * arr, ex, lv)), base)
    k.eq("batch entry", jnp.stack(fn(arr[1], ex, lv)), base[:, 1])
