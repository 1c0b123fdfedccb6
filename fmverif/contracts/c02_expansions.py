"""C02: generated expansions."""
from ..registry import contract

SHAPES = ["square", "rectangle", "long", "very long", "oblique", "sliver", "hexagonal", "random", "rotated", "negative", "large", "small"]


def lattice_of(k, kind):
    import numpy as onp
    r = k.rng("lattice", kind)
    a = float(r.uniform(0.5, 2.0))
    th = float(r.uniform(0, 2 * onp.pi))
    rot = onp.asarray([[onp.cos(th), -onp.sin(th)], [onp.sin(th), onp.cos(th)]])
    asp = {"square": 1.0, "rectangle": 1.7, "long": 8.0, "very long": 60.0}.get(kind, float(r.uniform(0.3, 3)))
    u, v = onp.asarray([1.0, 0.0]), onp.asarray([0.0, asp])
    if r.integers(2):
        u, v = onp.asarray([asp, 0.0]), onp.asarray([0.0, 1.0])
    if kind == "hexagonal":
        u, v = onp.asarray([1.0, 0.0]), onp.asarray([0.5, onp.sqrt(3) / 2])
    if kind == "oblique":
        v = v + u * float(r.uniform(-1, 1))
    if kind == "sliver":
        v = v + u * float(r.uniform(2, 6)) * (1 if r.integers(2) else -1)
    if kind == "random":
        u, v = r.normal(size=2), r.normal(size=2)
        if abs(u[0] * v[1] - u[1] * v[0]) < 0.2:
            v = v + onp.asarray([-u[1], u[0]])
    if kind == "rotated":
        u, v = rot @ u, rot @ v
    if kind == "negative":
        u, v = -u, v @ rot.T
        if abs(u[0] * v[1] - u[1] * v[0]) < 0.2:
            v = v + onp.asarray([-u[1], u[0]])
    if kind == "large":
        a *= 1000.0
    if kind == "small":
        a *= 1e-3
    return u * a, v * a


NUMS = [1, 2, 3, 5, 9, 20, 50, 137, 300]


def expansion(k, kind, num, trunc):
    import numpy as onp
    u, v = lattice_of(k, kind)
    lv = k.m.basis.LatticeVectors(u=k.np.asarray(u), v=k.np.asarray(v))
    ex = k.m.basis.generate_expansion(lv, num, k.m.basis.Truncation[trunc])
    g = onp.asarray(ex.basis_coefficients)
    c = u[0] * v[1] - u[1] * v[0]
    ru, rv = onp.asarray([v[1], -v[0]]) / c, onp.asarray([-u[1], u[0]]) / c
    return ex, g, ru, rv


def check_common(k, ex, g, ru, rv):
    import numpy as onp
    k.true("shape (N, 2)", g.ndim == 2 and g.shape[1] == 2 and g.shape[0] == ex.num_terms)
    k.true("integers", onp.issubdtype(g.dtype, onp.integer))
    pairs = [tuple(int(x) for x in p) for p in g]
    k.true("distinct", len(set(pairs)) == len(pairs))
    k.true("zeroth order first", pairs[0] == (0, 0))
    mag = onp.linalg.norm(g[:, :1] * ru + g[:, 1:] * rv, axis=-1)
    k.true("ordered by magnitude", bool(onp.all(mag[1:] >= mag[:-1] * (1 - 1e-6))))
    k.true("-G with every G", all((-i, -j) in set(pairs) for i, j in pairs))
    return set(pairs)


@contract("C02", funcs=["basis.generate_expansion", "basis._basis_coefficients_circular", "basis.reciprocal", "basis._cross_product"], kind=SHAPES, num=NUMS, samples=2, sym=False)
def circular(k, kind, num):
    """Exactly the reciprocal lattice points strictly inside the circle of area num * cell area."""
    import numpy as onp
    ex, g, ru, rv = expansion(k, kind, num, "CIRCULAR")
    pairs = check_common(k, ex, g, ru, rv)
    c = abs(ru[0] * rv[1] - ru[1] * rv[0])
    R = onp.sqrt(num * c / onp.pi)
    bi, bj = (int(onp.ceil(R * onp.linalg.norm(w) / c)) + 2 for w in (rv, ru))
    i, j = onp.meshgrid(onp.arange(-bi, bi + 1), onp.arange(-bj, bj + 1), indexing="ij")
    mag = onp.linalg.norm(i[..., None] * ru + j[..., None] * rv, axis=-1)
    inside = {(int(a), int(b)) for a, b in zip(i[mag < R * (1 - 1e-6)], j[mag < R * (1 - 1e-6)])}
    near = {(int(a), int(b)) for a, b in zip(i[mag < R * (1 + 1e-6)], j[mag < R * (1 + 1e-6)])}
    k.true(f"contains all points inside the circle (missing {sorted(inside - pairs)[:4]})", inside <= pairs)
    k.true(f"contains no point outside the circle (extra {sorted(pairs - near)[:4]})", pairs <= near)


@contract("C02", funcs=["basis.generate_expansion", "basis._basis_coefficients_parallelogramic", "basis.reciprocal"], kind=SHAPES, num=NUMS, samples=2, sym=False)
def parallelogramic(k, kind, num):
    """Full centred grid with equal side lengths: (2 nu + 1)(2 nv + 1) = num, nu / nv = |v| / |u|, each rounded to the nearest integer."""
    import numpy as onp
    ex, g, ru, rv = expansion(k, kind, num, "PARALLELOGRAMIC")
    pairs = check_common(k, ex, g, ru, rv)
    nu, nv = int(onp.max(g[:, 0])), int(onp.max(g[:, 1]))
    k.true("full centred grid", pairs == {(i, j) for i in range(-nu, nu + 1) for j in range(-nv, nv + 1)})
    r = onp.linalg.norm(ru) / onp.linalg.norm(rv)          # nv = r nu: 4 r nu^2 + 2 (1 + r) nu + 1 - num = 0
    root = lambda r: (-(1 + r) + onp.sqrt((1 + r) ** 2 - 4 * r * (1 - num))) / (4 * r)
    k.true("nearest integers", abs(nu - root(r)) <= 0.5 + 1e-6 and abs(nv - root(1 / r)) <= 0.5 + 1e-6)


# -- for all lattices and all numbers of terms ---------------------------------------------------------------
def any_expansion(k, trunc):
    """generate_expansion for an arbitrary non-degenerate lattice and an arbitrary number of terms.

    Callee contract for the reciprocal vectors (C01): two vectors with non-zero cross product."""
    u, v = k.rarray("ru", (2,)), k.rarray("rv", (2,))
    cr = u[0] * v[1] - u[1] * v[0]
    k.assume(cr != 0)
    n = k.int("N", 1)
    k.abstract(k.m.basis, "reciprocal", lambda lv: k.m.basis.LatticeVectors(u=u, v=v))
    lv = k.m.basis.LatticeVectors(u=k.rarray("pu", (2,)), v=k.rarray("pv", (2,)))
    with k.naming():
        ex = k.m.basis.generate_expansion(lv, n, k.m.basis.Truncation[trunc])
        c = k.np.abs(cr)
        r = k.np.sqrt(n * c / k.np.pi)
    g = ex.basis_coefficients
    k.true("shape (N, 2)", g.ndim == 2 and g.shape[1] == 2)
    k.true("integers", g.dtype.kind == "i")
    return u, v, cr, c, r, n, g, k.rows(g)


def vector(u, v, i, j):
    return i * u[0] + j * v[0], i * u[1] + j * v[1]


def common_proof(k, u, v, cr, en):
    size = lambda i, j: k.np.sqrt(sum(x * x for x in vector(u, v, i, j)))
    k.distinct_rows("all pairs are distinct", en)
    k.sorted_by("ordered by magnitude", en, size)
    # the zeroth order is a member (below); sorting puts an order of minimal magnitude first; only the zeroth has zero magnitude
    i, j = k.int("i", None), k.int("j", None)
    gx, gy = vector(u, v, i, j)
    el = lambda x: k.np.asarray(x).el(())
    k.derive("lemma: a sum of squares vanishes only with both terms", [("req", el(gx)), ("req", el(gy))], [("req", el(gx * gx + gy * gy))])
    k.eq("lemma: cross products, first", gx * v[1] - gy * v[0], i * cr)
    k.eq("lemma: cross products, second", gy * u[0] - gx * u[1], j * cr)
    k.derive("lemma: only the zeroth order has zero magnitude", [("req", el(i)), ("req", el(j))],
             [("req", el(i * cr)), ("req", el(j * cr))] + k.ctx.pc)
    return size


@contract("C02", funcs=["basis.generate_expansion", "basis._basis_coefficients_circular", "basis._cross_product"], conc=False)
def circular_all(k):
    """For every lattice and number of terms: exactly the points strictly inside the circle, each once, by magnitude."""
    u, v, cr, c, r, n, g, en = any_expansion(k, "CIRCULAR")
    size = common_proof(k, u, v, cr, en)
    el = lambda x: k.np.asarray(x).el(())
    k.every_row("every order lies inside the circle", en, lambda i, j: [size(i, j) < r])
    i, j = k.int("i", None), k.int("j", None)
    m = size(i, j)
    gx, gy = vector(u, v, i, j)
    with k.naming():
        M, nu, nv = k.np.sqrt(gx * gx + gy * gy), k.np.linalg.norm(u), k.np.linalg.norm(v)
    inside = [k.fact(m < r), ("gt", el(r - M))]          # m and M are square roots of the same number
    lag = [k.square_lemma("lemma: |i cross| <= |G| |v|", M * M * nv * nv - i * i * c * c, gx * v[0] + gy * v[1]),
           k.square_lemma("lemma: |j cross| <= |G| |u|", M * M * nu * nu - j * j * c * c, gx * u[0] + gy * u[1])]
    pos = [("ge", el(M)), ("gt", el(nu)), ("gt", el(nv)), ("gt", el(c)), ("gt", el(r))]
    k.derive("lemma: a circle of positive area", pos[1:], k.ctx.pc)
    k.has_row("every point inside the circle is contained", en, (i, j), inside + lag + pos)
    k.has_row("the zeroth order is contained", en, (0, 0), pos)
    k.eq("G and -G have the same magnitude", size(-i, -j), m)


@contract("C02", funcs=["basis.generate_expansion", "basis._basis_coefficients_parallelogramic"], conc=False)
def parallelogramic_all(k):
    """For every lattice and number of terms: a full centred grid with sides given by the requested number of terms."""
    u, v, cr, c, r, n, g, en = any_expansion(k, "PARALLELOGRAMIC")
    common_proof(k, u, v, cr, en)
    el = lambda x: k.np.asarray(x).el(())
    with k.naming():
        ratio = k.np.linalg.norm(u) / k.np.linalg.norm(v), k.np.linalg.norm(v) / k.np.linalg.norm(u)
        root = [(k.np.sqrt(4 * (q + 1) ** 2 + 16 * q * (n - 1)) - 2 * (q + 1)) / (8 * q) for q in ratio]
    (lo0, hi0), (lo1, hi1) = k.row_range(en)
    k.eq("centred, first", -lo0, hi0)
    k.eq("centred, second", -lo1, hi1)
    for x, q, h in zip(root, ratio, (hi0, hi1)):
        k.derive("solves (2 x + 1)(2 q x + 1) = N", [("req", el((2 * x + 1) * (2 * q * x + 1) - n)), ("ge", el(x))])
        k.derive("nearest integer", [("ge", el(1 - 2 * (h - x))), ("ge", el(1 + 2 * (h - x)))])
    i, j = k.int("i", None), k.int("j", None)
    grid = [("ge", el(hi0 - i)), ("ge", el(hi0 + i)), ("ge", el(hi1 - j)), ("ge", el(hi1 + j))]
    k.has_row("every point of the grid is contained", en, (i, j), grid)
    k.has_row("the zeroth order is contained", en, (0, 0))
