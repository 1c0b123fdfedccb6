"""C07: every way of composing a stack gives the same scattering matrix and the same record of its ends."""
from ..registry import contract
from .common import bshape
from .layers import layer, smatrix, thickness, expansion, same_layer

SHAPES = [dict(b=[(), (), ()]), dict(b=[("B",), ("B",), ("B",)]), dict(b=[("B",), (1,), ("B",)]), dict(b=[(), ("B",), ()]), dict(b=[("B",), (), ("B",)]),
          dict(b=[("B1", "B2"), ("B1", "B2"), (1, "B2")])]
SHAPES = [dict(b0=s["b"][0], b1=s["b"][1], b2=s["b"][2]) for s in SHAPES]
MIX = [dict(b0=(), b1=()), dict(b0=("B",), b1=("B",)), dict(b0=("B",), b1=(1,)), dict(b0=(), b1=("B",)), dict(b0=("B1", "B2"), b1=("B1", "B2"))]


def ones_like(k, *bs):
    return max((bshape(k, b) for b in bs), key=lambda t: (len(t), sum(1 for x in t if not (isinstance(x, int) and x == 1))))


def same_smatrix(k, label, a, b, layers=True):
    for f in ("s11", "s12", "s21", "s22"):
        k.eq(f"{label}.{f}", getattr(a, f), getattr(b, f))
    k.eq(f"{label}.start_layer_thickness", a.start_layer_thickness, b.start_layer_thickness)
    k.eq(f"{label}.end_layer_thickness", a.end_layer_thickness, b.end_layer_thickness)
    if layers:
        same_layer(k, f"{label}.start_layer", a.start_layer_solve_result, b.start_layer_solve_result)
        same_layer(k, f"{label}.end_layer", a.end_layer_solve_result, b.end_layer_solve_result)


def layers(k, bs, n, ex, count):
    bs = [bshape(k, b) for b in bs]
    while len(bs) < count:
        bs = bs + bs
    ls = []
    for i in range(count):
        r = layer(k, f"L{i}", bs[i], ex, n, inv=True)
        ls.append(r[0])
    return ls, [thickness(k, f"d{i}") for i in range(count)]


@contract("C07", funcs=["scattering.stack_s_matrix", "scattering._stack_s_matrices", "scattering._pair_s_matrix", "scattering.append_layer"],
          variants=[dict(s, count=c, x64=x) for s in SHAPES for c in (2, 3, 4) for x in (False, True)], tol=1e-6, samples=2)
def stack_is_repeated_append(k, b0, b1, b2, count, x64):
    sc = k.m.scattering
    k.opaque_omega_k()
    n = k.dim("N", 1, 1)
    ex = expansion(k, n)
    ls, ds = layers(k, [b0, b1, b2], n, ex, count)
    whole = sc.stack_s_matrix(ls, ds, force_x64_solve=x64)
    part = sc.stack_s_matrix(ls[:-1], ds[:-1], force_x64_solve=x64)
    same_smatrix(k, "append", sc.append_layer(part, ls[-1], ds[-1], force_x64_solve=x64), whole)


@contract("C07", funcs=["scattering.stack_s_matrix", "scattering.prepend_layer"], variants=[dict(s, x64=x) for s in MIX for x in (False, True)], tol=1e-6, samples=2)
def prepend_base(k, b0, b1, x64):
    sc = k.m.scattering
    k.opaque_omega_k()
    n = k.dim("N", 1, 1)
    ex = expansion(k, n)
    ls, ds = layers(k, [b0, b1], n, ex, 2)
    one = sc.stack_s_matrix(ls[1:], ds[1:], force_x64_solve=x64)
    same_smatrix(k, "prepend", sc.prepend_layer(one, ls[0], ds[0], force_x64_solve=x64), sc.stack_s_matrix(ls, ds, force_x64_solve=x64))


def arbitrary(k, name, b, n, start, d0, end, d1):
    return smatrix(k, name, bshape(k, b), n, start, d0, end, d1)


@contract("C07", funcs=["scattering.append_layer", "scattering.prepend_layer"], variants=[dict(s, x64=x) for s in SHAPES for x in (False, True)], tol=1e-5, samples=2)
def append_and_prepend_commute(k, b0, b1, b2, x64):
    """Induction step of prepend: for an arbitrary scattering matrix S, prepend(append(S, L), X) == append(prepend(S, X), L)."""
    sc = k.m.scattering
    k.opaque_omega_k()
    n = k.dim("N", 1, 1)
    ex = expansion(k, n)
    (x, l), (dx, dl) = layers(k, [b0, b2], n, ex, 2)
    st, en = layer(k, "S", bshape(k, b1), ex, n, inv=True)[0], layer(k, "E", bshape(k, b1), ex, n, inv=True)[0]
    s = arbitrary(k, "S", b1, n, st, thickness(k, "ds"), en, thickness(k, "de"))
    a = sc.prepend_layer(sc.append_layer(s, l, dl, force_x64_solve=x64), x, dx, force_x64_solve=x64)
    b = sc.append_layer(sc.prepend_layer(s, x, dx, force_x64_solve=x64), l, dl, force_x64_solve=x64)
    same_smatrix(k, "commute", a, b)


@contract("C07", funcs=["scattering.redheffer_star_product", "scattering.append_layer", "scattering.stack_s_matrix"],
          variants=[dict(s, x64=x) for s in MIX for x in (False, True)], tol=1e-6, samples=2)
def star_base(k, b0, b1, x64):
    """star(a, single layer) == append(a, layer)."""
    sc = k.m.scattering
    k.opaque_omega_k()
    n = k.dim("N", 1, 1)
    ex = expansion(k, n)
    (l,), (dl,) = layers(k, [b1], n, ex, 1)
    st, en = layer(k, "S", bshape(k, b0), ex, n, inv=True)[0], layer(k, "E", bshape(k, b0), ex, n, inv=True)[0]
    a = arbitrary(k, "S", b0, n, st, thickness(k, "ds"), en, thickness(k, "de"))
    one = sc.stack_s_matrix([l], [dl])
    same_smatrix(k, "star", sc.redheffer_star_product(a, one, force_x64_solve=x64), sc.append_layer(a, l, dl))


@contract("C07", funcs=["scattering.redheffer_star_product", "scattering.append_layer"],
          variants=[dict(s, x64=x) for s in SHAPES for x in (False, True)], tol=1e-5, samples=2)
def star_step(k, b0, b1, b2, x64):
    """star(a, append(b, L)) == append(star(a, b), L) for arbitrary scattering matrices a and b."""
    sc = k.m.scattering
    k.opaque_omega_k()
    n = k.dim("N", 1, 1)
    ex = expansion(k, n)
    (l,), (dl,) = layers(k, [b2], n, ex, 1)
    mk = lambda c, b: layer(k, c, bshape(k, b), ex, n, inv=True)[0]
    a = arbitrary(k, "A", b0, n, mk("As", b0), thickness(k, "das"), mk("Ae", b0), thickness(k, "dae"))
    b = arbitrary(k, "Bm", b1, n, mk("Bs", b1), thickness(k, "dbs"), mk("Be", b1), thickness(k, "dbe"))
    append = sc.append_layer
    ext = arbitrary(k, "X", b0 if len(b0) >= len(b1) and (1 not in b0) else b1, n, a.start_layer_solve_result, a.start_layer_thickness, b.start_layer_solve_result, b.start_layer_thickness)
    calls = []

    def extend(s_matrix, next_layer_solve_result, next_layer_thickness, *args, **kw):
        if s_matrix is not a:
            return append(s_matrix, next_layer_solve_result, next_layer_thickness, *args, **kw)
        calls.append((next_layer_solve_result, next_layer_thickness))
        return ext
    if k.symbolic:
        # the star product is checked against the contract of append_layer: any matrix for the extension of a by the first layer of b
        k.patch(sc, "append_layer", extend)
    one = sc.redheffer_star_product(a, append(b, l, dl), force_x64_solve=x64)
    two = append(sc.redheffer_star_product(a, b, force_x64_solve=x64), l, dl)
    same_smatrix(k, "star", one, two)
    for i, (lay, d) in enumerate(calls):
        k.eq(f"extension {i} thickness", d, b.start_layer_thickness)
        same_layer(k, f"extension {i} layer", lay, b.start_layer_solve_result)


@contract("C07", funcs=["scattering.stack_s_matrix_scan", "scattering.append_layer"], count=[1, 2, 3, 4], batch=[(), ("B",), ("B1", "B2")], x64=[False, True],
          tol=1e-6, samples=2)
def scan_is_stack(k, count, batch, x64):
    sc = k.m.scattering
    k.opaque_omega_k()
    n = k.dim("N", 1, 1)
    ex = expansion(k, n)
    b = bshape(k, batch)
    lays = layer(k, "L", (count,) + b, ex, n, inv=True)[0]
    ds = thickness(k, "d", (count,))
    ls = [k.jax.tree_util.tree_map(lambda x, i=i: x[i], lays) for i in range(count)]
    whole = sc.stack_s_matrix(ls, [ds[i] for i in range(count)], force_x64_solve=x64)
    same_smatrix(k, "scan", sc.stack_s_matrix_scan(lays, ds, force_x64_solve=x64), whole)
    k.raises("a different number of thicknesses is rejected", lambda: sc.stack_s_matrix_scan(lays, thickness(k, "e", (count + 1,))))


@contract("C07", funcs=["scattering.set_end_layer_thickness", "scattering.set_start_layer_thickness", "scattering.append_layer", "scattering.prepend_layer"],
          variants=[dict(s, x64=x) for s in MIX for x in (False, True)], tol=1e-6, samples=2)
def changed_thickness(k, b0, b1, x64):
    sc = k.m.scattering
    k.opaque_omega_k()
    n = k.dim("N", 1, 1)
    ex = expansion(k, n)
    (l,), (dl,) = layers(k, [b1], n, ex, 1)
    new = thickness(k, "dnew")
    st, en = layer(k, "S", bshape(k, b0), ex, n, inv=True)[0], layer(k, "E", bshape(k, b0), ex, n, inv=True)[0]
    s = arbitrary(k, "S", b0, n, st, thickness(k, "ds"), en, thickness(k, "de"))
    same_smatrix(k, "end", sc.set_end_layer_thickness(sc.append_layer(s, l, dl, force_x64_solve=x64), new), sc.append_layer(s, l, new, force_x64_solve=x64))
    same_smatrix(k, "start", sc.set_start_layer_thickness(sc.prepend_layer(s, l, dl, force_x64_solve=x64), new), sc.prepend_layer(s, l, new, force_x64_solve=x64))


@contract("C07", funcs=["scattering.set_end_layer_thickness", "scattering.set_start_layer_thickness", "scattering.stack_s_matrix"],
          variants=[dict(s, count=c) for s in SHAPES[:5] for c in (2, 3)], tol=1e-6, samples=2)
def changed_thickness_of_stack(k, b0, b1, b2, count):
    sc = k.m.scattering
    k.opaque_omega_k()
    n = k.dim("N", 1, 1)
    ex = expansion(k, n)
    ls, ds = layers(k, [b0, b1, b2], n, ex, count)
    new = thickness(k, "dnew")
    s = sc.stack_s_matrix(ls, ds)
    same_smatrix(k, "end", sc.set_end_layer_thickness(s, new), sc.stack_s_matrix(ls, ds[:-1] + [new]))
    same_smatrix(k, "start", sc.set_start_layer_thickness(s, new), sc.stack_s_matrix(ls, [new] + ds[1:]))


@contract("C07", funcs=["scattering.stack_s_matrices_interior", "scattering._stack_s_matrices"],
          variants=[dict(s, count=c, x64=x) for s in SHAPES[:5] for c in (1, 2, 3) for x in (False, True)], tol=1e-5, samples=2)
def interior_matrices(k, b0, b1, b2, count, x64):
    sc = k.m.scattering
    k.opaque_omega_k()
    n = k.dim("N", 1, 1)
    ex = expansion(k, n)
    ls, ds = layers(k, [b0, b1, b2], n, ex, count)
    pairs = sc.stack_s_matrices_interior(ls, ds, force_x64_solve=x64)
    k.true("one pair per layer", len(pairs) == count)
    for i in range(count):
        before, after = pairs[i]
        same_smatrix(k, f"before[{i}]", before, sc.stack_s_matrix(ls[:i + 1], ds[:i + 1], force_x64_solve=x64), layers=i == count - 1)
        if count - i < 3 or not k.symbolic:        # longer ones: by induction, interior_after_is_prepended and append_and_prepend_commute
            same_smatrix(k, f"after[{i}]", after, sc.stack_s_matrix(ls[i:], ds[i:], force_x64_solve=x64), layers=i == 0)


@contract("C07", funcs=["scattering.stack_s_matrices_interior", "scattering.prepend_layer"], variants=[dict(s, x64=x) for s in SHAPES[:5] for x in (False, True)],
          tol=1e-6, samples=2)
def interior_after_is_prepended(k, b0, b1, b2, x64):
    """The 'after' matrices are those obtained by prepending layers one by one."""
    sc = k.m.scattering
    k.opaque_omega_k()
    n = k.dim("N", 1, 1)
    ex = expansion(k, n)
    ls, ds = layers(k, [b0, b1, b2], n, ex, 3)
    pairs = sc.stack_s_matrices_interior(ls, ds, force_x64_solve=x64)
    s = pairs[2][1]
    for i in (1, 0):
        s = sc.prepend_layer(s, ls[i], ds[i], force_x64_solve=x64)
        same_smatrix(k, f"after[{i}]", pairs[i][1], s, layers=i == 0)


@contract("C07", funcs=["scattering.stack_s_matrix", "scattering.stack_s_matrices_interior"], count=[1, 2, 3], extra=[0, 1, 2])
def mismatched_lengths_rejected(k, count, extra):
    sc = k.m.scattering
    k.opaque_omega_k()
    n = k.dim("N", 1, 1)
    ex = expansion(k, n)
    ls, ds = layers(k, [(), (), ()], n, ex, 3)
    lens = (count, count + extra + 1)
    for a, b in (lens, lens[::-1]):
        th = (ds + ds)[:b]
        la = (ls + ls)[:a]
        k.raises(f"stack of {a} layers with {b} thicknesses", lambda: sc.stack_s_matrix(la, th))
        k.raises(f"interior of {a} layers with {b} thicknesses", lambda: sc.stack_s_matrices_interior(la, th))
