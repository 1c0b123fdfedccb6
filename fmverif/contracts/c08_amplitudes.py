"""C08: amplitudes inside a stack and their propagation."""
from ..registry import contract
from .common import bshape
from .layers import layer, smatrix, thickness, expansion

SHAPES = [dict(b0=(), b1=(), ba=()), dict(b0=("B",), b1=("B",), ba=("B",)), dict(b0=("B",), b1=("B",), ba=()), dict(b0=("B1", "B2"), b1=("B1", "B2"), ba=("B1", "B2")),
          dict(b0=(), b1=("B",), ba=()), dict(b0=("B",), b1=(), ba=()), dict(b0=("B",), b1=(1,), ba=("B",)), dict(b0=(), b1=(), ba=("B",))]


def two(k, b0, b1, n, tag=""):
    ex = expansion(k, n)
    mk = lambda c, b: layer(k, c + tag, bshape(k, b), ex, n)
    a = smatrix(k, "A" + tag, bshape(k, b0), n, mk("As", b0), thickness(k, "das"), mk("Ae", b0), thickness(k, "dae"))
    b = smatrix(k, "C" + tag, bshape(k, b1), n, mk("Bs", b1), thickness(k, "dbs"), mk("Be", b1), thickness(k, "dbe"))
    return a, b


def relations(k, label, before, after, a0, bn, ai, bi):
    k.eq(f"{label}: forward amplitude follows from the sub-stack before", ai, before.s11 @ a0 + before.s12 @ bi)
    k.eq(f"{label}: backward amplitude follows from the sub-stack after", bi, after.s21 @ ai + after.s22 @ bn)


@contract("C08", funcs=["fields.amplitudes_interior"], variants=SHAPES, tol=1e-6, samples=2)
def interior_relations(k, b0, b1, ba):
    n, m = k.dim("N", 1, 2), k.dim("M", 1, 3)
    before, after = two(k, b0, b1, n)
    b = bshape(k, ba)
    a0, bn = k.carray("a0", b + (2 * n, m)), k.carray("bn", b + (2 * n, m))
    ai, bi = k.m.fields.amplitudes_interior(before, after, a0, bn)
    relations(k, "layer", before, after, a0, bn, ai, bi)


@contract("C08", funcs=["fields.stack_amplitudes_interior", "fields.amplitudes_interior"], variants=[dict(s, count=c) for s in SHAPES[:4] for c in (1, 2, 3)],
          tol=1e-6, samples=2)
def interior_relations_of_stack(k, b0, b1, ba, count):
    n, m = k.dim("N", 1, 2), k.dim("M", 1, 3)
    pairs = tuple(two(k, b0, b1, n, str(i)) for i in range(count))
    b = bshape(k, ba)
    a0, bn = k.carray("a0", b + (2 * n, m)), k.carray("bn", b + (2 * n, m))
    out = k.m.fields.stack_amplitudes_interior(pairs, a0, bn)
    k.true("one pair of amplitudes per layer", len(out) == count)
    for i in range(count):
        relations(k, f"layer {i}", pairs[i][0], pairs[i][1], a0, bn, out[i][0], out[i][1])


@contract("C08", funcs=["fields.stack_amplitudes_interior", "fields.amplitudes_interior", "scattering.stack_s_matrices_interior"],
          variants=[dict(s, count=c) for s in ([dict(bl=()), dict(bl=("B",))]) for c in (1, 2)], tol=1e-5, samples=2)
def interior_amplitudes_of_real_stack(k, bl, count):
    """Incident amplitudes are reproduced at the outer layers, outgoing ones follow from the scattering matrix of the stack."""
    k.opaque_omega_k()
    n, m = k.dim("N", 1, 2), k.dim("M", 1, 3)
    ex = expansion(k, n)
    b = bshape(k, bl)
    ls = [layer(k, f"L{i}", b, ex, n, inv=True)[0] for i in range(count)]
    ds = [thickness(k, f"d{i}") for i in range(count)]
    a0, bn = k.carray("a0", b + (2 * n, m)), k.carray("bn", b + (2 * n, m))
    sc = k.m.scattering
    out = k.m.fields.stack_amplitudes_interior(sc.stack_s_matrices_interior(ls, ds), a0, bn)
    s = sc.stack_s_matrix(ls, ds)
    k.eq("incident forward amplitude", out[0][0], a0)
    k.eq("incident backward amplitude", out[-1][1], bn)
    k.eq("outgoing forward amplitude", out[-1][0], s.s11 @ a0 + s.s12 @ bn)
    k.eq("outgoing backward amplitude", out[0][1], s.s21 @ a0 + s.s22 @ bn)


@contract("C08", funcs=["fields.stack_amplitudes_interior_with_source", "fields.stack_amplitudes_interior", "fields.amplitudes_interior"],
          variants=[dict(s, cb=c, ca=d) for s in SHAPES[:4] for c, d in ((1, 1), (2, 1), (1, 2))], tol=1e-6, samples=2)
def interior_with_source(k, b0, b1, ba, cb, ca):
    n, m = k.dim("N", 1, 2), k.dim("M", 1, 3)
    before = tuple(two(k, b0, b1, n, f"b{i}") for i in range(cb))
    after = tuple(two(k, b0, b1, n, f"a{i}") for i in range(ca))
    b = bshape(k, ba)
    bb, fa = k.carray("bb", b + (2 * n, m)), k.carray("fa", b + (2 * n, m))
    out = k.m.fields.stack_amplitudes_interior_with_source(before, after, bb, fa)
    k.true("one pair of amplitudes per layer", len(out) == cb + ca)
    for i in range(cb):
        relations(k, f"before {i}", before[i][0], before[i][1], 0 * bb, bb, out[i][0], out[i][1])
    for i in range(ca):
        relations(k, f"after {i}", after[i][0], after[i][1], fa, 0 * fa, out[cb + i][0], out[cb + i][1])


PROP = [dict(lb=(), ab=(), dist="scalar"), dict(lb=("B",), ab=("B",), dist="scalar"), dict(lb=("B",), ab=(), dist="vector"), dict(lb=(), ab=("B",), dist="vector"),
        dict(lb=("B1", "B2"), ab=("B1", "B2"), dist="vector"), dict(lb=(1,), ab=("B",), dist="batch"), dict(lb=("B",), ab=("B",), dist="batch")]


def distance(k, name, kind, b, m):
    return k.rarray(f"{name}_{kind}", {"scalar": (), "vector": (m,), "batch": b + (1, 1)}[kind])


@contract("C08", funcs=["fields.propagate_amplitude", "fields.colocate_amplitudes"], variants=PROP, samples=3)
def propagation(k, lb, ab, dist):
    jnp = k.np
    n, m = k.dim("N", 1, 3), k.dim("M", 1, 3)
    ex = expansion(k, n)
    lay = layer(k, "L", bshape(k, lb), ex, n)
    b = bshape(k, ab)
    a, c = k.carray("a", b + (2 * n, m)), k.carray("c", b + (2 * n, m))
    d1, d2 = distance(k, "d1", dist, b, m), distance(k, "d2", dist, b, m)
    f = k.m.fields
    q = lay.eigenvalues[..., None]
    k.eq("each mode acquires exp(i q d)", f.propagate_amplitude(a, d1, lay), a * jnp.exp(1j * q * d1))
    k.eq("propagation composes additively", f.propagate_amplitude(f.propagate_amplitude(a, d1, lay), d2, lay), f.propagate_amplitude(a, d1 + d2, lay))
    t = thickness(k, "t")
    fwd, bwd = f.colocate_amplitudes(a, c, z_offset=d1, layer_solve_result=lay, layer_thickness=t)
    k.eq("forward amplitude at the offset", fwd, a * jnp.exp(1j * q * d1))
    k.eq("backward amplitude at the offset", bwd, c * jnp.exp(1j * q * (t - d1)))


@contract("C08", funcs=["fields.propagate_amplitude", "fields.colocate_amplitudes", "fields._validate_amplitudes_shape", "fields.amplitudes_interior"], batch=[(), ("B",)])
def wrong_shape_rejected(k, batch):
    b = bshape(k, batch)
    n, m, w = k.dim("N", 1, 3), k.dim("M", 1, 3), k.dim("W", 1, 7)
    k.assume(w != 2 * n)
    ex = expansion(k, n)
    lay = layer(k, "L", b, ex, n)
    f = k.m.fields
    bad, good = k.carray("bad", b + (w, m)), k.carray("good", b + (2 * n, m))
    d = thickness(k, "d")
    k.raises("propagate", lambda: f.propagate_amplitude(bad, d, lay))
    k.raises("propagate vector", lambda: f.propagate_amplitude(k.carray("v", (2 * n,)), d, lay))
    k.raises("colocate forward", lambda: f.colocate_amplitudes(bad, good, d, lay, d))
    k.raises("colocate backward", lambda: f.colocate_amplitudes(good, bad, d, lay, d))
    before, after = two(k, batch, batch, n)
    k.raises("interior forward", lambda: f.amplitudes_interior(before, after, bad, good))
    k.raises("interior backward", lambda: f.amplitudes_interior(before, after, good, bad))
