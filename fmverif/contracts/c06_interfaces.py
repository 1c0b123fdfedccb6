"""C06: extending a scattering matrix enforces field continuity at the new interface."""
from ..registry import contract
from .common import bshape
from .layers import layer, smatrix, thickness, vec, expansion, same_layer

SHAPES = [dict(sb=(), lb=(), nb=()), dict(sb=("B",), lb=("B",), nb=("B",)), dict(sb=("B1", "B2"), lb=("B1", "B2"), nb=("B1", "B2")),
          dict(sb=("B",), lb=("B",), nb=(1,)), dict(sb=("B",), lb=(1,), nb=("B",)), dict(sb=(), lb=(), nb=("B",)), dict(sb=("B",), lb=("B",), nb=())]


def expand(x, nd):
    return x[(None,) * (nd - x.ndim) + (...,)] if x.ndim < nd else x


def below(k, lay, pinv, d, nxt, dn, an, bn):
    """Amplitudes (forward at the interface, backward at the interface) in `lay` that continue the tangential fields of
    `nxt` with forward amplitude an (at its start) and backward amplitude bn (at its end)."""
    jnp = k.np
    q, phi, om = lay.eigenvalues[..., None], lay.eigenvectors, lay.omega_script_k_matrix
    qn, phin, omn = nxt.eigenvalues[..., None], nxt.eigenvectors, nxt.omega_script_k_matrix
    fn = jnp.exp(1j * qn * dn)
    e = omn @ (phin @ ((an - fn * bn) / qn))          # tangential electric field  (-Ey, Ex)
    h = phin @ (an + fn * bn)                          # tangential magnetic field  (Hx, Hy)
    x = q * jnp.linalg.solve(om @ phi, e)
    y = pinv @ h
    return (y + x) / 2, (y - x) / 2


@contract("C06", funcs=["scattering.append_layer", "scattering._extend_s_matrix", "scattering.solve"],
          variants=[dict(s, x64=x) for s in SHAPES for x in (False, True)], tol=1e-6, samples=2)
def append_continuity(k, sb, lb, nb, x64):
    jnp = k.np
    k.opaque_omega_k()
    sb, lb, nb = (bshape(k, b) for b in (sb, lb, nb))
    n = k.dim("N", 1, 1)
    ex = expansion(k, n)
    lay, pinv = layer(k, "L", lb, ex, n, inv=True)
    first = layer(k, "F", lb, ex, n)
    nxt = layer(k, "X", nb, ex, n)
    d0, d, dn = thickness(k, "d0"), thickness(k, "d"), thickness(k, "dn")
    s = smatrix(k, "S", sb, n, first, d0, lay, d)
    new = k.m.scattering.append_layer(s, nxt, dn, force_x64_solve=x64)
    bb = max((sb, lb, nb), key=lambda t: (len(t), sum(1 for x in t if not (isinstance(x, int) and x == 1))))
    a0, bn = vec(k, "a0", bb, n), vec(k, "bn", bb, n)
    an = new.s11 @ a0 + new.s12 @ bn
    b0 = new.s21 @ a0 + new.s22 @ bn
    up, bl = below(k, lay, pinv, d, nxt, dn, an, bn)
    al = s.s11 @ a0 + s.s12 @ bl
    fd = jnp.exp(1j * lay.eigenvalues * d)[..., None]
    k.eq("forward amplitude continuous across the interface", up, fd * al)
    k.eq("amplitudes below the interface related as before", b0, s.s21 @ a0 + s.s22 @ bl)
    k.eq("start thickness kept", new.start_layer_thickness, d0)
    k.eq("end thickness recorded", new.end_layer_thickness, dn)
    same_layer(k, "start layer kept", new.start_layer_solve_result, first)
    same_layer(k, "end layer recorded", new.end_layer_solve_result, nxt)


@contract("C06", funcs=["scattering.prepend_layer", "scattering._extend_s_matrix", "scattering.solve"],
          variants=[dict(s, x64=x) for s in SHAPES for x in (False, True)], tol=1e-6, samples=2)
def prepend_continuity(k, sb, lb, nb, x64):
    jnp = k.np
    k.opaque_omega_k()
    sb, lb, nb = (bshape(k, b) for b in (sb, lb, nb))
    n = k.dim("N", 1, 1)
    ex = expansion(k, n)
    lay, pinv = layer(k, "L", lb, ex, n, inv=True)
    last = layer(k, "F", lb, ex, n)
    nxt = layer(k, "X", nb, ex, n)
    d0, d, dn = thickness(k, "d0"), thickness(k, "d"), thickness(k, "dn")
    s = smatrix(k, "S", sb, n, lay, d, last, d0)
    new = k.m.scattering.prepend_layer(s, nxt, dn, force_x64_solve=x64)
    bb = max((sb, lb, nb), key=lambda t: (len(t), sum(1 for x in t if not (isinstance(x, int) and x == 1))))
    a0, bn = vec(k, "a0", bb, n), vec(k, "bn", bb, n)
    an = new.s11 @ a0 + new.s12 @ bn          # leaves the last layer
    b0 = new.s21 @ a0 + new.s22 @ bn          # backward amplitude at the end of the new first layer
    # continuity at the interface new | lay; in `lay` the backward wave is referenced at its end, the forward one at its start
    q, phi, om = lay.eigenvalues[..., None], lay.eigenvectors, lay.omega_script_k_matrix
    qx, phix, omx = nxt.eigenvalues[..., None], nxt.eigenvectors, nxt.omega_script_k_matrix
    fx = jnp.exp(1j * qx * dn)
    e = omx @ (phix @ ((fx * a0 - b0) / qx))
    h = phix @ (fx * a0 + b0)
    x = q * jnp.linalg.solve(om @ phi, e)
    y = pinv @ h
    al = (y + x) / 2
    down = (y - x) / 2                        # = fd * (backward amplitude at the end of lay)
    fd = jnp.exp(1j * lay.eigenvalues * d)[..., None]
    k.eq("backward amplitude continuous across the interface", down, fd * (s.s21 @ al + s.s22 @ bn))
    k.eq("amplitudes above the interface related as before", an, s.s11 @ al + s.s12 @ bn)
    k.eq("start thickness recorded", new.start_layer_thickness, dn)
    k.eq("end thickness kept", new.end_layer_thickness, d0)
    same_layer(k, "start layer recorded", new.start_layer_solve_result, nxt)
    same_layer(k, "end layer kept", new.end_layer_solve_result, last)


@contract("C06", funcs=["scattering.stack_s_matrix", "scattering._pair_s_matrix", "scattering._stack_s_matrices", "scattering.solve"],
          variants=[dict(lb=s["lb"], nb=s["nb"], x64=x) for s in SHAPES for x in (False, True)], tol=1e-6, samples=2)
def pair_continuity(k, lb, nb, x64):
    jnp = k.np
    k.opaque_omega_k()
    lb, nb = (bshape(k, b) for b in (lb, nb))
    n = k.dim("N", 1, 1)
    ex = expansion(k, n)
    lay, pinv = layer(k, "L", lb, ex, n, inv=True)
    nxt = layer(k, "X", nb, ex, n)
    d, dn = thickness(k, "d"), thickness(k, "dn")
    new = k.m.scattering.stack_s_matrix([lay, nxt], [d, dn], force_x64_solve=x64)
    bb = max((lb, nb), key=lambda t: (len(t), sum(1 for x in t if not (isinstance(x, int) and x == 1))))
    a0, bn = vec(k, "a0", bb, n), vec(k, "bn", bb, n)
    an = new.s11 @ a0 + new.s12 @ bn
    b0 = new.s21 @ a0 + new.s22 @ bn
    up, bl = below(k, lay, pinv, d, nxt, dn, an, bn)
    fd = jnp.exp(1j * lay.eigenvalues * d)[..., None]
    k.eq("forward amplitude continuous across the interface", up, fd * a0 + 0 * up)
    k.eq("backward amplitude continuous across the interface", b0, bl)


@contract("C06", funcs=["scattering.stack_s_matrix", "scattering._stack_s_matrices"], batch=[(), ("B",), ("B1", "B2")], x64=[False, True])
def single_layer_identity(k, batch, x64):
    jnp = k.np
    k.opaque_omega_k()
    b = bshape(k, batch)
    n = k.dim("N", 1, 2)
    ex = expansion(k, n)
    lay = layer(k, "L", b, ex, n)
    d = thickness(k, "d")
    s = k.m.scattering.stack_s_matrix([lay], [d], force_x64_solve=x64)
    eye = jnp.broadcast_to(jnp.eye(2 * n), b + (2 * n, 2 * n))
    k.eq("s11 = identity", s.s11, eye)
    k.eq("s22 = identity", s.s22, eye)
    k.eq("s12 = 0", s.s12, 0 * eye)
    k.eq("s21 = 0", s.s21, 0 * eye)
    k.eq("start thickness", s.start_layer_thickness, d)
    k.eq("end thickness", s.end_layer_thickness, d)
    same_layer(k, "start layer", s.start_layer_solve_result, lay)
    same_layer(k, "end layer", s.end_layer_solve_result, lay)
