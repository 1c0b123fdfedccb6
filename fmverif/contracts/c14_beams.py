"""C14: reorientation of beams."""
from ..registry import contract
from .common import bshape


def angles(k):
    return [k.rarray(n, (), special=[0.0, 0.5, 1.5707963267948966, -2.0]) for n in ("polar", "azimuth", "polarization")]


def vec(k, *xs):
    return k.np.stack([k.np.asarray(x) for x in xs], axis=-1)


@contract("C14", funcs=["beams.rotation_matrix"], samples=6)
def rotation(k):
    jnp = k.np
    t, f, p = angles(k)
    r = k.m.beams.rotation_matrix(t, f, p)
    k.shape("3x3", r, (3, 3))
    k.eq("orthogonal", jnp.transpose(r) @ r, jnp.eye(3))
    d = (r[0, 0] * (r[1, 1] * r[2, 2] - r[1, 2] * r[2, 1]) - r[0, 1] * (r[1, 0] * r[2, 2] - r[1, 2] * r[2, 0])
         + r[0, 2] * (r[1, 0] * r[2, 1] - r[1, 1] * r[2, 0]))
    k.eq("unit determinant", d, jnp.ones(()))
    u = vec(k, jnp.sin(t) * jnp.cos(f), jnp.sin(t) * jnp.sin(f), jnp.cos(t))
    k.eq("beam axis", r[:, 2], u)
    r0 = k.m.beams.rotation_matrix(t, f, 0.0 * p)
    # without polarization rotation: tilt in the plane of the axis
    k.eq("x axis", r0[:, 0], vec(k, jnp.cos(t) * jnp.cos(f), jnp.cos(t) * jnp.sin(f), -jnp.sin(t)))
    k.eq("y axis", r0[:, 1], vec(k, -jnp.sin(f), jnp.cos(f), 0.0 * f))
    # the polarization angle rotates about the axis
    a = r @ jnp.transpose(r0)
    k.eq("axis is fixed", a @ u, u)
    k.eq("rotation by the polarization angle", a[0, 0] + a[1, 1] + a[2, 2], 1 + 2 * jnp.cos(p))
    k.eq("right handed", vec(k, a[2, 1] - a[1, 2], a[0, 2] - a[2, 0], a[1, 0] - a[0, 1]), 2 * jnp.sin(p) * u)


NAMES = ("ex", "ey", "ez", "hx", "hy", "hz")


def field_fn(k, trailing=()):
    fs = {n: k.ufun(n) for n in NAMES}

    def g(x, y, z):
        v = [fs[n](x, y, z) for n in NAMES]
        return tuple(v[:3]), tuple(v[3:])
    return g


@contract("C14", funcs=["beams.shifted_rotated_fields", "beams.rotation_matrix"], cs=[(), ("P",), ("P", "Q"), ("P", "Q", "R")], samples=4)
def rigid_motion(k, cs):
    jnp = k.np
    t, f, p = angles(k)
    s = tuple(k.dim(c, 1) for c in cs)
    x, y, z = (k.rarray(n, s) for n in ("x", "y", "z"))
    o = [k.rarray("origin_" + n, ()) for n in ("x", "y", "z")]
    g = field_fn(k)
    e, h = k.m.beams.shifted_rotated_fields(g, x, y, z, o[0], o[1], o[2], t, f, p)
    r = k.m.beams.rotation_matrix(t, f, p)
    d = [x - o[0], y - o[1], z - o[2]]
    back = [sum(r[j, i] * d[j] for j in range(3)) for i in range(3)]
    er, hr = g(*back)
    for i in range(3):
        k.eq(f"electric field {i}", e[i], sum(r[i, j] * er[j] for j in range(3)))
        k.eq(f"magnetic field {i}", h[i], sum(r[i, j] * hr[j] for j in range(3)))


@contract("C14", funcs=["beams.shifted_rotated_fields"], samples=4)
def unrotated_is_shift(k):
    jnp = k.np
    zero = jnp.zeros(())
    s = (k.dim("P", 1), k.dim("Q", 1))
    x, y, z = (k.rarray(n, s) for n in ("x", "y", "z"))
    o = [k.rarray("origin_" + n, ()) for n in ("x", "y", "z")]
    g = field_fn(k)
    e, h = k.m.beams.shifted_rotated_fields(g, x, y, z, o[0], o[1], o[2], zero, zero, zero)
    er, hr = g(x - o[0], y - o[1], z - o[2])
    for i in range(3):
        k.eq(f"electric field {i}", e[i], er[i])
        k.eq(f"magnetic field {i}", h[i], hr[i])
