"""C13: uniaxial PML."""
from ..registry import contract
from .common import bshape, BATCH


def setup(k, batch, wx, wy, kind="c", a=None, p=None):
    b = bshape(k, batch)
    nx, ny = k.dim("nx", 1, 8), k.dim("ny", 1, 8)
    wx = k.dim("wx", 1, 2) if wx == "w" else 0
    wy = k.dim("wy", 1, 2) if wy == "w" else 0
    k.assume(nx > 2 * wx)
    k.assume(ny > 2 * wy)
    eps = k.carray("eps", b + (nx, ny)) if kind == "c" else k.rarray("eps", b + (nx, ny), sign="+")
    return b, nx, ny, wx, wy, eps


def depth(k, n, w):
    """Spec: normalised depth into the PML of width w (0 outside, 1 at the boundary pixel)."""
    jnp = k.np
    i = jnp.arange(n)
    if isinstance(w, int) and w == 0:
        return jnp.zeros((n,))
    lo = jnp.where(i < w, (w - i) / w, 0.0)
    hi = jnp.where(i >= n - w, (i - (n - w - 1)) / w, 0.0)
    return jnp.where(i < w, lo, hi)


def edge(k, eps, nx, ny, wx, wy):
    """Spec: interior value at the index clamped into the interior."""
    jnp = k.np
    ci = jnp.clip(jnp.arange(nx), wx, nx - wx - 1)
    cj = jnp.clip(jnp.arange(ny), wy, ny - wy - 1)
    return eps[..., ci[:, None], cj[None, :]]


W = [dict(wx=x, wy=y) for x in ("w", 0) for y in ("w", 0)]


@contract("C13", funcs=["pml.apply_uniaxial_pml", "pml._crop_and_edge_pad_pml_region", "pml._normalized_distance_into_pml"],
          variants=[dict(batch=b, kind=kd, **w) for b in BATCH for w in W for kd in ("c", "r")], max_paths=200, budget=120)
def tensors(k, batch, wx, wy, kind):
    jnp = k.np
    b, nx, ny, wx, wy, eps = setup(k, batch, wx, wy, kind)
    a = k.rarray("a_max", (), sign="+")
    s = k.rarray("sigma", (), sign="+")
    p = 3
    par = k.m.pml.PMLParams(wx, wy, a_max=a, p=p, sigma_max=s)
    e, m = k.m.pml.apply_uniaxial_pml(eps, par)
    dx = depth(k, nx, wx)[:, None] + jnp.zeros((nx, ny))
    dy = depth(k, ny, wy)[None, :] + jnp.zeros((nx, ny))
    f = lambda d: (1 + a * d ** p) * (1 + 1j * s * jnp.sin(jnp.pi / 2 * d) ** 2)
    sx, sy = f(dx), f(dy)
    ee = edge(k, eps, nx, ny, wx, wy)
    one = jnp.ones(b + (nx, ny))
    for nm, t, base in (("permittivity", e, ee), ("permeability", m, one)):
        k.shape(nm + " shape", t[0], b + (nx, ny))
        k.eq(nm + "_xx", t[0], sy / sx * base)
        k.eq(nm + "_xy", t[1], 0 * one)
        k.eq(nm + "_yx", t[2], 0 * one)
        k.eq(nm + "_yy", t[3], sx / sy * base)
        k.eq(nm + "_zz", t[4], sx * sy * base)


@contract("C13", funcs=["pml.apply_uniaxial_pml"], variants=[dict(batch=b, **w) for b in BATCH for w in W], max_paths=200)
def interior_preserved(k, batch, wx, wy):
    jnp = k.np
    b, nx, ny, wx, wy, eps = setup(k, batch, wx, wy)
    e, m = k.m.pml.apply_uniaxial_pml(eps, k.m.pml.PMLParams(wx, wy))
    ins = lambda t: t[..., wx:nx - wx, wy:ny - wy]
    for c, nm in ((0, "xx"), (3, "yy"), (4, "zz")):
        k.eq("interior permittivity " + nm, ins(e[c]), ins(eps))
        k.eq("interior permeability " + nm, ins(m[c]), jnp.ones(ins(eps).shape))


@contract("C13", funcs=["pml.apply_uniaxial_pml"], batch=[(), ("B",)], max_paths=400, budget=150, wx=["w"], wy=["w", 0], axis=[-2, -1])
def reflection_symmetric(k, batch, wx, wy, axis):
    """Flipping the permittivity flips the media: opposite sides are treated alike."""
    jnp = k.np
    b, nx, ny, wx, wy, eps = setup(k, batch, wx, wy)
    par = k.m.pml.PMLParams(wx, wy)
    flip = (lambda x: x[..., ::-1, :]) if axis == -2 else (lambda x: x[..., ::-1])
    e1, m1 = k.m.pml.apply_uniaxial_pml(eps, par)
    e2, m2 = k.m.pml.apply_uniaxial_pml(flip(eps), par)
    for c, nm in ((0, "xx"), (3, "yy"), (4, "zz")):
        k.eq("flip permittivity " + nm, e2[c], flip(e1[c]))
        k.eq("flip permeability " + nm, m2[c], flip(m1[c]))


@contract("C13", funcs=["pml._crop_and_edge_pad_pml_region"], bad=["x", "y", "both"], batch=[(), ("B",)])
def no_interior_rejected(k, bad, batch):
    b = bshape(k, batch)
    nx, ny = k.dim("nx", 1, 4), k.dim("ny", 1, 4)
    wx, wy = k.dim("wx", 0, 4), k.dim("wy", 0, 4)
    if bad in ("x", "both"):
        k.assume(2 * wx >= nx)
    else:
        k.assume(2 * wx < nx)
    if bad in ("y", "both"):
        k.assume(2 * wy >= ny)
    else:
        k.assume(2 * wy < ny)
    eps = k.carray("eps", b + (nx, ny))
    k.raises("no interior rejected", lambda: k.m.pml.apply_uniaxial_pml(eps, k.m.pml.PMLParams(wx, wy)))
