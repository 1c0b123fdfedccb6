"""C03: Fourier transform, inverse and convolution matrices."""
from ..registry import contract
from .common import bshape, BATCH, k2pi


@contract("C03", funcs=["fft.fft", "fft._validate_shape_for_expansion", "fft.min_array_shape_for_expansion"],
          lead=[(), ("B",), ("B1", "B2")], trail=[(), ("T",), ("T1", "T2")], neg=[False, True])
def fft_forward(k, lead, trail, neg):
    jnp = k.np
    lb, tb = bshape(k, lead), bshape(k, trail)
    nx, ny, n = k.dim("nx"), k.dim("ny"), k.dim("N")
    ex = k.expansion("exp", n)
    mx, my = k.gmax(ex)
    k.assume(nx >= 2 * mx + 1)
    k.assume(ny >= 2 * my + 1)
    x = k.carray("x", lb + (nx, ny) + tb)
    ax = (len(lb), len(lb) + 1)
    if neg:
        ax = (ax[0] - x.ndim, ax[1] - x.ndim)
    y = k.m.fft.fft(x, ex, axes=ax)
    k.shape("shape", y, lb + (n,) + tb)
    k.eq("coefficients", y, dft(k, x, ex.basis_coefficients, len(lb), nx, ny))


def dft(k, x, g, nlead, nx, ny):
    """Normalised DFT coefficients of x along axes (nlead, nlead+1) at the integer orders g."""
    jnp = k.np
    ntrail = x.ndim - nlead - 2
    gx, gy = g[:, 0], g[:, 1]
    i, j = jnp.arange(nx), jnp.arange(ny)
    ph = jnp.exp(-2j * jnp.pi * (gx[:, None, None] * i[:, None] / nx + gy[:, None, None] * j[None, :] / ny))
    ph = ph.reshape(ph.shape + (1,) * ntrail)
    xx = x.reshape(x.shape[:nlead] + (1,) + x.shape[nlead:])
    return jnp.sum(xx * ph, axis=(nlead + 1, nlead + 2)) / (nx * ny)


@contract("C03", funcs=["fft.ifft"], lead=[(), ("B",), ("B1", "B2")], trail=[(), ("T",)], neg=[False, True])
def ifft_inverse(k, lead, trail, neg):
    jnp = k.np
    lb, tb = bshape(k, lead), bshape(k, trail)
    nx, ny, n = k.dim("nx"), k.dim("ny"), k.dim("N")
    ex = k.expansion("exp", n)
    mx, my = k.gmax(ex)
    k.assume(nx >= 2 * mx + 1)
    k.assume(ny >= 2 * my + 1)
    y = k.carray("y", lb + (n,) + tb)
    ax = len(lb) - (y.ndim if neg else 0)
    x = k.m.fft.ifft(y, ex, (nx, ny), axis=ax)
    k.shape("shape", x, lb + (nx, ny) + tb)
    g = ex.basis_coefficients
    i, j = jnp.arange(nx), jnp.arange(ny)
    ph = jnp.exp(2j * jnp.pi * (g[:, 0][:, None, None] * i[:, None] / nx + g[:, 1][:, None, None] * j[None, :] / ny))
    ph = ph.reshape(ph.shape + (1,) * len(tb))
    yy = y.reshape(lb + (n, 1, 1) + tb)
    k.eq("fourier sum", x, jnp.sum(yy * ph, axis=len(lb)))
    axes = (len(lb), len(lb) + 1)
    k.eq("fft(ifft(y)) == y", k.m.fft.fft(x, ex, axes=axes), y)


@contract("C03", funcs=["fft.fourier_convolution_matrix", "fft._standard_toeplitz_indices"], batch=BATCH)
def convolution_matrix(k, batch):
    jnp = k.np
    b = bshape(k, batch)
    nx, ny, n = k.dim("nx"), k.dim("ny"), k.dim("N")
    ex = k.expansion("exp", n)
    mx, my = k.gmax(ex)
    k.assume(nx >= 2 * mx + 1)
    k.assume(ny >= 2 * my + 1)
    x = k.carray("x", b + (nx, ny))
    m = k.m.fft.fourier_convolution_matrix(x, ex)
    k.shape("shape", m, b + (n, n))
    g = ex.basis_coefficients
    d = (g[:, None, :] - g[None, :, :]).reshape((n * n, 2))
    want = dft(k, x, d, len(b), nx, ny).reshape(b + (n, n))
    k.eq("entry (i,j) is the coefficient of G_i - G_j", m, want)


@contract("C03", funcs=["fft.fourier_convolution_matrix"], batch=BATCH)
def convolution_constant(k, batch):
    jnp = k.np
    b = bshape(k, batch)
    nx, ny, n = k.dim("nx"), k.dim("ny"), k.dim("N")
    ex = k.expansion("exp", n)
    mx, my = k.gmax(ex)
    k.assume(nx >= 2 * mx + 1)
    k.assume(ny >= 2 * my + 1)
    c = k.carray("c", b)
    m = k.m.fft.fourier_convolution_matrix(jnp.broadcast_to(c[..., None, None], b + (nx, ny)), ex)
    k.eq("diagonal for constant arrays", m, c[..., None, None] * jnp.eye(n))


@contract("C03", funcs=["fft._validate_shape_for_expansion", "fft.min_array_shape_for_expansion"],
          which=["fft", "ifft", "conv"], small=["x", "y"])
def rejects_aliasing(k, which, small):
    nx, ny, n = k.dim("nx"), k.dim("ny"), k.dim("N")
    ex = k.expansion("exp", n)
    mx, my = k.gmax(ex)
    if small == "x":
        k.assume(nx < 2 * mx + 1)
    else:
        k.assume(ny < 2 * my + 1)
    if which == "fft":
        x = k.carray("x", (nx, ny))
        k.raises("too small grid rejected", lambda: k.m.fft.fft(x, ex))
    elif which == "conv":
        x = k.carray("x", (nx, ny))
        k.raises("too small grid rejected", lambda: k.m.fft.fourier_convolution_matrix(x, ex))
    else:
        y = k.carray("y", (n,))
        k.raises("too small grid rejected", lambda: k.m.fft.ifft(y, ex, (nx, ny)))
