"""C12: Poynting flux decompositions."""
from ..registry import contract
from .common import bshape
from .layers import layer, expansion
from .c10_fields import SHAPES, amps


def setup(k, lb, ab, lossless=False):
    jnp = k.np
    k.opaque_omega_k()
    n, m = k.dim("N", 1, 3), k.dim("M", 1, 3)
    lay = layer(k, "L", bshape(k, lb), expansion(k, n), n, lossless=lossless)
    b = bshape(k, ab)
    fwd, bwd = amps(k, "fwd", b, n, m), amps(k, "bwd", b, n, m)
    w = (2 * jnp.pi / lay.wavelength)[..., None, None]

    def e_of(a, c):
        return lay.omega_script_k_matrix @ (lay.eigenvectors @ ((a - c) / (w * lay.eigenvalues[..., None])))

    def h_of(a, c):
        return lay.eigenvectors @ (a + c)
    return lay, fwd, bwd, e_of, h_of


def re(k, x):
    return k.np.real(x)


@contract("C12", funcs=["fields.amplitude_poynting_flux"], variants=SHAPES, samples=3)
def amplitude_flux(k, lb, ab):
    jnp = k.np
    lay, fwd, bwd, e_of, h_of = setup(k, lb, ab)
    sf, sb = k.m.fields.amplitude_poynting_flux(fwd, bwd, lay)
    total = re(k, jnp.conj(e_of(fwd, bwd)) * h_of(fwd, bwd))
    k.eq("forward plus backward is the total flux", sf + sb, total)
    k.true("forward flux real", not jnp.iscomplexobj(sf))
    k.true("backward flux real", not jnp.iscomplexobj(sb))
    z = jnp.zeros_like(fwd)
    s1, s2 = k.m.fields.amplitude_poynting_flux(fwd, z, lay)
    k.eq("no backward amplitude, no backward flux", s2, 0 * total)
    k.eq("flux of forward eigenmodes alone", s1, re(k, jnp.conj(e_of(fwd, z)) * h_of(fwd, z)))
    s1, s2 = k.m.fields.amplitude_poynting_flux(z, bwd, lay)
    k.eq("no forward amplitude, no forward flux", s1, 0 * total)
    k.eq("flux of backward eigenmodes alone", s2, re(k, jnp.conj(e_of(z, bwd)) * h_of(z, bwd)))


@contract("C12", funcs=["fields.amplitude_poynting_flux"], variants=SHAPES[:3], samples=3)
def amplitude_flux_split(k, lb, ab):
    """The forward part is Re(conj(E_tot)*H_fwd + conj(H_tot)*E_fwd)/2 up to the cross term, which cancels in the order sum."""
    jnp = k.np
    lay, fwd, bwd, e_of, h_of = setup(k, lb, ab)
    sf, sb = k.m.fields.amplitude_poynting_flux(fwd, bwd, lay)
    z = jnp.zeros_like(fwd)
    ef, hf, eb, hb = e_of(fwd, z), h_of(fwd, z), e_of(z, bwd), h_of(z, bwd)
    half = lambda c, p, q: c * re(k, p + q)
    et, ht = ef + eb, hf + hb
    k.eq("forward", sf, half(0.5, jnp.conj(et) * hf, jnp.conj(ht) * ef))
    k.eq("backward", sb, half(0.5, jnp.conj(et) * hb, jnp.conj(ht) * eb))


@contract("C12", funcs=["fields.directional_poynting_flux", "fields.eigenmode_poynting_flux"], variants=SHAPES, samples=3, budget=150)
def directional_flux(k, lb, ab):
    jnp = k.np
    directional_total(k, *setup(k, lb, ab))


@contract("C12", funcs=["fields.directional_poynting_flux", "fields.eigenmode_poynting_flux"], variants=SHAPES[:3], samples=3, sym=False)
def directional_flux_lossless(k, lb, ab):
    """Layers with modes that carry exactly no flux."""
    directional_total(k, *setup(k, lb, ab, lossless=True))


def directional_total(k, lay, fwd, bwd, e_of, h_of):
    jnp = k.np
    sf, sb = k.m.fields.directional_poynting_flux(fwd, bwd, lay)
    et, ht = e_of(fwd, bwd), h_of(fwd, bwd)
    total = re(k, jnp.conj(et) * ht)
    k.eq("forward plus backward is the total flux", sf + sb, total)
    k.true("forward flux real", not jnp.iscomplexobj(sf))
    k.true("backward flux real", not jnp.iscomplexobj(sb))
    z = jnp.zeros_like(fwd)
    s1, s2 = k.m.fields.directional_poynting_flux(z, z, lay)
    k.eq("zero forward flux of zero amplitudes", s1, 0 * total)
    k.eq("zero backward flux of zero amplitudes", s2, 0 * total)


@contract("C12", funcs=["fields.directional_poynting_flux", "fields.eigenmode_poynting_flux"], variants=SHAPES[:5], samples=3, budget=240)
def directional_split(k, lb, ab):
    """Forward = flux of the total field with the part of the field carried by modes of positive flux."""
    jnp = k.np
    lay, fwd, bwd, e_of, h_of = setup(k, lb, ab)
    sf, sb = k.m.fields.directional_poynting_flux(fwd, bwd, lay)
    et, ht = e_of(fwd, bwd), h_of(fwd, bwd)
    pos = (k.m.fields.eigenmode_poynting_flux(lay) > 0)[..., None]
    # the backward mode of a forward mode carries the opposite flux
    af, bf = jnp.where(pos, fwd, 0), jnp.where(pos, 0, bwd)
    ab_, bb = jnp.where(pos, 0, fwd), jnp.where(pos, bwd, 0)
    k.eq("forward", sf, 0.5 * re(k, jnp.conj(et) * h_of(af, bf) + jnp.conj(ht) * e_of(af, bf)))
    k.eq("backward", sb, 0.5 * re(k, jnp.conj(et) * h_of(ab_, bb) + jnp.conj(ht) * e_of(ab_, bb)))


@contract("C12", funcs=["fields.eigenmode_poynting_flux"], lb=[(), ("B",), ("B1", "B2")], samples=3)
def mode_flux(k, lb):
    jnp = k.np
    lay, _, _, e_of, h_of = setup(k, lb, lb)
    s = k.m.fields.eigenmode_poynting_flux(lay)
    one = jnp.eye(lay.eigenvalues.shape[-1])
    one = jnp.broadcast_to(one, lay.eigenvalues.shape[:-1] + one.shape)
    z = 0 * one
    k.eq("order-summed flux of each mode alone", s, jnp.sum(re(k, jnp.conj(e_of(one, z)) * h_of(one, z)), axis=-2))


@contract("C12", funcs=["fields.amplitude_poynting_flux", "fields._validate_amplitudes_shape"], kind=["fwd", "bwd"])
def bad_amplitudes_rejected(k, kind):
    k.opaque_omega_k()
    n, m, p = k.dim("N", 1, 3), k.dim("M", 1, 3), k.dim("P", 1, 9)
    k.assume(p != 2 * n)
    lay = layer(k, "L", (), expansion(k, n), n)
    good, bad = k.carray("good", (2 * n, m)), k.carray("bad", (p, m))
    a, b = (bad, good) if kind == "fwd" else (good, bad)
    k.raises("wrong number of modes", lambda: k.m.fields.amplitude_poynting_flux(a, b, lay))
