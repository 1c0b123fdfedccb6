"""Shared contract helpers."""

BATCH = [(), ("B",), ("B1", "B2")]


def bshape(k, names, lo=2):
    return tuple(k.dim(n, lo) if isinstance(n, str) else n for n in names)


def k2pi(k):
    return 2 * k.np.pi
