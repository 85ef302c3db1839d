"""Common to the checks about what is inside a tract: a map and one or two of its tracts."""
import math

from hypothesis import strategies as st

from vlib import gen, maps


@st.composite
def mapAndTracts(draw, maxTracts=2, **kw):
    if "rotation" not in kw:
        kw["rotation"] = gen.rotations
    if "npix" not in kw and draw(st.integers(0, 5)) == 0:  # as wide as the tracts of a real dodecahedron map
        kw["npix"] = st.integers(40000, 2000000)
    spec = draw(gen.anyMap(**kw))
    return dict(spec=spec, tracts=draw(st.lists(gen.frac(), min_size=1, max_size=maxTracts)))


def pick(m, fractions):
    n = len(m)
    return [m[min(n - 1, int(f*n))] for f in fractions]


def open_(case):
    m = maps.build(case["spec"])
    return m, pick(m, case["tracts"])


def geometry(case):
    b = case["spec"]["builder"]
    return maps.patchDims(b), maps.patchBorder(b)


def clip(a, b):
    """Intersection of two half-open boxes (x0, y0, x1, y1), or None."""
    x0, y0, x1, y1 = max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3])
    return (x0, y0, x1, y1) if x0 < x1 and y0 < y1 else None


def grow(a, n):
    return (a[0] - n, a[1] - n, a[2] + n, a[3] + n)


def choose(n, fractions):
    """Indices of 0..n-1: the ends and those the fractions point at."""
    return sorted({0, n - 1} | {min(n - 1, int(f*n)) for f in fractions})


def pixelIndex(v):
    """Index of the pixel a pixel position lies in."""
    return int(math.floor(v + 0.5))


def lattices(tier):
    """Specs of maps of one tract of up to 16 patches along x (or y) and one along the other, of every size in turn."""
    top = 330 if tier == "quick" else 4100
    for n, size in enumerate(range(3, top)):
        inner = [size, 40*size] if n % 2 else [40*size, size]
        yield dict(kind="discrete", raList=[30.0], decList=[10.0], radiusList=[round(7.5*size*0.25/3600, 9)], tractOverlap=0.0,
                   pixelScale=0.25, projection="TAN", rotation=0.0,
                   builder=dict(name="legacy", inner=inner, border=(0, 1, 3, size//2)[n//2 % 4]))
