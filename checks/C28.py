import math
import warnings

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check

ID = "C28"
TITLE = "A HEALPix map's tracts are the HEALPix pixels, in the chosen ordering"
RULE = ("A HEALPix map (nside 1 to 128, RING or NEST) and up to 8 positions (pixel edges, poles, anywhere), against a "
        "separate implementation of the HEALPix scheme (colatitude counted from the south pole, the convention of this "
        "map): findTract gives the pixel that holds the position, a tract's centre and vertices are that pixel's, and "
        "the centre belongs to the tract. Non-trivial: nside above 1.")
QUICK, THOROUGH = 5000, 120000


# -- The HEALPix scheme (Gorski et al. 2005), from the published formulae.
JRLL = (2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4)
JPLL = (1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7)


def interleave(x, y):
    out, k = 0, 0
    while x or y:
        out |= ((x & 1) << (2*k)) | ((y & 1) << (2*k + 1))
        x, y, k = x >> 1, y >> 1, k + 1
    return out


def faceXY(nside, z, s, phi):
    """(face, x, y, margin): continuous coordinates in a base pixel; s = sin(theta)."""
    za = abs(z)
    tt = (phi % (2*math.pi))/(0.5*math.pi)
    if za <= 2.0/3:
        t1, t2 = nside*(0.5 + tt), nside*0.75*z
        jp, jm = t1 - t2, t1 + t2
        ifp, ifm = int(math.floor(jp/nside)), int(math.floor(jm/nside))
        face = (ifp & 3) + 4 if ifp == ifm else (ifp & 3) if ifp < ifm else (ifm & 3) + 8
        x, y = jm - math.floor(jm/nside)*nside, nside - (jp - math.floor(jp/nside)*nside)
    else:
        ntt = min(3, int(tt))
        tp = tt - ntt
        tmp = nside*s*math.sqrt(3.0/(1 + za))
        jp, jm = tp*tmp, (1 - tp)*tmp
        if z >= 0:
            face, x, y = ntt, nside - jm, nside - jp
        else:
            face, x, y = ntt + 8, jp, jm
    return face, x, y


def pixel(nside, nest, z, s, phi):
    face, x, y = faceXY(nside, z, s, phi)
    ix, iy = (min(nside - 1, max(0, int(math.floor(v)))) for v in (x, y))
    if nest:
        return face*nside*nside + interleave(ix, iy)
    jr = JRLL[face]*nside - ix - iy - 1
    return ringStart(nside, jr)[0] + jpOf(nside, jr, face, ix, iy) - 1


def ringStart(nside, jr):
    """(first pixel of ring jr (1-based from theta=0), pixels per quarter, shift)."""
    if jr < nside:
        return 2*jr*(jr - 1), jr, 0
    if jr > 3*nside:
        r = 4*nside - jr
        return 12*nside*nside - 2*r*(r + 1), r, 0
    return 2*nside*(nside - 1) + (jr - nside)*4*nside, nside, (jr - nside) & 1


def jpOf(nside, jr, face, ix, iy):
    _, nr, kshift = ringStart(nside, jr)
    jp = (JPLL[face]*nr + ix - iy + 1 + kshift)//2
    if jp > 4*nr:
        jp -= 4*nr
    return jp + 4*nr if jp < 1 else jp


def position(nside, face, x, y):
    """(z, phi) of continuous coordinates in a base pixel."""
    jr = JRLL[face]*nside - x - y
    if jr < nside:
        nr = jr
        z = 1 - nr*nr/(3.0*nside*nside)
    elif jr > 3*nside:
        nr = 4*nside - jr
        z = nr*nr/(3.0*nside*nside) - 1
    else:
        nr = nside
        z = (2*nside - jr)*2/(3.0*nside)
    tmp = JPLL[face]*nr + x - y
    if tmp < 0:
        tmp += 8*nr
    return z, (0.0 if nr < 1e-15 else 0.25*math.pi*tmp/nr)


def inverse(nside, nest):
    """(face, ix, iy) of each pixel."""
    out = {}
    for face in range(12):
        for ix in range(nside):
            for iy in range(nside):
                if nest:
                    out[face*nside*nside + interleave(ix, iy)] = (face, ix, iy)
                else:
                    jr = JRLL[face]*nside - ix - iy - 1
                    out[ringStart(nside, jr)[0] + jpOf(nside, jr, face, ix, iy) - 1] = (face, ix, iy)
    return out


_tables = {}


def table(nside, nest):
    if (nside, nest) not in _tables:
        _tables[nside, nest] = inverse(nside, nest)
    return _tables[nside, nest]


@st.composite
def cases(draw):
    spec = draw(gen.healpix(rotation=gen.rotations, lmin=0, lmax=draw(st.sampled_from([2, 4, 7])),
                            npix=gen.pixels(hi=2000)))
    n = 1 << spec["log2NSide"]

    def edge(face, x, y, ex, ey):
        x, y = min(n, max(0.0, x*n + ex)), min(n, max(0.0, y*n + ey))
        z, phi = position(n, face, x, y)
        return [phi % (2*math.pi), math.asin(max(-1.0, min(1.0, -z)))]
    whole = st.one_of(st.integers(0, n).map(lambda k: k/n), gen.frac())
    point = st.one_of(gen.skyPoint(), st.builds(edge, st.integers(0, 11), whole, whole, gen.tiny, gen.tiny))
    return dict(spec=spec, points=draw(st.lists(point, min_size=1, max_size=8)), tracts=draw(st.lists(gen.frac(),
                                                                                                     max_size=2)))


strategy = cases


def checkTract(m, t, i, nside, nest):
    check(t.getId() == i, "tract %d says it is tract %s", i, t.getId())
    face, ix, iy = table(nside, nest)[i]
    z, phi = position(nside, face, ix + 0.5, iy + 0.5)
    want = maps.xyz(maps.sky(phi, math.asin(-z)))
    check(maps.angsep(maps.xyz(t.getCtrCoord()), want) < 1e-9, "tract %d is centred on %s; the pixel is at lon=%r lat=%r", i,
          t.getCtrCoord(), phi, math.asin(-z))
    got = [maps.xyz(v) for v in t.getVertexList()]
    check(len(got) == 4, "tract %d has %d vertices", i, len(got))
    for dx, dy in ((0, 0), (1, 0), (1, 1), (0, 1)):
        z, phi = position(nside, face, ix + dx, iy + dy)
        w = maps.xyz(maps.sky(phi, math.asin(max(-1.0, min(1.0, -z)))))
        # hpgeom's arithmetic loses digits next to the poles
        check(min(maps.angsep(w, g) for g in got) < 1e-7, "tract %d has vertices %s; the pixel has one at lon=%r lat=%r", i,
              t.getVertexList(), phi, math.asin(-z))
    back = m.findTract(t.getCtrCoord()).getId()
    check(back == i, "the centre of tract %d belongs to tract %s", i, back)


def run(case):
    warnings.simplefilter("ignore")
    spec = case["spec"]
    nside, nest = 1 << spec["log2NSide"], spec["nest"]
    m = maps.build(spec)
    check(len(m) == 12*nside*nside, "%d tracts for nside %d", len(m), nside)
    for f in case["tracts"]:
        i = min(len(m) - 1, int(f*len(m)))
        checkTract(m, m[i], i, nside, nest)
    for lon, lat in case["points"]:
        t = m.findTract(maps.sky(lon, lat))
        ok = set()
        for e in (0.0, 1e-9, -1e-9):
            for d in (0.0, 1e-9, -1e-9):
                la = max(-0.5*math.pi, min(0.5*math.pi, lat + e))
                ok.add(pixel(nside, nest, -math.sin(la), math.cos(la), lon + d/max(1e-9, math.cos(la))))
        if abs(lat) > 0.5*math.pi - 2e-8:  # every longitude is near
            la = math.copysign(0.5*math.pi - 1e-9, lat)
            ok |= {pixel(nside, nest, -math.sin(la), math.cos(la), k*0.5*math.pi + 0.1) for k in range(4)}
        check(t.getId() in ok, "findTract(lon=%r, lat=%r) gives tract %s; the position is in pixel %s", lon, lat, t.getId(),
              sorted(ok))
        checkTract(m, t, int(t.getId()), nside, nest)
    return Outcome(nside > 1, ["nside=%d" % nside, "nest" if nest else "ring"])
