"""Compares the stand-in SkyWcs with wcslib (astropy.wcs) on random WCSs and positions."""
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env  # noqa: E402
env.setup()
import numpy as np  # noqa: E402
from astropy.wcs import WCS  # noqa: E402
import lsst.geom as geom  # noqa: E402
import lsst.afw.geom as afwGeom  # noqa: E402


def main(n=2000):
    rng = np.random.default_rng(1)
    worst = 0.0
    cases = 0
    for k in range(n):
        proj = ["TAN", "STG", "SIN", "ARC", "ZEA", "CEA", "CAR", "MER"][k % 8]
        cyl = proj in ("CEA", "CAR", "MER")
        ra = rng.uniform(0, 360)
        dec = 0.0 if cyl else rng.choice([rng.uniform(-90, 90), -90.0, 90.0, 0.0])
        scale = 10**rng.uniform(-1, 3)
        rot = rng.choice([0, 45, rng.uniform(0, 360)])
        cd = afwGeom.makeCdMatrix(geom.Angle(scale, geom.arcseconds), geom.Angle(rot, geom.degrees))
        w = afwGeom.makeSkyWcs(geom.Point2D(10, -20), geom.SpherePoint(ra, dec, geom.degrees), cd, proj)
        w = w.copyAtShiftedPixelOrigin(geom.Extent2D(3, 4))
        lib = WCS(naxis=2)
        lib.wcs.ctype = ["RA---" + proj, "DEC--" + proj]
        lib.wcs.crval = [ra, dec]
        lib.wcs.crpix = [14, -15]
        lib.wcs.cd = cd
        lib.wcs.set()
        size = 20*3600/scale
        pix = rng.uniform(-size, size, (5, 2)) + [13, -16]
        sky = lib.wcs.p2s(pix, 0)
        for p, s, bad in zip(pix, sky["world"], sky["stat"]):
            got = w.pixelToSky(geom.Point2D(*p))
            if bad:
                assert not got.isFinite() or proj in ("STG",), (proj, p, s, got)
                continue
            want = geom.SpherePoint(s[0], min(90, max(-90, s[1])), geom.degrees)
            d = got.separation(want).asRadians()
            worst = max(worst, d)
            assert d < 1e-9, (proj, ra, dec, p, got, want)
            back = w.skyToPixel(want)
            err = math.hypot(back[0] - p[0], back[1] - p[1])*scale/206265
            assert err < 1e-7, (proj, ra, dec, p, back, err)
            x, y = w.skyToPixelArray([want.getRa().asRadians()], [want.getDec().asRadians()])
            assert abs(x[0] - back[0])*scale < 1e-4 and abs(y[0] - back[1])*scale < 1e-4
            cases += 1
    print("stand-in SkyWcs agrees with wcslib on %d positions; worst separation %.2g rad" % (cases, worst))


if __name__ == "__main__":
    main()
