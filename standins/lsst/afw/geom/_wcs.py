"""SkyWcs on the FITS-WCS conventions (Calabretta and Greisen 2002).

Zenithal projections (TAN STG SIN ARC ZEA) and the cylindrical ones with the
reference point on the equator (CEA CAR MER) are written out here; every other
code or reference point goes to wcslib through astropy.wcs.  A position that
cannot be projected comes out as NaN, or raises, according to `setBadMode`:
versions of the real package have done either, and lsst.skymap handles both.
"""
import math

import numpy as np

from lsst.geom import (Angle, SpherePoint, Point2D, Extent2D, Box2D, degrees, radians)
import lsst.pex.exceptions as pexExceptions

__all__ = ["SkyWcs", "makeSkyWcs", "makeCdMatrix", "setBadMode"]

_D2R = math.pi/180.0
_R2D = 180.0/math.pi
_ZENITHAL = ("TAN", "STG", "SIN", "ARC", "ZEA")
_CYLINDRICAL = ("CEA", "CAR", "MER")
_MAXPIX = 2.0**31 - 2.0**16
_badMode = "nan"


def setBadMode(mode):
    """"nan", "nanx" or "nany" (NaN in one coordinate), "domain" (DomainError) or "runtime" (RuntimeError)."""
    global _badMode
    if mode not in ("nan", "nanx", "nany", "domain", "runtime"):
        raise ValueError(mode)
    old, _badMode = _badMode, mode
    return old


def _raiseBad(where):
    cls = pexExceptions.DomainError if _badMode == "domain" else pexExceptions.RuntimeError
    raise cls("One or more of the %s coordinates were invalid" % where)


def makeCdMatrix(scale, orientation=Angle(0.0), flipX=False):
    o = orientation.asRadians()
    s = scale.asDegrees()
    xmult = 1.0 if flipX else -1.0
    return np.array([[math.cos(o)*s*xmult, math.sin(o)*s],
                     [-math.sin(o)*s*xmult, math.cos(o)*s]])


def _theta0(projection):
    if projection in _ZENITHAL or projection in ("AZP", "SZP", "ZPN", "AIR"):
        return 90.0
    if projection in ("COP", "COE", "COD", "COO"):
        return None
    return 0.0


class SkyWcs:
    """A celestial WCS; pixel indices start at 0 (the LSST convention)."""

    def __init__(self, crpix, crval, cdMatrix, projection):
        self._crpix = (float(crpix[0]), float(crpix[1]))
        self._crval = (crval.getLongitude().asRadians(), crval.getLatitude().asRadians())
        self._cd = np.array(cdMatrix, dtype=float)
        if self._cd.shape != (2, 2):
            raise pexExceptions.InvalidParameterError("CD matrix must be 2x2")
        det = self._cd[0, 0]*self._cd[1, 1] - self._cd[0, 1]*self._cd[1, 0]
        if not (det != 0.0 and math.isfinite(det)):
            raise pexExceptions.InvalidParameterError("CD matrix is singular")
        self._inv = np.array([[self._cd[1, 1], -self._cd[0, 1]], [-self._cd[1, 0], self._cd[0, 0]]])/det
        self._c = tuple(float(v) for v in self._cd.ravel())
        self._i = tuple(float(v) for v in self._inv.ravel())
        self._projection = str(projection)
        if not all(math.isfinite(v) for v in self._crpix + self._crval):
            raise pexExceptions.InvalidParameterError("non-finite WCS parameters")
        a, d = self._crval
        sa, ca, sd, cd = math.sin(a), math.cos(a), math.sin(d), math.cos(d)
        if self._projection in _ZENITHAL:
            self._kind = "zen"
            self._e = (-sa, ca, 0.0)
            self._n = (-sd*ca, -sd*sa, cd)
            self._u = (cd*ca, cd*sa, sd)
            if d*_R2D >= 90.0:  # FITS default LONPOLE=0 there, 180 elsewhere
                self._e = tuple(-v for v in self._e)
                self._n = tuple(-v for v in self._n)
        elif self._projection in _CYLINDRICAL and d == 0.0:
            self._kind = "cyl"
        else:
            self._kind = "lib"
            self._lib = self._makeLib()

    def _makeLib(self):
        from astropy.wcs import WCS
        w = WCS(naxis=2)
        w.wcs.ctype = ["RA---" + self._projection, "DEC--" + self._projection]
        w.wcs.crval = [self._crval[0]*_R2D, self._crval[1]*_R2D]
        w.wcs.crpix = [0.0, 0.0]
        w.wcs.cd = self._cd
        w.wcs.cunit = ["deg", "deg"]
        try:
            w.wcs.set()
        except Exception as e:
            raise pexExceptions.RuntimeError("cannot make a WCS: %s" % e)
        return w

    # -- vectorized core: radians <-> pixels, NaN where there is no answer
    def _skyToPixelArrays(self, lon, lat):
        with np.errstate(all="ignore"):
            if self._kind == "zen":
                cl = np.cos(lat)
                p = (cl*np.cos(lon), cl*np.sin(lon), np.sin(lat))
                e = sum(a*b for a, b in zip(self._e, p))
                n = sum(a*b for a, b in zip(self._n, p))
                u = sum(a*b for a, b in zip(self._u, p))
                f = self._zenithalFactor(e, n, u)
                x, y = f*e, f*n
            elif self._kind == "cyl":
                dl = np.remainder(lon - self._crval[0] + math.pi, 2*math.pi) - math.pi
                x = dl*_R2D
                if self._projection == "CEA":
                    y = np.sin(lat)*_R2D
                elif self._projection == "CAR":
                    y = lat*_R2D
                else:
                    y = np.where(np.abs(lat) < 0.5*math.pi,
                                 np.log(np.tan(0.25*math.pi + 0.5*lat))*_R2D, np.nan)
            else:
                px, py = self._lib.wcs.s2p(np.stack([lon*_R2D, lat*_R2D], axis=-1), 0)["pixcrd"].T \
                    if lon.size else (lon, lat)
                px = px + self._crpix[0]
                py = py + self._crpix[1]
            if self._kind != "lib":
                i = self._i
                px = i[0]*x + i[1]*y + self._crpix[0]
                py = i[2]*x + i[3]*y + self._crpix[1]
            bad = ~((np.abs(px) < _MAXPIX) & (np.abs(py) < _MAXPIX))
            px = np.where(bad, np.nan, px)
            py = np.where(bad, np.nan, py)
        return px, py

    def _zenithalFactor(self, e, n, u):
        """R(theta) in degrees over sin of the angle from the reference point."""
        pr = self._projection
        if pr == "TAN":
            return np.where(u > 0, _R2D/np.where(u > 0, u, 1.0), np.nan)
        if pr == "SIN":
            return np.where(u >= 0, _R2D, np.nan)
        if pr == "STG":
            return np.where(1.0 + u > 1e-14, 2.0*_R2D/np.where(1.0 + u > 1e-14, 1.0 + u, 1.0), np.nan)
        s2 = e*e + n*n
        s = np.sqrt(s2)
        if pr == "ARC":
            ang = np.arctan2(s, u)
            return np.where(s > 1e-12, _R2D*ang/np.where(s > 1e-12, s, 1.0),
                            np.where(u > 0, _R2D, np.nan))
        # ZEA: R = 2 sin(ang/2); over sin(ang) = 1/cos(ang/2)
        half = 0.5*np.arctan2(s, u)
        c = np.cos(half)
        return np.where(c > 1e-12, _R2D/np.where(c > 1e-12, c, 1.0), np.nan)

    def _pixelToSkyArrays(self, px, py):
        with np.errstate(all="ignore"):
            dx = px - self._crpix[0]
            dy = py - self._crpix[1]
            if self._kind == "lib":
                if px.size == 0:
                    return px, py
                out = self._lib.wcs.p2s(np.stack([dx, dy], axis=-1), 0)
                w = out["world"].T
                bad = out["stat"] != 0
                lon = np.where(bad, np.nan, w[0]*_D2R)
                lat = np.where(bad, np.nan, w[1]*_D2R)
                return np.remainder(lon, 2*math.pi), lat
            c = self._c
            x = c[0]*dx + c[1]*dy
            y = c[2]*dx + c[3]*dy
            if self._kind == "cyl":
                lon = np.remainder(x*_D2R + self._crval[0], 2*math.pi)
                yr = y*_D2R
                if self._projection == "CEA":
                    lat = np.where(np.abs(yr) <= 1.0, np.arcsin(np.clip(yr, -1, 1)), np.nan)
                elif self._projection == "CAR":
                    lat = np.where(np.abs(yr) <= 0.5*math.pi, yr, np.nan)
                else:
                    lat = 2.0*np.arctan(np.exp(yr)) - 0.5*math.pi
                lon = np.where(np.isnan(lat), np.nan, lon)
                return lon, lat
            r = np.hypot(x, y)*_D2R
            pr = self._projection
            if pr == "TAN":
                ang = np.arctan(r)
            elif pr == "STG":
                ang = 2.0*np.arctan(0.5*r)
            elif pr == "SIN":
                ang = np.where(r <= 1.0, np.arcsin(np.clip(r, 0, 1)), np.nan)
            elif pr == "ARC":
                ang = np.where(r <= math.pi, r, np.nan)
            else:
                ang = np.where(r <= 2.0, 2.0*np.arcsin(np.clip(0.5*r, 0, 1)), np.nan)
            s, u = np.sin(ang), np.cos(ang)
            rr = np.where(r > 0, r, 1.0)
            e = s*(x*_D2R)/rr
            n = s*(y*_D2R)/rr
            v = [e*self._e[k] + n*self._n[k] + u*self._u[k] for k in range(3)]
            lon = np.remainder(np.arctan2(v[1], v[0]), 2*math.pi)
            lat = np.arctan2(v[2], np.hypot(v[0], v[1]))
        return lon, lat

    # -- scalar fast paths
    def _skyToPixelScalar(self, lon, lat):
        if self._kind == "zen" and lon == lon and lat == lat:
            cl = math.cos(lat)
            p0, p1, p2 = cl*math.cos(lon), cl*math.sin(lon), math.sin(lat)
            E, N, U = self._e, self._n, self._u
            e = E[0]*p0 + E[1]*p1 + E[2]*p2
            n = N[0]*p0 + N[1]*p1 + N[2]*p2
            u = U[0]*p0 + U[1]*p1 + U[2]*p2
            pr = self._projection
            f = math.nan
            if pr == "TAN":
                if u > 0:
                    f = _R2D/u
            elif pr == "STG":
                if 1.0 + u > 1e-14:
                    f = 2.0*_R2D/(1.0 + u)
            elif pr == "SIN":
                if u >= 0:
                    f = _R2D
            else:
                f = float(self._zenithalFactor(np.float64(e), np.float64(n), np.float64(u)))
            x, y = f*e, f*n
            i = self._i
            px = i[0]*x + i[1]*y + self._crpix[0]
            py = i[2]*x + i[3]*y + self._crpix[1]
            if abs(px) < _MAXPIX and abs(py) < _MAXPIX:
                return px, py
            return math.nan, math.nan
        px, py = self._skyToPixelArrays(np.array([lon]), np.array([lat]))
        return float(px[0]), float(py[0])

    def _pixelToSkyScalar(self, px, py):
        lon, lat = self._pixelToSkyArrays(np.array([float(px)]), np.array([float(py)]))
        return float(lon[0]), float(lat[0])

    # -- public interface
    def skyToPixel(self, *args, **kwargs):
        if "sky" in kwargs:
            args = (kwargs["sky"],)
        (sky,) = args
        if isinstance(sky, SpherePoint):
            x, y = self._skyToPixelScalar(sky._lon, sky._lat)
            if x != x and _badMode != "nan":
                if not _badMode.startswith("nan"):
                    _raiseBad("world")
                origin = self.getPixelOrigin()
                x, y = (x, origin[1]) if _badMode == "nanx" else (origin[0], y)
            return Point2D(x, y)
        return [self.skyToPixel(s) for s in sky]

    def pixelToSky(self, *args, **kwargs):
        if kwargs:
            args = (kwargs["pixel"],) if "pixel" in kwargs else (kwargs["x"], kwargs["y"])
        if len(args) == 2:
            args = (Point2D(*args),)
        (pix,) = args
        if hasattr(pix, "getX"):
            if not isinstance(pix, Point2D):
                raise TypeError("pixelToSky needs a Point2D, not %r" % (pix,))
            lon, lat = self._pixelToSkyScalar(pix[0], pix[1])
            if lat != lat and not _badMode.startswith("nan"):
                _raiseBad("pixel")
            return SpherePoint._fromRadians(lon, max(-0.5*math.pi, min(0.5*math.pi, lat))
                                            if lat == lat else lat)
        return [self.pixelToSky(p) for p in pix]

    def skyToPixelArray(self, ra, dec, degrees=False):
        ra, dec = np.atleast_1d(np.asarray(ra, float)), np.atleast_1d(np.asarray(dec, float))
        if degrees:
            ra, dec = ra*_D2R, dec*_D2R
        return self._skyToPixelArrays(ra, dec)

    def pixelToSkyArray(self, x, y, degrees=False):
        x, y = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(y, float))
        lon, lat = self._pixelToSkyArrays(x, y)
        if degrees:
            lon, lat = lon*_R2D, lat*_R2D
        return lon, lat

    def getSkyOrigin(self):
        return SpherePoint(Angle(self._crval[0]), Angle(self._crval[1]))

    def getPixelOrigin(self):
        return Point2D(*self._crpix)

    def getCdMatrix(self, pixel=None):
        if pixel is not None:
            raise NotImplementedError("stand-in: local CD matrix")
        return np.array(self._cd)

    def getPixelScale(self, pixel=None):
        if pixel is None:
            pixel = self.getPixelOrigin()
        x, y = pixel[0], pixel[1]
        side = 1.0
        p = [self.pixelToSky(Point2D(a, b)) for a, b in ((x, y), (x + side, y), (x, y + side))]
        a = p[0].separation(p[1]).asRadians()
        b = p[0].separation(p[2]).asRadians()
        return math.sqrt(a*b)*radians

    pixelScale = property(getPixelScale)

    def copyAtShiftedPixelOrigin(self, shift):
        if not isinstance(shift, Extent2D):
            raise TypeError("shift must be an Extent2D, not %r" % (shift,))
        return SkyWcs((self._crpix[0] + shift[0], self._crpix[1] + shift[1]),
                      SpherePoint(Angle(self._crval[0]), Angle(self._crval[1])), self._cd,
                      self._projection)

    def isFits(self):
        return True

    isFlipped = property(lambda self: (self._cd[0, 0]*self._cd[1, 1] - self._cd[0, 1]*self._cd[1, 0]) > 0)

    def _key(self):
        return (self._crpix, self._crval, self._c, self._projection)

    def __eq__(self, other):
        if not isinstance(other, SkyWcs):
            return NotImplemented
        return self._key() == other._key()

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __reduce__(self):
        return (SkyWcs, (Point2D(*self._crpix), self.getSkyOrigin(), self._cd, self._projection))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return "FITS standard SkyWcs: %s at %s pixel origin %s" % (
            self._projection, self.getSkyOrigin(), self.getPixelOrigin())

    __repr__ = __str__


def makeSkyWcs(crpix, crval, cdMatrix, projection="TAN"):
    if not isinstance(crval, SpherePoint):
        raise TypeError("crval must be a SpherePoint")
    return SkyWcs(crpix, crval, cdMatrix, projection)


_ = (Box2D, degrees)
