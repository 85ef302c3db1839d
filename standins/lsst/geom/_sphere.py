import math
import numbers

from lsst.pex.exceptions import InvalidParameterError
import lsst.sphgeom as _sphgeom

from ._angle import Angle, radians, TWOPI, HALFPI
from ._coord import Point2D

__all__ = ["SpherePoint", "averageSpherePoint"]


class SpherePoint:
    """A point on the sphere: longitude in [0, 2 pi), latitude in [-pi/2, pi/2]; immutable."""

    __slots__ = ("_lon", "_lat")

    def __init__(self, *args, **kwargs):
        if kwargs:
            names = ("longitude", "latitude", "units") if "longitude" in kwargs or "latitude" in kwargs \
                or "units" in kwargs else ("vector",) if "vector" in kwargs else ("other",)
            args = args + tuple(kwargs[k] for k in names[len(args):] if k in kwargs)
        if len(args) == 0:
            self._lon = self._lat = math.nan
            return
        if len(args) == 1:
            a = args[0]
            if isinstance(a, SpherePoint):
                self._lon, self._lat = a._lon, a._lat
                return
            if isinstance(a, (_sphgeom.Vector3d, _sphgeom.UnitVector3d)):
                x, y, z = a.x(), a.y(), a.z()
                if x == 0.0 and y == 0.0 and z == 0.0:
                    raise InvalidParameterError("Can't convert zero vector to a SpherePoint")
                self._init(*_lonLat(x, y, z))
                return
            if isinstance(a, _sphgeom.LonLat):
                self._init(a.getLon().asRadians(), a.getLat().asRadians())
                return
            raise TypeError("incompatible constructor arguments %r" % (args,))
        if len(args) == 2:
            lon, lat = args
            if not (isinstance(lon, Angle) and isinstance(lat, Angle)):
                raise TypeError("incompatible constructor arguments %r" % (args,))
            self._init(lon._val, lat._val)
            return
        if len(args) == 3:
            lon, lat, units = args
            if not (isinstance(lon, numbers.Real) and isinstance(lat, numbers.Real)):
                raise TypeError("incompatible constructor arguments %r" % (args,))
            self._init(Angle(lon, units)._val, Angle(lat, units)._val)
            return
        raise TypeError("incompatible constructor arguments %r" % (args,))

    def _init(self, lon, lat):
        if abs(lat) > HALFPI:
            raise InvalidParameterError("Angle %r rad is not a valid latitude." % (lat,))
        self._lon = Angle(lon).wrap()._val
        self._lat = lat

    def getLongitude(self):
        return Angle(self._lon)

    def getLatitude(self):
        return Angle(self._lat)

    getRa = getLongitude
    getDec = getLatitude

    def getPosition(self, units=radians):
        return Point2D(self.getLongitude().asAngularUnits(units),
                       self.getLatitude().asAngularUnits(units))

    def getVector(self):
        return _sphgeom.UnitVector3d(_sphgeom.LonLat.fromRadians(self._lon, self._lat))

    def _xyz(self):
        c = math.cos(self._lat)
        return c*math.cos(self._lon), c*math.sin(self._lon), math.sin(self._lat)

    def isFinite(self):
        return math.isfinite(self._lon) and math.isfinite(self._lat)

    def atPole(self):
        return abs(self._lat) >= HALFPI

    def separation(self, other):
        hLat = math.sin(0.5*(other._lat - self._lat))
        hLon = math.sin(0.5*(other._lon - self._lon))
        h = hLat*hLat + math.cos(self._lat)*math.cos(other._lat)*hLon*hLon
        return Angle(2.0*math.asin(min(1.0, math.sqrt(h))) if h == h else math.nan)

    def bearingTo(self, other):
        dLon = other._lon - self._lon
        sin1, sin2 = math.sin(self._lat), math.sin(other._lat)
        cos1, cos2 = math.cos(self._lat), math.cos(other._lat)
        bearing = math.atan2(cos1*sin2 - sin1*cos2*math.cos(dLon), cos2*math.sin(dLon))
        return Angle(bearing).wrap()

    def rotated(self, axis, amount):
        a = axis._xyz()
        p = self._xyz()
        c, s = math.cos(amount._val), math.sin(amount._val)
        dot = sum(i*j for i, j in zip(a, p))
        cross = (a[1]*p[2] - a[2]*p[1], a[2]*p[0] - a[0]*p[2], a[0]*p[1] - a[1]*p[0])
        v = [p[i]*c + cross[i]*s + a[i]*dot*(1 - c) for i in range(3)]
        return SpherePoint._fromRadians(*_lonLat(*v))

    def offset(self, bearing, amount):
        r = self._xyz()
        u = (-math.sin(self._lon), math.cos(self._lon), 0.0)
        w = (r[1]*u[2] - r[2]*u[1], r[2]*u[0] - r[0]*u[2], r[0]*u[1] - r[1]*u[0])
        cb, sb = math.cos(bearing._val), math.sin(bearing._val)
        ca, sa = math.cos(amount._val), math.sin(amount._val)
        v = [r[i]*ca + (cb*u[i] + sb*w[i])*sa for i in range(3)]
        return SpherePoint._fromRadians(*_lonLat(*v))

    @classmethod
    def _fromRadians(cls, lon, lat):
        self = cls.__new__(cls)
        self._init(lon, lat)
        return self

    def getTangentPlaneOffset(self, other):
        cosLat0, sinLat0 = math.cos(self._lat), math.sin(self._lat)
        dLon = other._lon - self._lon
        cosC = sinLat0*math.sin(other._lat) + cosLat0*math.cos(other._lat)*math.cos(dLon)
        xi = math.cos(other._lat)*math.sin(dLon)/cosC
        eta = (cosLat0*math.sin(other._lat) - sinLat0*math.cos(other._lat)*math.cos(dLon))/cosC
        return (Angle(xi), Angle(eta))

    def __len__(self):
        return 2

    def __getitem__(self, i):
        if i in (0, -2):
            return self.getLongitude()
        if i in (1, -1):
            return self.getLatitude()
        raise IndexError("Invalid index: %s" % (i,))

    def __eq__(self, other):
        if not isinstance(other, SpherePoint):
            return NotImplemented
        return self._lon == other._lon and self._lat == other._lat

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((self._lon, self._lat))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (SpherePoint, (self.getLongitude(), self.getLatitude()))

    def __str__(self):
        return "(%.10f, %+.10f)" % tuple(self.getPosition(_degrees))

    def __repr__(self):
        return "SpherePoint(%r*degrees, %r*degrees)" % tuple(self.getPosition(_degrees))


from ._angle import degrees as _degrees  # noqa: E402


def _lonLat(x, y, z):
    lon = math.atan2(y, x) if (x != 0.0 or y != 0.0) else 0.0
    lat = math.atan2(z, math.hypot(x, y))
    return lon, lat


def averageSpherePoint(coords):
    if len(coords) == 0:
        raise RuntimeError("No coordinates provided to average")
    s = [sum(c) for c in zip(*(p._xyz() for p in coords))]
    return SpherePoint._fromRadians(*_lonLat(*s))


_ = TWOPI
