import math
import numbers

__all__ = ["AngleUnit", "Angle", "radians", "degrees", "hours", "arcminutes", "arcseconds",
           "milliarcseconds", "PI", "TWOPI", "HALFPI", "ONE_OVER_PI", "SQRTPI", "INVSQRTPI",
           "ROOT2", "isAngle", "degToRad", "radToDeg", "radToArcsec", "radToMas", "arcsecToRad",
           "masToRad"]

PI = math.pi
TWOPI = 2.0*math.pi
HALFPI = 0.5*math.pi
ONE_OVER_PI = 1.0/math.pi
SQRTPI = math.sqrt(math.pi)
INVSQRTPI = 1.0/SQRTPI
ROOT2 = math.sqrt(2.0)


class AngleUnit:
    __slots__ = ("_val",)

    def __init__(self, val):
        object.__setattr__(self, "_val", float(val))

    def __setattr__(self, name, value):
        raise AttributeError("AngleUnit is immutable")

    def __mul__(self, other):
        if isinstance(other, numbers.Real):
            return Angle(float(other), self)
        return NotImplemented

    __rmul__ = __mul__

    def __eq__(self, other):
        if isinstance(other, AngleUnit):
            return self._val == other._val
        return NotImplemented

    def __hash__(self):
        return hash(self._val)

    def __reduce__(self):
        return (AngleUnit, (self._val,))


radians = AngleUnit(1.0)
degrees = AngleUnit(PI/180.0)
hours = AngleUnit(PI*15.0/180.0)
arcminutes = AngleUnit(PI/60/180.0)
arcseconds = AngleUnit(PI/180.0/3600)
milliarcseconds = AngleUnit(PI/(180.0*3600*1000))


def degToRad(x):
    return x*PI/180.0


def radToDeg(x):
    return x*180.0/PI


def radToArcsec(x):
    return x*3600*180.0/PI


def radToMas(x):
    return x*1000*3600*180.0/PI


def arcsecToRad(x):
    return (x/3600)*PI/180.0


def masToRad(x):
    return (x/(1000*3600))*PI/180.0


def _operand(other):
    """Value in radians of a comparison or sum operand, or None."""
    if isinstance(other, Angle):
        return other._val
    if isinstance(other, numbers.Real):
        return float(other)
    return None


class Angle:
    """An angle, stored in radians; not wrapped unless asked."""

    __slots__ = ("_val",)

    def __init__(self, val=0.0, units=None):
        if isinstance(val, Angle):
            if units is not None:
                raise TypeError("Angle(Angle, units) is not supported")
            val = val._val
        elif not isinstance(val, numbers.Real) and not hasattr(val, "__float__"):
            raise TypeError("incompatible constructor arguments: %r" % (val,))
        v = float(val)
        if units is not None:
            if not isinstance(units, AngleUnit):
                raise TypeError("units must be an AngleUnit, not %r" % (units,))
            v *= units._val
        self._val = v

    def asAngularUnits(self, units):
        return self._val/units._val

    def asRadians(self):
        return self._val

    def asDegrees(self):
        return self._val/degrees._val

    def asHours(self):
        return self._val/hours._val

    def asArcminutes(self):
        return self._val/arcminutes._val

    def asArcseconds(self):
        return self._val/arcseconds._val

    def asMilliarcseconds(self):
        return self._val/milliarcseconds._val

    def wrap(self):
        wrapped = math.fmod(self._val, TWOPI) if math.isfinite(self._val) else math.nan
        if wrapped < 0.0:
            wrapped += TWOPI
        if wrapped >= TWOPI:  # if wrapped is small and negative the sum may round up
            wrapped = 0.0
        return Angle(wrapped)

    def wrapCtr(self):
        wrapped = math.fmod(self._val, TWOPI) if math.isfinite(self._val) else math.nan
        if wrapped < -PI:
            wrapped += TWOPI
            if wrapped >= PI:
                wrapped = -PI
        elif wrapped >= PI:
            wrapped -= TWOPI
            if wrapped < -PI:
                wrapped = -PI
        return Angle(wrapped)

    def wrapNear(self, refAng):
        refRad = refAng.asRadians()
        wrapped = (self - refAng).wrapCtr().asRadians() + refRad
        if wrapped - refRad >= PI:
            wrapped -= TWOPI
        if wrapped - refRad < -PI:
            wrapped += TWOPI
        return Angle(wrapped)

    def separation(self, other):
        return abs((self - other).wrapCtr())

    def __add__(self, other):
        v = _operand(other)
        return NotImplemented if v is None else Angle(self._val + v)

    def __sub__(self, other):
        v = _operand(other)
        return NotImplemented if v is None else Angle(self._val - v)

    def __radd__(self, other):
        v = _operand(other)
        return NotImplemented if v is None else Angle(v + self._val)

    def __rsub__(self, other):
        v = _operand(other)
        return NotImplemented if v is None else Angle(v - self._val)

    def __mul__(self, other):
        if isinstance(other, numbers.Real):
            return Angle(self._val*float(other))
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, other):
        if isinstance(other, numbers.Real):
            other = float(other)
            if other == 0.0:
                v = self._val
                return Angle(math.nan if v == 0.0 or v != v else math.copysign(math.inf, v))
            return Angle(self._val/other)
        if isinstance(other, Angle):
            raise TypeError("unsupported operand type(s) for /: 'Angle' and 'Angle'")
        return NotImplemented

    def __neg__(self):
        return Angle(-self._val)

    def __pos__(self):
        return Angle(self._val)

    def __abs__(self):
        return Angle(abs(self._val))

    def __float__(self):
        return self._val

    def __eq__(self, other):
        v = _operand(other)
        return NotImplemented if v is None else self._val == v

    def __ne__(self, other):
        v = _operand(other)
        return NotImplemented if v is None else self._val != v

    def __lt__(self, other):
        v = _operand(other)
        return NotImplemented if v is None else self._val < v

    def __le__(self, other):
        v = _operand(other)
        return NotImplemented if v is None else self._val <= v

    def __gt__(self, other):
        v = _operand(other)
        return NotImplemented if v is None else self._val > v

    def __ge__(self, other):
        v = _operand(other)
        return NotImplemented if v is None else self._val >= v

    def __hash__(self):
        return hash(self._val)

    def __reduce__(self):
        return (Angle, (self._val,))

    def __str__(self):
        return "%s rad" % self._val

    def __repr__(self):
        return "Angle(%r, radians)" % self._val


def isAngle(x):
    return isinstance(x, Angle)
