import math
import operator

__all__ = ["Point2I", "Point2D", "Extent2I", "Extent2D", "Point3I", "Point3D", "Extent3I", "Extent3D",
           "PointI", "PointD", "ExtentI", "ExtentD", "Point", "Extent", "CoordinateExpr2"]

_INT_MIN = -2**31
_INT_MAX = 2**31 - 1


def _asInt(v):
    """A C++ int from a Python or numpy integer; floats are refused."""
    if isinstance(v, float):
        raise TypeError("incompatible arguments: %r is not an int" % (v,))
    v = operator.index(v)
    if not _INT_MIN <= v <= _INT_MAX:
        raise TypeError("incompatible arguments: %r does not fit an int" % (v,))
    return v


def _asDouble(v):
    if isinstance(v, (str, bytes)) or not (hasattr(v, "__float__") or hasattr(v, "__index__")):
        raise TypeError("incompatible arguments: %r is not a number" % (v,))
    return float(v)


def _roundToInt(v):
    """static_cast<int>(std::floor(v + 0.5)), as on x86-64."""
    if not math.isfinite(v):
        return _INT_MIN
    r = math.floor(v + 0.5)
    return r if _INT_MIN <= r <= _INT_MAX else _INT_MIN


class _Coord:
    """Common part of points and extents: a fixed-size, mutable, indexable tuple of numbers."""

    __slots__ = ("_v",)
    _n = 2
    _int = False

    def __init__(self, *args, **kwargs):
        n = self._n
        if kwargs:
            names = ("x", "y", "z")[:n]
            args = args + tuple(kwargs[k] for k in names[len(args):])
        conv = _asInt if self._int else _asDouble
        if len(args) == 0:
            self._v = [0 if self._int else 0.0]*n
        elif len(args) == n:
            self._v = [conv(a) for a in args]
        elif len(args) == 1:
            a = args[0]
            if isinstance(a, _Coord):
                if a._n != n:
                    raise TypeError("dimension mismatch")
                if self._int and not a._int:
                    if not self._roundsFromDouble or not a._isPoint:
                        raise TypeError("cannot convert %r to %s" % (a, type(self).__name__))
                    self._v = [_roundToInt(x) for x in a._v]
                elif not self._int:
                    self._v = [float(x) for x in a._v]
                else:
                    self._v = list(a._v)
            elif hasattr(a, "__len__") and not isinstance(a, (str, bytes)):
                if len(a) != n:
                    raise TypeError("expected %d values, got %r" % (n, a))
                self._v = [conv(x) for x in a]
            else:
                self._v = [conv(a)]*n
        else:
            raise TypeError("wrong number of arguments to %s" % type(self).__name__)

    @classmethod
    def _make(cls, values):
        self = cls.__new__(cls)
        self._v = list(values)
        return self

    # -- element access
    def getX(self):
        return self._v[0]

    def getY(self):
        return self._v[1]

    def getZ(self):
        if self._n < 3:
            raise AttributeError("no z")
        return self._v[2]

    def setX(self, v):
        self[0] = v

    def setY(self, v):
        self[1] = v

    def setZ(self, v):
        self[2] = v

    x = property(getX, setX)
    y = property(getY, setY)

    def __len__(self):
        return self._n

    def __getitem__(self, i):
        i = operator.index(i)
        if not -self._n <= i < self._n:
            raise IndexError("Index %s out of range" % i)
        return self._v[i]

    def __setitem__(self, i, v):
        i = operator.index(i)
        if not -self._n <= i < self._n:
            raise IndexError("Index %s out of range" % i)
        self._v[i] = _asInt(v) if self._int else _asDouble(v)

    def clone(self):
        return type(self)._make(self._v)

    def __copy__(self):
        return self.clone()

    def __deepcopy__(self, memo):
        return self.clone()

    def __reduce__(self):
        return (type(self), tuple(self._v))

    def __eq__(self, other):
        if isinstance(other, _Coord) and other._n == self._n and other._isPoint == self._isPoint:
            return self._v == other._v
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((self._isPoint, tuple(self._v)))

    def __str__(self):
        return "(%s)" % ", ".join("%s" % v for v in self._v)

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join(repr(v) for v in self._v))

    def _cmp(self, other, op):
        if isinstance(other, _Coord):
            vals = other._v
        else:
            vals = [other]*self._n
        r = tuple(op(a, b) for a, b in zip(self._v, vals))
        return CoordinateExpr2(*r)

    def eq(self, other):
        return self._cmp(other, operator.eq)

    def ne(self, other):
        return self._cmp(other, operator.ne)

    def lt(self, other):
        return self._cmp(other, operator.lt)

    def le(self, other):
        return self._cmp(other, operator.le)

    def gt(self, other):
        return self._cmp(other, operator.gt)

    def ge(self, other):
        return self._cmp(other, operator.ge)


class CoordinateExpr2(tuple):
    def __new__(cls, *vals):
        return tuple.__new__(cls, vals)

    def all(self):
        return all(self)

    def any(self):
        return any(self)


def _kind(isPoint, isInt, n):
    return _KINDS[(isPoint, isInt, n)]


class _PointMixin(_Coord):
    __slots__ = ()
    _isPoint = True
    _roundsFromDouble = True

    def asExtent(self):
        return _kind(False, self._int, self._n)._make(self._v)

    def asPair(self):
        return tuple(self._v)

    def asTuple(self):
        return tuple(self._v)

    def shift(self, extent):
        for i in range(self._n):
            self[i] = self._v[i] + extent[i]

    def scale(self, factor):
        for i in range(self._n):
            self[i] = self._v[i]*factor

    def distanceSquared(self, other):
        return float(sum((a - b)**2 for a, b in zip(self._v, other._v)))

    def __add__(self, other):
        if isinstance(other, _ExtentMixin) and other._n == self._n:
            return _kind(True, self._int and other._int, self._n)._make(
                [a + b for a, b in zip(self._v, other._v)])
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, other):
        if isinstance(other, _Coord) and other._n == self._n:
            isPoint = not other._isPoint
            return _kind(isPoint, self._int and other._int, self._n)._make(
                [a - b for a, b in zip(self._v, other._v)])
        return NotImplemented

    def __iadd__(self, other):
        self.shift(other)
        return self

    def __isub__(self, other):
        for i in range(self._n):
            self[i] = self._v[i] - other[i]
        return self


class _ExtentMixin(_Coord):
    __slots__ = ()
    _isPoint = False
    _roundsFromDouble = False

    def asPoint(self):
        return _kind(True, self._int, self._n)._make(self._v)

    def asPair(self):
        return tuple(self._v)

    def asTuple(self):
        return tuple(self._v)

    def computeNorm(self):
        return math.sqrt(sum(v*v for v in self._v))

    def computeSquaredNorm(self):
        return sum(v*v for v in self._v)

    def __add__(self, other):
        if isinstance(other, _ExtentMixin) and other._n == self._n:
            return _kind(False, self._int and other._int, self._n)._make(
                [a + b for a, b in zip(self._v, other._v)])
        return NotImplemented

    def __sub__(self, other):
        if isinstance(other, _ExtentMixin) and other._n == self._n:
            return _kind(False, self._int and other._int, self._n)._make(
                [a - b for a, b in zip(self._v, other._v)])
        return NotImplemented

    def __mul__(self, other):
        if isinstance(other, _Coord):
            return NotImplemented
        isInt = self._int and not isinstance(other, float)
        return _kind(False, isInt, self._n)._make([v*other for v in self._v])

    __rmul__ = __mul__

    def __truediv__(self, other):
        return _kind(False, False, self._n)._make([v/other for v in self._v])

    def __floordiv__(self, other):
        if not self._int or isinstance(other, float):
            return NotImplemented
        return type(self)._make([v//other for v in self._v])

    def __neg__(self):
        return type(self)._make([-v for v in self._v])

    def __pos__(self):
        return self.clone()

    def __iadd__(self, other):
        for i in range(self._n):
            self[i] = self._v[i] + other[i]
        return self

    def __isub__(self, other):
        for i in range(self._n):
            self[i] = self._v[i] - other[i]
        return self

    def __imul__(self, other):
        for i in range(self._n):
            self[i] = self._v[i]*other
        return self


def _third(cls):
    cls.z = property(cls.getZ, cls.setZ)
    return cls


class Point2I(_PointMixin):
    __slots__ = ()
    _int = True


class Point2D(_PointMixin):
    __slots__ = ()


class Extent2I(_ExtentMixin):
    __slots__ = ()
    _int = True


class Extent2D(_ExtentMixin):
    __slots__ = ()


@_third
class Point3I(_PointMixin):
    __slots__ = ()
    _int = True
    _n = 3


@_third
class Point3D(_PointMixin):
    __slots__ = ()
    _n = 3


@_third
class Extent3I(_ExtentMixin):
    __slots__ = ()
    _int = True
    _n = 3


@_third
class Extent3D(_ExtentMixin):
    __slots__ = ()
    _n = 3


_KINDS = {
    (True, True, 2): Point2I, (True, False, 2): Point2D,
    (False, True, 2): Extent2I, (False, False, 2): Extent2D,
    (True, True, 3): Point3I, (True, False, 3): Point3D,
    (False, True, 3): Extent3I, (False, False, 3): Extent3D,
}

PointI, PointD, ExtentI, ExtentD = Point2I, Point2D, Extent2I, Extent2D
Point = {(int, 2): Point2I, (float, 2): Point2D, ("I", 2): Point2I, ("D", 2): Point2D}
Extent = {(int, 2): Extent2I, (float, 2): Extent2D, ("I", 2): Extent2I, ("D", 2): Extent2D}
