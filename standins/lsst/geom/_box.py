import enum
import math
import sys

import numpy as np

from lsst.pex.exceptions import InvalidParameterError, OverflowError as LsstOverflowError
from ._coord import Point2I, Point2D, Extent2I, Extent2D, _INT_MAX, _INT_MIN

__all__ = ["Box2I", "Box2D", "BoxI", "BoxD", "Box"]

_EPS = sys.float_info.epsilon*2


class Box2I:
    """Integer box: a minimum point and dimensions; pixels are points."""

    class EdgeHandlingEnum(enum.Enum):
        EXPAND = 0
        SHRINK = 1

    EXPAND = EdgeHandlingEnum.EXPAND
    SHRINK = EdgeHandlingEnum.SHRINK

    __slots__ = ("_x", "_y", "_w", "_h")

    def __init__(self, *args, **kwargs):
        if kwargs:
            kwargs = dict(kwargs)
            names = (("other", "edgeHandling") if ("other" in kwargs or "edgeHandling" in kwargs) else
                     ("minimum", "dimensions", "invert") if "dimensions" in kwargs else
                     ("minimum", "maximum", "invert") if "maximum" in kwargs else
                     ("corner", "dimensions", "invert"))
            args = args + tuple(kwargs.pop(k) for k in names[len(args):] if k in kwargs)
            if kwargs:
                raise TypeError("unexpected arguments %s" % list(kwargs))
        self._x = self._y = self._w = self._h = 0
        if not args:
            return
        a = args[0]
        if isinstance(a, Box2I):
            if len(args) != 1:
                raise TypeError("incompatible constructor arguments")
            self._x, self._y, self._w, self._h = a._x, a._y, a._w, a._h
        elif isinstance(a, Box2D):
            mode = args[1] if len(args) > 1 else Box2I.EXPAND
            self._fromBox2D(a, mode)
        elif isinstance(a, Point2I) and len(args) in (2, 3):
            invert = args[2] if len(args) == 3 else True
            b = args[1]
            if isinstance(b, Extent2I):
                self._fromDims(a, b, invert)
            elif isinstance(b, Point2I):
                self._fromPoints(a, b, invert)
            else:
                raise TypeError("incompatible constructor arguments %r" % (args,))
        else:
            raise TypeError("incompatible constructor arguments %r" % (args,))

    def _set(self, x, y, w, h):
        if w <= 0 or h <= 0:
            x = y = w = h = 0
        for lo, n in ((x, w), (y, h)):
            if n and (lo < _INT_MIN or lo + n - 1 > _INT_MAX or n > _INT_MAX):
                raise LsstOverflowError("Box2I does not fit an int")
        self._x, self._y, self._w, self._h = int(x), int(y), int(w), int(h)

    def _fromPoints(self, lo, hi, invert=True):
        x0, y0, x1, y1 = lo[0], lo[1], hi[0], hi[1]
        if invert:
            x0, x1 = min(x0, x1), max(x0, x1)
            y0, y1 = min(y0, y1), max(y0, y1)
        self._set(x0, y0, x1 - x0 + 1, y1 - y0 + 1)

    def _fromDims(self, corner, dims, invert=True):
        x, y, w, h = corner[0], corner[1], dims[0], dims[1]
        if w == 0 or h == 0:
            self._set(0, 0, 0, 0)
            return
        if invert:
            if w < 0:
                x, w = x + w + 1, -w
            if h < 0:
                y, h = y + h + 1, -h
        self._set(x, y, w, h)

    def _fromBox2D(self, box, mode):
        if box.isEmpty():
            return
        vals = (box.getMinX(), box.getMinY(), box.getMaxX(), box.getMaxY())
        if not all(math.isfinite(v) for v in vals):
            raise InvalidParameterError("Cannot convert non-finite Box2D to Box2I")
        lo = (vals[0] + 0.5, vals[1] + 0.5)
        hi = (vals[2] - 0.5, vals[3] - 0.5)
        out = []
        for i in range(2):
            if mode is Box2I.EXPAND:
                m = math.floor(lo[i])
                n = math.ceil(hi[i]) + 1 - m
            else:
                m = math.ceil(lo[i])
                n = math.floor(hi[i]) + 1 - m
            out.append((m, n))
        self._set(out[0][0], out[1][0], out[0][1], out[1][1])

    @staticmethod
    def makeCenteredBox(center, size):
        corner = Point2D(center[0] - 0.5*size[0] + 0.5, center[1] - 0.5*size[1] + 0.5)
        return Box2I(Point2I(corner), size, False)

    # -- accessors
    def isEmpty(self):
        return self._w == 0

    def getMinX(self):
        return self._x

    def getMinY(self):
        return self._y

    def getMaxX(self):
        return self._x + self._w - 1

    def getMaxY(self):
        return self._y + self._h - 1

    def getBeginX(self):
        return self._x

    def getBeginY(self):
        return self._y

    def getEndX(self):
        return self._x + self._w

    def getEndY(self):
        return self._y + self._h

    def getWidth(self):
        return self._w

    def getHeight(self):
        return self._h

    def getArea(self):
        return self._w*self._h

    def getMin(self):
        return Point2I(self._x, self._y)

    def getMax(self):
        return Point2I(self.getMaxX(), self.getMaxY())

    def getBegin(self):
        return Point2I(self._x, self._y)

    def getEnd(self):
        return Point2I(self._x + self._w, self._y + self._h)

    def getDimensions(self):
        return Extent2I(self._w, self._h)

    def getCenter(self):
        return Box2D(self).getCenter()

    def getCenterX(self):
        return Box2D(self).getCenterX()

    def getCenterY(self):
        return Box2D(self).getCenterY()

    def getCorners(self):
        return [Point2I(self.getMinX(), self.getMinY()), Point2I(self.getMaxX(), self.getMinY()),
                Point2I(self.getMaxX(), self.getMaxY()), Point2I(self.getMinX(), self.getMaxY())]

    def getSlices(self):
        return (slice(self.getBeginY(), self.getEndY()), slice(self.getBeginX(), self.getEndX()))

    slices = property(getSlices)
    minX = x_min = property(getMinX)
    minY = y_min = property(getMinY)
    maxX = x_max = property(getMaxX)
    maxY = y_max = property(getMaxY)
    beginX = property(getBeginX)
    beginY = property(getBeginY)
    endX = property(getEndX)
    endY = property(getEndY)
    width = property(getWidth)
    height = property(getHeight)
    area = property(getArea)
    min = property(getMin)
    max = property(getMax)
    begin = property(getBegin)
    end = property(getEnd)
    dimensions = property(getDimensions)
    center = property(getCenter)
    centerX = property(getCenterX)
    centerY = property(getCenterY)
    corners = property(getCorners)

    # -- predicates
    def contains(self, *args):
        if len(args) == 1:
            o = args[0]
            if isinstance(o, Box2I):
                return o.isEmpty() or (
                    not self.isEmpty()
                    and o._x >= self._x and o._y >= self._y
                    and o._x + o._w <= self._x + self._w and o._y + o._h <= self._y + self._h)
            if isinstance(o, Point2I):
                args = (o[0], o[1])
            else:
                raise TypeError("incompatible argument %r" % (o,))
        x, y = args
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            return ((x >= self._x) & (x < self._x + self._w)
                    & (y >= self._y) & (y < self._y + self._h))
        return bool(self._x <= x < self._x + self._w and self._y <= y < self._y + self._h)

    __contains__ = contains

    def overlaps(self, other):
        return not (self.isEmpty() or other.isEmpty()
                    or other._x >= self._x + self._w or self._x >= other._x + other._w
                    or other._y >= self._y + self._h or self._y >= other._y + other._h)

    intersects = overlaps

    def isDisjointFrom(self, other):
        return not self.overlaps(other)

    # -- modifiers
    def grow(self, buffer):
        if self.isEmpty():
            return
        bx, by = (buffer, buffer) if not hasattr(buffer, "__len__") else (buffer[0], buffer[1])
        if isinstance(bx, float) or isinstance(by, float):
            raise TypeError("incompatible argument %r" % (buffer,))
        bx, by = int(bx), int(by)
        self._set(self._x - bx, self._y - by, self._w + 2*bx, self._h + 2*by)

    def shift(self, offset):
        if self.isEmpty():
            return
        self._set(self._x + offset[0], self._y + offset[1], self._w, self._h)

    def flipLR(self, xextent):
        if not self.isEmpty():
            self._x = xextent - (self._x + self._w)

    def flipTB(self, yextent):
        if not self.isEmpty():
            self._y = yextent - (self._y + self._h)

    def include(self, other):
        if isinstance(other, (list, tuple)):
            for p in other:
                self.include(p)
            return
        if isinstance(other, Point2I):
            other = Box2I(other, Extent2I(1, 1))
        if not isinstance(other, Box2I):
            raise TypeError("incompatible argument %r" % (other,))
        if other.isEmpty():
            return
        if self.isEmpty():
            self._set(other._x, other._y, other._w, other._h)
            return
        x0, y0 = min_(self._x, other._x), min_(self._y, other._y)
        x1 = max_(self.getEndX(), other.getEndX())
        y1 = max_(self.getEndY(), other.getEndY())
        self._set(x0, y0, x1 - x0, y1 - y0)

    def clip(self, other):
        if self.isEmpty():
            return
        if other.isEmpty():
            self._set(0, 0, 0, 0)
            return
        x0, y0 = max_(self._x, other._x), max_(self._y, other._y)
        x1 = min_(self.getEndX(), other.getEndX())
        y1 = min_(self.getEndY(), other.getEndY())
        self._set(x0, y0, x1 - x0, y1 - y0)

    def dilatedBy(self, buffer):
        r = Box2I(self)
        r.grow(buffer)
        return r

    def erodedBy(self, buffer):
        r = Box2I(self)
        if hasattr(buffer, "__len__"):
            r.grow(Extent2I(-buffer[0], -buffer[1]))
        else:
            r.grow(-buffer)
        return r

    def shiftedBy(self, offset):
        r = Box2I(self)
        r.shift(offset)
        return r

    def reflectedAboutX(self, x):
        r = Box2I(self)
        if not r.isEmpty():
            r._x = 2*x - r.getMaxX()
        return r

    def reflectedAboutY(self, y):
        r = Box2I(self)
        if not r.isEmpty():
            r._y = 2*y - r.getMaxY()
        return r

    def expandedTo(self, other):
        r = Box2I(self)
        r.include(other)
        return r

    def clippedTo(self, other):
        r = Box2I(self)
        r.clip(other)
        return r

    def __eq__(self, other):
        if not isinstance(other, Box2I):
            return NotImplemented
        return (self._x, self._y, self._w, self._h) == (other._x, other._y, other._w, other._h)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((self._x, self._y, self._w, self._h))

    def __copy__(self):
        return Box2I(self)

    def __deepcopy__(self, memo):
        return Box2I(self)

    def __reduce__(self):
        return (Box2I, (self.getMin(), self.getDimensions()))

    def __str__(self):
        return "(minimum=%s, maximum=%s)" % (self.getMin(), self.getMax())

    def __repr__(self):
        if self.isEmpty():
            return "Box2I()"
        return "Box2I(corner=%r, dimensions=%r)" % (self.getMin(), self.getDimensions())


min_, max_ = min, max


class Box2D:
    """Floating-point box, half open: the minimum is inside, the maximum is not."""

    EPSILON = _EPS
    INVALID = math.nan

    __slots__ = ("_lo", "_hi")

    def __init__(self, *args, **kwargs):
        if kwargs:
            kwargs = dict(kwargs)
            names = (("other",) if "other" in kwargs else
                     ("minimum", "dimensions", "invert") if "dimensions" in kwargs else
                     ("minimum", "maximum", "invert"))
            args = args + tuple(kwargs.pop(k) for k in names[len(args):] if k in kwargs)
            if kwargs:
                raise TypeError("unexpected arguments %s" % list(kwargs))
        nan = math.nan
        self._lo = [nan, nan]
        self._hi = [nan, nan]
        if not args:
            return
        a = args[0]
        if isinstance(a, Box2D) and len(args) == 1:
            self._lo, self._hi = list(a._lo), list(a._hi)
        elif isinstance(a, Box2I) and len(args) == 1:
            if not a.isEmpty():
                self._lo = [a.getMinX() - 0.5, a.getMinY() - 0.5]
                self._hi = [a.getMaxX() + 0.5, a.getMaxY() + 0.5]
        elif isinstance(a, (Point2D, Point2I)) and len(args) in (2, 3):
            b = args[1]
            invert = args[2] if len(args) == 3 else True
            lo = [float(a[0]), float(a[1])]
            if isinstance(b, (Point2D, Point2I)):
                hi = [float(b[0]), float(b[1])]
            elif isinstance(b, (Extent2D, Extent2I)):
                hi = [lo[0] + b[0], lo[1] + b[1]]
            else:
                raise TypeError("incompatible constructor arguments %r" % (args,))
            for i in range(2):
                if lo[i] == hi[i]:
                    return
                if lo[i] > hi[i]:
                    if not invert:
                        return
                    lo[i], hi[i] = hi[i], lo[i]
            self._lo, self._hi = lo, hi
        else:
            raise TypeError("incompatible constructor arguments %r" % (args,))

    @staticmethod
    def makeCenteredBox(center, size):
        return Box2D(Point2D(center[0] - 0.5*size[0], center[1] - 0.5*size[1]), Extent2D(size), False)

    def isEmpty(self):
        return self._lo[0] != self._lo[0]

    def _clear(self):
        nan = math.nan
        self._lo, self._hi = [nan, nan], [nan, nan]

    def _tweakMax(self, i):
        hi = self._hi[i]
        if hi < 0.0:
            self._hi[i] = hi*(1.0 - _EPS)
        elif hi > 0.0:
            self._hi[i] = hi*(1.0 + _EPS)
        elif hi == 0.0:
            self._hi[i] = _EPS

    def getMin(self):
        return Point2D(*self._lo)

    def getMax(self):
        return Point2D(*self._hi)

    def getMinX(self):
        return self._lo[0]

    def getMinY(self):
        return self._lo[1]

    def getMaxX(self):
        return self._hi[0]

    def getMaxY(self):
        return self._hi[1]

    def getWidth(self):
        return 0.0 if self.isEmpty() else self._hi[0] - self._lo[0]

    def getHeight(self):
        return 0.0 if self.isEmpty() else self._hi[1] - self._lo[1]

    def getArea(self):
        return self.getWidth()*self.getHeight()

    def getDimensions(self):
        return Extent2D(self.getWidth(), self.getHeight())

    def getCenter(self):
        return Point2D(self.getCenterX(), self.getCenterY())

    def getCenterX(self):
        return 0.5*(self._lo[0] + self._hi[0])

    def getCenterY(self):
        return 0.5*(self._lo[1] + self._hi[1])

    def getCorners(self):
        return [Point2D(self._lo[0], self._lo[1]), Point2D(self._hi[0], self._lo[1]),
                Point2D(self._hi[0], self._hi[1]), Point2D(self._lo[0], self._hi[1])]

    minX = x_min = property(getMinX)
    minY = y_min = property(getMinY)
    maxX = x_max = property(getMaxX)
    maxY = y_max = property(getMaxY)
    width = property(getWidth)
    height = property(getHeight)
    area = property(getArea)
    min = property(getMin)
    max = property(getMax)
    dimensions = property(getDimensions)
    center = property(getCenter)
    centerX = property(getCenterX)
    centerY = property(getCenterY)
    corners = property(getCorners)

    def contains(self, *args):
        if len(args) == 1:
            o = args[0]
            if isinstance(o, Box2D):
                return o.isEmpty() or (
                    not self.isEmpty()
                    and all(o._lo[i] >= self._lo[i] and o._hi[i] <= self._hi[i] for i in range(2)))
            if isinstance(o, (Point2D, Point2I)):
                args = (o[0], o[1])
            else:
                raise TypeError("incompatible argument %r" % (o,))
        x, y = args
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            return ((x >= self._lo[0]) & (x < self._hi[0]) & (y >= self._lo[1]) & (y < self._hi[1]))
        return bool(self._lo[0] <= x < self._hi[0] and self._lo[1] <= y < self._hi[1])

    __contains__ = contains

    def overlaps(self, other):
        return (not self.isEmpty() and not other.isEmpty()
                and all(other._hi[i] > self._lo[i] and other._lo[i] < self._hi[i] for i in range(2)))

    intersects = overlaps

    def isDisjointFrom(self, other):
        return not self.overlaps(other)

    def grow(self, buffer):
        if self.isEmpty():
            return
        b = (buffer, buffer) if not hasattr(buffer, "__len__") else (buffer[0], buffer[1])
        for i in range(2):
            self._lo[i] -= b[i]
            self._hi[i] += b[i]
        if any(self._lo[i] >= self._hi[i] for i in range(2)):
            self._clear()

    def shift(self, offset):
        if self.isEmpty():
            return
        for i in range(2):
            self._lo[i] += offset[i]
            self._hi[i] += offset[i]

    def include(self, other):
        if isinstance(other, (list, tuple)):
            for p in other:
                self.include(p)
            return
        if isinstance(other, Box2D):
            if other.isEmpty():
                return
            if self.isEmpty():
                self._lo, self._hi = list(other._lo), list(other._hi)
                return
            for i in range(2):
                self._lo[i] = min_(self._lo[i], other._lo[i])
                self._hi[i] = max_(self._hi[i], other._hi[i])
            return
        if not isinstance(other, (Point2D, Point2I)):
            raise TypeError("incompatible argument %r" % (other,))
        p = [float(other[0]), float(other[1])]
        if self.isEmpty():
            self._lo, self._hi = list(p), list(p)
            self._tweakMax(0)
            self._tweakMax(1)
            return
        for i in range(2):
            if p[i] < self._lo[i]:
                self._lo[i] = p[i]
            elif p[i] >= self._hi[i]:
                self._hi[i] = p[i]
                self._tweakMax(i)

    def clip(self, other):
        if self.isEmpty():
            return
        if other.isEmpty():
            self._clear()
            return
        for i in range(2):
            self._lo[i] = max_(self._lo[i], other._lo[i])
            self._hi[i] = min_(self._hi[i], other._hi[i])
        if any(self._lo[i] >= self._hi[i] for i in range(2)):
            self._clear()

    def dilatedBy(self, buffer):
        r = Box2D(self)
        r.grow(buffer)
        return r

    def erodedBy(self, buffer):
        r = Box2D(self)
        r.grow(Extent2D(-buffer[0], -buffer[1]) if hasattr(buffer, "__len__") else -buffer)
        return r

    def shiftedBy(self, offset):
        r = Box2D(self)
        r.shift(offset)
        return r

    def expandedTo(self, other):
        r = Box2D(self)
        r.include(other)
        return r

    def clippedTo(self, other):
        r = Box2D(self)
        r.clip(other)
        return r

    def __eq__(self, other):
        if not isinstance(other, Box2D):
            return NotImplemented
        return (self.isEmpty() and other.isEmpty()) or (self._lo == other._lo and self._hi == other._hi)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((tuple(self._lo), tuple(self._hi))) if not self.isEmpty() else 179

    def __copy__(self):
        return Box2D(self)

    def __deepcopy__(self, memo):
        return Box2D(self)

    def __reduce__(self):
        if self.isEmpty():
            return (Box2D, ())
        return (Box2D, (self.getMin(), self.getMax()))

    def __str__(self):
        return "(minimum=%s, maximum=%s)" % (self.getMin(), self.getMax())

    def __repr__(self):
        if self.isEmpty():
            return "Box2D()"
        return "Box2D(minimum=%r, maximum=%r)" % (self.getMin(), self.getMax())


BoxI, BoxD = Box2I, Box2D
Box = {int: Box2I, float: Box2D, "I": Box2I, "D": Box2D}
