"""Stand-in for lsst.geom: angles, sphere points, points, extents and boxes.

Written from the documented behaviour of the C++ package.  It is broader than
what lsst.skymap calls today, so that a rewrite of lsst.skymap which uses
another call of the same package still runs.
"""
from ._angle import *
from ._coord import *
from ._box import *
from ._sphere import *
from . import _angle, _coord, _box, _sphere

__all__ = _angle.__all__ + _coord.__all__ + _box.__all__ + _sphere.__all__
