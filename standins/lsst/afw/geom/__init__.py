"""Stand-in for the part of lsst.afw.geom that concerns celestial WCSs."""
from ._wcs import *
from ._wcs import __all__
