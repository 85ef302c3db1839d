#
# LSST Data Management System
# Copyright 2008, 2009, 2010 LSST Corporation.
#
# This product includes software developed by the
# LSST Project (http://www.lsst.org/).
#
# This program is free software: you can redistribute it and/or modify
# it under the terms of the GNU General Public License as published by
# the Free Software Foundation, either version 3 of the License, or
# (at your option) any later version.
#
# This program is distributed in the hope that it will be useful,
# but WITHOUT ANY WARRANTY; without even the implied warranty of
# MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
# GNU General Public License for more details.
#
# You should have received a copy of the LSST License Statement and
# the GNU General Public License along with this program.  If not,
# see <http://www.lsstcorp.org/LegalNotices/>.
#

__all__ = ["skyMapRegistry"]

from lsst.pex.config import makeRegistry
from .dodecaSkyMap import DodecaSkyMap
from .equatSkyMap import EquatSkyMap
from .discreteSkyMap import DiscreteSkyMap
from .ringsSkyMap import RingsSkyMap
from .healpixSkyMap import HealpixSkyMap

skyMapRegistry = makeRegistry(
    """A registry of sky maps
    """
)

skyMapRegistry.register("dodeca", DodecaSkyMap)
skyMapRegistry.register("equat", EquatSkyMap)
skyMapRegistry.register("discrete", DiscreteSkyMap)
skyMapRegistry.register("rings", RingsSkyMap)
skyMapRegistry.register("healpix", HealpixSkyMap)
