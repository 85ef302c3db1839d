from .cellInfo import *
from .tractBuilder import *
from .patchInfo import *
from .tractInfo import *
from .baseSkyMap import *
from .dodecaSkyMap import *
from .equatSkyMap import *
from .discreteSkyMap import *
from .skyMapRegistry import *
from .version import *
from .detail import makeSkyPolygonFromBBox, Index2D
