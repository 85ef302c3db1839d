from .dodecahedron import *
from .wcsFactory import *
from .utils import *
