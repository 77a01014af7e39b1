"""Public face of the engine."""
from . import lib, lib2, lib3, lib4, lib5, lib6, lib7, lib8   # noqa: F401
from .terms import *                              # noqa: F401,F403
from .arr import *                                # noqa: F401,F403
from .interp import *                             # noqa: F401,F403
