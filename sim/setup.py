"""Nothing has to be built: the checks import /repo's working tree themselves. This only verifies the tools are there."""
import sys
import greenlet, sqlalchemy, tomlkit   # noqa
from . import loader                   # noqa
print('ready', sys.version.split()[0])
