"""Nothing to build; checks that the interpreters and packages used by the checks are there."""
import sys
import numpy, h5py, dliswriter  # noqa
print('ok', sys.version.split()[0], numpy.__version__, h5py.__version__)
