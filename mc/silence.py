"""Keep gym's import banner and warnings away from the report."""
import logging
import os
import sys
import warnings

warnings.simplefilter('ignore')
logging.disable(logging.WARNING)
_err = sys.stderr
try:
    sys.stderr = open(os.devnull, 'w')
    import gym  # noqa: F401
finally:
    sys.stderr = _err
