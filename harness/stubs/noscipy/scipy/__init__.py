"""The few numerical routines the repository uses from scipy, for interpreters without scipy."""
from . import special, stats, spatial  # noqa
