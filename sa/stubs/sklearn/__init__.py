"""Column scalers."""
from . import preprocessing
