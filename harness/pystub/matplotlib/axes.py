from . import Axes
