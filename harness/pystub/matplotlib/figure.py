from . import Figure
