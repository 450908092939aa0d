from . import Graph  # noqa
