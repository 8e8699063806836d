"""Recording stand-in for the part of matplotlib the repository draws with."""
__version__ = '0-standin'


def use(*a, **k):
  pass


from matplotlib import animation, axes, collections, colors, figure, lines, patches, pyplot, transforms  # noqa
