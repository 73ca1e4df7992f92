"""Abstract matplotlib.colors."""


class Normalize:

  def __init__(self, vmin=None, vmax=None, clip=False):
    self.vmin = vmin
    self.vmax = vmax
    self.clip = clip


class Colormap:
  pass


class ListedColormap(Colormap):
  pass
