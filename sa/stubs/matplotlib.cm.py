"""Abstract matplotlib.cm: a colour is the (norm, map) applied to a value."""
import numpy as np


class Rgba:
  """What a ScalarMappable makes of an array of values."""

  def __init__(self, data, norm, cmap, alpha, as_bytes):
    self.data = data
    self.norm = norm
    self.cmap = cmap
    self.alpha = alpha
    self.mode = 'RGBA' if as_bytes else 'float'
    self.shape = tuple(np.shape(data)) + (4,)

  def pixel(self, j, i):
    if self.mode == 'float':
      raise TypeError('Cannot handle this data type')
    return ('colour', self.norm, self.cmap, self.alpha, self.data[j, i])


class ScalarMappable:

  def __init__(self, norm=None, cmap=None):
    self.norm = norm
    self.cmap = cmap

  def set_norm(self, norm):
    self.norm = norm

  def set_cmap(self, cmap):
    self.cmap = cmap

  def to_rgba(self, x, alpha=None, bytes=False, norm=True):
    if not norm:
      raise NotImplementedError
    return Rgba(x, self.norm, self.cmap, alpha, bytes)
