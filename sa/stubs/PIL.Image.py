"""Abstract PIL.Image: an image is its mode and rows of pixel values.

Interpreted by the analyser in place of the package (never imported by Python).
"""


class Resampling:
  NEAREST = 0
  LANCZOS = 1
  BILINEAR = 2
  BICUBIC = 3
  BOX = 4
  HAMMING = 5


NEAREST = 0
LANCZOS = 1
BILINEAR = 2
BICUBIC = 3

SAVED = []


class Image:

  def __init__(self, mode, size, rows):
    self.mode = mode
    self.size = size
    self.rows = rows

  @property
  def width(self):
    return self.size[0]

  @property
  def height(self):
    return self.size[1]

  def copy(self):
    return Image(self.mode, self.size, [list(row) for row in self.rows])

  def convert(self, mode=None):
    return Image(mode, self.size, [list(row) for row in self.rows])

  def resize(self, size, resample=None, box=None, reducing_gap=None):
    w, h = size
    if isinstance(w, float) or isinstance(h, float):
      raise TypeError('integers expected')
    if w <= 0 or h <= 0:
      raise ValueError('height and width must be > 0')
    if resample is None:
      resample = BICUBIC
    if (w, h) == self.size:
      return self.copy()
    out = []
    for j in range(h):
      row = []
      for i in range(w):
        x = ((2 * i + 1) * self.width) // (2 * w)
        y = ((2 * j + 1) * self.height) // (2 * h)
        p = self.rows[y][x]
        if resample != NEAREST:
          p = ('resampled', resample, p)
        row.append(p)
      out.append(row)
    return Image(self.mode, (w, h), out)

  def paste(self, im, box=None, mask=None):
    if box is None:
      box = (0, 0)
    x0, y0 = box[0], box[1]
    if len(box) == 4:
      if isinstance(im, Image) and (
          box[2] - x0, box[3] - y0) != im.size:
        raise ValueError('images do not match')
    for j in range(im.height):
      for i in range(im.width):
        if 0 <= x0 + i < self.width and 0 <= y0 + j < self.height:
          self.rows[y0 + j][x0 + i] = im.rows[j][i]

  def putpixel(self, xy, value):
    self.rows[xy[1]][xy[0]] = value

  def getpixel(self, xy):
    return self.rows[xy[1]][xy[0]]

  def save(self, fp, format=None, **params):
    SAVED.append((self, fp, format, params))


def new(mode, size, color=0):
  w, h = size
  if w < 0 or h < 0:
    raise ValueError('Width and height must be >= 0')
  return Image(mode, (w, h), [[color for _ in range(w)] for _ in range(h)])


def fromarray(obj, mode=None):
  h, w = obj.shape[0], obj.shape[1]
  return Image(obj.mode, (w, h), [[obj.pixel(j, i) for i in range(w)]
                                  for j in range(h)])
