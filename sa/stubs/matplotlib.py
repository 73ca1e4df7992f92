"""Abstract matplotlib package."""
import matplotlib.colors as colors
import matplotlib.cm as cm
