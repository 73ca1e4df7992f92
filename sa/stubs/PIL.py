"""Abstract PIL package."""
import PIL.Image as Image
