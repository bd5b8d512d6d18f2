from . import library, structure, elements
