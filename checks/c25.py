"""C25: see programs.py."""
import programs


def check():
    return programs.check("C25", 'Arrays and objects of any size and content are converted to and from collections, maps, fixed arrays, pairs and tuples; the result is compared element by element with the source.')
