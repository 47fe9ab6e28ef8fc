"""C12: see programs.py."""
import programs


def check():
    return programs.check("C12", "is<T>, find<T> and every conversion to an arithmetic type are applied to a value of every kind whose text is unknown: whether it is an integer, a floating point number or only starts with one, and between which limits of the integer types it lies, is followed separately. is<T> has to be true exactly where the conversions succeed, and they have to give the value of the whole text as that type.")
