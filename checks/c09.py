"""C09: see programs.py."""
import programs


def check():
    return programs.check("C09", "Every operation that changes a value, array or object is applied to every kind of content, with up to one failing allocation at any point of it; afterwards the type and the content of all operands must agree and they must be usable.")
