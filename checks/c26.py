"""C26: see programs.py."""
import programs


def check():
    return programs.check("C26", '== and != of two values, arrays and objects of every pair of kinds: the answer is compared with whether the contents are equal, and the operands stay as they were.')
