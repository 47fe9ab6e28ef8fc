"""C13: see programs.py."""
import programs


def check():
    return programs.check("C13", 'Copies, moves, swaps and assignments, also of a value to itself, of a part to the whole and of the whole to a part, with unknown values on both sides: contents afterwards are compared with what the operands were made, and the two sides must not share an object.')
