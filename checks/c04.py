"""C04: see parsing.py."""
import parsing


def check():
    return parsing.check("C04")
