"""C05: see parsing.py."""
import parsing


def check():
    return parsing.check("C05")
