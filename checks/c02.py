"""C02: see parsing.py."""
import parsing


def check():
    return parsing.check("C02")
