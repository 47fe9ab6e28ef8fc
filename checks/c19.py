"""C19: see programs.py."""
import programs


def check():
    return programs.check("C19", 'User conversions that answer true or false at will are called by every way to convert, on values of every kind and nested in containers of any size; an answer of false has to be reported.')
