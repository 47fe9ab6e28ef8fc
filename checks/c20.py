"""C20: see programs.py."""
import programs


def check():
    return programs.check("C20", 'Empty and filled wrappers are converted to values and values of every kind to wrappers, as lvalues and rvalues.')
