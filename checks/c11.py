"""C11: see programs.py."""
import programs


def check():
    return programs.check("C11", 'Every query is applied to a value of every kind with unknown content and unknown keys and positions; it must not throw and its answer is compared with what is known of the value.')
