"""C10: see programs.py."""
import programs


def check():
    return programs.check("C10", 'Every accessor and conversion is applied to a value of every kind with unknown content; the kind decides whether it has to return the content or throw json::exception.')
