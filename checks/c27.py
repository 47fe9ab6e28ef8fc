"""C27: see programs.py."""
import programs


def check():
    return programs.check("C27", "A value is constructed from and assigned a number of every arithmetic type of which nothing is known, also inside an array and an object. Formatting is followed through the string streams' flags and precision; what is written has to be a number of JSON, and for an integer type has to read back as exactly that integer. Once with and once without MEOJSON_KEEP_FLOATING_PRECISION.", sources=["p_c27.cpp", "p_c27_full.cpp"])
