"""C28: see programs.py."""
import programs


def check():
    return programs.check("C28", "With MEOJSON_KEEP_FLOATING_PRECISION defined, a value is constructed from and assigned an unknown finite float, double and long double, also inside an array, and read back as that type. The text is exact if the notation and precision that the stream has where the number is inserted give at least max_digits10 significant digits of the type the number came from, and no conversion to a narrower type took place.")
