"""C07: escaping (programs.py). The functions that escape a text, and the serialisation of a string value, are interpreted for a text of any bytes and any
length. What they append is followed against the text: every byte in order, raw where JSON allows that, or as an escape sequence that stands for it,
and nothing else."""
import programs


def check():
    return programs.check("C07", "Escaping is interpreted for a text of which neither the length nor any byte is known. A position in the text is kept up to which output has been written; every appended byte or range has to continue there, every byte that is copied raw must be one that JSON allows in a string on that path, every escape sequence is decoded and has to give the byte at that position, and at the end everything has been written.", mode="escape")
