"""C21: streams and files (programs.py). The functions that read a document from a stream or file are interpreted for a stream that may fail at every
call and deliver any bytes; the parser is replaced by its contract (a value or none), and what is passed to it is compared with what the stream
delivered."""
import programs


def check():
    return programs.check("C21", "Reading is interpreted with a model of std::istream and std::ifstream in which the stream is readable, shorter than its size, not seekable, broken, failing while it is read, a directory, or not there, and its content is any sequence of bytes. The parser is replaced by its contract. On every path: nothing is thrown, no value comes from a stream that cannot be read, and what is parsed, and in which dialect, follows from what the stream delivers and the options.", mode="stream")
