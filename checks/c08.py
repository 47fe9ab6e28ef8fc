"""C08: serialisation (programs.py). Every function that appends text is interpreted for a value, array or object of which nothing is known; the
text it appends is fed to an automaton that follows JSON's grammar and the container's order. Recursive functions are replaced by what they have to
do where they are called, and are decided each on its own, per kind of value."""
import programs


def check():
    return programs.check("C08", "Every way to serialise a value, array or object is interpreted over unknown contents, sizes and indents. What is appended is fed, token by token, to an automaton that expects each element and member once, in container order, with brackets, commas, colons, quotes and escapes in their places and white space only between tokens of the indented form. Recursive functions are decided each on its own, for each kind of value, against the contract that their callers use.", mode="serial")
