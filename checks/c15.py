"""C15: see programs.py."""
import programs


def check():
    return programs.check("C15", 'Every overload of +, +=, |, |= of array, object and value with unknown operands, also the same operand twice: the result is compared with the concatenation or the merge of what the operands were made.')
