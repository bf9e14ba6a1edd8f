"""C17: each gate line of a QASM text makes the call it names, in the order of the lines; then one measurement of all."""
from .qasm import *


def tasks():
    return [Task(f"the lines of a text{', indented' if i else ''}", (lambda i: lambda v: lines(v, i))(i), [QASM + "circuit_from_qasm"]) for i in (False, True)]
