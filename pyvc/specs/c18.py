"""C18: the registers of a QASM text are those declared, and the backend the one asked for."""
from .qasm import *


def tasks():
    ways = ((None, "qudit"), (BACKENDS["numpy"], "qubit"), (BACKENDS["sparse"], "qutrit"))
    return [registers(b, f, u, i) for b, u in ways for f in (False, True) for i in (False, True)]
