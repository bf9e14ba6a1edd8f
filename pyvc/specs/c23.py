"""C23: what a run puts out is the composition of the contracts below (lemmas/Compose.lean: composed, run_result, total):

  the initial layer is a column per register, with the level asked for                          (constructor, C13)
  a gate call makes one layer: its gate on its registers, idle gates elsewhere                  (C02 .. C07, C11: Call.new)
  that layer is appended, or its gate comes into the place of an idle one of the last layer     (populate_opflow, C09: Call.new, Call.merge)
  the gate's operator is the ideal one, that of an idle gate the identity                       (C02 .. C08)
  a layer's operator is the kron of those of its gates, folded from the left                    (Moment.exec, C08: layerL_eq)
  a measured circuit's state is the product of its layers, the first rightmost                  (OperatorFlow.exec, run, C10, C16: op)
  kron, dot and eye are those of the matrices                                                   (backends, C15)
  the output is the non-zero entries of the state, amplitudes or squared moduli                 (Output, C14)

The callers are proved against these contracts, not the bodies; here every one of them is discharged."""
from . import c02, c03, c04, c05, c06, c07, c08, c10, c11, c13, c14, c15, c16


def tasks():
    out = [t for c in (c02, c03, c04, c05, c06, c07, c08, c10, c11) for t in c.tasks() if "closed" not in t.name]
    out += [t for t in c13.tasks() if "good arguments" in t.name]
    out += c14.tasks()
    out += [t for t in c15.tasks() if t.name.startswith(("kron", "dot", "eye", "nonzero"))]
    out += [t for t in c16.tasks() if t.name.startswith(("exec without", "run of")) or t.name in [f"measure_all on a circuit that is {s}" for s in ("fresh", "open")]]
    # the long ones first
    names = [t.name for t in out]
    assert len(set(names)) == len(names)
    return sorted(out, key=lambda t: not t.name.startswith(("populate", "measure_all")))
