"""What each check decides and how: read by run_check.py and mkmanifest.py."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
ASSUMPTIONS = [
    "pyvc's reading of the Python subset (evaluation order, scoping, method lookup, exceptions, list aliasing) is that of CPython; cross-checked by running the same contracts on the real code",
    "integers are mathematical: numpy's int64 products of dimensions do not overflow; amplitudes are complex numbers without rounding; allclose / isclose decide equality",
]
TRUSTED = [
    "pyvc (the VC generator in /verif/pyvc) and z3 4.x",
    "the contracts of numpy, scipy and math functions named below (lib.py), checked against the real libraries only by sampling",
]
IDS = [f"C{i:02d}" for i in range(1, 24)]
PROVED = "contracts on the functions in /repo; verification conditions generated from the current source (pyvc) and discharged by z3, mathematical lemmas by Lean"
BOUNDED = "the same kind of contracts, evaluated at run time on the real code over a bounded sample (stand-in, not a proof)"


def proof(what, lean=(), theorems=(), **kw):
    return dict(tasks=True, level="proof", technique=PROVED, lean=list(lean), theorems=[f"{a}.{b}" if a else b for a, b in theorems],
                note=what + " For all inputs, no bound. Trusted: pyvc's semantics of the Python subset, the contracts of the numpy/scipy functions listed in the evidence; integers and complex numbers are mathematical. A bounded run of the real code stands beside the proof.", **kw)


def bounded(what):
    return dict(tasks=[], level="exploration", technique=BOUNDED, note=what)


MR, AR, FO, CO = "MixedRadix", "Arith", "Fourier", "Compose"
PROPERTIES = {
    "C01": proof("Nbase_to_bin and bin_to_Nbase (as the code uses them) against digit(i, r) and sum of digits times place values.", [AR, MR], [("", "digits_number"), ("", "number_digits"), ("", "digit_range")]),
    "C02": proof("XGate.__init__ and XGate.unitary, both backends, every entry of the operator, every dimension and increment.", [AR]),
    "C03": proof("ZGate.__init__ and ZGate.unitary, both backends, every entry.", [FO]),
    "C04": proof("HGate.__init__ and HGate.unitary, both backends, every entry is the DFT entry; that this matrix is unitary is the Lean theorem dft_unitary.", [FO], [("", "dft_unitary")]),
    "C05": proof("CXGate.__init__/unitary/update, ttg, get_index: every entry of the operator, control before or after the target, any spectators between, both backends; a permutation matrix.", [AR, MR, FO], [("", "digits_unique"), ("", "digit_update"), ("", "permutation_unitary")]),
    "C06": proof("toffoli_dm and generate_combinations, Toffoli.__init__, ArbitaryGate.unitary on both backends: every entry of the operator, any set of controls.", [AR, MR, FO], [("", "digits_unique"), ("", "digit_update")]),
    "C07": proof("ArbitaryGate.unitary on a user's subclass: the matrix is returned as defined if it is unitary and fits, an exception otherwise; that run() evaluates every gate of the circuit is C08/C10."),
    "C08": proof("Moment.exec over a list of any length (loop invariant: the fold of kron over the gates so far) and IGate.unitary; associativity of kron is not needed, the order is."),
    "C09": proof("populate_opflow, replace_igate, get_qreg_moment and update_measurement_count on a fresh or open circuit of any registers and layers: the gate goes into an idle place of the last layer or into a new layer, everything else keeps its place; by a ghost history of all calls, gates that share a register are in layers in the order of their calls."),
    "C10": proof("OperatorFlow.exec (loop invariant: the product of the layers so far), QuantumCircuit.run twice; neither changes the circuit."),
    "C11": proof("x, h, z, gate, cx (both directions), toffoli, gate on two registers: the layer handed to populate_opflow holds that gate on its registers and idle gates on all others; populate_opflow keeps every gate of every layer."),
    "C12": proof("x, z, h, cx, toffoli, gate with an illegal register or dimension on a circuit of any registers and layers: ValueError, and every list reachable from the circuit is as before."),
    "C13": proof("QuantumCircuit.__init__, InitState.__init__/unitary: registers, levels and refusals for all lists and pairs."),
    "C14": proof("Output.__init__ and Output.__call__ for a vector of any length: exactly the non-zero entries, in index order, under their labels, as amplitude or squared modulus."),
    "C15": proof("every method of NumpyBackend and SparseBackend against the mathematical operation, entry by entry.", [AR]),
    "C16": proof("measure_all and the refusal of further gates: one layer of measurements, all registers counted, everything else unchanged."),
    "C22": proof("every circuit operation (constructor, x, z, h, cx, toffoli, gate, measure_all, get_circuit_info, get_circuit_config) on a fresh, open or closed circuit: frame conditions; no list or object of the caller or of another circuit is written, and the circuit shares no mutable list with them. str() and drawing are covered by the bounded stand-in only."),
    "C21": proof("the drawing calls: each kind of gate (x, h, z, gate, cx both directions, toffoli with any controls or none, gate on two registers) placed by a real gate call: its text, marks and line; _draw_layer for any number of gates: every label is written at a register as often as gates have it there; QuantumCircuit.draw / draw_circuit_mpl for a measured circuit of any number of layers, over all pages. matplotlib is a client that records the calls; the extent of a text is any function of the text and its place."),
    "C20": proof("QuantumCircuit.__str__ on a circuit of any registers, initial levels and layers of any gates, measured or not: every entry of the table (row = register, column = layer), the width of the entries, a line per register, the last line; and the line of every register after one real gate call (h, z, x, cx both directions, toffoli), so that what the gates say of themselves is what was asked for. Dimensions and increments of one digit, as the property says."),
    "C19": proof("get_circuit_info and get_circuit_config on a circuit of any number of layers of any gates: width, depth, the count of each kind (nested sums over layers and gates), their total."),
    "C17": proof("circuit_from_qasm on a text of any number of header lines, declarations and gate lines of the thirteen kinds, every register number and increment a variable: the calls it makes on the circuit, line for line; the calls themselves are C11's contracts."),
    "C18": proof("circuit_from_qasm and parse_qasm on the same texts: the arguments of the one QuantumCircuit made - dimensions, backend, no levels; that the constructor turns them into these registers is C13's contract."),
    "C23": proof("the contracts of every stage of a run (constructor, gate calls, populate_opflow, operators of the gates, Moment.exec, OperatorFlow.exec, run, backends, Output) are discharged; that they compose to the ideal gates in the order of the calls, whatever the layers, and that the squared moduli sum to 1, are Lean theorems over matrices of any size. The step from each contract to the hypothesis of the theorem (Call, op, layerL, start) is a transcription by hand.", [AR, MR, FO, CO], [("", "composed"), ("", "run_result"), ("", "layerL_eq"), ("", "ideal_unitary"), ("", "total")]),
}
for p in IDS:
    PROPERTIES.setdefault(p, bounded("Run-time contracts on the real code: corner cases and seeded random circuits; no proof."))


def known_findings(pid):
    """open findings of the committed file, lines `finding: property=<id> case=<json> what=<text>`; fixed ones suppress nothing"""
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) case=(.*) what=(.*)$", line)
            if m and m.group(1) == pid:
                out.append({"case": json.loads(m.group(2)), "what": m.group(3)})
    return out
