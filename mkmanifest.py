"""Writes MANIFEST.json from the check modules present (kept as code so that it stays in step)."""
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "C01": "property-based testing: generated values x options, round-trip oracle",
    "C02": "property-based testing: generated histories, differential oracle (fresh file with the last write only)",
    "C03": "property-based testing: generated files and operations, invariant over raw HDF5 dumps before and after",
    "C04": "property-based testing: generated values, independent MAT v7.3 decoder as the oracle",
    "C05": "property-based testing: generated MATLAB data in files built without the library, conversion model as the oracle",
    "C06": "property-based testing: generated values x options against an independent storage-format model",
    "C07": "stateful property-based testing of Options against a reference model",
    "C08": "property-based testing: stored filters against a model, differential reads, injected corruption of stored bytes",
    "C09": "property-based testing: round-trip and injectivity of escaping, metamorphic relations between path forms",
    "C10": "stateful property-based testing: File against a nested dict model",
    "C11": "stateful property-based testing: generated histories around the references group, invariants on references",
    "C12": "property-based testing: generated misuse, expected exception and unchanged-state oracle",
    "C13": "property-based testing: repeated reads, snapshots of file and arguments before and after",
    "C14": "property-based testing: generated dict-likes with adversarial keys, round-trip and layout oracle",
    "C15": "property-based testing: savemat/loadmat against a model of the documented arguments",
    "C16": "stateful property-based testing of MarshallerCollection against a reference model",
    "C17": "property-based testing: utilities against Python codecs and NumPy, inverse relations",
    "C18": "structure-aware fuzzing: mutated and tampered files in child processes, audit-hook and type oracles",
    "C19": "property-based concurrency testing: generated thread programs, linearizability oracle",
    "C20": "property-based testing with injected process kills: durability and lifecycle model",
}
NOTE = ("Search over generated cases (counts, classes and samples in the evidence file); no proof. "
        "Trusts h5py/HDF5, NumPy, Hypothesis and the oracle in /verif/hx, which shares no code with "
        "the library.")
PENDING = "its check is not built yet"


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    have = [i for i in ids if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py"))]
    m = dict(version=1, setup_cmd="/opt/venv/bin/python hx/boot.py",
             checks=[dict(property=i,
                          quick_cmd="/opt/venv/bin/python run.py %s --tier quick" % i,
                          thorough_cmd="/opt/venv/bin/python run.py %s --tier thorough" % i,
                          evidence_file="evidence/%s.json" % i,
                          technique=TECH[i], level="exploration", level_note=NOTE)
                     for i in have],
             not_applicable=[dict(property=i, reason=PENDING) for i in ids if i not in have],
             notes="No hooks: everything is observed through the public API and the files written.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
