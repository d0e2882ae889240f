#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (titles, ids) and the notes below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
    "C01": "round-trip against the documented field tables (lib/spec.py)",
    "C02": "round-trip and purity of constructor-built object trees",
    "C03": "metamorphic: adding unknown fields",
    "C04": "metamorphic: removing unimplemented elements; log model",
    "C05": "fault injection: leaving out one required field; documented error types",
    "C06": "stateful histories against a pure model, and persistent processes with other environments",
    "C07": "value semantics against equality of the documents",
    "C08": "metamorphic: pruning inconvertible leaves",
    "C09": "differential: the failing leaf alone, and both error modes",
    "C10": "totality over schema-valid documents and single nodes",
    "C11": "token order model over unique words",
    "C12": "reading back with markdown-it against the document tree",
    "C13": "reference text of marks, and formats read back with markdown-it",
    "C14": "heading sequence read back, with a line model",
    "C15": "independent line model of nested lists, and reading back",
    "C16": "independent line model of task lists",
    "C17": "grid parsed back from the text, and with markdown-it",
    "C18": "fence parsed back by hand and with markdown-it",
    "C19": "inverse: unprefixing gives the content's rendering",
    "C20": "independent renderer of each leaf, attribute perturbation",
    "C21": "invariant over blank lines, and join of the blocks rendered alone",
    "C22": "metamorphic: composition, edit locality, split, wrap",
    "C23": "metamorphic: changing presentation-only data",
    "C24": "typed-tree walk against the public class table, and type tests",
    "C25": "differential against a reference renderer (lib/ref.py)",
    "C27": "round-trip through copy, pickle and replace, also in another process",
    "C28": "generated schedules of several threads (deterministic switches at lines or byte code) against a pure model",
    "C29": "generated model classes against a model of the base classes' contract",
    "C30": "metamorphic: effort for doubled depth and fourfold width; time limit on long texts",
    "C31": "reference model of the helpers; own nodes that record how they are called",
    "C32": "generated import sequences in fresh interpreters: reference model of the results, invariant over the process state",
    "C33": "generated schemas: the description they are built from against the report and the imported generated classes",
    "C26": "generated programs: the generator's output against the names the sources define",
}


def main():
    checks = []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        pid = json.loads(line)["id"]
        checks.append({
            "property": pid,
            "quick_cmd": "./check %s" % pid,
            "thorough_cmd": "./check %s --tier thorough" % pid,
            "technique": "property-based testing (Hypothesis, shrinking): " + ORACLE[pid],
            "level": "exploration",
            "level_note": "Searches seeded random structured cases for a counterexample and shrinks it; a pass says that "
                          "none was found among the cases the evidence file counts, not that there is none. Trusts the "
                          "oracle and generator in props/%s.py and lib/, which share no code with the package." % pid.lower(),
        })
    manifest = {
        "version": 1,
        "setup_cmd": "./check --selftest",
        "checks": checks,
        "not_applicable": [],
        "notes": "Nothing is built: the checks import atlas_doc_parser from /repo's working tree. No hooks in /repo.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
