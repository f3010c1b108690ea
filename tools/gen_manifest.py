#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
PBT = "property-based testing: exhaustive small scopes plus structured random generation (proptest), "
T = {
    "C01": PBT + "oracle: independent suffix sorting and BWT inversion",
    "C02": PBT + "oracle: sorted cyclic rotations, metamorphic over rotations, differential between modes",
    "C03": PBT + "oracle: omega-ordered rotations of Lyndon factors; inversion; injectivity on whole length classes",
    "C04": PBT + "oracle: definition of Lyndon words; differential between two library algorithms and the tool",
    "C05": PBT + "oracle: brute-force borders and periods",
    "C06": PBT + "oracle: all rotations compared; whole necklace sets",
    "C07": PBT + "oracle: suffix comparison / prefix doubling, definitions of every derived array",
    "C08": PBT + "oracle: linear scan from every index",
    "C09": PBT + "oracle: decoder and longest-previous-factor table",
    "C10": PBT + "oracle: suffix predecessors, decoder with cycle detection",
    "C11": PBT + "oracle: uniqueness by definition / suffix automaton",
    "C12": PBT + "oracle: enumeration of all distinct substrings; mutated attractors",
    "C13": PBT + "oracle: definition of empirical entropy; differential between two tools",
    "C14": PBT + "oracle: direct counting; differential against the BWT tool",
    "C15": PBT + "oracle: decoder (round trip) and run reference",
    "C16": PBT + "oracle: reference list and decoder (round trip)",
    "C17": PBT + "oracle: round trip over generated configurations, forbidden-byte scan",
    "C18": PBT + "metamorphic over input channels, chunkings and prefix lengths with injected short reads",
    "C19": PBT + "oracle: reversal and involution",
    "C20": PBT + "oracle: morphism iteration and run-length recurrences",
    "C21": PBT + "oracle: closed formulas per position",
    "C22": PBT + "oracle: set of all cyclic windows",
    "C23": PBT + "oracle: brute-force object sets in order",
    "C24": "property-based testing: generated requests, every run a new random draw, invariant check",
    "C25": "fault injection: enumerated and random faults (errors, short transfers, limits) at every byte position, fault-free reference run",
    "C26": PBT + "invalid requests must be refused",
    "C27": "stateful property-based testing: generated sequences of transforms, inverse decoders in reverse order",
    "C28": PBT + "oracle: grammar of the RESULT line and the length analysed",
    "C29": PBT + "metamorphic: the image of word k is word k+1; literal images",
    "C30": PBT + "oracle: the bytes themselves, over generated chunkings, interrupts, errors and prefix lengths",
    "C32": PBT + "metamorphic: repetition, log levels, builds, environments, option spellings",
    "C33": PBT + "differential: the scripts against the tools run directly, and the word definitions",
    "C34": PBT + "differential: the shell pipeline against the tool on the escaped text, inverse decoders, definitions",
    "C35": PBT + "metamorphic: relations between the results of different tools and of related texts",
    "C36": PBT + "malformed command lines must be refused without output; metamorphic: equivalent spellings",
    "C37": PBT + "metamorphic: the result is the same for every destination and company; snapshots of the folders around",
    "C31": PBT + "oracle: digit counting; invariants of every generated text",
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": T[i],
        "level": "fault_enumeration" if i == "C25" else "exploration",
        "level_note": "Holds on every case generated: the small scopes are enumerated completely, larger inputs are sampled (see the evidence file for counts and classes). "
        "Trusts the reference oracles in /verif/harness (cross-checked against naive definitions), cargo/rustc and the test machine; a hang on large inputs is an error (exit 2), not a violation.",
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public library interface and the tools. See DESIGN.md.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
