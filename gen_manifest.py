#!/usr/bin/env python3
"""Writes MANIFEST.json (kept in git; run by hand after a change)."""
import json, os
HERE = os.path.dirname(os.path.realpath(__file__))
BASE = "exploration of the stated generators with shrinking; trusts the reference model in engine/ (independent formulas, self-tested at every start)"
T = {
    "C01": ("generated operands and operation chains against reference integers modulo r", "boundary residues and boundary stored limbs, a 75x75 grid of special values, chains; checked and release builds"),
    "C02": ("generated strings, slices, buffers and integers against reference reduction; cross-path metamorphic check", "all import paths, malformed input of every length; non-ASCII digits included"),
    "C03": ("generated moduli and operands against reference integers", "all documented moduli shapes, boundary limbs; preconditions of the module are respected"),
    "C04": ("generated tower elements against polynomial arithmetic; exhaustive small grid", "through a guarded re-export of the tower; sparse, subfield, boundary-limb elements"),
    "C05": ("generated point pairs in generated representations against the affine group law", "includes equal, opposite, same-x, same-y operands, shared z, both shapes of the identity"),
    "C06": ("generated point pairs in generated representations against the affine group law on the twist", "as C05, over the quadratic extension"),
    "C07": ("generated scalars and points against the affine multiple; exhaustive small and bit-pattern scalars", "all one- and two-bit and run-of-ones scalars, boundary scalars, laws"),
    "C08": ("metamorphic: every operation on two representations of the same values; normalization against the affine point", "representations that share coordinates; eleven routes to the identity"),
    "C09": ("metamorphic bilinearity laws plus the exponent model", "points of known and unknown logarithm, all identity shapes, products of pairings"),
    "C10": ("differential against a textbook optimal ate pairing over affine points", "full value compared coordinate by coordinate; final exponent fixed as the library documents it"),
    "C11": ("generated elements and exponents against dense degree-12 arithmetic; chains", "elements that share coordinates (inverse, Frobenius images) included"),
    "C12": ("round trip through bincode and JSON, stored form against the reference coordinates", "stored form pinned to the current release"),
    "C13": ("round trip through borsh, stored form against the reference coordinates", "stored form pinned to the current release"),
    "C14": ("generated members, near-members and damaged encodings against the reference membership verdict", "serde (bincode, JSON) and borsh; torsion points of every cofactor prime; near-members of Gt"),
    "C15": ("generated related pairs: encodings against the reference form and injectivity", "byte form and Display pinned, Debug injective"),
    "C16": ("scripted generators: determinism, membership, sensitivity; chi-square tests on fixed streams", "uniformity is statistical (8 sigma on fixed seeds) for scalars and coordinates; the logarithms of group samples are only visible when they follow the stream"),
    "C17": ("model-based histories over registers, model = exponents modulo r; protocol equations", "serde and borsh builds; every step compared with the reference element"),
    "C18": ("differential between six builds running the same generated scripts", "serde/borsh x checked/release/unoptimised on one toolchain and target"),
    "C19": ("metamorphic: same calls in other orders, repeated, on threads (also from the start of a process), in fresh processes; reference values", "wear up to 2,000 pairings, 66,000 multiples, 640,000 imports in one process (thorough: more than 65,536 of every kind); interleavings are sampled by the operating system scheduler"),
}
checks = []
for p, (tech, note) in T.items():
    checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": "property-based testing: " + tech + ("" if p in ("C18", "C19") else "; plus a coverage-guided search over the same choice tapes"), "level": "exploration",
                   "level_note": note + "; " + BASE})
m = {
    "version": 1,
    "setup_cmd": "./check --build",
    "hooks": {"guard": "--cfg rabe_bn_verif", "enable": "RUSTFLAGS='--cfg rabe_bn_verif' cargo build (only the check of C04 needs it)", "source_commits": ["f6bf842"]},
    "checks": checks,
    "not_applicable": [],
    "notes": "One driver, ./check ID [--tier quick|thorough]; ./check --replay FILE repeats a violation. Both tiers rebuild from /repo. Genuine defects found are listed in known_findings.txt (all repaired).",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
