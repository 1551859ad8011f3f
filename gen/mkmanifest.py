"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification (TLC): "
TECH = {
 "C01": "byte-level spec of the sealed container; replay of every tampering class, trace validation",
 "C02": "freshness invariant over whole recorded histories, system random source interposed",
 "C03": "spec-written wallet files (both versions, all fault classes) opened by the code, code-written ones parsed by the spec",
 "C04": "vault life-cycle model checked, its behaviours replayed, traces validated with spec-computed keys",
 "C05": "vault life-cycle model checked, its behaviours replayed, traces validated",
 "C06": "vault life-cycle model checked, its behaviours replayed, traces validated",
 "C07": "vault life-cycle model checked, its behaviours replayed, damaged stored keys, traces validated",
 "C08": "BIP-32 in TLA+ evaluated against every recorded public key",
 "C09": "extended Ed25519 BIP-32 V2 in TLA+ evaluated against every recorded public key",
 "C10": "path predicate over the product of component classes, replayed for three operations and networks",
 "C11": "signature scheme in TLA+ (RFC 6979, Ed25519 extended), all tampering classes validated",
 "C12": "key path grammar in TLA+, exhaustive small texts and class products replayed",
 "C13": "constructor spec over the product of boundary classes, replayed",
 "C14": "BIP-39 bijection in TLA+, traces of all sizes and languages validated",
 "C15": "phrase acceptance and seed in TLA+, traces validated",
 "C16": "dictionaries as specification constants, lookups validated",
 "C17": "bit packing in TLA+, laws model checked, traces validated",
 "C18": "C call contract over the same spec, each call made through Rust and C and compared",
 "C19": "object life-cycle model checked, histories replayed under an allocation ledger, traces validated",
 "C20": "copy life-cycle model checked, histories replayed against quarantined memory, debug and optimised builds",
 "C21": "extended key serialisation in TLA+, traces of loads, damage and derivations validated",
 "C22": "manager construction model checked over all small factory lists, replayed, traces validated",
 "C23": "interleaving model checked for sequential equivalence, concurrent histories recorded and validated",
 "C24": "hex codec in TLA+, laws model checked, traces validated",
 "C25": "totality of every call over the union of all behaviours and hostile inputs, traces validated",
}
NOTE = ("Every call of every explored history is admitted or refused by the TLA+ specification, so what is replayed is decided exactly; "
        "inputs outside the explored ones are covered by the model's classes only. Trusts TLC, the Java definitions of the cryptographic "
        "primitives (tested against published vectors) and the Rust driver's recording.")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 run/check.py {p['id']} --tier quick",
                 "thorough_cmd": f"python3 run/check.py {p['id']} --tier thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": T + TECH[p["id"]],
                 "level": "model_checking", "level_note": NOTE} for p in props],
     "not_applicable": [],
     "notes": "No hooks: the driver in harness/ uses the public Rust interface and the exported C functions only."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
