#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the registered checks."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ORACLE = {
    "C01": "sorted plain-list model", "C02": "key-sorted plain-list model", "C03": "positions of a plain list", "C04": "bisection of a plain list",
    "C05": "filtered plain list", "C06": "stable-sort model compared by identity", "C07": "sorted concatenation", "C08": "plain sequence comparison",
    "C09": "round trips followed by further histories", "C10": "independence of shadow models", "C11": "built-in set model", "C12": "built-in set operations",
    "C13": "built-in set relations", "C14": "built-in dict model", "C15": "built-in dict construction and merging", "C16": "lists and sets of the model's items",
    "C17": "plain list of the current content, methods bound early", "C18": "fault injection against a snapshot", "C19": "counted comparisons, key calls, source lines; sublist sizes",
    "C20": "differential twins with different load factors", "C21": "objects reporting their own death", "C22": "elements that trap undocumented demands",
    "C23": "expected types and keys", "C24": "differential twins with and without reads",
    "C25": "the same standard consumers on plain lists, sets and dicts", "C26": "corruption from outside at random places", "C27": "differential twins with different histories",
    "C28": "best times and peak memory on a large container against a small one", "C29": "order and lookups recomputed from the elements' present state", "C30": "soundness at every look and bounds from the recorded events",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "./check %s --tier quick" % i,
        "thorough_cmd": "./check %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "property-based testing over generated operation histories (seeded bulk, Hypothesis; thorough: also atheris); oracle: " + ORACLE[i],
        "level": "exploration",
        "level_note": "Searches generated cases against an explicit oracle and shrinks any failure to a replay file; finds violations, proves nothing. "
                      "Trusts CPython's list, set, dict, sorted and bisect, and the documented caveats on elements (total order, equal values have equal keys and hashes).",
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "Repairs of genuine defects are listed in known_findings.txt. See DESIGN.md.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
