#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
TECH = {
 "P01": ("differential fuzzing of generated schemas and documents against a reference validator", "an independent reference validator written from RFC 7950"),
 "P02": ("differential fuzzing of generated schemas and documents against a reference validator", "an independent reference of must, unique, key and reference semantics"),
 "P03": ("property-based testing of generated types and values against a reference model", "an independent model of the YANG types"),
 "P04": ("property-based round trips of leaf values against a reference model", "an independent model of the YANG types"),
 "P05": ("property-based round trip and metamorphic testing of JSON documents", "reference canonical form"),
 "P06": ("property-based round trip testing of XML documents, differential XML parsing", "reference XML writer and xml.etree"),
 "P07": ("differential fuzzing of default addition against a reference model", "reference model of defaults"),
 "P08": ("stateful model-based testing of edit histories", "plain JSON model of the document and its history"),
 "P09": ("property-based differential testing of merges", "reference merge on JSON data"),
 "P10": ("property-based testing of equality, hash and copy laws", "structural comparison of raw data"),
 "P11": ("property-based round trip and differential testing of addressing", "reference addressing on JSON data"),
 "P12": ("differential fuzzing of XPath evaluation against a reference evaluator", "independent XPath 1.0 evaluator with YANG functions"),
 "P13": ("grammar-based fuzzing and parse-print-parse round trips of XPath", "generated syntax trees and the reference evaluator"),
 "P14": ("grammar-based fuzzing of YANG modules, round trips of generated statement trees", "generated statement trees"),
 "P15": ("property-based differential testing of if-feature expressions", "reference boolean evaluation"),
 "P16": ("property-based differential testing of identity derivation", "reference closure computation"),
 "P17": ("metamorphic and differential fuzzing of schema composition", "equivalent schema written without the composition statements"),
 "P18": ("differential fuzzing of schema introspection against generated schemas", "generated schema tree"),
 "P19": ("stateful and metamorphic testing of purity, determinism and pickling", "snapshots before and after operations"),
 "P20": ("mutation and grammar-based fuzzing of every input parser", "documented exception classes"),
 "P21": ("property-based round trips and stateful testing of metadata", "plain JSON model"),
 "P22": ("differential property-based testing of output filters", "reference pruning of JSON data"),
 "P23": ("property-based testing of the command line tool", "exit codes and output predicted by the library and the reference"),
 "P24": ("property-based differential testing of the yang-library conversion", "reference conversion"),
 "P25": ("fuzzing of generated module sets with injected inconsistencies", "generated ground truth"),
 "P26": ("fault injection into generated documents, checked error location and tag", "location and kind of the injected fault"),
 "P27": ("differential fuzzing of generated schemas with node statuses", "the reference model of the schema without its obsolete nodes"),
 "P28": ("metamorphic fuzzing: schemas against random rewritings of their text", "the data model of the plainly written text"),
 "P29": ("stateful property-based testing of edit histories", "time windows of the edits in the history of the node"),
 "P30": ("property-based testing over generated schemas", "the definitions the schema was generated from, with rules of RFC 7950 for inherited properties; attached instances"),
 "P31": ("property-based testing over random sets of modules", "a reference resolver of names, revisions and scopes"),
}
props = [json.loads(l) for l in open(V / "properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "vf/props" / f"{i.lower()}.py").exists():
        t, o = TECH[i]
        checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i} --tier quick", "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
                       "technique": t, "level": "exploration",
                       "level_note": f"Hypothesis-generated search with shrinking; the oracle is {o}. It samples the input space (see evidence for counts) and trusts the oracle and generator in /verif/vf."})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "python3-vt check.py --selftest", "checks": checks, "not_applicable": na}, open(V / "MANIFEST.json", "w"), indent=1)
open(V / "MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
