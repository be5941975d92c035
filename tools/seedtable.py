#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md."""
import json, os
V = "/verif/seeded"
LATE = {"C25-int-nu": "fields of many sizes and types", "C06-many-trials": "large concentrations", "C09-negative-sum": "rates of zero", "C10-sorted-known": "more positions, tighter tolerance", "C07-nb-predictive-shape": "chains over the wide grid of C06", "C15-centered-global": "the same call on other objects at the same time",
        "C20-other-sample-sizes": "Dirichlet plots with seeds", "C12-listed-once": "repeated coordinates", "C24-pinv": "uneven units per coordinate",
        "C13-fraction-half": "constructors, conversions and chains", "C23-zero-direction": "rows with zeros and ones", "C15-shared-options": "other objects differ in their options", "C02-weibull-zero-total": "zero totals of observations", "C10-f32": "large and small values at every two arguments", "C08-t-large-nu": "larger parameter ranges", "C06-geometric-option": "options as NumPy booleans and numbers"}
print("| planted change | needs | caught by |\n|---|---|---|")
for i in sorted(os.listdir(V)):
    m = json.load(open(f"{V}/{i}/meta.json"))
    print(f"| {i}: {m['what_it_breaks']} | {m['needs']} | {m['property']}{' (missed first; added: ' + LATE[i] + ')' if i in LATE else ''} |")
