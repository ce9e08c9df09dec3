#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NOTE = ("TLC checks every recorded call against the specification (TemplateFitter.tla, Expect.tla) with its own "
        "40-digit arithmetic, for behaviours printed by TLC from finite models (where the property has one) and for random scripts; "
        "bounded: holds for the explored behaviours only. Trusted: TLC, java/Dec.java (checked by DecTest.tla), the executor harness/ex.py.")
checks = [dict(property=p, quick_cmd="bin/check %s quick" % p, thorough_cmd="bin/check %s thorough" % p,
               technique="TLA+ specification, TLC model checking and trace validation of the implementation against it",
               level="model_checking", level_note=NOTE) for p in ids]
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=[],
               notes="One specification (spec/), bound to the package by harness/; see DESIGN.md."),
          open("/verif/MANIFEST.json", "w"), indent=1)
