#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and the list of claimed properties below.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "C01": ("grammar-generated documents and entities, load/save round trip against a normal form of the input (rapid)", "Samples documents from a grammar of OpenAPI 3.0, each confirmed valid by the official schema."),
 "C02": ("grammar-generated documents and entities, load/save round trip against a normal form of the input (rapid)", "Samples documents from a grammar of OpenAPI 3.1, each confirmed valid by the official schema."),
 "C03": ("structured corruption of generated documents against the official schema, and arbitrary mutations against reject-or-reproduce (rapid)", "Samples corruptions; only what the official schema (plus component name rules) finds invalid has to be rejected."),
 "C04": ("generated documents saved as YAML and compared with the JSON form; an independent YAML writer for loading (rapid)", "Samples documents and YAML notations; YAML is read as by gopkg.in/yaml.v2."),
 "C05": ("model-based edit histories: the same edits are applied to the Go value and to the JSON data (rapid)", "Samples documents and up to five edits with saves in between."),
 "C06": ("model-based call sequences over all setters found by reflection, and documents built with setters only (rapid)", "Samples call sequences and documents."),
 "C20": ("structure-aware fuzzing of JSON and YAML decoders with a reload oracle (rapid)", "Samples inputs up to a few kB; deep nesting only to small depth."),
 "C07": ("generated method spellings and path patterns against an independent pattern assembler (rapid)", "Samples patterns built from literals and placeholders; the expected clean path and names are known by construction."),
 "C08": ("generated sequences of operation registrations against a model of the collected document (rapid)", "Samples histories of up to a handful of operations, both accepted and refused ones."),
 "C09": ("request structures assembled from type descriptions at run time, against a model of the documented parameters (rapid)", "Samples structures built by reflection plus a set of named Go types."),
 "C10": ("request structures assembled from type descriptions at run time, against a model of the documented body (rapid)", "Samples structures built by reflection plus a set of named Go types."),
 "C11": ("response structures assembled from type descriptions at run time, against a model of the documented responses (rapid)", "Samples structures built by reflection plus a set of named Go types."),
 "C12": ("generated Go types with constraint tags, their values made by reflection and corrupted texts, decided by an independent validator with the schema of the saved document (rapid)", "Samples types and values; format keywords and nil values of shared definitions are outside."),
 "C13": ("generated schemas converted in both directions, agreement of verdicts of an independent validator on generated instances (rapid)", "Samples schemas and instances."),
 "C14": ("reference walk over documents of generated operation sequences, with colliding type names and shared components (rapid)", "Samples operation sequences over named and run-time types."),
 "C15": ("metamorphic comparison of documents under permutation, repetition and isolation of operations, and deep dumps of the inputs (rapid)", "Samples operation sequences and permutations."),
 "C16": ("request and response structures walked and compared with the document that registering the same structure gives, self-containedness of every schema, resolution of all and of unknown references, failing callbacks (rapid)", "Samples structures, methods, content types and preceding operations; schemas are compared by structure after conversion."),
 "C17": ("model-based histories of info and security helpers and secured operations on new and loaded documents of both versions (rapid)", "Samples names, texts and histories of up to 12 calls."),
 "C18": ("differential comparison of the 3.0 and 3.1 documents of the same generated operations (rapid)", "Samples operations; schemas are compared after documented dialect differences are levelled."),
 "C19": ("differential comparison of deprecated calls and operation contexts on generated structures, and of the context that hooks see (rapid)", "Samples structures, mappings, statuses, content types and methods that both calls can express."),
 "C21": ("generated operation sequences over arbitrary types and tags, documents validated against the official schema and reloaded (rapid)", "Samples types and tags; dependency-level crashes listed in DESIGN.md are outside."),
 "C22": ("generated operations registered with recording hooks of the JSON schema library, hook history checked against an independent list of reflected parts (rapid)", "Samples operations; hooks of schemas, properties and nullability."),
 "C24": ("structured corruption of generated 3.1 documents against the official schema, and arbitrary mutations against reject-or-reproduce of known members (rapid)", "Samples corruptions and mutations; only what the official schema finds invalid has to be rejected."),
 "C25": ("metamorphic relations: generated operations with mapped types against the same operations with the types mapped to, with and without inlined types, with and without a marking interceptor, with fields skipped by an interceptor and without these fields (rapid)", "Samples operations and settings; differences that the schema library defines between a reference and an inlined schema (null, title, description) are levelled."),
 "C26": ("fault injection over generated operations: one of the schema or property hook calls fails (chosen among all calls of that operation), against the same history without failure (rapid)", "Samples operations and up to six failing calls for each; a hook fails for the schema or property of that call and later ones like it, not for one call only."),
 "C23": ("generated jobs run concurrently with the race detector and compared with their sequential results (rapid, stateful)", "Schedules are those of the Go scheduler under the race detector."),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, note = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i + " thorough", "evidence_file": "evidence/" + i + ".json",
                       "technique": "property-based testing: " + t + "; thorough tier: also coverage-guided fuzzing of the generators (go native fuzzing)", "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives the public API of /repo's working tree through a Go module replace directive."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
