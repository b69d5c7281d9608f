#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run by hand; the output is committed)."""
import json
import os

ENUM = "TLC enumerates %s of the TLA+ model and checks its laws on them; each case is replayed in the code; "
TV = "TLC validates every recorded call against the model (trace validation)"
S = "strings from a token alphabet up to a bound"
E = "every transition of the url state machine from a pool of urls and calls"
T = {
 "C01": (ENUM % S + TV, "The accepted language is decided twice in TLA+ (recursive descent and ABNF derivation sets), shown equal by TLC on all token strings up to the bound; the code's verdict through all three entry points is compared with it on those strings, all bytes in all contexts, host forms, random and mutated URLs. Bounded: long strings are sampled."),
 "C02": (ENUM % S + TV, "All combinations of absent, empty and filled components within the bound; every accessor of url and url_view is compared. Bounded by token length, sampled beyond."),
 "C03": (ENUM % "host texts" + TV, "All host token strings up to the bound in two URL shapes, every way of setting and clearing a host in histories."),
 "C04": (ENUM % E + TV, "Text, size, terminator and concatenation of parts are compared after every call of every history; buffer edges (capacity -1, 0, +1) are generated explicitly."),
 "C05": (ENUM % E + TV, "After every call the text is reparsed in the model and by the code and compared with everything the object reports. Histories: all single transitions of the model, random walks of the model (TLC -simulate), random long histories."),
 "C06": (ENUM % E + TV, "For every setter x base x argument of the pools the whole observation must equal the model's; frame conditions are checked on the model."),
 "C07": (ENUM % E + TV, "Every clearing call on every base shape, and after random setters."),
 "C08": (ENUM % E + TV, "The model decides which arguments must be refused (syntax and ambiguity); all 256 bytes in several frames for each setter; exhaustive pools."),
 "C09": (ENUM % (E + ", and histories of the storage model with a failing allocation,") + TV, "Refused arguments and every single allocation failure; all observations, capacity and buffer identity compared before and after; suspicious later disagreements are attributed by removing the calls that threw."),
 "C10": (ENUM % S + TV, "All 256 bytes in several positions for each plain-text setter, random byte strings."),
 "C11": (ENUM % "escape texts" + TV, "All escapes in all positions, all token strings of escapes up to the bound, every decoding accessor with three allocators."),
 "C12": (ENUM % "paths" + TV, "All path token strings up to the bound in several URL contexts; forward, backward and mixed walks."),
 "C13": (ENUM % "every segment edit of the url state machine" + TV, "All edits at all positions of all bases in the pool; random histories of edits."),
 "C14": (ENUM % "queries" + TV, "All query token strings up to the bound; forward, backward and mixed walks."),
 "C15": (ENUM % "queries" + TV, "All query token strings up to the bound x keys; random queries and keys."),
 "C16": (ENUM % "scheme texts" + TV, "All strings over the letters of the special schemes up to the bound in two locales; normalisation on every base."),
 "C17": (ENUM % E + TV, "Order of setters: build histories in all orders; equality with the assembled text."),
 "C18": (ENUM % "histories of two urls and their storage" + TV, "Storage model with buffer identity: copies share nothing; all histories up to the bound incl. failing allocations, each replayed; then both urls are modified."),
 "C19": (ENUM % (E + " and histories of the storage model") + TV + " recorded under AddressSanitizer with a checking allocator", "Bounds, capacity law, buffer identity, allocation counts, max_size; crashes, failed assertions and hangs are events that the model never allows."),
 "C20": (ENUM % "pools and requests" + TV, "All small pools x offsets x request sequences within the bound, sizes near 2^64, urls and strings using the pool until it is exhausted."),
 "C21": (ENUM % "histories of buffers, urls and views (ownership model)" + TV, "The source is overwritten and freed after every way of giving a url its text; views follow their buffer, allocate nothing and stay inside it; repeated observation."),
 "C22": ("TLC checks a model of interleaved readers (private state only: every thread sees what it would see alone); the code runs under ThreadSanitizer and every thread's trace is validated by TLC against the model", "That the code has no shared mutable state is observed by ThreadSanitizer on sampled schedules (happens-before detection does not need the bad interleaving itself); not a proof over all schedules."),
}
checks = [{"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py " + p,
           "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
           "technique": t[0], "level": "model_checking", "level_note": t[1]} for p, t in sorted(T.items())]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}, f, indent=1)
    f.write("\n")
