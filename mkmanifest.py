#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
PBT = "property-based testing: generated inputs against a reference model, with shrinking"
# property -> (technique, level note)
CLAIMED = {
    "C01": ("class-directed string and history generation, all class sequences up to length 5, against the UAX #29 rules as reference model", "sampled beyond the enumerated lengths; one committed copy of the Unicode 10.0 classes"),
    "C02": ("stateful generation of chunkings and cursor histories against the boundaries of the whole string", "sampled histories of up to 8 operations on texts of up to 16 characters"),
    "C03": ("class-directed string generation, all class sequences up to length 4, against the UAX #29 rules as reference model", "sampled beyond the enumerated lengths"),
    "C04": ("stateful generation of front/back iteration histories against the reference segments", "sampled histories"),
    "C05": ("random strings by normalization class and every character, against the UAX #15 algorithms written from the specification", "sampled strings; all single characters exhaustively"),
    "C06": ("metamorphic laws (idempotence, composition of forms, closure, is_* consistency) over generated strings", "sampled strings"),
    "C07": ("exhaustive enumeration of characters and of composition pairs, random triples, against the decomposition data and the Hangul arithmetic", "all characters and all pairs that occur in a decomposition; other pairs sampled"),
    "C08": ("class-directed texts, all class sequences up to a bound, against rules P1-P3 of UAX #9", "sampled beyond the enumerated lengths"),
    "C09": ("class-directed paragraphs and all class sequences up to a bound, against a reference implementation of UAX #9; four recorded deviations are modelled exactly", "sampled beyond the enumerated lengths; paragraphs in the domain of the recorded findings are compared with the recorded behaviour"),
    "C10": ("generated level vectors, paragraphs and lines, against rules L1 and L2", "sampled; small level vectors exhaustively"),
    "C11": ("exhaustive over all u8 and pairs of levels; random vectors; serde round-trips with generated malformed input", "exhaustive for single operations"),
    "C12": ("all short strings over a small alphabet and random strings, against RFC 3492's procedure, and round-trip through the reference decoder", "sampled beyond the enumerated lengths"),
    "C13": ("all short strings over a small alphabet, mutated encodings and random strings, against RFC 3492's procedure with unbounded integers", "sampled beyond the enumerated lengths"),
    "C14": ("every character in several contexts and generated domain names, against UTS #46 written from the specification over the committed mapping data", "sampled domain names; all characters exhaustively"),
    "C15": ("metamorphic relations (idempotence, agreement of to_ascii and to_unicode, case and dot variants, flags) over generated domain names", "sampled domain names; all characters exhaustively"),
    "C16": ("generated character sets (ranges) against sets of code points as model, all small ranges around the edges", "sampled; edges exhaustively"),
    "C17": ("stateful generation of iteration histories over generated ranges against the list of scalar values, sequential and rayon-parallel", "sampled histories"),
    "C18": ("generated tables of both kinds and lookups at every entry edge, against a linear scan", "sampled tables, most of up to some hundred entries, some of up to 260 000"),
    "C27": ("every character in generated formatting contexts, against the notation computed from the code point", "all characters exhaustively in the plain context; formatting contexts sampled"),
    "C19": ("exhaustive enumeration of characters x properties x access paths, against committed Unicode 10.0 reference data", "exhaustive; one recorded deviation (default Bidi_Class of some unassigned code points)"),
    "C20": ("exhaustive enumeration of values and characters against the definitions of UAX #9, #31, #44, and random strings for the string helpers", "characters and values exhaustively; strings sampled"),
    "C21": ("exhaustive enumeration of characters against the reference names, neighbours in name order, random pairs and lists for the order", "names exhaustively; pairs sampled"),
    "C22": ("exhaustive enumeration of blocks, characters and triples of ages, random versions, against laws of order", "ages, blocks exhaustively; version pairs sampled"),
    "C23": ("exhaustive enumeration of property values, strings generated by mutating names, against the reference aliases", "values exhaustively; refused strings sampled"),
    "C24": ("every character, every code unit spelled alone, generated texts, generated and mutated spellings, and outputs that fail after n bytes, against the notation written from the documentation", "single characters and units exhaustively; texts and spellings sampled"),
    "C25": ("generated command lines (all pairs of formats, option spellings and orders, malformed arguments, full output device) run as processes, against the same model of the formats", "all format pairs; command lines sampled"),
    "C26": ("generated source data files in all formats the generator reads, run as a process in a scratch directory, with an independent reading of the generated Rust tables; and the Unicode 10 data itself", "synthetic files sampled (some hundred lines each); the real data once"),
    "C28": ("generated declarations (committed; names colliding up to case, tables of both kinds) compiled against the macro, with strings near the declared names and every character, against the declarations themselves", "42 generated declarations; strings sampled; characters exhaustively"),
    "C29": ("every kind of printable value, printed into sinks that refuse text beyond any number of bytes, for good or once, against the whole text", "names and notations of all characters at one place each, everything else sampled"),
    "C30": ("random series of calls repeated in reverse, in other orders, on several threads at once and in a new process; iterators stepped side by side; against the first answers", "22 kinds of calls, 12 kinds of iterators, series of at most 24 calls (sampled)"),
    "C31": ("CPU time of 26 calls on generated repetitive texts of 500 to 256 000 characters, against a metamorphic relation: eight times the text may not take 24 times as long", "texts of one to three repeated pieces (sampled); punycode decoding left out"),
}
NOT = {}
exec(open(os.path.join(here, "claims.py")).read()) if os.path.exists(os.path.join(here, "claims.py")) else None
checks = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": t,
            "level": "exploration",
            "level_note": n,
        })
    else:
        NOT.setdefault(i, "no check yet")
m = {
    "version": 1,
    "setup_cmd": "./run.sh --setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT.items())],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
