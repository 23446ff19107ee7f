#!/usr/bin/env python3
"""Writes MANIFEST.json: python3 tools/gen_manifest.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = ("Trusts the reference model in harness/src/spec (an independent description of the printer, frozen code "
        "tables, painter and HTML reader) and the fonts' glyph outlines; holds for the enumerated sequences and values, "
        "which DESIGN.md and the evidence list, not beyond these bounds.")
T = "explicit-state exploration of all bounded command sequences, every one replayed on the implementation and compared with the model"
CHECKS = {
    "C01": ("exhaustive enumeration of byte strings, cut off and extreme commands up to the stated lengths, each run on the implementation with memory and time bounds", "All byte strings of 2 bytes, structural bytes up to the stated length, every command cut off at every place, parameters at the ends of their ranges, page sizes, stated image sizes, symbols of all settings and lengths of data. Nothing is compared but the form of what is made; 3 GiB of memory and 90 s count as ending."),
    "C02": (T, "All byte strings of 2 bytes, structural bytes up to the stated length, every command cut off at every place and with every value of each parameter byte, against an independent table of the formats of all commands. " + DIFF),
    "C03": ("exhaustive enumeration of streams up to the stated lengths, each converted to thermal text and back by the implementation, and read by an independent reader", "The streams of C02 and of text with every byte; the text is read back by the implementation and by the model of the reader. " + DIFF),
    "C04": ("exhaustive enumeration of short texts and token sequences, each read by the implementation and by a model of the reader", "All texts over the characters that separate and quote, all token sequences up to the stated length. " + DIFF),
    "C05": (T, "Every value of every style command, all sequences of style commands up to the stated depth with text around them. " + DIFF),
    "C06": (T, "All pasts of two (thorough: three) commands of 133 before ESC @, against the model and against the same job without its past. " + DIFF),
    "C07": (T, "All pairs of word lengths, positions, sizes, tab stops and shapes of lines up to the stated depth. " + DIFF),
    "C08": (T, "Every single dot, every byte value, every mode, every truncation and stated size of the image commands. " + DIFF),
    "C09": (T, "All histories of the keyed stores up to the stated depth, all keys. " + DIFF),
    "C10": (T, "All settings, histories and places of QR symbols; the symbol itself is that of the qr_code crate, which is trusted. " + DIFF),
    "C11": (T, "All symbologies with all characters, lengths and settings; apart from UPC-E and check digits the bars are those of the barcoders crate, which is trusted. " + DIFF),
    "C12": (T, "All histories of page mode up to the stated depth, areas and directions. " + DIFF),
    "C13": ("explicit-state exploration of all bounded sequences of drawing operations, every one replayed on the real canvas and compared with the model after each operation", "All sequences of up to 4 (thorough: 6) drawing operations on small canvases, every place and size; text against an independent painter. " + DIFF),
    "C14": (T, "All rows, markup tokens, characters and styles up to the stated depth; the document is read back by an independent reader. " + DIFF),
    "C15": (T, "Every byte, and pairs of bytes, in every code table and international set, against frozen tables made from other sources than the code. " + DIFF),
    "C16": ("explicit-state exploration of all bounded histories of jobs on one thread, on one renderer and on threads at once, each compared with the same job alone", "All pairs of jobs out of a list that leaves everything behind that a job can set; threads run as the system schedules them (the code shares no memory between jobs). " + DIFF),
    "C17": (T, "Every value of every movement, all sequences of movements up to the stated depth. " + DIFF),
    "C18": (T, "Every faulty command between all pairs of commands, against the model and against the same job without it. " + DIFF),
}
NOT = {}
props = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "./check build",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check {p} quick",
            "thorough_cmd": f"./check {p} thorough",
            "technique": CHECKS[p][0],
            "level": "model_checking",
            "level_note": CHECKS[p][1],
        }
        for p in props if p in CHECKS
    ],
    "not_applicable": [{"property": p, "reason": NOT.get(p, "the check is not written yet")} for p in props if p not in CHECKS],
    "notes": "No hooks in /repo: the checks use the public interfaces of the crates. Repairs and findings are listed in known-findings.txt.",
}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
