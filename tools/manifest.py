#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below"""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vlib import props

TLC = "TLA+ specification, model checked with TLC; "
READ = TLC + "trace validation: recorded readings of model-derived, exhaustive short and seeded texts are replayed by TLC "
T = {
    "P01": (READ + "through the stream monitor of module Stream", "bounded model, sampled texts"),
    "P02": (READ + "against Lexer and Parser, comparing nesting and depth errors", "bounded model, sampled texts"),
    "P03": (READ + "against Lexer and Parser, comparing nesting and closing-tag errors", "bounded model, sampled texts"),
    "P04": (READ + "against Lexer, Parser and Names, comparing resolved names and unmapped prefixes", "bounded model, sampled texts"),
    "P05": (READ + "against Names, comparing the visible mappings after every event", "bounded model, sampled texts; seven prefixes are looked up"),
    "P06": (READ + "against Lexer and Parser, comparing attributes and misplaced-attribute errors", "bounded model, sampled texts"),
    "P07": (READ + "against Lexer, comparing content events", "bounded model; all short texts of an alphabet of quotes and hashes, sampled longer ones"),
    "P08": (READ + "against Lexer, comparing comment events", "bounded model; all short texts of an alphabet of semicolons and newlines, sampled longer ones"),
    "P09": (READ + "against Chars and Parser, comparing all spans", "bounded model, sampled texts"),
    "P10": (READ + "against Lexer and Parser, comparing kinds of events and errors", "bounded model, sampled texts"),
    "P11": (READ + "against the bounds of Trace_Total, which MC_Text checks for the specification", "bounded model; short, extreme and random texts; a call that takes more than 20 s counts as hanging"),
    "P12": (READ + "with Trace_Same: nine configurations must give one answer", "sampled texts; the standard position types and three lexers"),
    "P13": (TLC + "trace validation: events of random renderings of random trees must be those of module Tree", "bounded model, sampled trees and renderings"),
    "P14": (READ + "against Reader, comparing how far the text has been read at every event", "bounded model, sampled texts"),
    "P15": (TLC + "trace validation of recorded call histories against module Table", "bounded model, sampled histories"),
    "P16": (TLC + "trace validation of recorded call histories against module Names", "bounded model, sampled histories"),
    "P17": (TLC + "trace validation of recorded call histories against modules Names and Table", "bounded model, sampled histories"),
    "P18": (TLC + "trace validation of recorded calls against module Escape", "bounded model; all short texts of an alphabet, sampled longer ones"),
    "P19": (TLC + "trace validation of recorded calls against module Escape", "bounded model; all short texts of an alphabet, sampled longer ones"),
    "P20": (TLC + "trace validation of recorded calls against module Backslash", "bounded model; all short texts of an alphabet, sampled longer ones"),
    "P21": (TLC + "trace validation of recorded conversions against module Xml", "sampled documents and events"),
    "P22": (TLC + "trace validation of the converter's output against modules Reader and Converter", "sampled documents"),
    "P23": (TLC + "trace validation: the outcome at each place is recorded for every Unicode character and compared with module Chars", "every Unicode character at each of 41 places of a document"),
    "P24": (TLC + "trace validation of recorded constructor and accessor calls against module Event", "sampled arguments of every constructor"),
    "P25": (TLC + "trace validation: recorded tokens of exhaustive short and seeded texts are replayed by TLC against modules Lexer and Tokens", "bounded model; all short texts of five alphabets, sampled longer ones"),
    "P26": (TLC + "trace validation of recorded errors, made by hand and by reading, against module Error", "sampled arguments of every constructor, sampled texts"),
    "P27": (TLC + "trace validation: recorded readings from model-derived and seeded sources of tokens, errors and ends are replayed by TLC against modules Source and Parser", "bounded model, sampled sources"),
}


def main():
    m = {"version": 1, "setup_cmd": "bash /verif/setup.sh"}
    hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep", "^Expose the HML escape decoder"],
                          stdout=subprocess.PIPE).stdout.decode().split()
    m["hooks"] = {"guard": "hml_verif", "enable": "RUSTFLAGS=\"--cfg hml_verif\" (harness_esc only)",
                  "source_commits": hook}
    m["checks"] = [{
        "property": p,
        "quick_cmd": "python3 /verif/check.py %s quick" % p,
        "thorough_cmd": "python3 /verif/check.py %s thorough" % p,
        "evidence_file": "/verif/evidence/%s.json" % p,
        "technique": T[p][0], "level": "model_checking", "level_note": T[p][1],
    } for p in sorted(props.CHECKS)]
    m["not_applicable"] = []
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
