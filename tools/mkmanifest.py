#!/usr/bin/env python3
"""Writes MANIFEST.json and harness/rules.json (what a case is and what makes it
non-trivial, per sub-check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing (rapid): "
C = {}   # property: (technique, level note)
RULES = {}


def c(prop, technique, note, **rules):
    C[prop] = (PBT + technique, note)
    RULES[prop] = {k.replace("_", "-"): v for k, v in rules.items()}


REF = "The oracle is the harness's own interpreter, written from alda's documentation and the property texts; scores whose outcome the documentation leaves open (ties decided by floating-point rounding and the like) are not judged."
c("P01", "generated score trees are rendered and must parse back to exactly what was written; token soups and spoiled texts must parse or fail cleanly, twice the same",
  "Samples the space of texts; bounded score size (some tens of events) and depth 4.",
  tree="random score tree, random layout; non-trivial: at least 4 kinds of construct",
  soup="random tokens and arbitrary Unicode; non-trivial: parses to at least one event, or is rejected with a position",
  reject="a construct the language lacks is put into a generated score; non-trivial: all of them",
  junk="a complete construct followed by glued-on characters that cannot belong to it; non-trivial: all of them")
c("P02", "the renderer records where each construct was written; planted errors must be reported there",
  "Positions of all constructs and of one planted error per case.",
  events="positions of all events; non-trivial: several lines and at least 4 kinds of construct",
  tree="positions of all syntax nodes; non-trivial: several lines and at least 4 kinds of construct",
  bad_characters="one unacceptable character in a random place; non-trivial: all",
  soup="errors of arbitrary texts lie inside the text; non-trivial: an error was reported",
  evaluation="a score that fails to evaluate; non-trivial: the failure happened")
c("P03", "metamorphic: two layouts of one generated score evaluate alike", "Layouts differ in white space, line ends, comments, bar lines.",
  layout="non-trivial: at least 3 notes")
c("P04", "round trip and idempotence of the formatter over generated scores, widths and indents", "Widths 0..200, indents of spaces and tabs.",
  format="non-trivial: at least 4 kinds of construct", music="non-trivial: at least 3 notes")
c("P05", "round trip events -> code -> events", "Also from attributes already evaluated.",
  generate="non-trivial: at least 4 kinds of construct")
c("P06", "differential: JSON outputs re-read and compared with the values they carry; human tree re-derived from the JSON tree", "",
  tree="non-trivial: at least 4 kinds of construct", score="non-trivial: at least 3 notes and 2 parts")
c("P07", "differential against a reference interpreter; chain invariant without it", REF,
  timing="non-trivial: at least 3 notes", all="non-trivial: at least 3 notes", chain="non-trivial: at least 3 notes in sequence", zero="non-trivial: a length of zero somewhere, among at least 3 notes, rests and crams")
c("P08", "differential against a reference interpreter; key spellings against scale theory", REF,
  pitches="non-trivial: at least 3 notes, one altered by the key signature", range="non-trivial: a note near or beyond the MIDI range", keys="non-trivial: the key has accidentals")
c("P09", "differential against a reference interpreter; invariant of chords without it", REF,
  diff="non-trivial: a chord was played", together="non-trivial: at least two chords")
c("P10", "differential against a reference interpreter; metamorphic: a cram is its contents scaled", REF,
  diff="non-trivial: a cram was played", scaled="non-trivial: at least 2 notes inside the cram")
c("P11", "differential against a reference interpreter; metamorphic: a repeat equals its expansion", REF,
  diff="non-trivial: an alternate ending was both played and skipped", expand="non-trivial: repeats and alternate endings present")
c("P12", "differential against a reference interpreter; metamorphic: a variable equals its captured definition", REF,
  diff="non-trivial: a variable was used", undefined="non-trivial: a variable is used", substitute="non-trivial: a variable was used")
c("P13", "differential against a reference interpreter; metamorphic: a voice equals the same music alone", REF,
  diff="non-trivial: a voice group was joined", band="a named group and its members called in turn; non-trivial: a voice group was joined", alone="non-trivial: more than one voice has notes")
c("P14", "model-based: histories of instrument calls against the documented rules", REF,
  calls="non-trivial: at least 3 calls", music="non-trivial: at least 2 instances and 4 notes", band="a named group and its members called in turn; non-trivial: at least 2 instances and 4 notes")
c("P15", "differential against a reference interpreter; planted invalid attributes; metamorphic: one attribute changed, nothing else moves", REF,
  diff="non-trivial: at least 3 notes and 2 attribute changes", invalid="non-trivial: an invalid attribute was evaluated", only="non-trivial: the change was visible")
c("P16", "differential against a reference interpreter", REF,
  diff="non-trivial: a global attribute was applied", override="non-trivial: a local attribute overrode a global one")
c("P17", "differential against a reference interpreter", REF,
  diff="non-trivial: a jump was made with notes around it, or a marker error", reject="non-trivial: a jump was made with notes around it, or a marker error")
c("P18", "validity predicate over the channels of all notes of generated scores; rejection must be justified by occupied channels", "Times taken from the score itself.",
  auto="non-trivial: two instances share a channel at different times, or the score was rejected", explicit="non-trivial: a note with a requested channel, or the score was rejected")
c("P19", "robustness: extreme generated scores and Lisp soups evaluate to valid finite notes or a located error, twice the same", "Non-termination is judged by the CPU time of the process alone.",
  wild="non-trivial: evaluates to at least one note, or to an error with position")
c("P20", "metamorphic: native spelling versus Lisp spelling; malformed forms must be rejected", REF,
  spelling="non-trivial: at least 2 events respelled", forms="non-trivial: all")
exec(open(os.path.join(V, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "manifest_more.py")) else None

NOT = {
    "P40": "The player is a Kotlin program that needs Gradle and a Kotlin compiler to build; neither is present and nothing can be fetched, so no input can be run against it.",
    "P41": "The player is a Kotlin program that needs Gradle and a Kotlin compiler to build; neither is present and nothing can be fetched, so no input can be run against it.",
}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": C[p][0], "level": "exploration",
                 "level_note": C[p][1] or "Samples the space of inputs; nothing is claimed beyond the cases run."} for p in props if p in C],
     "not_applicable": [{"property": p, "reason": NOT.get(p, "Not claimed yet: the harness for it is still being built.")} for p in props if p not in C],
     "notes": "No hooks in /repo are needed: the checks use exported API, the command line, sockets and files only."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
json.dump(RULES, open(V + "/harness/rules.json", "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
