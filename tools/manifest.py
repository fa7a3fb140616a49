#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked by TLC; %s"
CHECKS = {
 "C01": ("exhaustive replay of every edit from every small tree plus simulated histories, all links validated against the specification",
   "Exhaustive for all trees over five nodes and all public edits on them; the observation projects the full link state, so single steps are inductive. Larger trees by seeded simulation."),
 "C02": ("TLC enumerates every attribute-list, class-list and whole-list operation over small name and token sets; each is replayed in the code and the outcome validated against the list specification, plus simulated histories",
   "Exhaustive for lists over four names (plain, prefixed, unprefixed) and three class tokens; seeded histories beyond."),
 "C03": ("TLC enumerates documents over namespaces, text, white space, comments, instructions, style sheets and typed attributes; the writer's output under 14 option sets is read back independently and TLC compares what both texts say, and that writing again gives the same bytes",
   "Exhaustive for every single item in every container, sampled pairs (all enumerated by TLC), seeded rows beyond. Doctypes are outside."),
 "C05": ("TLC enumerates every selector of the grammar over small trees and walks to larger ones; the answers of the code for whole-document, below-element, matching and closest queries are validated against the matching relation of the specification",
   "Exhaustive for all selectors of one or two compounds from the grammar over three documents; seeded simulation for larger ones."),
 "C06": ("TLC generates style sheets, inline styles and attributes on nested elements; the computed value of each property the code reports is validated against the cascade of the specification under every combination of conditions",
   "Exhaustive for pairs of declarations, seeded simulation beyond; seven representative properties (inherited, not inherited, shorthand, paint, length, url)."),
 "C12": ("TLC generates documents with ids, duplicate ids and every kind of reference; outputs of the jobs that touch ids, definitions or links are validated: each reference of a surviving element still leads to the same element",
   "Exhaustive for one id with one to three references, sampled, plus seeded simulation up to twelve decorations; elements are identified across runs by a data attribute the jobs do not touch."),
 "C11": ("every document with one or two decorations plus simulated larger ones, put through each default job and the presets; TLC renders both texts by the specification and compares the pictures under every combination of conditions",
   "Exhaustive for one decoration, sampled for pairs (all enumerated by TLC), seeded simulation beyond. Pictures are compared as sequences of painted outlines with all painting properties; antialiasing is outside."),
 "C13": ("TLC enumerates documents mixing targeted and untargeted nodes; for each of 55 job configurations the specification computes the one document that must result and compares it with what the job wrote",
   "Exhaustive for one item in every place and under every root, sampled pairs, seeded rows of many items; comparison is exact, including order."),
 "C04": ("TLC enumerates documents and what a visitor does at each node (remove, skip children, empty, append, prepend, fail); the hook calls recorded from the real traversal are validated against the walk of the specification",
   "Exhaustive for documents of up to four nodes with one deed at any node, seeded simulation for larger documents and several deeds."),
 "C07": ("TLC enumerates editing sessions with saving, reading again and forgetting at every point; after each step the history, selection and traces of state derived from the real document are validated against the session of the specification",
   "Exhaustive for two steps over all actions and three steps over a smaller alphabet, simulated sessions of up to sixteen steps; documents without white space between elements."),
 "C08": ("TLC enumerates sequences of selecting and editing actions over small drawings; after each step the drawing read from the written document is validated against the drawing the specification computes",
   "Exhaustive for two steps over all actions and three steps over a smaller alphabet, simulated sessions of up to sixteen steps. Boolean path operations are judged only for leaving a drawing without paths alone."),
 "C14": ("TLC enumerates documents over prefixes, default namespaces, re-declarations and foreign content; every job and all jobs together are run and TLC compares the namespaces of all surviving names and checks that each output is well-formed",
   "Exhaustive for every single item under every declaration, sampled pairs (all enumerated by TLC), seeded rows beyond; panics and hangs are violations."),
 "C15": ("TLC enumerates configurations (presets, overrides, omissions, plugin lists) and resolves them to jobs with options; the code's resolution, its effect on witness documents and what it writes back are validated against it, through the library and through the command",
   "Exhaustive for every job alone, every preset with one override and one omission, sampled pairs; every job has a witness document on which it acts alone."),
 "C16": ("a model of the workers is checked for every schedule; TLC enumerates file trees, arguments and outputs, the real command is run on each in a scratch directory, and the files, streams and exit code are validated against the specification, with one and several threads",
   "Exhaustive for argument and output combinations over a fixed set of trees, seeded simulation beyond; schedules of the real workers are sampled, those of the model are exhaustive."),
 "C17": ("TLC enumerates every arrangement of named file, preset flag, local file and base file, each absent, good, broken or unreadable; the real command is run in scratch directories and its result, failure and untouched files are validated against the order of sources in the specification",
   "Exhaustive for one file content per place over all arrangements of four sources; thorough enumerates all contents. Input by file, standard input, output file and in place."),
 "C18": ("TLC enumerates documents with unknown, deprecated, default, invalid, unused and XLink parts under every severity; the problems the library reports and the command prints, with ranges and exit codes, are validated against the set the specification computes",
   "Exhaustive for every parent and child, every attribute and value on every element, every id and prefix arrangement of two elements; seeded rows beyond. Twenty-six elements and sixty attributes represent the rest."),
 "C19": ("TLC checks a model of an editor and the language server; enumerated and simulated editing sessions are spoken to `oxvg lint serve` over its standard streams and TLC compares the diagnostics shown after every notice with those of the specification",
         "bounded document pool, session length and number of open documents; message timing as the transport delivers it"),
 "C20": ("TLC enumerates documents and options; the component the command writes is read by an independent reader of JSX and TLC compares its tree, properties, wrapping, exports and imports with those the specification computes",
   "Exhaustive for every attribute, string and text in place and for pairs of options over four documents; sampled nestings and seeded rows beyond. Event handlers and TypeScript output are outside."),
 "C09": ("TLC enumerates sequences of path commands, ways of writing them and errors in them under nine ways of painting; what writing back and what the path job under each option produces is read into outlines by the specification and compared",
   "Exhaustive for every pair of commands (sampled at run time; thorough also triples), seeded sequences beyond. Coordinates need no rounding; fitting arcs to curves and uniting overlapping outlines are outside."),
 "C10": ("TLC enumerates shapes of every kind and unit under up to three nested lists of transforms, with paints, strokes and paint servers; outputs of the geometry jobs with their options are rendered by the specification and compared outline by outline on the canvas",
   "Exhaustive for every shape with one function and every pair of functions, sampled nestings (all enumerated by TLC), seeded lists beyond. Functions and coordinates are chosen so that results need no rounding; arcs and strokes under skews are outside."),
 "C21": ("TLC enumerates documents with conditional rules, animations, and parts that look unused beside scripts; outputs of every default job and the presets are rendered by the specification under every combination of conditions, and judged for what a script or rule may still refer to",
   "Exhaustive for one conditional decoration on seventeen skeletons and for every script arrangement, sampled pairs, seeded simulation beyond."),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for p in props:
    if p["id"] in CHECKS:
        t, note = CHECKS[p["id"]]
        cmd = "python3 tools/check.py " + p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd, "technique": T % t,
                       "level": "model_checking", "level_note": note, "evidence_file": "evidence/%s.json" % p["id"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Known findings: KNOWN_FINDINGS.txt. No hooks in the repository are needed: all observations are at public API, text and process level."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
