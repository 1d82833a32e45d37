#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = subprocess.run("git -C /repo log --format=%H --grep '^verif:'", shell=True, stdout=subprocess.PIPE, text=True).stdout.split()
TRACE = "TLA+ specification (spec/Triangulation.tla) checked by TLC against executions recorded from the library"
NOTE = ("Every execution shown to TLC is judged in full against the specification, on exact integer geometry. Executions are those the harness drives: "
        "exhaustive small-grid polygons with all insertion orders, and generated families; a Rust restatement of the specification only selects which of the millions of executions TLC sees (all it suspects, and a sample of the rest). "
        "Trusts TLC, the recorder and the generators (whose inputs TLC re-validates).")
FORMAT = "TLA+ specification of the output formats (spec/Formats.tla); TLC enumerates every builder call sequence up to a bound, each is replayed into the library's builders, and recorded results are checked by TLC"
FORMATNOTE = ("Builder histories are exhaustive up to the bound (calls, vertices, previous contents, delimiters), replayed into every predefined format and container shape; "
              "whole runs and runs interrupted at every step are added. Trusts TLC, the replaying harness and, for executions not shown to TLC, a Rust restatement used as a filter.")
CHECKS = {
    "C01": (TRACE, NOTE), "C02": (TRACE, NOTE), "C03": (TRACE, NOTE), "C04": (TRACE, NOTE), "C05": (TRACE, NOTE), "C06": (TRACE, NOTE),
    "C09": ("TLA+ specification of the stream reader and of a run (spec/Streams.tla, spec/Triangulation.tla) checked by TLC against executions on all element streams up to a length", NOTE),
    "C07": (FORMAT, FORMATNOTE), "C08": (FORMAT, FORMATNOTE),
    "C10": ("TLA+ specification of index substitution and lookup (spec/Indices.tla over spec/Triangulation.tla), model checked on its own and checked by TLC against executions with built-in, custom and substituted index types", NOTE),
    "C11": ("TLA+ specification of a history of runs (spec/Session.tla over spec/Triangulation.tla) checked by TLC against histories executed on the library", NOTE + " Histories: all up to a length over an alphabet of nine kinds of runs, random longer ones, and runs started from inside each builder call of another run or interleaved on several threads. The overlapping histories of the specification alone are model checked (spec/SessionMC.tla)."),
    "C12": ("TLA+ specification of the trapezoidal decomposition under segment insertion (spec/Decomposition.tla), model checked on its own and checked by TLC against the decomposition recorded from the library after each inserted segment", NOTE + " Looks at the decomposition through a hook; in a tree where the hook does not compile only whole runs are checked."),
    "C13": ("TLA+ specification of number formats and exactness (spec/Floats.tla over spec/Triangulation.tla), model checked in a small format and checked by TLC against executions on inputs placed in ten coordinate and vertex types", NOTE),
    "C14": ("TLA+ specification of the work allowed (spec/Work.tla), model checked on costs of known growth and checked by TLC against counted runs of the library", "Statistical: the counted runs are a sample of the library's own random insertion orders, on twelve shapes in four listings each and seven arrangements of many rings in several listings, and sizes over a 64-fold range (thorough: 1024-fold). The limits leave a margin of many standard deviations; n log n growth for one ring, and any power above 1.25 for sets of rings, is outside them."),
    "C15": ("TLA+ specification of a list of polygons as it presents itself (spec/Inputs.tla), checked by TLC on the library's nesting, viewing and substitution at algorithm level (spec/InputsMC.tla), and against iterations, lookups and counts recorded from the library", "Very long lists are judged in stretches (spec/LongInputs.tla, shown equivalent by spec/LongInputsMC.tla). The histories are random: up to four iterations under way at a time, with lookups, counts and runs in between, over twenty-five kinds of lists, with containers' and with users' own polygons. Trusts TLC, the recorder and, for the executions not shown to TLC, a Rust restatement used as a filter."),
}
LEVELS = {}
NA = {}
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "cargo feature _verif of the triangulate crate (off by default)",
               "enable": "the harness crate's default feature `hooks` enables triangulate/_verif (cargo build in /verif/harness)", "source_commits": HOOKS},
     "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": CHECKS[p][0], "level": LEVELS.get(p, "model_checking"), "level_note": CHECKS[p][1]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "not built yet")} for p in props if p not in CHECKS]}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
