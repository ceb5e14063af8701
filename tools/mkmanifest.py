#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "stateless model checking of the real code under a controlled scheduler (all schedules within a preemption bound, happens-before state pruning, vector-clock race check)"
SEQ = "bounded exhaustive exploration of operation histories on the real code against a reference model"
ENV = "bounded exhaustive exploration of environment answers (user functions) and solver histories on the real solver against a reference model"
GRID = "bounded exhaustive enumeration of inputs and configurations on the real code against an exact reference"
NOTE_S = "Every schedule of the listed small configurations up to the stated preemption bound; sequentially consistent interleavings plus a happens-before data-race check; larger configurations are not covered."
NOTE_Q = "Every history / choice sequence within the stated bound is executed on the real code and compared with a reference model at each step; nothing beyond the bound or outside the alphabet is claimed."
T = {
 "P01": (SCHED, NOTE_S), "P02": (SCHED, NOTE_S), "P03": (SCHED + ", with thread-creation fault enumeration", NOTE_S), "P04": (SCHED, NOTE_S),
 "P05": (GRID, NOTE_Q), "P06": (ENV, NOTE_Q), "P07": (ENV, NOTE_Q), "P08": (ENV, NOTE_Q), "P09": (ENV, NOTE_Q), "P10": (SEQ, NOTE_Q),
 "P11": (GRID, NOTE_Q), "P12": (GRID, NOTE_Q), "P13": (SEQ, NOTE_Q), "P14": (GRID, NOTE_Q), "P15": (GRID, NOTE_Q), "P16": (GRID, NOTE_Q),
 "P17": (GRID, NOTE_Q), "P18": (SEQ, NOTE_Q), "P19": (SEQ, NOTE_Q), "P20": (SEQ, NOTE_Q), "P21": (SEQ, NOTE_Q), "P22": (SEQ, NOTE_Q), "P23": (GRID, NOTE_Q), "P24": (GRID, NOTE_Q), "P25": (GRID.replace("exact reference", "solution of the plain description"), NOTE_Q),
}
built = set()
for f in glob.glob(V + "/harness/*.cpp"):
    for line in open(f).read().splitlines()[:12]:
        m = re.match(r"//\s*check:\s*(\w+)\s", line)
        if m: built.add(m.group(1))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=T[i][0], level="model_checking", level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason="check still under construction"))
m = dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the concurrency checks instrument by compiler flag and link-time interposition, all others use the public API. Every check builds what it needs from /repo's working tree into /verif/build.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
