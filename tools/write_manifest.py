"""Writes /verif/MANIFEST.json from the registered worlds and the list of properties that are not claimed."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sim.worlds import META

NA = {
    "N01": "A pure function of its arguments: there is no schedule, fault, clock, I/O or history for a simulator to control. (That repeated and interrupted use cannot change it is C01/C04/C15.)",
    "N02": "A statement about formulas of pure functions; nothing in it depends on schedules, faults, time or I/O, so a simulator has nothing to decide. (C01 takes the formulas as given.)",
    "N03": "Pure functions of the GPS coordinates; no schedule, fault, time or I/O involved.",
    "N04": "Pure functions from positions to strings and back; no schedule, fault, time or I/O involved.",
    "N05": "Pure geometry of the arguments; no schedule, fault, time or I/O involved.",
    "N06": "A pure function of the constructor's arguments; no schedule, fault, time or I/O involved.",
    "N07": "A pure function of the arguments; no schedule, fault, time or I/O involved.",
    "N08": "Pure functions of the camera and the points; no schedule, fault, time or I/O involved.",
    "N09": "Reading tags of an intact file is a pure function of the file; the faults of the lookup behind it are C16.",
}
NOTES = json.load(open(os.path.join(ROOT, "tools", "level_notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=[],
         notes="No hooks in /repo: the seams are LD_PRELOAD (disk), sys.settrace (threads, interruptions), numpy's global generator, the log-probability callbacks, "
               "requests' transport adapter and module attributes. See DESIGN.md.")
for p in props:
    i = p["id"]
    if i in META:
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py check %s --tier quick" % i, thorough_cmd="python3 run.py check %s --tier thorough" % i,
                                technique="deterministic simulation with fault injection: " + NOTES[i][0], level=META[i]["level"],
                                level_note=NOTES[i][1], evidence_file="evidence/%s.json" % i))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i) or NOTES.get(i, ["", "no check built yet"])[1]))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
