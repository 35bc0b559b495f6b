#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, `pbt list` and the texts below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SMALL = "random inputs plus every input of a bounded size"
T = {
 "D01": ("property-based testing: walk over the edit script, exhaustive small pairs", SMALL),
 "D02": ("property-based testing against a brute-force longest common run", SMALL),
 "D03": ("property-based testing: empty iff identical, near-identical inputs", SMALL),
 "D04": ("property-based testing against a reference grouping of changes into hunks", SMALL),
 "D05": ("property-based testing with a reference patcher over the saved form", SMALL),
 "D06": ("metamorphic property-based testing across thread pools and repetitions", "schedules are sampled, not enumerated"),
 "S01": ("property-based testing with scripted readers and writers against a reference splitter", "random inputs and I/O scripts"),
 "S02": ("model-based testing of operation histories", "random histories, compared after every step"),
 "S03": ("property-based testing against direct scans", "random sequences with every position and range of each; every trim size"),
 "T01": ("round-trip property-based testing", SMALL),
 "T02": ("round-trip property-based testing", SMALL),
 "T03": ("property-based testing of constructed (diff, target, expected) triples", "random triples over unambiguous lines"),
 "T04": ("property-based testing of constructed (diff, target, expected) triples", "random triples over unambiguous lines"),
 "T05": ("property-based testing against a declarative validity search over outputs", "random and all small triples; every output must be explained by the reported outcomes"),
 "T06": ("property-based testing of re-application with constructed expectations", "random triples"),
 "T07": ("property-based testing of constructed conflicts", "random triples over unambiguous lines"),
 "T08": ("property-based testing with captured log records against constructed outcomes, a validity search and a reference byte patcher", "random triples"),
 "B01": ("round-trip property-based testing", SMALL),
 "B02": ("differential property-based testing against a reference byte patcher", SMALL),
 "B03": ("differential property-based testing against a reference byte patcher", SMALL),
 "F01": ("round-trip property-based testing and mutation fuzzing of saved diffs", "random diffs, every truncation, random damage"),
 "F02": ("property-based testing over file states", "random contents, presence and names"),
 "F03": ("fault injection at every byte over generated diffs", "every write offset for small outputs, a sample for larger ones, of random cases"),
 "P01": ("property-based testing of real processes", "random file pairs"),
 "P02": ("property-based testing of real processes", "random file pairs"),
 "P03": ("fault and crash injection at every file operation of real processes", "every operation of a run disturbed in every way (quick tier: a sample of repeated reads and writes)"),
 "P04": ("fault injection at every file operation of real processes, output limits", "every operation of a run disturbed in every way (quick tier: a sample of repeated reads and writes)"),
 "P05": ("property-based testing of file states plus fault injection, real processes", "random states; every operation of creations and deletions disturbed"),
 "P06": ("stateful testing of patch series with push/pop histories, real processes", "random histories; every short walk of fixed series"),
 "P07": ("differential property-based testing of real processes against the library", "random triples"),
 "U01": ("property-based testing: hunks written from a known meaning, exhaustive small bodies", SMALL),
 "U02": ("property-based testing with an independent unified-diff parser and applier, patch(1) as second opinion", SMALL),
 "U03": ("structured fuzzing against a strict reference parser", "random and all small bodies; inputs outside the format are only checked for crashes and count consistency"),
 "U04": ("round-trip property-based testing, near-miss fuzzing against a reference recogniser", "random"),
 "U05": ("property-based testing: header lines written from known parts", "random"),
 "U06": ("round-trip and differential property-based testing against native hunks and diff(1)", SMALL),
}
levels = dict(l.split() for l in subprocess.check_output([here + "/target/release/pbt", "list"], text=True).splitlines())
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
assert set(props) == set(levels), set(props) ^ set(levels)
GEN = "Search, not proof: no counterexample among the cases counted in the evidence. "
m = {
 "version": 1,
 "setup_cmd": "bash ./build.sh",
 "checks": [{
   "property": p,
   "quick_cmd": f"bash ./check.sh {p} quick",
   "thorough_cmd": f"bash ./check.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json",
   "technique": T[p][0],
   "level": levels[p],
   "level_note": GEN + "Coverage: " + T[p][1] + ". Trusts the generators' reach and the reference model named in DESIGN.md; assumptions are listed in the evidence.",
 } for p in props],
 "not_applicable": [],
 "notes": "No hooks: everything is reached through the public interface and the two programs. Known and repaired findings: known_findings.txt. All random choices derive from VERIF_SEED.",
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
