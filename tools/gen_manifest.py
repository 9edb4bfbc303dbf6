#!/usr/bin/env python3
"""Writes MANIFEST.json. Properties without an entry in CHECKS are listed as not yet claimed."""
import json
MON = "reference-model monitor over executions of the real code (debug assertions, panics, hangs watched)"
CHECKS = {
 "C01": ("differential runtime monitor: plain and traced runs at every log level with an active logger",
         "Held on all compared runs; trusts the log crate's level mechanism."),
 "C02": (MON, "Every execution compared with a per-character map."),
 "C03": (MON + ", all scalar values", "Complete over single characters and character pairs of the listed kinds; sampled over longer texts."),
 "C04": ("runtime monitor: normal-form predicate and second run on every observed result", "Complete over short strings of the critical alphabet; sampled beyond."),
 "C05": (MON, "Complete over short strings of the critical alphabet; sampled beyond."),
 "C06": (MON, "Sampled lists and texts."),
 "C07": (MON, "Complete over short strings for 16 characters; sampled beyond."),
 "C08": (MON, "Complete over short strings of a ten-character alphabet and every scalar beside a space; sampled beyond."),
 "C09": (MON, "Complete over short strings of an eight-character alphabet and every scalar at the ends; sampled beyond."),
 "C10": (MON + "; agreement of instances with different hash seeds", "Sampled rule sets and texts."),
 "C11": ("trace checker: every reported edit located in its stage input and applied", "Sampled pipelines and texts; complete over short strings for four stages."),
 "C12": (MON + " over histories of builder calls", "Sampled histories and texts."),
 "C13": (MON + " over histories of table operations", "Sampled histories; also the types of the published sets."),
 "C14": ("runtime monitor: every entry of every published set and constant against Unicode data", "Complete over the published sets and the 412 named constants; sampled over combinations."),
 "C15": (MON + " over files", "Sampled files and edge shapes."),
 "C16": (MON + " over files", "Sampled files and edge shapes."),
 "C17": (MON + " over files", "Sampled files and edge shapes."),
 "C18": ("round trip through exports and loading, with an independent reader of the exported bytes", "Sampled tables; one open finding in the YAML writer."),
 "C19": ("fault injection: malformed, mutated and hostile files, watched for panics, aborts, hangs and silent success", "Sampled files; two open findings in the YAML parser."),
 "C20": (MON + " over directory layouts, markers telling the order of application", "Sampled layouts."),
 "C21": ("differential runtime monitor over processes: standard output and exit status of the program against reference models", "Sampled runs."),
 "C22": ("differential runtime monitor: the same program of calls in Python and in Rust", "Sampled programs of calls; strings without surrogates."),
 "C23": ("stress with injected delays, results compared with calls made alone; ThreadSanitizer; Miri in the thorough tier", "Holds for the interleavings that occurred."),
 "C24": ("offline comparison of recorded digests over instances, threads, call orders and processes", "Sampled configurations and texts; hash seeds as handed out."),
 "C26": ("allocation counters, CPU time and instruction counts (cachegrind) over growing texts; live bytes over growing numbers of calls", "Exponents above about 1.3 at the measured lengths."),
 "C27": (MON + " over histories of builder calls with failing file additions", "Sampled histories; failures at every kind of place."),
 "C25": ("runtime monitor for panics, aborts, hangs and output size under hostile texts", "Sampled pipelines and texts."),
}
NA = {}
LEVEL = {'C27': 'fault_enumeration'}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        t, n = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": LEVEL.get(i, "exploration"), "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public interface. See DESIGN.md."}
open('/verif/MANIFEST.json', 'w').write(json.dumps(m, indent=1, ensure_ascii=False) + '\n')
