#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; a property is claimed when checks/<id>.py exists."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "ASan+UBSan+LSan"
T = {
 "P01": (A + " + delivery monitor (independent serialiser as oracle) over random push/flush/register histories", "Holds on all histories generated; batches observed online at the listener boundary. Trusts the harness serialiser (written from docs/design/htdump_format.md)."),
 "P02": ("ThreadSanitizer + edge-injected schedule perturbation + offline exactly-once/order checker over recorded deliveries", "Exploration of schedules, not enumeration; TSan judges races by happens-before, so one observed pair is enough."),
 "P03": (A + " + round-trip monitor: generated event classes, library serialiser against the real parser and the declared values", "Generated classes and values are sampled; oracle is the generator's own record of names, types and values."),
 "P04": (A + "/TSan + offline checker over the dump file (independent htdump decoder) against the record of deliveries", "File contents compared byte for byte with the expected stream for every generated history."),
 "P05": ("TSan + perturbation + offline per-thread exactly-once checker on shared listeners", "Schedules sampled; thread starts and exits randomised."),
 "P06": ("TSan/ASan + real loopback clients (prompt, slow, disconnecting, never reading) with an independent stream decoder as oracle", "Loopback TCP only; schedules sampled."),
 "P07": (A + " + virtual clock + online shadow-stack monitor over every emitted event", "Clock is the library's own custom-clock build option, so durations are compared exactly."),
 "P08": ("TSan/ASan + online monitor of mapping events against returned identifiers", "Label sets sampled, hash-colliding labels included."),
 "P09": (A + " + structure-aware corrupted, truncated and hostile streams; intact-prefix oracle from an independent decoder", "Inputs sampled by mutation and generation (plus corpus-guided fuzzing in the thorough tier)."),
 "P10": (A + " + differential monitor: the same stream in both byte orders through the real parser", "Values sampled with boundary bias."),
 "P11": ("ASan/TSan + monitor of metadata streams against a model of all dynamically created classes", "Class shapes, counts and name lengths sampled."),
 "P12": ("TSan + perturbation + offline uniqueness/monotonicity checker over recorded ids, thread ids and timestamps", "Schedules sampled."),
 "P13": (A + " + virtual clock + model-based online monitor of every callback", "Histories sampled; model is an independent reference scheduler."),
 "P14": (A + " + model-based monitor over random operation sequences, with allocation failures injected", "Sequences sampled."),
 "P15": ("ASan + shadow allocator monitor + systematic single-allocation-failure injection over workloads", "Every allocation index of every workload is failed once in turn; workloads are a fixed set."),
 "P16": (A + " + output oracle: independent JSON parser and expected entry list", "Streams sampled."),
 "P17": (A + " + output oracle: callgrind profile re-parsed and compared with a reference call tree", "Scope trees sampled."),
 "P18": ("TSan/ASan + byte-conservation and lifecycle monitors with scripted TCP peers, fault injection and deadlines", "Timings sampled; a hang is reported only after a re-run with twice the time."),
 "P19": (A + " + process-level monitor of the client program on generated traces, maps and command lines", "Command lines and traces sampled."),
 "P20": ("LD-level interposition monitor: hook log checked against the calls actually made; value transparency compared with glibc", "Plain build (the hooks replace malloc, so sanitizers cannot be combined)."),
 "P21": (A + " + oracle: values the OS (or a fake /proc) reports", "Real processes and synthetic /proc contents."),
 "P22": ("Built extension under the real interpreter, offline checker over the dumps it writes and refcount monitor", "Plain build of the extension modules; scripts sampled."),
 "P23": ("Built extension under the real interpreter fed generated streams; value oracle and refcount/lifecycle monitors", "Streams and call orders sampled."),
 "P24": ("Output oracle over generated source trees: all generated files re-parsed and cross-checked, map fed to the real client code", "Trees sampled."),
 "P25": (A + " + monitor over random balanced init/deinit histories and command lines", "Histories sampled."),
 "P26": ("ASan/TSan + ownership monitor (each destroy callback counted, use after destroy trapped)", "Histories sampled."),
 "P27": ("Differential monitor: the same workload on every build flavour, streams compared after decoding; sanitizers on each", "Workloads sampled."),
 "P28": ("Model-based monitor of random copy/move/assign/merge/destroy histories of parsed events; register queries under ThreadSanitizer with injected delays; reference printer", "Histories and schedules sampled."),
 "P29": ("Fault enumeration: every system call of each workload interposed and failed, interrupted or cut short in turn; outputs decoded against the expected stream, descriptor and leak monitors (ASan/UBSan)", "Every call index up to a cap per workload; pairs of faults sampled."),
 "P30": ("Crash-point monitor: traced programs ended at random moments and at particular calls; files and client streams judged against shared-memory counters by an independent reader and the parser (ASan/TSan)", "Moments and schedules sampled; the machine itself keeps running."),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "runtime monitoring: " + T[i][0],
                       "level": "fault_enumeration" if i == "P15" else "exploration", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No source hooks: schedule perturbation and edge counts come from -fsanitize-coverage on /repo's sources, clocks and allocators from the library's own options."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
