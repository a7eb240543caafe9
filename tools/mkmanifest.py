#!/usr/bin/env python3
"""writes MANIFEST.json from the checks present"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "ASan/UBSan build run on generated workloads; offline checker compares the output with an independent format model"
T = {
 "C01": ("exploration", MODEL, "generated databases: every version, page size, field type; XML compared value by value"),
 "C02": ("exploration", MODEL, "generated packed index trees; order and completeness of exported records"),
 "C03": ("exploration", MODEL, "generated storages around page and allocation boundaries; exported bytes compared"),
 "C04": ("exploration", "ASan/UBSan build run on import histories; independent structural checker (fsck) of the file after every step",
         "histories of imports with page ownership and content checked by an independent reader"),
 "C05": ("exploration", "system call monitor (LD_PRELOAD) and file digests around every command under ASan/UBSan",
         "command matrix on valid and damaged files; writes and opens for writing observed"),
 "C06": ("exploration", MODEL, "generated configuration tables; container read by an independent reader"),
 "C07": ("exploration", MODEL, "generated vendor configurations and extensions; containers read by an independent reader"),
 "C08": ("exploration", MODEL, "generated repository histories; container compared with the model of the version"),
 "C09": ("exploration", MODEL, "generated repository histories and ranges; files and deleted list compared with the model"),
 "C10": ("exploration", "operation histories on the library under ASan/UBSan; online reference map and independent container parser",
         "random histories with reopen, compared with a reference map after every reopen"),
 "C11": ("exploration", "generated texts through the library under ASan/UBSan; tree events checked by an independent parser",
         "well-formed texts and all single mutations of them"),
 "C12": ("exploration", "library conversions under ASan/UBSan, results checked against independent implementations",
         "exhaustive small domains plus random values"),
 "C13": ("fault_enumeration", "enumerated corruptions under ASan/UBSan with time and memory bounds",
         "structure-aware and byte-level corruptions of generated databases, every command"),
 "C14": ("fault_enumeration", "enumerated corruptions of containers, streams, texts, packs under ASan/UBSan with time bounds",
         "truncations at every length and structure-aware mutations"),
 "C15": ("exploration", "command line matrix under ASan/UBSan, checked against a model of the documented options",
         "options x forms x orders; exit codes, logs, files"),
 "C16": ("fault_enumeration", "I/O fault injection (LD_PRELOAD) at every read/write/open of a run under ASan/UBSan",
         "every I/O call of each command failed once; success must imply complete output"),
 "C17": ("exploration", MODEL, "objects without owner placed by the generator; files written by -slo compared"),
 "C18": ("exploration", MODEL, "BLOB columns with packed and plain values; files and references compared"),
 "C19": ("exploration", "concurrent process schedules with injected delays (LD_PRELOAD) under ASan/UBSan; outputs compared with solo runs",
         "pairs and groups of runs with barriers at temporary file operations"),
 "C20": ("exploration", "file system call monitor (LD_PRELOAD), hostile names from the database",
         "names with separators, .., absolute paths in every place that becomes a file name"),
 "C21": ("exploration", MODEL, "report compared with the model's record counts and storage sizes"),
 "C22": ("exploration", "scripted sessions with the real windows (offscreen) under ASan/UBSan; everything shown and saved is compared with an independent format model",
         "generated databases and containers; random sequences of windows, indexes, selections, saves"),
 "C23": ("exploration", "valgrind memcheck over the workloads of the other checks; differential runs of two builds (automatic variables left alone / filled) under different heap fillings and surroundings",
         "pairs of runs on generated intact and damaged databases compared byte by byte; a sample of every other check's cases under memcheck, failing system calls included"),
    "C24": ("exploration", "measurement of executions (cachegrind instruction counts, logged file operations, peak memory) judged by an oracle over series of doubling size",
         "63 dimensions, each with three inputs of doubling size; a growth factor well above 2 that other random contents confirm is a violation"),
}
NA = []
checks = []
for pid, (level, tech, note) in T.items():
    if os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid,
                       "thorough_cmd": "python3 check.py %s thorough" % pid, "technique": tech, "level": level,
                       "level_note": note})
    else:
        NA.append({"property": pid, "reason": "runtime monitoring applies; its check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": NA}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
