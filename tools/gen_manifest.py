#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from checks_conf import CONF
T = {
 "C01": "runtime monitor: brute-force nearest-neighbour oracle on every answer",
 "C02": "runtime monitor: well-formedness and float64 metric oracle on every answer entry",
 "C03": "runtime monitor: budget bounds and monotonicity over ascending budgets",
 "C04": "runtime monitor: executable best-first model over the saved forest; recall floors",
 "C05": "runtime monitor: before/after comparison of all observations and file bytes",
 "C06": "offline checker over the saved forest (independent file reader)",
 "C07": "controlled random schedules at lock operations; bytes and canonical forests compared",
 "C08": "Go race detector, controlled random schedules with moving and revoked node memory, forest checker",
 "C09": "Go race detector and sequential oracle on concurrent answers",
 "C10": "runtime monitor: map model of stored vectors",
 "C11": "runtime monitor: float64 metric oracle with rounding bounds",
 "C12": "differential runtime monitor over configurations (bytes and answers)",
 "C13": "misuse injection with twin index comparison",
 "C14": "descriptor and mapping monitor (/proc/self) with fresh twin comparison",
 "C15": "fault injection (bad paths and sizes; file system calls made to fail through ptrace) with outcome, leak and recovery monitors",
 "C16": "fault injection (overlapping and failing saves; file system calls made to fail and kills at each of them through ptrace) with answer, byte and directory monitors",
 "C17": "guard pages, revoked memory, AddressSanitizer and checkptr over random API histories",
 "C18": "runtime monitor on sparse memory and files beyond 4 GiB",
 "C19": "runtime monitor: reference sort and multiset models",
 "C20": "runtime monitor: independent KISS model, stream independence, statistical bounds",
 "C21": "runtime monitor: tree count in the saved file and work counted by plugged-in generator",
 "C22": "differential runtime monitor of overlapping lives; Go race detector",
 "C23": "runtime monitor: float64 definitions with rounding bounds",
 "C24": "process level monitor of the command: status, output, files, recomputed precision",
 "C25": "online lock-protocol automaton over recorded lock, reallocation and node-access events",
 "C26": "differential runtime monitor: reused against new contexts",
 "C28": "read-only memory and files: page protection traps any write; metadata comparison",
 "C29": "offline checker: independent reader of the documented layout; recorded files of earlier builds",
 "C30": "runtime monitor: counting allocator and metric against cost bounds",
 "C31": "metamorphic runtime monitor: answers to the same question in several forms",
 "C32": "runtime monitor: trees, item addresses, mappings, output and answers per builder option",
 "C33": "runtime monitor: byte model of allocators; race detector and AddressSanitizer",
 "C34": "recording stand-in builder; overlap monitor on lock sections; race detector",
 "C35": "runtime monitor: node model between guard pages, float64 metric formulas; checkptr",
 "C27": "recording plug-ins with call-contract and answer oracles",
}
N = ("Every execution explored is judged completely by the oracle; nothing is claimed for inputs, schedules or "
     "histories the workload did not reach. Trusts the oracle in /verif/harness, the Go toolchain and (where used) its sanitizers.")
checks = [dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
               technique=T[p], level="exploration", level_note=N, evidence_file="evidence/%s.json" % p) for p in sorted(CONF)]
json.dump(dict(version=1, setup_cmd="python3 check.py --prebuild", checks=checks, not_applicable=[],
               notes="No hooks in /repo: all instrumentation is plugged in through goannoy's own interfaces or by the toolchain."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
