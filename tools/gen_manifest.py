#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "online monitor: lock-step overlay-map model of generated transaction programs"
T = {
    "C01": SIM,
    "C02": SIM + " (read-heavy)",
    "C03": SIM + " (siblings and nesting)",
    "C04": "fault injection at every failure point under a lock-step model, deadlock detector",
    "C05": SIM + " with a phase automaton per save",
    "C06": SIM + " with a phase automaton per delete",
    "C07": "online monitor of trigger runs against registration order",
    "C08": "online monitor of one cell per operation target",
    "C09": "online monitor of one register per resource type",
    "C10": "online monitor: sorted-map model of graph histories",
    "C11": "online monitor of handles and walks over recording sources",
    "C12": "offline history checker of concurrent lazy loads with forced overlaps",
    "C13": "monitor of loads against the generated file tree",
    "C14": "monitor of listings against the generated file tree",
    "C15": "monitor of command sessions and of the real binary against a map model",
    "C16": "online monitor: brute-force list of intervals",
    "C17": "monitor of comparisons against component lists",
    "C18": "offline strict-serializability checker over recorded threaded histories",
    "C19": "live-instance conservation monitor",
    "C20": "file-system snapshot monitor around the real binary",
    "C22": "per-call automaton over instrumented accessors, threads and faults",
    "C23": "Miri, AddressSanitizer with LeakSanitizer, ThreadSanitizer over the library workloads",
    "C24": "bracketed recording repository, and system-call traces of the files opened",
    "C25": "fault injection around the real binary (permissions, links, descriptors, directories), exit-status and output monitor",
    "C26": "online monitor: one model per schema under nested cross-schema transactions",
    "C27": "online monitor: model of graph, resources and triggers in lock step with generated building steps",
    "C28": "monitor of the real binary's lists and deletions against the directory and extension that count",
}
NOTE = {
    "C04": "every failure point of the last operation of each generated program is tried as error and as panic; says nothing of programs not generated",
    "C12": "real threads with forced overlaps of loads; interleavings inside std's cells are those that occurred (more under Miri in C23)",
    "C18": "interleavings that occurred under injected delays; the history checker itself is exact",
    "C25": "the surroundings generated; standard error is assumed to accept what is written to it",
    "C20": "persistence is a known finding (known_findings.txt); everything else on disk is compared exactly",
    "C23": "the executions made, on the schedules tried; trusts Miri and the sanitizers",
}
DEF = "holds on the executions observed: random and hostile workloads of the real code, each step compared with an independent model; exploration, no proof"

m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "hooks": {
        "guard": "cargo feature `fixtures` of plugins/interval (already in its manifest): a constructor for dates, which otherwise cannot be made outside the crate",
        "enable": "check.py stages the crate's sources with the feature on (harness/ivl)",
        "source_commits": ["5fe62d1"],
    },
    "checks": [
        {
            "property": p,
            "quick_cmd": f"python3 check.py {p} --tier quick",
            "thorough_cmd": f"python3 check.py {p} --tier thorough",
            "technique": "runtime monitoring: " + t,
            "level": "fault_enumeration" if p == "C04" else "exploration",
            "level_note": NOTE.get(p, DEF),
        }
        for p, t in sorted(T.items())
    ],
    "not_applicable": [
        {
            "property": "C21",
            "reason": "the plugin that would maintain the index does not compile against the library (plotline::property::Extractor no longer exists) and is not part of the workspace, so there is no execution to monitor",
        }
    ],
    "notes": "Verdicts are three-valued: exit 2 means no verdict (build failure, too few events, out of memory). Replay a violation with `python3 check.py --replay <path>`.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
