#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MODEL = "runtime monitoring: reference-model oracle over generated call histories, AddressSanitizer"
T = {
    "C01": "runtime monitoring: controlled interleaving of the instrumented code with a FIFO stream checker; real-thread stress",
    "C03": "happens-before race detection on controlled interleavings of the instrumented code; ThreadSanitizer on real threads",
    "X01": "AddressSanitizer and UndefinedBehaviorSanitizer over every workload, two compilers, several levels",
    "X02": "MemorySanitizer plus comparison of observation digests over memory fill patterns",
    "X03": "interleaved and multi-threaded workloads compared with solo runs; ThreadSanitizer",
    "X04": "comparison of observation digests of the same workloads across compilers, levels and conventions",
    "X05": "runtime monitoring: interposed allocator and environment services, every call outside the documented ones trapped",
    "X06": "runtime monitoring: reference-model oracles and UndefinedBehaviorSanitizer traps in 32-bit programs",
    "X07": "runtime monitoring: function entry and exit hooks, painted stack and basic-block counts per call",
    "X08": "runtime monitoring: write-protected memory under every query and input, faults trapped; answers compared",
    "X09": "runtime monitoring: differential twins, one with refused calls and injected failures added",
    "W01": "runtime monitoring: simulated block device with power cuts, last-committed-value oracle",
    "W02": "runtime monitoring: per-block program counters of a simulated device",
    "W03": "runtime monitoring: fault injection in a simulated block device, last-committed-value oracle",
    "L02": "runtime monitoring: fault injection in the storage callbacks, reference-model oracle",
    "K01": "runtime monitoring: online protocol checker of the event stream",
    "K02": "runtime monitoring: executable timing model compared event by event",
    "N01": "runtime monitoring: online checker of the page life-cycle protocol over the callback log",
    "V01": "runtime monitoring: callback log against a byte-exact model of the watched memory",
    "V02": "runtime monitoring: callback log against a timed model of the watched memory",
}
N = {
    "C01": "Sampled schedules of the real compiled code at single-access granularity plus free-running threads; sequentially consistent and stale-load executions of x86-compiled IR, not every schedule.",
    "C03": "Races are judged by happens-before on sampled schedules, independent of the host's memory order.",
    "X01": "Detects what the sanitizers can see on the executions explored; 64-bit host only.",
    "X02": "Reads of never-written memory on the executions explored.",
    "X03": "Two to six objects or four threads at a time, sampled interleavings.",
    "X07": "The limits are 2 KB of stack (12 KB for text conversion) and 1000 basic blocks or 8 KB handled by memcpy and the like; a growth that stays below them for the sizes driven (thousands of elements) is not reported. x86-64 frames of clang -O0 (thorough: also -O2).",
    "X08": "Writes inside the calls driven, on the histories generated; copies the library makes for itself (parameters passed by value) are its own.",
    "X06": "i386 programs on a small C library of the harness; no AddressSanitizer there (guard zones instead), no 16-bit or big-endian target. Where 32-bit programs cannot run, the drivers run as 64-bit ones and the evidence says so.",
    "X05": "About 110 C library and POSIX services are interposed by name; a service outside that list would go unseen.",
    "X04": "Seventeen builds in the quick tier, twenty-nine in the thorough one; x86-64 only.",
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} --tier quick", thorough_cmd=f"python3 run.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique=T.get(i, MODEL), level="exploration",
                       level_note=N.get(i, "Holds on every generated case, each judged in full by an executable model; cases are sampled, so this is evidence, not proof. Trusts the model's reading of the property.")))
json.dump(dict(version=1, setup_cmd="python3 tools/selfcheck.py", checks=checks, not_applicable=[],
               notes="Every check rebuilds the library from /repo's working tree into /verif/build and removes it again. No hooks in /repo are needed."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
