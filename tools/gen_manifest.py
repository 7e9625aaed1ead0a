#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: seeded search over "
N = {
"C01": ("fault positions x system calls of each file operation (simulated file system)", "Samples operations, images and faults; every run compares with a fault-free run of the same code and checks repetition once faults stop. Trusts the in-memory file system as a model of POSIX files."),
"C02": ("short reads/writes and EINTR patterns over each file operation (simulated file system)", "Samples disturbance patterns; the oracle is the undisturbed run of the same operation."),
"C03": ("crash points, torn writes, full disks and failing calls of each mutating operation (simulated file system)", "Samples crash points and inputs; every byte left must be the original's or the result's. Assumes completed calls survive a process crash."),
"C04": ("read operations on writable, read-only, failing and damaged storage (simulated file system)", "Observes every open mode, mutating call, path and descriptor of the simulated system."),
"C05": ("histories of operations, restarts and benign I/O disturbances against a reference model of metadata", "Samples histories; results are decoded both by the library and by an independent decoder."),
"C06": ("histories of writes and clears against independent container parsers", "Samples histories over generated container layouts; compares all non-EXIF parts and references byte for byte."),
"C07": ("histories of writes and clears against independent strict container parsers", "Samples histories over generated container layouts; any deviation from the container's standard counts."),
"C08": ("histories around clearing, from images with zero to several EXIF carriers, against independent parsers", "Samples histories; idempotence and write-then-clear are compared byte for byte."),
"C09": ("histories executed in lockstep through the file and the memory interface", "Differential: outcome, metadata and bytes of both interfaces after each step."),
"C10": ("storage damage, concurrent modification by others and disturbances, with time, call and memory budgets", "Samples damage; panics, aborts, stack overflow (2 MiB stacks), hangs and allocations above the bound count."),
"C11": ("thread interleavings at every simulated system call, with faults in some callers and preceding failures", "Samples schedules with a seeded scheduler; the oracle is each caller's solo run. Switches only at system calls and waits."),
"C12": ("histories of repeated writes of growing and shrinking metadata against a reference model", "Samples histories; payload count, byte-identical rewrites and dependence on the last write only."),
"C13": ("read-edit-write-restart histories on metadata laid out as other producers do, against a reference model", "Samples metadata layouts; the independent decoder compares before and after."),
"C15": ("histories over files whose names and contents disagree, with failing calls and disturbances", "Samples names, contents and histories; the oracle is a separate table of extensions and signatures and byte comparison of refused files."),
"C16": ("histories on several metadata objects, with disturbed and failing file operations in between, against a reference model", "Samples histories; every object is asked for everything after each step."),
"C17": ("histories whose metadata is encoded for each container and parsed by independent decoders", "Samples histories; the assembled images are also read back by the library."),
}
NA = [
 {"property": "C14", "reason": "Pure function of its input: no schedule, clock, I/O, fault or history for a simulator to control."},
]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [
    {"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough", "evidence_file": f"evidence/{k}.json",
     "technique": T + t, "level": "exploration", "level_note": n} for k, (t, n) in N.items()],
 "not_applicable": NA,
 "notes": "No hooks in /repo: the simulator takes the place of libc's file, clock, random and futex entry points at link time. Replay: ./replay.sh replays/FILE.json."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
