"""Regenerates MANIFEST.json from the list of claimed properties."""
import json
import os

T = "deterministic simulation with fault injection: seeded search over "
CLAIMED = {
 "C01": ("batch histories (pair sequences, ROIs, in-place file rewrites); oracle: each pair alone in a fresh process plus a direct model",
         "Sampled, not exhaustive: every explored batch history of the real code agreed row by row with the per-pair oracle."),
 "C02": ("faults and interrupts inside histories of calculations; oracle: fault-free rows, one calculation only",
         "Sampled fault positions (every kind, any line, allocation or file operation of the calculation)."),
 "C03": ("storage faults at every I/O operation and byte of a load; oracle: the stored voxels",
         "Sampled formats, shapes and fault positions; third-party decoders run for real."),
 "C04": ("thread schedules at line and bytecode granularity; oracle: each call alone in a fresh process",
         "Real threads serialised by the simulator; preemption only at library lines/bytecodes, so races inside C code that releases the GIL are not explored."),
 "C05": ("call histories with failures, interrupts and in-place rewrites; oracle: the call in a fresh process",
         "Sampled histories of up to 14 calls."),
 "C06": ("failures and interrupts inside score calls over histories of one object; oracle: object state before/after and the history without the failed calls",
         "Sampled failure points over all metrics."),
 "C07": ("calls with faults while inputs are watched at every library line and kept in write-protected memory",
         "Sampled calls; containers compared line by line, array memory additionally write-protected by the MMU."),
 "C08": ("failing allocations (numpy and native) at sampled and sticky positions; oracle: correct result or exception, process alive, retry correct",
         "Allocations of image and work buffers (numpy data memory, native module malloc); interpreter-internal allocations are not failed."),
 "C09": ("memory contents, placements, red zones and guard pages; oracle: result in a fresh process with untouched memory",
         "Detects reads that influence a result and any write or read crossing a buffer end that hits a zone or guard page."),
 "C10": ("long repeated histories with faults; resource counters as invariants",
         "Growth of descriptors, figures and live buffers measured over repeated windows."),
 "C11": ("exports with failures at any I/O operation or byte and simulated clock; oracle: read-back equals stored results",
         "Sampled failure bytes; the clock is simulated."),
 "C12": ("display behaviours, open figures, earlier and failing exports; oracle: pixels of a reference rendering",
         "Pictures are compared after decoding with a reference drawing made in a fresh process and with the image data itself."),
 "C13": ("directory enumeration orders; oracle: output under sorted order",
         "Sampled permutations of readdir results."),
 "C14": ("crashes, I/O errors and full disks at any system call or byte of the tool followed by reruns; oracle: undisturbed run",
         "Process crash model (completed system calls survive); power loss with lost page cache is not modelled."),
 "C15": ("I/O errors, short operations and full disks at any byte of the volume tools; oracle: numpy model of the operation",
         "Sampled sizes and failure positions."),
 "C16": ("calls with failures and interrupts under varied ambient settings; oracle: ambient state snapshot",
         "A fixed list of process-wide settings is compared."),
 "C17": ("interleavings of user events over several open selectors; oracle: reference model of the widgets",
         "ipywidgets run for real without a browser; events are delivered by setting widget values and clicking buttons."),
}
NA = {
 "C18": "A pure function of one input: no schedule, time, I/O, history or fault for it to depend on, so simulation adds nothing over input sampling.",
 "C19": "A pure function of one input (arithmetic and slicing); nothing for a scheduler or fault injector to decide.",
 "C20": "A pure function of stored numbers; nothing for a scheduler or fault injector to decide.",
 "C21": "The native engine (RbQ / pybind module) is not in the repository and cannot be built or run here, so neither the real component nor a faithful stub exists to simulate.",
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = [c for c in CLAIMED if os.path.exists(f"{here}/sim/props/{c.lower()}.py")]
man = {
 "version": 1,
 "setup_cmd": "/opt/venv/bin/python sim/build.py",
 "checks": [{"property": c, "quick_cmd": f"bash check.sh {c}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {c}",
             "evidence_file": f"evidence/{c}.json", "technique": T + CLAIMED[c][0], "level": "exploration",
             "level_note": CLAIMED[c][1]} for c in have],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()] +
                   [{"property": c, "reason": "check under construction"} for c in CLAIMED if c not in have],
 "notes": "No hooks in /repo: the seams are the numpy allocation handler, an LD_PRELOAD libc shim, sys.monitoring, threading locks, plt.show and the widget layer. See DESIGN.md.",
}
with open(f"{here}/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
