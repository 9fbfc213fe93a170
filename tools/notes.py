"""Level notes of the manifest, and reasons for what is not claimed."""
RT = ("Seeded search: no violation in the executions explored (counts in the evidence). Runs the real runtime packages and the real "
      "instrumentation of the workload against a reference model; trusts the simulated goroutine descriptors and scheduler of rtsim.")
NOTES = {i: RT for i in ["R01", "R02", "R03", "R04", "R05", "R06", "R07", "R09", "R10", "R11", "R12", "R14"]}
NOTES["R13"] = ("Seeded search with the Go race detector's happens-before analysis on a schedule the simulator decides (its own hand-offs are "
                "invisible to the detector), plus deadlock detection by the kernel. Trusts the detector and the simulated goroutine descriptors.")
IO = ("Seeded search: no violation in the executions explored (counts in the evidence). Runs the real code (rewritten to the simulated operating system) "
      "against a model of what the operation must leave behind; trusts the simulated operating system of iosim.")
NOTES.update({i: IO for i in ["S01", "S02", "S04", "S05", "S06", "S07", "S08", "S09", "S10", "S11", "S13", "S14", "S15"]})
NA = {}
NOTES["R08"] = ("Seeded search over generated programs and schedules: each program runs as written and instrumented, and every event, result, panic and final "
                "variable has to be the same; no difference in the executions explored (counts in the evidence). Runs the real instrumentation and the real "
                "runtime packages; trusts the generator (programs are deterministic under any schedule) and the simulated scheduler.")
