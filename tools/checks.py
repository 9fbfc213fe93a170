"""Which simulators and profiles decide which property."""

RT_REAL = ["runtime/internal/trap, stack, runtime and flags", "runtime/mock, trap, trace, tls, functab, core",
           "the function and variable instrumentation of cmd/xgo (rewrites the workload)",
           "the trap template injected in the Go runtime"]
RT_STUB = ["goroutine descriptor, creation and exit of the Go runtime (simulated, so that descriptors are reused and creation can be interleaved)",
           "scheduler, sync.Mutex and clock (simulation kernel)", "file system of trace files (in memory)"]
NONTRIV = ("a case is one simulated execution: a seeded program of nested calls, hooks, spawns, panics and traces under a seeded schedule; "
           "it is non-trivial if at least two goroutines besides the main one ran, more than three context switches happened and functions were called; "
           "distinct by the hash of the interleaving combined with the program's seed")


def rt(*profiles, secs=30, faults, extra=None):
    st = []
    for p in profiles:
        share = 1
        if isinstance(p, tuple):
            p, share = p
        iso = p in ("R06", "R12") or p.endswith("I")
        st.append({"Variant": "rtsim-race" if p.startswith("R13") else "rtsim", "Profile": p, "Iso": iso, "Share": share})
    m = {"rule": NONTRIV, "real_components": RT_REAL, "stub_components": RT_STUB, "fault_kinds": faults,
         "interleaving_measure": "hash over (step, task) of every context switch"}
    m.update(extra or {})
    return {"stages": st, "secs": secs, "meta": m}


SCHED = "preemption at every yield point (random, PCT, round robin, starvation, serial policies)"
PANIC = "panics from bodies, mocks, before- and after-steps, runtime.Goexit"
REUSE = "reuse of ended goroutines' descriptors"
CLOCK = "clock standing still and jumping"
DISK = "failing and short writes of trace files"

CHECKS = {
    "R01": rt("R01", faults=[SCHED, REUSE, PANIC]),
    "R02": rt("R02", faults=[SCHED, REUSE, PANIC]),
    "R03": rt("R03", faults=[SCHED, REUSE]),
    "R04": rt("R04", faults=[SCHED, PANIC]),
    "R05": rt("R05", faults=[SCHED, PANIC]),
    "R06": rt("R06", faults=[SCHED, PANIC]),
    "R07": rt("R07", faults=[SCHED, REUSE]),
    "R09": rt("R09", faults=[SCHED, PANIC, CLOCK]),
    "R10": rt("R10", faults=[SCHED, PANIC, CLOCK]),
    "R11": rt("R11", faults=[SCHED, PANIC, DISK]),
    "R12": rt("R12", faults=[SCHED, REUSE]),
    "R13": rt(("R13", 2), ("R13I", 1), secs=40, faults=[SCHED, PANIC, REUSE]),
    "R14": rt("R14", faults=[SCHED, PANIC]),
}

CHECKS["R08"] = {
    "stages": [{"Variant": "rtsim-prog-s1-n80", "Profile": "R08", "Iso": False, "Share": 1}],
    "more": [{"Variant": "rtsim-prog-s%d-n80" % i, "Profile": "R08", "Iso": False, "Share": 1} for i in range(2, 9)],
    "secs": 40,
    "meta": {
        "rule": ("a case is one simulated execution of one generated program (as written, as written under the schedule, instrumented under the schedule) with seeded calls, "
                 "parts left out, recorders, traces and mocked variables; it is non-trivial if the program was suitable and the instrumented run took more than 50 steps; "
                 "distinct by the hash of the interleaving combined with the plan's seed"),
        "real_components": RT_REAL, "stub_components": RT_STUB[:2] + ["channels, select, sync.WaitGroup and sync.Mutex of the programs (simulation kernel)"],
        "fault_kinds": [SCHED, "panics (explicit, run time errors, in goroutines' deferred functions)", REUSE, "variables mocked, calls recorded and traced meanwhile"],
        "interleaving_measure": "hash over (step, task) of every context switch"}}

IO_TRIV = ("a case is one simulated execution: a seeded plan of operations, file trees, archives, peers and faults under a seeded schedule of the tasks; "
           "it is non-trivial if the operation under test did something its oracle judges (a fault was met, a tree was compared, a request was answered ...); "
           "distinct by the hash of the interleaving combined with the plan's seed")
IO_STUB = ["operating system: files with page cache and durable state, processes, pipes, signals (simulated)",
           "goroutine scheduler, channels, sync, timers and clock (simulation kernel)"]


def io(prof, real, stub, faults, secs=30, measure=None):
    return {"stages": [{"Variant": "iosim", "Profile": prof, "Iso": False, "Share": 1}], "secs": secs,
            "meta": {"rule": IO_TRIV, "real_components": real, "stub_components": IO_STUB + stub, "fault_kinds": faults,
                     "interleaving_measure": measure or "hash over (step, task) of every context switch"}}


TASKS = "preemption at every operation (random, PCT, round robin, starvation, serial policies)"
ERR = "failing calls (EIO, ENOSPC, EACCES, EMFILE, EROFS)"
CRASH = "process death before and after any operation and inside writes"
SHORT = "short writes; errors that only closing reports"
TIME = "clock jumps; slow and stalled peers"

CHECKS.update({
    "S01": io("S01", ["support/filecopy"], [], [TASKS, ERR, SHORT, "full disk"]),
    "S04": io("S04", ["the Go downloader (script/download-go, support)"], ["curl, tar, rm commands", "web server"], [ERR, CRASH, SHORT, "cut and altered downloads", "failing and killed commands"]),
    "S06": io("S06", ["cmd/xgo/upgrade, script/install/upgrade, support/httputil"], ["web server"], [ERR, CRASH, SHORT, "cut, altered and stalled downloads", "damaged and hostile archives"]),
    "S07": io("S07", ["support/session and the packages it uses"], [], [TASKS, TIME]),
    "S08": io("S08", ["support/netutil"], ["loopback network"], [TASKS, TIME, "ports in use", "servers that end"]),
    "S09": io("S09", ["support/netutil HandleJSON"], ["HTTP connection"], ["panics and errors of handlers", "failing reads and writes of the connection"]),
    "S10": io("S10", ["support/cmd"], ["the commands that are run"], ["failing and killed commands", "failing pipes", ERR]),
    "S11": io("S11", ["support/fileutil update and patch"], [], [ERR, CRASH, SHORT, "full disk"]),
})
CHECKS["S13"] = io("S13", ["cmd/xgo/test-explorer, support/session, support/netutil, support/cmd"], ["go test (a command that prints what go test prints)", "HTTP connection"],
                   [TASKS, TIME, "test command that cannot be started, is killed, fails to build, exits early or panics", "long, cut off and malformed output", "failing calls when starting the command"])
CHECKS["S05"] = io("S05", ["support/gitgoroot, support/cmd"], ["git, curl, tar, make.bash and go commands", "web server"], [ERR, CRASH, SHORT, "failing and killed commands", "cut and altered downloads", "full disk"])
CHECKS["S02"] = io("S02", ["cmd/xgo setup (prepare, sync, reset, revision), instrument/... , support/filecopy, the patches applied to real Go sources"],
                   ["go command and toolchain binaries (fake commands)", "GOROOTs reduced to the files xgo reads or patches"],
                   [ERR, CRASH, SHORT, "failing and killed commands", "full disk"])
CHECKS["S15"] = io("S15", ["cmd/xgo tool coverage merge and compact, support/coverage"], [], [ERR, CRASH, SHORT, "lost writes reported when closing", "full disk", "missing inputs"])
CHECKS["S14"] = io("S14", ["cmd/xgo (options, main, instrument, trace), instrument/..., support/goinfo, support/filecopy, support/cmd, the embedded runtime"],
                   ["go command (list, mod edit, build, test, run on the simulated files: reads what the compiler would read)", "git command", "an instrumented toolchain whose standard library is a small one"],
                   [TASKS, ERR, CRASH, SHORT, "failing and killed go commands", "files of earlier versions or removed between runs"])
