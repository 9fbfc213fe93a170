import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    if hook is not None: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
RT="runtime/internal/"
NOTEST="Every behavioural test of the runtime lives in runtime/test and needs a patched toolchain; the stable suite only covers name parsing. Even those tests run a handful of fixed programs under whatever schedule the host picks."
add("R01","A mock is visible only to its goroutine and goroutines started later from it",
"A function or variable mock installed by one goroutine changes the outcome of calls made by that goroutine and by goroutines started (directly or transitively) from it while the mock was installed, and of no other goroutine. What a new goroutine inherits is the set of mocks its creator had at the instant of creation: later installs or cancellations in either one are invisible to the other. When a goroutine ends, none of its mocks survive into unrelated goroutines, even if the scheduler reuses its descriptor.",
["schedules","histories"],"all interleavings of goroutine creation, exit, descriptor reuse, mock install/cancel and calls in any number of goroutines",
NOTEST,[RT+"trap/mock.go",RT+"trap/init.go",RT+"trap/stack_data.go",RT+"stack/g.go",RT+"runtime/xgo_trap_template.go",RT+"runtime/g.go","instrument/instrument_runtime/runtim2.go"],
[("per-goroutine mock table","runtime/internal/trap/mock.go pushMockHandler/pushVarMockHandler"),("inheritance at goroutine creation","runtime/internal/trap/init.go inerhitStack"),("clear on exit and creation","runtime/internal/runtime/xgo_trap_template.go __xgo_callback_on_exit_g/__xgo_callback_on_create_g")],
[("StackData.interceptors","mocks, recorders, interceptors of one goroutine","runtime/internal/trap/stack_data.go"),("__xgo_g.gls","goroutine-local map living inside the runtime g","runtime/internal/runtime/xgo_trap_template.go")],["results of instrumented calls in each goroutine"],False)
add("R02","Cancelling a hook removes exactly that hook, in any order",
"Cancelling a mock, recorder or interceptor removes exactly the one it was returned for, whatever the order in which several are cancelled; the most recently installed mock that is still active decides, and when none is left the original behaviour is back. A cancellation in one goroutine never affects copies that other goroutines inherited. Cancelling the same hook twice is reported by a panic and removes nothing else.",
["histories","schedules"],"all install/cancel histories over several targets and goroutines, interleaved with calls",
NOTEST,[RT+"trap/mock.go",RT+"trap/record.go",RT+"trap/interceptor.go",RT+"trap/init.go"],
[("cancel closures","runtime/internal/trap/mock.go pushMockHandler, record.go PushRecordHandler, interceptor.go pushInterceptor"),("copy on inheritance","runtime/internal/trap/init.go clone*")],None,["results of instrumented calls and hook invocations"],False)
add("R03","A hook bound to one instance never affects another instance",
"A mock, recorder or interceptor bound to a method of one particular receiver takes effect exactly on calls whose receiver is that instance, on the installing goroutine and on every goroutine that inherited it; calls of the same method on any other instance behave as if it were not installed. Hooks bound to different instances of one type can be active together, each applying to its own instance.",
["histories","schedules","inputs"],"all mixes of instance-bound and unbound hooks over several instances, pointer and value receivers, and goroutine inheritance",
NOTEST,[RT+"trap/trap.go",RT+"trap/record.go",RT+"trap/mock.go",RT+"trap/init.go",RT+"trap/inspect.go"],
[("receiver match","runtime/internal/trap/trap.go trap (wantRecvPtr/sameReceiver)"),("receiver kept on inheritance","runtime/internal/trap/init.go cloneFuncMocks/cloneFuncRecordMapping"),("receiver discovery","runtime/internal/trap/inspect.go Inspect")],None,["results of method calls per instance"],False)
add("R04","Every observer runs exactly once per call, paired and correctly ordered",
"For each instrumented call, every recorder and interceptor that is active on the calling goroutine when the call starts and applies to it runs its before-step once and its after-step once. Before-steps run in installation order, observers of the specific function ahead of general ones and the goroutine's own ahead of program-wide ones; after-steps run in the reverse of that order, each receiving the data its own before-step returned. After-steps run when the call returns normally and when it panics, see the results the caller will get, and installing or cancelling observers from inside an observer neither skips nor repeats another observer of the same call. Reads of package variables are observed likewise: every applicable observer exactly once, paired with its own data.",
["schedules","histories","fault_sequences"],"all sets of observers (with only before-, only after-, or both steps), call nestings, panics in the callee, and installs/cancels made by observers",
NOTEST,[RT+"trap/trap.go",RT+"trap/var.go",RT+"trap/record.go",RT+"trap/interceptor.go",RT+"trap/build.go","instrument/instrument_func/trap.go"],
[("pre/post collection","runtime/internal/trap/trap.go trap"),("variable observers","runtime/internal/trap/var.go doTrapVar"),("deferred post in instrumented code","instrument/instrument_func/trap.go")],None,["log of observer invocations"],False)
add("R05","Code run by hooks is not observed, and hooking always recovers",
"Instrumented calls made from inside a mock, recorder or interceptor never reach general interceptors and never appear in a trace, while mocks and recorders that name a specific function keep applying there. After the hook finishes, normally or by a panic that is recovered further up, later calls of the goroutine are observed again exactly as before.",
["histories","fault_sequences"],"all nestings of hooks calling instrumented code and all points at which a hook, mock or callee panics",
NOTEST,[RT+"trap/trap.go",RT+"trap/var.go",RT+"runtime/g.go"],
[("re-entrancy depth","runtime/internal/trap/trap.go trap (IncTrappingDepth/DecTrappingDepth), runtime/internal/runtime/g.go")],[("trappingDepth","how many hooks are active on the goroutine","runtime/internal/runtime/g.go")],["log of observer invocations","exported trace"],False)
add("R06","Hooks installed during initialisation are program-wide and permanent",
"A mock, recorder or interceptor installed while package initialisation runs applies to every goroutine for the rest of the program, underneath the goroutine's own hooks; it can be cancelled while initialisation still runs, and an attempt to cancel it later panics and changes nothing. A hook installed after initialisation is never program-wide.",
["histories","schedules"],"all histories of installs, cancels and calls before and after initialisation ends, including goroutines started during initialisation",
NOTEST,[RT+"trap/mock.go",RT+"trap/record.go",RT+"trap/interceptor.go",RT+"trap/stack_data.go",RT+"stack/g.go",RT+"runtime/xgo_trap_template.go"],
[("global holder","runtime/internal/trap/stack_data.go globalInterceptorHolder"),("init phase switch","runtime/internal/runtime/xgo_trap_template.go __xgo_callback_on_init_finished")],None,["results of calls in every goroutine"],False)
add("R07","Mocking a variable never changes the variable",
"While a package variable is mocked, reads by goroutines that see the mock yield the mock's value (or pointer), reads by all other goroutines yield the stored value, and the stored value itself is never altered by installing, using or cancelling the mock. Writes keep going to the real variable.",
["schedules","histories","programs"],"all interleavings of reads, writes, address-taking, mocks and cancels of package variables across goroutines",
NOTEST,[RT+"trap/var.go",RT+"trap/mock.go","instrument/instrument_var/trap_var.go","instrument/instrument_var/var_template.go"],
[("read trap","runtime/internal/trap/var.go trapVar/trapVarPtr"),("source rewriting of reads and address-of","instrument/instrument_var")],None,["values read by each goroutine"],False)
add("R08","An instrumented program without hooks behaves like the original",
"Rewriting a program for hooking does not change what it computes: with no hook installed, and under every goroutine schedule, each function returns the same results, mutates the same state, panics and recovers in the same way as the program that was not rewritten. Hooks that only observe do not change it either, and a mocked package variable changes it exactly as if the variable held the mocked value wherever instrumented code reads it.",
["programs","schedules","inputs"],"all valid Go programs: scopes and shadowing of names, methods and promoted methods, embedded fields, generics, variadics, named and blank results, defers, panics, closures, labels, selects, goroutines, package variables and constants with or without declared types, over packages that import each other",
"The stable tests compare a few rewritten snippets textually; none executes rewritten code against the original.",["instrument/instrument_func/trap.go","instrument/instrument_var/trap_var.go","instrument/instrument_reg/instrument_reg.go","instrument/resolve/traverse.go","instrument/edit/edit.go",RT+"trap/trap.go"],
[("function rewriting","instrument/instrument_func"),("variable rewriting","instrument/instrument_var, instrument/resolve"),("fast path without hooks","runtime/internal/trap/trap.go")],None,["results, final state and panics of the workload"],False)
add("R09","A finished trace is the tree of calls that actually happened",
"When a trace finishes, the exported tree contains exactly the instrumented calls executed during it on the tracing goroutine and on goroutines started from it, restricted to those the filter accepts, each under the call (or goroutine start) that made it and in execution order, with its own arguments, results, error and panic status. Entries of finished calls have an end no earlier than their begin, and lie within the call that made them.",
["schedules","histories","fault_sequences"],"all call trees with nested goroutines, panics, recovered panics, mocks that replace bodies or panic, filters, and clock behaviour",
NOTEST,[RT+"trap/trap.go",RT+"trap/var.go",RT+"stack/stack.go",RT+"stack/export.go",RT+"trap/init.go"],
[("push and finish of entries","runtime/internal/stack/stack.go PushNew/Finish"),("goroutine children","runtime/internal/trap/init.go inerhitStack, runtime/internal/stack/stack.go AppendGoChild"),("export","runtime/internal/stack/export.go Export")],[("Stack.Top","the innermost running call","runtime/internal/stack/stack.go")],["exported trace"],False)
add("R10","A trace exported while goroutines still run is a consistent snapshot",
"Exporting a trace while goroutines it started are still running yields, at every instant, a well-formed tree holding a prefix of each goroutine's calls: every entry is either complete with its results or marked running, no entry is torn, duplicated or attached to the wrong parent, and the export neither blocks nor disturbs the running goroutines.",
["schedules"],"all interleavings of the export with running, starting and exiting goroutines",
NOTEST,[RT+"stack/export.go",RT+"stack/stack.go",RT+"trap/trap.go"],
[("snapshot under the stack mutex","runtime/internal/stack/stack.go Snapshot/cloneEntries"),("running marker","runtime/internal/stack/export.go ExportStackEntry")],None,["exported trace"],False)
add("R11","Each tracing session delivers its result once and leaves no residue",
"Each outermost tracing session invokes its finish callback exactly once and writes its output file exactly once with that session's complete data, whether the traced function returns, fails or panics, and whether or not earlier sessions or hooks existed on the goroutine. Afterwards tracing is off and the goroutine's own mocks, recorders and interceptors are as they were; a failure to write the file never changes the traced program's outcome.",
["histories","fault_sequences","schedules"],"all sequences of tracing sessions with every combination of options, installed hooks, panics, and file-system faults (missing directory, full disk, permission)",
NOTEST,[RT+"trap/trap.go",RT+"stack/g.go","runtime/trace/trace.go"],
[("session start and end","runtime/internal/trap/trap.go trap (isStartTracing)"),("stack attach/detach","runtime/internal/stack/g.go")],[("hasStartedTracing","a session is active on the goroutine","runtime/internal/trap/stack_data.go")],["finish callbacks, files, later calls"],False)
add("R12","Goroutine-local storage is private, and inherited by copy at creation",
"A value stored under a goroutine-local key is seen only by the goroutine that stored it; a key declared inheritable additionally gives each new goroutine the value its creator had at creation, after which the two evolve independently, and a non-inheritable key starts empty. Values never leak from an ended goroutine to a later one, and declaring keys concurrently with goroutine creation is safe.",
["schedules","histories"],"all interleavings of set/get/declare/create/exit over any number of goroutines and keys",
NOTEST,["runtime/tls/tls.go","runtime/tls/hook.go",RT+"runtime/g.go",RT+"runtime/xgo_trap_template.go"],
[("per-goroutine map","runtime/internal/runtime/g.go"),("inherit on creation","runtime/tls/hook.go")],[("keys","declared keys","runtime/tls/tls.go")],["values returned by Get in each goroutine"],False)
add("R13","The runtime's own bookkeeping is race-free and never deadlocks",
"Under every schedule in which the user program itself is free of data races, hooking, tracing, exporting and goroutine inheritance perform no unsynchronised conflicting memory accesses, and no call of the user program is ever blocked for good by them.",
["schedules"],"all interleavings of hooked calls, goroutine starts and exits, exports, and finish callbacks",
NOTEST+" The race detector only judges the schedules that happen to occur.",[RT+"stack/stack.go",RT+"stack/export.go",RT+"trap/trap.go",RT+"trap/init.go","runtime/tls/tls.go",RT+"runtime/xgo_trap_template.go"],
[("stack mutex","runtime/internal/stack/stack.go"),("release/acquire on descriptor reuse","runtime/internal/runtime/xgo_trap_template.go"),("cached JSON of a finished trace","runtime/internal/trap/trap.go StackDataExportImpl")],None,["race reports, stuck tasks"],False)
add("R14","A hook that replaces a call decides its outcome; otherwise the body runs once",
"When a mock or a before-step that declares the call handled applies, the original body does not run and the caller receives exactly the results (or, for functions ending in an error, the error) that the hook produced; otherwise the body runs exactly once with the arguments as the hooks left them, and the caller receives its results. This holds for functions, methods, variadics and generic functions alike.",
["inputs","histories","schedules"],"all call shapes of the workload, with every combination of mock kinds and hook outcomes (handled, error, modify arguments or results)",
NOTEST,[RT+"trap/trap.go",RT+"trap/build.go",RT+"trap/var.go",RT+"trap/object.go","instrument/instrument_func/trap.go"],
[("dispatch","runtime/internal/trap/trap.go"),("argument and result marshalling","runtime/internal/trap/build.go, object.go")],None,["results seen by callers, executions of bodies"],False)
# tools
add("S01","Directory copies are complete or report an error",
"A directory copy that reports success has reproduced every selected file, directory and symbolic link of the source with identical content and touched nothing that the options exclude, however many workers it uses; if any read, write, create or close failed, the copy reports an error, and it always terminates.",
["schedules","fault_sequences","inputs"],"all directory trees and options, worker counts, worker schedules, and I/O faults (open/read/write/close errors, short writes, full disk)",
"The two existing tests copy one small tree of links with no faults.",["support/filecopy/copy.go"],
[("worker pool and error channel","support/filecopy/copy.go copyReplaceDir"),("single file copy","support/filecopy/copy.go copyFile")],None,["returned error, target tree"],False)
add("S02","Toolchain preparation survives a crash at any point",
"However an earlier preparation of the instrumented toolchain ended (completed, failed, or killed at any file operation), the next run that reports success leaves a toolchain directory identical to one prepared from scratch for the current version, an undisturbed run does succeed, and preparing an already prepared one again changes nothing. The user's own Go installation is never modified.",
["crash_points","fault_sequences","histories"],"all crash points and I/O errors in the sequence of file operations of a preparation, followed by re-runs, version changes and resets",
"No stable test runs the preparation sequence at all.",["cmd/xgo/main.go","cmd/xgo/patch.go","cmd/xgo/patch_runtime.go","instrument/instrument_runtime/instrument.go","instrument/instrument_go/go_cmd.go","instrument/instrument_compiler","instrument/patch/apply.go","support/filecopy/copy.go"],
[("full-sync record and revision file","cmd/xgo/patch.go syncGoroot, cmd/xgo/main.go"),("idempotent patching with markers","instrument/patch")],[("revision file","which version of the tool prepared the directory","cmd/xgo/main.go")],["bytes of the prepared tree"],False)
add("S04","An installed Go SDK directory is always complete",
"Whatever fails or crashes while an SDK is downloaded and unpacked, the destination directory either does not exist or holds the complete SDK, success is reported only in the latter case, and a later attempt can succeed. Concurrent installs of the same version do not corrupt one another.",
["crash_points","fault_sequences","schedules"],"all crash points, download and extraction faults (truncated, corrupted, error, full disk) and interleavings of several installers",
"Existing tests use one stub per outcome, sequentially and without crashes or partial data.",["support/downloadgo/download.go","support/downloadgo/archive.go"],
[("extract to temporary directory then rename","support/downloadgo/download.go Download")],None,["destination tree, returned error"],False)
add("S05","A cached source checkout is only reused when it is complete",
"A cached Go source checkout that is handed out is fully extracted, built and committed; if an earlier attempt failed or was killed at any point, the next attempt rebuilds it and succeeds, and an unfinished one is never accepted.",
["crash_points","fault_sequences"],"all crash points between file operations and external commands, and failures of any of them",
"Tests check the validity predicate on a few hand-made repositories; none interrupts the preparation.",["support/gitgoroot/gitgoroot.go"],
[("incomplete marker","support/gitgoroot/gitgoroot.go EnsureGitGoroot"),("validity check","support/gitgoroot/gitgoroot.go IsGitGorootValid")],None,["returned path, tree at that path"],False)
add("S06","Downloading and unpacking report every failure and stay inside the target",
"A download or archive extraction that reports success has written exactly the bytes and entries that were served, and never writes outside the directory it was given; any transfer error, bad status, truncated or corrupt data, or write or close failure is reported as an error.",
["fault_sequences","inputs"],"all archives (including hostile entry names) and all network and disk faults during transfer and extraction",
"Existing tests cover three hostile zip names and no I/O or network faults.",["support/httputil/download.go","support/downloadgo/archive.go","cmd/xgo/upgrade/extract.go","cmd/xgo/upgrade/upgrade.go"],
[("streaming to file","support/httputil"),("tar and zip extraction","support/downloadgo, cmd/xgo/upgrade/extract.go")],None,["returned error, files written"],False)
add("S07","Session events are delivered exactly once and in order",
"Every event sent to a session is returned by exactly one poll, each sender's events keep their order, a poll with events available returns without waiting for its time limit, and a poll without events returns empty within a bounded time. Sessions never see each other's events, identifiers are unique, and a destroyed session can no longer be found.",
["schedules","histories"],"all interleavings of any number of senders, pollers and session creations/destructions, with bursts beyond the buffer, under simulated time",
"No test covers the session manager.",["support/session/session.go"],
[("event channel and poll loop","support/session/session.go poll"),("session table","support/session/session.go sessionManager")],None,["events returned by polls"],False)
add("S08","Serving picks a free port and announces only a server that is up",
"Starting a server with automatic port selection ends up on the first port from the requested one that can be bound, skipping busy ports even if they become busy in between; without automatic selection a busy port is an error. The announcement callback runs at most once, only while the server it announces is running, and with the port actually being served.",
["schedules","fault_sequences"],"all occupancy patterns of ports, binds that fail late, servers that stop early, and timings of the announcement",
"No test exercises the serving loop.",["support/netutil/netutil.go"],
[("port loop and announcement timer","support/netutil/netutil.go ServePort/watchSignalWithinTimeout")],None,["served port, announcements"],False)
add("S09","A failing request handler is never reported as success",
"When a JSON request handler returns an error or panics with any non-nil value, the client receives a failure status and an error description, and when it succeeds the client receives the JSON encoding of its result with a JSON content type, whichever requests run concurrently.",
["schedules","fault_sequences","inputs"],"all handler outcomes (values, errors, parameter errors, panics of any type, unencodable results) and concurrent requests",
"No test covers the handler wrapper.",["support/netutil/http.go"],
[("handler wrapper","support/netutil/http.go HandleJSON")],None,["status, headers and body of responses"],False)
add("S10","Running an external command reports its failure",
"Running an external command, with or without capturing its output, returns an error whenever the command could not be started, exited with failure or was killed, unless the caller asked to ignore errors; captured output is returned completely, and the directory and environment given are the ones the command sees.",
["fault_sequences","inputs"],"all command outcomes (missing program, non-zero exit, signal, output with or without trailing newlines) for every way of invoking",
"No test covers the command helper.",["support/cmd/cmd.go"],
[("command execution","support/cmd/cmd.go cmdExecEnv")],None,["returned error and output"],False)
add("S11","Updating a user's file never loses its content",
"When a tool-initiated update of an existing file is interrupted by a crash, a full disk or any other I/O error, the file afterwards holds either its complete old content or its complete new content, and failures are reported. Updating with an unchanged result does not rewrite the file.",
["crash_points","fault_sequences"],"all crash points and I/O faults during the update, for existing and missing files",
"No test covers the update helpers.",["support/fileutil/update.go","support/fileutil/patch.go"],
[("read-modify-write","support/fileutil/update.go UpdateFile, patch.go Patch")],None,["file content after the update"],False)
add("S13","A test run started in the explorer reports what really happened",
"The test explorer lists exactly the packages, files, tests and examples of the project that are not excluded. A test run or debug session started in it runs exactly the tests that were selected and reports their results faithfully: the run begins with a start event and, however the test command ends and whatever it prints, finishes with exactly one end event after which nothing follows; each test and subtest ends with the status the test command reported for it, nothing that did not pass is reported as passed when the run failed or could not start, everything printed on standard output and error is delivered in order, and the events of different runs never mix.",
["schedules","fault_sequences","inputs"],"all sets of packages, files, tests and subtests with any names and outcomes, all outputs (long lines, lines that are no events), build failures, crashes and kills of the test command, concurrent runs and polls",
"Tests only cover the parsing of arguments; none runs a session.",["cmd/xgo/test-explorer/run_session.go","cmd/xgo/test-explorer/run_event.go","cmd/xgo/test-explorer/run.go","cmd/xgo/test-explorer/debug.go","cmd/xgo/test-explorer/poll.go","cmd/xgo/test-explorer/main.go","support/pattern","support/goinfo/find.go"],
[("run, output readers, final statuses","cmd/xgo/test-explorer/run_session.go runSession.Start, consumeTestEvent"),("events of tests","cmd/xgo/test-explorer/run_event.go buildEvent"),("selection","cmd/xgo/test-explorer/run.go formatRunNames, getTestPaths"),("listing","cmd/xgo/test-explorer/main.go scanTests; support/pattern")],None,["events returned by polls, arguments of the test command"],False)
add("S14","xgo test, build and run use exactly the user's current project",
"xgo test, build and run build the same files go itself would build from the current project - every declaration and literal, files replaced, added or removed by -overlay, -modfile, vendored, replaced and cached modules, -tags - with the flags (also those of GOFLAGS and XGO_FLAGS), packages, -o, program arguments and standard input the user gave, and pass the command's output and exit status on, whatever earlier runs with other options, edits, interrupted, killed or failed runs (crashes and I/O errors at any point) left behind: a run gives what the first run in a fresh project would give, it fails only where go fails or an I/O error happened, and --strace traces every package named, and --strace-dir and --xgo-race-safe take effect in the runtime that is built. With the runtime in the project (or go 1.25 and later, or --strace) every function of the project's own packages - ordinary, tagged, test and overlay files - can be mocked and traced, unless a rule excludes it or its file is larger than 1 MB, and so can the functions of other modules and of the standard library that a test patches (mock.Patch) or that --trap or --mock-rule-include-as-main-module name; the runtime that is built is linked to the hooks of the standard library. All code keeps the file and line it has in the source, and with -cover the original is what is covered. The user's own files are never changed (.gitignore only gains the line for .xgo/gen) and the instrumentation is written under .xgo/gen and the tool's own directories only; a run that is not interrupted leaves no temporary files there.",
["histories","crash_points","fault_sequences","schedules","inputs"],"all sequences of runs, options, edits of sources, go.mod and overlays, and all crash points and I/O faults in each run, for module, vendored, replaced and missing runtime, go 1.23 to 1.27",
"No existing test that runs here builds a project twice; the integration tests build fixed projects once, undisturbed.",["cmd/xgo/main.go","cmd/xgo/instrument.go","cmd/xgo/trace.go","cmd/xgo/option.go","instrument/load/load.go","instrument/overlay/overlay.go","instrument/overlay/io.go","instrument/instrument_xgo_runtime/link.go"],
[("run of a command","cmd/xgo/main.go handleBuild"),("instrumentation of user code","cmd/xgo/instrument.go instrumentUserCode"),("runtime module, go.mod, blank imports","cmd/xgo/trace.go importRuntimeDepGenOverlay, loadDependency"),("loading","instrument/load/load.go LoadPackages"),("overlay","instrument/overlay MakeGoOverlay, ComposeGoOverlays")],None,["files go is given, output and exit status of the command, user's files"],False)
add("S15","Merged coverage profiles have every count, or the merge fails",
"xgo tool coverage merge (and compact), when it succeeds, leaves a valid profile in which every block of the given profiles that is not excluded occurs exactly once with the sum of its counts, however often a profile is named, whether or not the output is one of the inputs, and over any sequence of merges; otherwise - an input missing or unreadable, a full disk, a write that fails or is lost - it reports failure. Profiles that are not the output are never changed.",
["inputs","histories","fault_sequences"],"all sequences of profiles and merges and all I/O faults during a merge",
"Existing tests merge two small profiles in memory.",["cmd/xgo/coverage/main.go","support/coverage/merge.go","support/coverage/parse.go","support/coverage/format.go"],
[("merge and write","cmd/xgo/coverage/main.go mergeCover"),("sum of counts","support/coverage/merge.go Merge")],None,["exit status and the resulting profile"],False)
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
print(len(P))
