"""What each property's check runs."""

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-sanitize=alignment,vptr", "-fno-omit-frame-pointer"]
GUARD = ["-fsanitize-coverage=trace-pc-guard"]
INIT = ["-ftrivial-auto-var-init=pattern"]

WRAP_MEM = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free")]

VARIANTS = {
    # real library under address and undefined-behaviour sanitizers, counted steps
    "session": {
        "cxx": "clang++",
        "lib": ["-O1", "-g1"] + SAN + GUARD + INIT,
        "sim": ["-O1", "-g1", "-DSIM_COUNT_COPIES"] + SAN,
        "link": SAN + ["-Wl,--wrap=__asan_mem" + f for f in ("cpy", "move", "set")],
        "sim_sources": ["core.cc", "worlds_session.cc", "worlds_stream.cc",
                        "worlds_safety.cc", "main_session.cc"],
    },
    # real library, every access and block a scheduling point, on real threads that
    # run one at a time
    "threads": {
        "cxx": "clang++",
        "lib_first": True,
        "lib": ["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + GUARD,
        "sim": ["-O1", "-g1", "-DSIM_NO_GUARD"],
        "link": ["-pthread", "-ldl", "-rdynamic"] + ["-Wl,--wrap=" + f for f in
                 ("snprintf", "sprintf", "strlen", "strcpy", "strncpy", "strcat")],
        "sim_sources": ["core.cc", "simsched.cc", "worlds_threads.cc", "main_threads.cc"],
    },
    # as "session", with the allocation seam
    "alloc": {
        "cxx": "clang++",
        "lib": ["-O1", "-g1"] + SAN + GUARD + INIT,
        "sim": ["-O1", "-g1"] + SAN,
        "link": SAN + WRAP_MEM,
        "sim_sources": ["core.cc", "memseam.cc", "worlds_alloc.cc", "main_alloc.cc"],
    },
    # plain unoptimised library, so that uninitialised memory is really read
    "env": {
        "cxx": "clang++",
        "lib": ["-O0", "-g1"] + GUARD,
        "sim": ["-O1", "-g1"],
        "link": ["-pthread"] + WRAP_MEM + ["-Wl,--wrap=" + f for f in
                 ("time", "clock", "gettimeofday", "rand", "random", "getenv")],
        "sim_sources": ["core.cc", "memseam.cc", "worlds_env.cc", "main_env.cc"],
    },
    # the full build and the small-footprint build of the library in one process
    "builds": {
        "cxx": "clang++",
        "lib": ["-O1", "-g1"] + SAN + GUARD + INIT,
        "sim": ["-O1", "-g1"] + SAN,
        "link": SAN,
        "sim_sources": ["core.cc", "worlds_builds.cc", "main_builds.cc"],
        "small": {"sim_sources": ["builds_min.cc"], "defs": ["-DSMALL_FOOTPRINT",
                  "-Dh264nal=h264nal_min", "-Dsim=sim_min"]},
    },
    # the command-line tool as a process whose system calls the simulator answers
    "cli": {
        "cxx": "clang++",
        "repo_extra": ["tools/h264nal.cc"],
        # -fwrapv: a product too wide for its type must not be widened by the optimiser
        "lib": ["-O1", "-g1", "-fwrapv"] + GUARD + INIT,
        "sim": ["-O1", "-g1", "-DSIM_NO_GUARD"],
        "link": [],
        "sim_sources": ["core.cc", "worlds_cli.cc", "main_cli.cc"],
        "process": {"sources": ["simkernel.cc"], "flags": ["-O1", "-g1"], "link": ["-static"]},
    },
    # the helper scripts in the real interpreter, and the tool they start
    "scripts": {
        "cxx": "clang++",
        "repo_extra": ["tools/h264nal.cc"],
        "lib": ["-O1", "-g1"] + INIT,
        "sim": ["-O1", "-g1", "-DSIM_NO_GUARD"],
        "link": [],
        "sim_sources": ["core.cc", "worlds_scripts.cc", "main_scripts.cc"],
        "process": {"sources": [], "flags": [], "link": ["-static"]},
        "programs": [
            {"name": "child", "sources": ["scrchild.cc"], "flags": ["-O1"], "link": ["-static"]},
            {"name": "shim.so", "sources": ["scrshim.cc"], "flags": ["-O1", "-fPIC"],
             "link": ["-shared"]},
        ],
    },
}

LIB_REAL = ["src/*.cc and include/*.h of /repo, compiled unchanged with the "
            "shipped defines (dump, RTP and error printing on)"]

CHECKS = {
    "C01": {
        "technique": "seeded faulty RTP network against a reference model",
        "note": "Searches seeded network histories; every report is compared with "
                "an independent model of the syntax. Trusts the model and the "
                "sanitizers; evidence, not proof.",
        "level": "exploration",
        "worlds": [{"variant": "session", "world": "rtp", "quick": 36000,
                    "thorough": 600000}],
        "rule": "One seed is one run: 1-3 senders, packetisation, a faulty network "
                "and 1-3 receiving sessions, interleaved. Distinct: different "
                "event-log hash (every report and fault in delivery order).",
        "real": LIB_REAL,
        "stub": ["senders, network, receiver crash/restart (simulated)"],
        "assumptions": ["the reference model (sim/model*.h) states the intended "
                        "reading of the H.264 syntax the library covers"],
    },
    "C02": {
        "technique": "seeded redefinition, damage and redelivery histories against a model store",
        "note": "Searches seeded delivery histories; the whole store is compared with "
                "a model after every delivery. Evidence, not proof.",
        "level": "exploration",
        "worlds": [{"variant": "session", "world": "store", "quick": 27000,
                    "thorough": 500000}],
        "rule": "One seed is one delivery history over 1-2 sessions, rich in "
                "redefinitions; the whole parameter-set store is compared after "
                "every delivery. Distinct: different event-log hash.",
        "real": LIB_REAL,
        "stub": ["senders, transports, receiver crash/restart (simulated)"],
        "assumptions": ["the reference model (sim/model*.h) decides which units "
                        "are acceptable"],
    },
}

def _add(prop, technique, note, worlds, rule, stub, assumptions, real=None):
    CHECKS[prop] = {"technique": technique, "note": note, "level": "exploration",
                    "worlds": worlds, "rule": rule, "real": real or LIB_REAL,
                    "stub": stub, "assumptions": assumptions}


MODEL = ["the reference model (sim/model*.h) states the intended reading of the "
         "H.264 syntax the library covers"]

_add("C03", "the same seeded unit sequence over every simulated carrier",
     "Searches seeded unit sequences and batchings; carriers are compared with each "
     "other and with the model. Evidence, not proof.",
     [{"variant": "session", "world": "carry", "quick": 24000, "thorough": 400000}],
     "One seed is one unit sequence (damaged units included) sent over 2-5 carriers, "
     "batched and padded at random, in fresh sessions. Distinct: different event log.",
     ["start-code, length-prefix and RTP carriers (simulated)"], MODEL)
_add("C04", "seeded storage damage (torn, lost, zeroed, flipped, spliced bytes)",
     "Searches seeded damage patterns; the damaged stream's report is compared with "
     "the undamaged one's and with the model. Evidence, not proof.",
     [{"variant": "session", "world": "damage", "quick": 45000, "thorough": 500000}],
     "One seed is one stored stream and one damage pattern. Distinct: different event log.",
     ["the disk holding the stream (simulated damage)"], MODEL)
_add("C05", "seeded writer crash points (torn tail) on stored streams",
     "Searches cut positions, all of them on short streams, biased to unit edges on "
     "long ones. Evidence, not proof.",
     [{"variant": "session", "world": "cut", "quick": 24000, "thorough": 400000}],
     "One seed is one stream and up to 200 crash points of its writer. Distinct: "
     "different event log.",
     ["the writer and its crash (simulated)"], MODEL)
_add("C06", "seeded hostile histories under sanitizers, with step and heap accounting",
     "Searches entry points, hostile bytes and accumulated session state under "
     "AddressSanitizer and UBSan with bounds on work and memory. Evidence, not proof.",
     [{"variant": "session", "world": "safety", "quick": 72000, "thorough": 600000}],
     "One seed is a history of calls over all public entry points, well-formed, damaged "
     "or hostile. Distinct: different event log.",
     ["senders, transports, storage damage, session restarts (simulated)"],
     ["the sanitizers detect the memory and arithmetic errors they document"])
SCHED_REAL = ["src/*.cc and include/*.h of /repo, compiled unchanged and instrumented "
              "so that every memory access, atomic operation and block is a switch point",
              "real threads, one running at a time"]
_add("C07", "seeded thread schedules inside the library, with race detection",
     "Searches seeded schedules of up to 4 threads at memory-access granularity; reports "
     "are compared with each session alone in a fresh process. Evidence, not proof.",
     [{"variant": "threads", "world": "threads", "quick": 24000, "thorough": 400000}],
     "One seed is 2-4 threads with 1-2 sessions each and up to 16 preemptions. Distinct: "
     "different event log (all reports and the sequence of switches).",
     ["the thread scheduler, blocking primitives and initialisation guards (simulated)"],
     ["sequentially consistent memory; races are found by vector clocks instead"],
     SCHED_REAL)
_add("C08", "seeded thread schedules around counting, reading and resetting",
     "Searches seeded schedules; every read and the count after each phase are checked "
     "against the model's count. Evidence, not proof.",
     [{"variant": "threads", "world": "counter", "quick": 24000, "thorough": 400000}],
     "One seed is 1-3 phases of up to 4 threads parsing, reading the count and resetting "
     "it. Distinct: different event log.",
     ["the thread scheduler, blocking primitives and initialisation guards (simulated)"],
     MODEL + ["sequentially consistent memory; races are found by vector clocks instead"],
     SCHED_REAL)
_add("C12", "seeded orders of parsing, buffer reuse, session death and release",
     "Searches seeded lifetime orders under AddressSanitizer; every kept report is "
     "re-read and compared. Evidence, not proof.",
     [{"variant": "session", "world": "hold", "quick": 24000, "thorough": 400000}],
     "One seed is one order of parse/scribble/free/kill/drop/verify over 1-3 sessions. "
     "Distinct: different event log.",
     ["callers, their buffers and session lifetimes (simulated)"], MODEL)
_add("C13", "seeded allocation failures at every point of every call",
     "Searches failing allocations (one, two, or all from a point on) in seeded "
     "histories; a call that survives must agree with the failure-free run. Evidence, "
     "not proof.",
     [{"variant": "alloc", "world": "alloc", "quick": 36000, "thorough": 400000}],
     "One seed is a history of 3-10 calls with failing allocations in each; some calls "
     "have each of their allocations fail in turn. Distinct: different event log.",
     ["the allocator (simulated failures); process end on terminate (simulated)"],
     ["std::terminate ends the process"])
_add("C14", "seeded disturbance, heal, and comparison with an undisturbed session",
     "Searches disturbance histories; after the heal a disturbed and a fresh session "
     "must agree from the first unit on. Evidence, not proof.",
     [{"variant": "session", "world": "recover", "quick": 30000, "thorough": 500000}],
     "One seed is a disturbed phase, a heal with repeated parameter sets, and a clean "
     "phase of 3-12 units. Distinct: different event log.",
     ["senders, network, receiver crash/restart (simulated)"], MODEL)
_add("C15", "the same seeded history under seeded process environments",
     "Searches histories and environments; all report members, dumps and the store are "
     "compared across environments. Evidence, not proof.",
     [{"variant": "env", "world": "env", "quick": 24000, "thorough": 300000}],
     "One seed is one history run in 3-5 environments, the first in a pristine process. "
     "Distinct: different event log.",
     ["heap contents and placement, stack contents, memory around the input, clock, "
      "random numbers, environment variables, errno, rounding mode (simulated)"],
     ["uninitialised memory is read as it lies in an unoptimised build"])
_add("C16", "seeded stored streams with damage, cut and bad length fields",
     "Searches seeded streams; offsets, lengths, checksums and gaps are recomputed "
     "from the stored bytes. Evidence, not proof.",
     [{"variant": "session", "world": "account", "quick": 30000, "thorough": 500000}],
     "One seed is 1-4 stored buffers in either framing, damaged or cut. Distinct: "
     "different event log.",
     ["the disk holding the stream (simulated damage)"], MODEL)

_add("C19", "the same seeded history at a full-build and a small-footprint node",
     "Searches seeded histories with failing dump and diagnostic streams; every member of "
     "every report and the store are compared between the builds. Evidence, not proof.",
     [{"variant": "builds", "world": "builds", "quick": 30000, "thorough": 400000}],
     "One seed is one delivery history over 1-2 sessions at two nodes, with stream faults, "
     "damage and restarts. Distinct: different event log.",
     ["senders, transports, restarts, the full build's output and diagnostic streams "
      "(simulated, failing)"],
     ["the small-footprint build is src/ without the RTP files and without the dump, RTP "
      "and error-printing defines, as src/CMakeLists.txt builds it"],
     LIB_REAL + ["the same sources a second time as the small-footprint build, namespace "
                 "renamed"])

CLI_REAL = ["tools/h264nal.cc, src/*.cc and include/*.h of /repo, built as the real "
            "program and run as a real process"]
CLI_STUB = ["every system call of the process that reaches outside its memory: files, "
            "pipes, terminal, standard streams, time (simulated kernel)"]
_add("C09", "the real tool on a simulated kernel with seeded input faults",
     "Searches seeded read, seek, size and open faults; each faulty execution is compared "
     "with the fault-free one of the same input. Evidence, not proof.",
     [{"variant": "cli", "world": "cli-in", "quick": 36000, "thorough": 500000}],
     "One seed is one input, one set of options and 2-6 executions under different input "
     "fault plans. Distinct: different event log (every system call and the output).",
     CLI_STUB, ["the simulated system calls behave as on Linux"], CLI_REAL)
_add("C10", "the real tool on a simulated kernel with seeded output faults",
     "Searches seeded open, write and close faults and lost readers; a good exit status "
     "must mean a complete report. Evidence, not proof.",
     [{"variant": "cli", "world": "cli-out", "quick": 36000, "thorough": 500000}],
     "One seed is one input, one set of options and 2-6 executions under different output "
     "fault plans. Distinct: different event log (every system call and the output).",
     CLI_STUB, ["the simulated system calls behave as on Linux",
                "output accepted by the last successful write or close is durable"], CLI_REAL)
_add("C11", "the real tool on a simulated kernel, damaged storage, against a model",
     "Searches seeded damaged streams, options and harmless I/O faults; exit status and "
     "dump are compared with the model. Evidence, not proof.",
     [{"variant": "cli", "world": "cli-status", "quick": 120000, "thorough": 800000}],
     "One seed is one stream, one set of options and harmless I/O faults (chunked reads "
     "and writes, failing diagnostics). Distinct: different event log.",
     CLI_STUB + ["the disk holding the stream (simulated damage)"], MODEL, CLI_REAL)
CHECKS["C08"]["worlds"].append({"variant": "session", "world": "flood", "quick": 6000,
                                "thorough": 100000})
CHECKS["C16"]["worlds"].append({"variant": "cli", "world": "cli-list", "quick": 36000,
                                "thorough": 400000})
CHECKS["C16"]["real"] = LIB_REAL + CLI_REAL
CHECKS["C16"]["stub"] = CHECKS["C16"]["stub"] + CLI_STUB

SCR_REAL = ["tools/h264nal-split.py, h264nal-conformance.py and h264nal-dpb_parse.py of "
            "/repo in the real interpreter, and the real tool they start"]
SCR_STUB = ["the scripts' file operations, waiting and clock, and the way the tool they "
            "start ends (interposed; the files lie in a scratch directory)"]
_add("C17", "the real script and tool with seeded file, tool and crash faults",
     "Searches seeded streams and fault plans; the segments are compared with a model of "
     "the stream and, under faults, with the fault-free run. Evidence, not proof.",
     [{"variant": "scripts", "world": "split", "quick": 3000, "thorough": 60000}],
     "One seed is one stream, run fault-free, with a failing tool and under 1-3 fault "
     "plans, and again after a kill. Distinct: different event log (every file operation "
     "and the files left behind).",
     SCR_STUB, MODEL + ["a file operation that succeeded is durable"], SCR_REAL)
_add("C18", "the real scripts and tool with seeded file, tool, hang and crash faults",
     "Searches seeded sets of files and fault plans; every row is compared with a model of "
     "its file and, under faults, with the fault-free run. Evidence, not proof.",
     [{"variant": "scripts", "world": "summary", "quick": 3000, "thorough": 60000}],
     "One seed is 1-4 files and one script, run fault-free, with failing or hanging tools "
     "and under 1-2 fault plans, and again after a kill. Distinct: different event log.",
     SCR_STUB, MODEL + ["a file operation that succeeded is durable"], SCR_REAL)
_add("C20", "the real script and tool on a simulated encoder's lossy stream, against a model",
     "Searches seeded picture histories with losses; the reference buffer shown for every "
     "picture is compared with a model of the marking process. Evidence, not proof.",
     [{"variant": "scripts", "world": "marking", "quick": 6000, "thorough": 120000}],
     "One seed is one encoder's stream of frames with lost pictures, lost and duplicated "
     "slices, repeated and changed parameter sets, at times under an output fault. "
     "Distinct: different event log.",
     SCR_STUB + ["encoder and lossy receiver (simulated)"],
     MODEL + ["where a loss leaves the buffer undefined (H.264 8.2.5), it is not compared "
              "until a picture empties it"], SCR_REAL)

NOT_APPLICABLE = {
    "N01": "A pure function of a bit string: no schedule, clock, I/O or fault takes "
           "part. (Its consequences inside sessions are covered by C01 and C06.)",
    "N02": "A pure function of one parameter set's fields; nothing for a simulator "
           "to schedule or to fail.",
}
