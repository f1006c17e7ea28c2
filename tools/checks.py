"""What each check runs: its simulator binary, budgets, and what its evidence says."""
SAN = ["-std=c++20", "-O1", "-g1", "-w", "-DT86_SIM", "-DLOG_LEVEL=0", "-fsanitize=address", "-fno-omit-frame-pointer", "-fwrapv", "-ftrivial-auto-var-init=pattern"]
# Socket calls end in the simulated kernel (sim/kernel.cpp)
WRAPS = ["-Wl,--wrap=" + f for f in ("socket setsockopt getsockopt bind listen accept accept4 connect send sendto recv recvfrom read write writev readv "
                                     "sendmsg recvmsg close shutdown fcntl poll").split()]
BINARIES = {
    "dbg": dict(repo_dirs=["t86", "t86-parser", "common", "debugger"], sim=["isa.cpp", "gen.cpp", "vm.cpp", "dbg.cpp", "srcinfo.cpp", "scen_cpu.cpp", "scen_dbg.cpp", "scen_raw.cpp", "runner.cpp"],
                flags=SAN, link_flags=["-fsanitize=address"], link=["-lfmt", "-lpthread"]),
    "net": dict(repo_dirs=["common"], sim=["kernel.cpp", "scen_net.cpp", "runner.cpp"], flags=SAN + ["-U_FORTIFY_SOURCE"], link_flags=["-fsanitize=address"],
                link=WRAPS + ["-lfmt"]),
    # the scenario (and with it the link) is instrumented, the run time behind the instrumentation is ours
    "thr": dict(repo_dirs=["common"], sim=["threads.cpp", "scen_thr.cpp", "runner.cpp"], flags=[f for f in SAN if f != "-fsanitize=address"] + ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DSIM_TSAN_HOOKS", "-U_FORTIFY_SOURCE"],
                sim_drop={"threads.cpp": ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], "runner.cpp": ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]},
                link_flags=[], link=["-Wl,--wrap=" + f for f in "memcpy memmove memset memcmp".split()] + ["-lfmt"]),
    "cli": dict(repo_dirs=["t86", "t86-parser", "common", "debugger", "dbg-cli"], inc=["dbg-cli"], sim=["isa.cpp", "gen.cpp", "vm.cpp", "dbg.cpp", "srcinfo.cpp", "threads.cpp", "kernel.cpp", "scen_cli.cpp", "runner.cpp"],
                mains=[("t86-cli/main.cpp", "t86_cli_main")], flags=SAN + ["-U_FORTIFY_SOURCE", "-DSIM_MAXT=64", "-DSIM_WRAP_NEW"], link_flags=["-fsanitize=address"], link=WRAPS + ["-Wl,--wrap=_Znwm", "-lfmt"]),
}
# The line editor: its calls on the terminal end in sim/tty.h, its own data can be set back
BINARIES["cli"]["c_units"] = [("dbg-cli/utility/linenoise.c",
    ["-O1", "-g1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-fwrapv", "-ftrivial-auto-var-init=pattern", "-U_FORTIFY_SOURCE"]
    + ["-D%s=%s_real" % (f, f) for f in "linenoise linenoiseHistoryAdd linenoiseHistorySetMaxLen".split()]
    + ["-D%s=ln_%s" % (f, f) for f in "read write ioctl isatty tcgetattr tcsetattr atexit".split()],
    ["--rename-section", ".data=lndata", "--rename-section", ".bss=lnbss,alloc,load,data,contents", "--set-section-flags", ".bss=alloc,load,data,contents"])]
BINARIES["file"] = dict(repo_dirs=["t86", "t86-parser", "common", "debugger"], sim=["isa.cpp", "gen.cpp", "vm.cpp", "srcinfo.cpp", "scen_file.cpp", "runner.cpp"],
                        mains=[("t86-cli/main.cpp", "t86_cli_main")], flags=SAN + ["-DSIM_WRAP_NEW"], link_flags=["-fsanitize=address"], link=["-Wl,--wrap=_Znwm", "-lfmt", "-lpthread"])
ASSUMPTIONS = [
    "The sequential reference interpreter in sim/isa.cpp states the instruction set as its manual and operand forms define it.",
    "The code is compiled with -O1, AddressSanitizer and pattern-initialised locals; signed arithmetic wraps.",
    "Searching samples schedules and histories by seed; a clean run is evidence, not proof.",
]
RULE = ("A run draws a machine size, a generated terminating program and input, and every latency, stall and branch guess from one seed. "
        "It is non-trivial if the program executes at least 8 instructions; runs are distinct if their event hashes (retirement ticks, drawn latencies and guesses, output) differ.")
MEASURE = "distinct event hashes: tick and count of each retirement, each drawn latency and guess, the output"
REALCPU = ["Cpu", "ReservationStation", "RegisterAllocationTable", "MemoryWritesManager", "RAM", "instructions", "ALU", "assembler (parser)"]
STUBCPU = ["branch guesses, instruction and RAM latencies and pipeline stalls (T86_SIM hooks)", "standard input and output streams"]


def cpu(probes, **k):
    return dict(binary="dbg", quick=30, thorough=600, rule=RULE, measure=MEASURE, time_unit="CPU ticks", real=REALCPU, stub=STUBCPU, probes=probes, **k)


F = ["fault.branch_misguess", "fault.fetch_stall", "fault.issue_stall", "jitter.exec", "jitter.ram_read", "jitter.ram_write"]
CHECKS = {
    "P01": cpu(F), "P02": cpu(F + ["watched", "stop.breakpoint"]), "P03": cpu(F + ["fault.execution_error", "stop.error"]),
    "P04": cpu(F + ["debugger_stops", "stop.SW_BKPT", "stop.HW_BKPT", "stop.SINGLESTEP"]), "P05": cpu(F), "P06": cpu(F + ["fault.stdin_eof", "stop.step", "stop.breakpoint"]),
}
for p in ("P02", "P03", "P06"):
    CHECKS[p]["rule"] = RULE.replace(" It is", " A third (P03: two fifths) of the runs go through the operating system layer and a drawn debug session with stops. It is").replace("at least 8 instructions;", "at least 8 instructions or the session stops at least twice;")
CHECKS["P04"]["rule"] = RULE.replace(" It is", " In a third of the runs a drawn client of the debug server stops the machine all the way through (steps, breakpoints, watchpoints). It is")
for p in ("P02", "P03", "P04", "P06"):
    CHECKS[p]["real"] = REALCPU + ["OS", "Debug (debug server)"] + (["T86Process", "Native"] if p != "P04" else [])
    CHECKS[p]["stub"] = STUBCPU + ["the message link and the two threads (in debug sessions)"]
DRULE = ("A run draws a machine size, a generated terminating program and input, a session of debugger commands at its stops, every latency, stall and branch guess, and the places where "
         "the debugger's and the machine's threads are switched, from one seed. It is non-trivial if the session stops at least twice; runs are distinct if their event hashes "
         "(events reported, their addresses, the ticks each command took, drawn latencies and guesses, output) differ.")
DMEASURE = "distinct event hashes: each event with its address and ticks, each drawn latency and guess, the output"
REALDBG = REALCPU + ["OS", "Debug (debug server)", "T86Process", "Native", "Source and LineMapping (P17, P19)", "expression parser and evaluator, location interpreter, debug information parser (P19)"]
STUBDBG = STUBCPU + ["the two threads (coroutines switched by the simulator)", "the message link (in-memory queues; the real links are P13 and P14)", "the command-line front end (P18)"]


def dbg(probes, **k):
    return dict(binary="dbg", quick=30, thorough=600, rule=k.pop("rule", DRULE), measure=k.pop("measure", DMEASURE), time_unit="instruction issues and latency draws", real=REALDBG, stub=STUBDBG, probes=probes,
                technique="seeded search over debug sessions, timing and thread switches against a sequential reference machine with stops",
                level_note="Seeded sampling of programs, sessions and schedules; real machine, debug server and debugger core, reference model trusted.", **k)


D = ["fault.branch_misguess", "jitter.exec", "jitter.ram_read", "jitter.ram_write", "jitter.vm_preempted", "jitter.debugger_preempted"]
CHECKS.update({
    "P07": dbg(D + ["stop.step"]), "P08": dbg(D + ["stop.breakpoint", "fault.refused_request"]), "P09": dbg(D + ["stop.watchpoint", "fault.refused_request"]),
    "P10": dbg(D + ["cmd.poke text", "cmd.poke memory", "fault.refused_request"]), "P11": dbg(D + ["cmd.step over", "cmd.step out"]),
    "P15": dbg(["fault.malformed_request", "fault.disconnect", "fault.send_error", "fault.receive_error", "pipelined", "stop.SW_BKPT", "stop.HW_BKPT", "stop.CPU_ERROR", "stop.HALT", "stop.SINGLESTEP"],
               rule="A run draws a program, machine size and timing, and a client that sends well-formed, malformed and unknown requests one by one or pipelined and vanishes at a drawn point with or without link errors, "
                    "all from one seed. It is non-trivial if at least 4 requests were answered; runs are distinct if their event hashes (all replies, drawn latencies and guesses, output) differ.",
               measure="distinct event hashes: every reply, each drawn latency and guess, the output"),
    "P12": dbg(D + ["stop.error", "stop.halt"]), "P16": dbg(D + ["fault.restart"]), "P17": dbg(D + ["cmd.source step in", "cmd.source step over", "cmd.line bp"]),
})
CHECKS["P19"] = dbg(D + ["expressions", "assignments", "variables_shown", "expressions_refused", "fault.refused_request", "fault.restart"],
                    rule=DRULE.replace("a session of debugger commands at its stops,", "types, scopes and variables with their locations as debugging information, a session of run-control commands and expressions at its stops,"))
CHECKS["P19"]["technique"] = "seeded search over debug sessions, variable layouts, expressions, timing and thread switches against a reference evaluator over a sequential reference machine"
CHECKS["P13"] = dict(
    binary="net", quick=20, thorough=600, time_unit="system calls and deliveries", real=["TCP::SendRaw, Send, Receive", "TCPServer", "TCPClient"],
    stub=["socket system calls, the kernel's buffers and the network (simulated, linker --wrap)", "the two processes (coroutines)"],
    probes=["fault.eintr", "fault.short_send", "fault.short_recv", "fault.connection_cut", "fault.process_killed", "fault.reset_by_close", "fault.connection_refused", "jitter.preempted", "jitter.split_delivery"],
    rule="A run draws the messages both sides exchange, the size of each transfer, interruptions, the pieces in which bytes travel, and process deaths and broken connections from one seed. "
         "It is non-trivial if at least one message arrived; runs are distinct if their event hashes (every system call with its outcome, every delivery) differ.",
    measure="distinct event hashes: every system call with its result and every delivery",
    technique="seeded search over partial and interrupted transfers, deliveries, process deaths and broken connections, against the sent sequences",
    level_note="Seeded sampling over a simulated kernel and network that follows POSIX stream socket semantics; real link code.")
CHECKS["P14"] = dict(
    binary="thr", quick=20, thorough=600, time_unit="scheduling points (synchronisation calls and memory accesses)", real=["ThreadMessenger", "ThreadMessengerOwner", "ThreadQueue", "std::mutex, std::condition_variable, std::thread (libstdc++ part)"],
    stub=["POSIX threads, mutexes, condition variables, clocks and futexes (simulated)", "the two threads (coroutines)", "debugger and machine (drawn message histories)"],
    probes=["fault.spurious_wakeup", "jitter.preempted", "jitter.preempted_at_access"],
    rule="A run draws a history of messages both ways and every thread switch, at synchronisation calls and at single memory accesses, and spurious wake-ups from one seed. "
         "It is non-trivial if at least one message was received and the threads were switched at least twice; runs are distinct if their event hashes (every switch and where, every send and receive) differ.",
    measure="distinct event hashes: every thread switch with the number of scheduling points before it, every completed send and receive",
    technique="seeded search over thread interleavings at every synchronisation call and memory access, spurious wake-ups; happens-before race detection; received against sent sequences",
    level_note="Seeded sampling of interleavings on sequentially consistent memory; races are found by happens-before order, not by chance; real link code.")
CHECKS["P18"] = dict(
    binary="cli", quick=30, thorough=600, time_unit="instruction issues and latency draws", real=REALDBG + ["Cli (command-line debugger)", "ThreadMessengerOwner and ThreadMessenger", "TCPClient and TCPServer", "t86-cli (the program that runs a machine to attach to)", "std::thread (libstdc++ part)"],
    stub=STUBCPU + ["POSIX threads, mutexes, condition variables and clocks (simulated)", "the terminal (linenoise) and the program file", "socket system calls (simulated network and processes)"],
    probes=["fault.branch_misguess", "fault.spurious_wakeup", "fault.restart", "fault.file_missing", "fault.file_broken", "fault.refused_request", "fault.mistyped_command", "fault.execution_error", "jitter.preempted", "stop.breakpoint", "stop.watchpoint", "stop.halt",
            "attached", "fault.connection_cut", "fault.process_killed", "fault.small_memory", "fault.huge_machine", "fault.out_of_memory", "unstarted_machines", "checked_after_failed_run", "fault.eintr", "fault.short_recv", "fault.short_send", "commands_after_loss"],
    rule="A run draws a program with or without debug information, a session of command lines (mistyped ones, restarts, missing and broken program files, machines that cannot exist or that the host has no memory for, and the end of input included), machines started by t86-cli to attach to, a kill of such a machine or a cut of its connection at a drawn system call, all machine timing, "
         "every thread switch, partial and interrupted transfers and spurious wake-ups from one seed. It is non-trivial if the program stops at least twice; runs are distinct if their event hashes (all text printed, every thread switch, drawn latencies and guesses) differ.",
    measure="distinct event hashes: all printed text, every thread switch, each drawn latency and guess",
    technique="seeded search over whole command-line sessions, timing and thread interleavings against a sequential reference machine with stops",
    level_note="Seeded sampling of programs, sessions and schedules; real command-line debugger, link, debug server and machine; simulated POSIX threads, reference model trusted.")
CHECKS["P20"] = dict(
    binary="file", quick=20, thorough=600, time_unit="bytes delivered by the simulated disk",
    real=["Lexer", "assembler (parser)", "instruction printing", "debug information parser", "Source (taking up debug information, questions about lines, functions, variables, types)", "t86-cli (refusing files; programs that halt at once)"],
    stub=["the disk: a stream buffer that splits reads and fails as libstdc++'s file buffer does", "the writer of the file (compiler, crash, editor)"],
    probes=["fault.short_read", "fault.disk_error", "fault.file_truncated", "fault.block_zeroed", "fault.block_ff", "fault.block_stale", "fault.block_doubled", "fault.byte_changed", "fault.token_edited", "loaded", "refused", "t86-cli", "fault.small_memory", "fault.huge_machine", "cli.bad_option", "cli.fits"],
    rule="A run draws a program file (instructions with every operand form, data, line table, debug information, source, other sections, their order and layout), what happened to it on the disk (nothing; truncated; blocks lost, stale or doubled; bytes changed; tokens edited), where a read fails, how reads are split, and the options t86-cli is given, from one seed. "
         "It is non-trivial if the file has more than 40 bytes and the reference reader settles whether it is well-formed; runs are distinct if their event hashes (the bytes, every read, the outcome) differ.",
    measure="distinct event hashes: the file's bytes, every read, the outcomes",
    technique="seeded search over files, disk damage, read errors and read splits against a reference reader of the file format",
    level_note="Seeded sampling of files and disk faults; real parsers, reference reader trusted (it answers 'unsettled' where neither manual nor tests say).")
CHECKS["P21"] = dict(
    binary="cli", quick=30, thorough=600, time_unit="keys pressed, lines entered, instruction issues and latency draws",
    real=["linenoise (line editor and history)", "Cli (command-line debugger)"] + REALDBG + ["ThreadMessengerOwner and ThreadMessenger", "TCPClient and TCPServer", "t86-cli"],
    stub=STUBCPU + ["the terminal: its system calls, its screen and its user", "standard input as a stream", "POSIX threads, mutexes, condition variables and clocks (simulated)", "the program file", "socket system calls (simulated)"],
    probes=["fault.eintr", "fault.terminal_lost", "fault.input_error", "fault.end_of_input", "fault.short_read", "keys", "recalled", "terminals", "plain_terminals", "pipes", "stop.breakpoint", "commands"],
    rule="A run draws the kind of input (terminal, terminal that cannot edit, pipe), the window's width for each line and whether it is known, a history of up to 160 lines or a whole debug session (P18's), the keys that lead to each line (typing, wrong turns, corrections, recall), interrupted reads, "
         "and how the input ends (keys, the terminal lost in the middle of a line, a read error) from one seed. It is non-trivial if at least 3 lines were asked for; runs are distinct if their event hashes (each line and cursor waited at, all printed text, thread switches, drawn latencies and guesses) differ.",
    measure="distinct event hashes: the line and cursor at each key, all printed text, every thread switch, each drawn latency and guess",
    technique="seeded search over key sequences, terminals, input faults and debug sessions against a reference line editor and a simulated screen",
    level_note="Seeded sampling of key sequences and sessions; real line editor and command-line debugger; the screen follows the control sequences the editor uses, reference editor trusted.")
NOT_APPLICABLE = {}
