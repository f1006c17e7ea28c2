#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

CPU = ["src/t86/cpu.cpp", "src/t86/cpu/reservation_station.cpp", "src/t86/cpu/register_allocation_table.cpp",
       "src/t86/cpu/memory_writes_manager.cpp", "src/t86/cpu/memory_writes_manager/memory_writes.cpp", "src/t86/ram.cpp",
       "src/t86/instruction.cpp", "src/t86/instruction.h", "src/t86/cpu/alu.cpp", "src/t86/instructions/operand.cpp"]
HOOK = "T86_SIM: branch guess, instruction latency and RAM latency are asked of the simulator"

prop("P01", "Out-of-order execution is equivalent to sequential execution",
 "Running any valid program to its halt leaves the general, float, stack and flag registers, the data memory and the printed output exactly as executing its instructions one at a time in program order, as the instruction set manual defines them, would. This holds for every number of ALUs, reservation-station entries and RAM gates, every instruction and memory latency and every branch guess the machine makes.",
 ["programs", "schedules", "configurations"],
 "all programs of the documented instruction set (all operand forms the assembler accepts), all machine sizes, all latencies and all branch-prediction outcomes",
 "The CLI tests run a few dozen fixed programs on one machine size with fixed latencies and the one built-in predictor; an interleaving of renaming, forwarding, stalls and retirement that they do not reach is never checked.",
 CPU, [("register renaming and per-entry read/write tables", "src/t86/cpu/register_allocation_table.cpp"),
  ("in-order retirement", "src/t86/cpu/reservation_station.cpp: ReservationStation::executeAndRetire"),
  ("operand fetch until available", "src/t86/cpu/reservation_station.cpp: ReservationStation::fetchAndStartExecution"),
  ("instruction semantics", "src/t86/instruction.cpp, src/t86/cpu/alu.cpp")],
 [("rat_", "architectural-to-physical register map", "src/t86/cpu.h"), ("entries_", "instructions in flight, program order", "src/t86/cpu/reservation_station.h")],
 ["registers, float registers, flags and memory after the halt", "program output"], HOOK)

prop("P02", "Wrongly predicted paths leave no trace",
 "When the machine guesses a branch wrongly, nothing on the wrong path ever becomes visible: no register, flag or memory change, no output, no consumed input, no halt, no breakpoint or watchpoint stop, and no error even if the wrong path reads invalid memory, divides by zero, names registers that do not exist or runs off the program. After the branch is resolved, execution goes on at the right place as if the guess had been right.",
 ["programs", "schedules", "fault_sequences"],
 "all programs and all sequences of branch guesses, including targets outside the program, at all latencies",
 "Tests only see mispredictions the built-in always-same predictor makes on their few programs, and none of them puts a faulting, halting or I/O instruction on the wrong path at each pipeline stage.",
 CPU, [("speculation rollback", "src/t86/cpu.cpp: Cpu::unrollSpeculation, Cpu::checkBranchPrediction"),
  ("effects only at retirement", "src/t86/instruction.cpp: retire methods"),
  ("deferred access errors", "src/t86/cpu/reservation_station.cpp: Entry::readMemory, Entry::retire")],
 [("predictions_", "guessed destinations of jumps in flight", "src/t86/cpu.h")],
 ["program output and final state", "stop reasons seen by the debugger"], HOOK)

prop("P03", "Execution errors are precise and never kill the machine",
 "An instruction that cannot be executed (memory access outside the RAM, integer division by zero or with unrepresentable quotient, a register the machine does not have) stops the program with an error. All effects of earlier instructions on memory, output and input are complete and none of that instruction or of later ones are visible there (register contents after an error are documented as undefined), and the virtual machine reports the error to its user or debugger rather than crashing.",
 ["programs", "schedules", "fault_sequences"],
 "all programs, all fault kinds at all instructions, all latencies and branch guesses",
 "One test reads an invalid address; no test divides by zero, writes out of range or names a missing register while other instructions are in flight.",
 CPU + ["src/t86/os.cpp"], [("error delivered at retirement", "src/t86/cpu/reservation_station.cpp: Entry::retire"),
  ("error reported by the run loop", "src/t86/os.cpp: OS::Run")],
 [], ["result of the run, output and memory at the error stop"], HOOK)

prop("P04", "The machine always makes progress",
 "As long as the program has not halted or failed, the machine retires its next instruction within a number of ticks bounded by the latencies of the instructions in flight and of the RAM. No history of mispredictions, stalls, stores, loads, debugger stops or squashed instructions can leak an execution unit, physical register, RAM gate or pending write so that execution stops or slows down for good, and the memory the machine itself takes does not grow with the number of instructions executed.",
 ["programs", "schedules", "histories", "configurations"],
 "all programs, histories of squashed work, latencies and machine sizes down to one ALU, one entry and one gate",
 "Leaks only show after specific squash patterns repeated more often than the resource has copies; fixed programs finish before that.",
 CPU + ["src/t86/utils/stats_logger.cpp"], [("ALU accounting", "src/t86/cpu/reservation_station.cpp: executeAndRetire, clear"),
  ("physical register reuse", "src/t86/cpu.cpp: Cpu::nextFreeRegister"), ("RAM gates", "src/t86/ram.cpp: RAM::tick, RAM::read")],
 [("freeAlus_", "free execution units", "src/t86/cpu/reservation_station.h")], ["ticks between retirements"], HOOK)

prop("P05", "A load sees the latest earlier store to its address",
 "Every memory read, through any addressing form and through push, pop, call and return, yields the value most recently stored to that cell in program order (or the initial data), no matter how many stores to the same or other cells are still in flight, in which order their addresses become known, and whether wrong-path stores to the cell were squashed. Every store reaches its cell exactly once and in program order.",
 ["programs", "schedules", "configurations"],
 "all programs over a small set of aliased cells, all store/load latencies, gate counts and branch guesses",
 "Aliasing windows are a few ticks wide and depend on the latency of each instruction; the tests' programs hit a handful of them.",
 ["src/t86/cpu/memory_writes_manager.cpp", "src/t86/cpu/memory_writes_manager/memory_writes.cpp", "src/t86/ram.cpp", "src/t86/cpu.cpp", "src/t86/instruction.cpp"],
 [("store queue with forwarding", "src/t86/cpu/memory_writes_manager.cpp"), ("loads wait for unknown store addresses", "src/t86/cpu.cpp: Cpu::readMemory"), ("RAM read/write latency", "src/t86/ram.cpp")],
 [("writesMap_", "stores not yet finished, per address", "src/t86/cpu/memory_writes_manager.h")], ["loaded register values, final memory"], HOOK)

prop("P06", "Program input and output happen exactly once and in order",
 "The characters and numbers a program prints appear exactly once each and in program order, and each input instruction consumes exactly the next non-blank character of the standard input and delivers it to its register. Mispredicted input or output instructions, debugger stops at and steps over them, and errors or termination elsewhere never lose, repeat or reorder any of it.",
 ["programs", "schedules", "histories", "fault_sequences"],
 "all programs with input and output, all branch guesses and latencies, all debugger stop patterns, input ending at any point",
 "Tests print from straight-line code; no test has input, or output on a mispredicted path or across debugger stops.",
 ["src/t86/instruction.cpp", "src/t86/instruction.h", "src/t86/cpu/reservation_station.cpp"],
 [("I/O performed at retirement", "src/t86/instruction.cpp: PUTCHAR::retire, PUTNUM::retire, GETCHAR::retire")], [], ["standard output, standard input position, registers"], HOOK)

prop("P07", "A single step executes exactly one instruction",
 "Asking for a single step executes exactly the instruction at the instruction pointer and stops; the state then shown is that of sequential execution right after it, with the instruction pointer at the next instruction to run. This holds for every instruction including jumps, calls, returns, loops and input/output, with or without a breakpoint on it or on its target, and a step never causes a later spurious step stop.",
 ["programs", "schedules", "histories"],
 "all programs, all positions, all interleavings of steps with continues, breakpoints and watchpoints, all latencies and guesses",
 "Tests step through a few straight-line instructions and one jump; the interaction of stepping with other stop reasons and with instructions in flight is not covered.",
 ["src/t86/cpu.cpp", "src/t86/cpu/reservation_station.cpp", "src/t86/debug.cpp", "src/t86/os.cpp", "src/debugger/Native.cpp"],
 [("trap flag honoured at retirement", "src/t86/cpu/reservation_station.cpp: Entry::retire"), ("trap flag cleared at the stop", "src/t86/debug.cpp: Debug::Work"), ("step over a breakpoint", "src/debugger/Native.cpp: Native::StepOverBreakpoint")],
 [("trapFlag_", "stop after next retired instruction", "src/t86/cpu.h")], ["stop event, registers, memory after each step"], HOOK)

prop("P08", "Breakpoints stop exactly there and vanish without trace",
 "With a breakpoint enabled on an address, execution stops every time it is about to execute the instruction there - before executing it, with the instruction pointer at it - and never because of a breakpoint elsewhere, a disabled or a removed one; continuing then executes the original instruction. Setting, disabling, enabling and removing breakpoints in any order leaves the program's code, as shown and as executed, exactly as it was, apart from code the user rewrote meanwhile.",
 ["programs", "histories", "schedules"],
 "all programs and instruction forms, all sequences of breakpoint operations, code writes, continues and steps, all latencies and guesses",
 "Tests set one or two breakpoints on simple instructions; the saved-instruction round trip for each instruction form, breakpoints on consecutive or looping instructions, and set/disable/enable/rewrite histories are not covered.",
 ["src/debugger/Native.cpp", "src/debugger/T86Process.cpp", "src/t86/debug.cpp", "src/t86/instruction.cpp", "src/t86/instructions/operand.cpp", "src/t86-parser/parser.cpp"],
 [("opcode swapped in and out", "src/debugger/Native.cpp: CreateSoftwareBreakpoint, DisableSoftwareBreakpoint"), ("instruction pointer correction", "src/debugger/Native.cpp: WaitForDebugEvent"), ("breakpoint instruction", "src/t86/instruction.cpp: BKPT::retire"), ("instruction text round trip", "src/t86/instruction.cpp: Instruction::toString, src/t86-parser/parser.cpp")],
 [("software_breakpoints", "address to saved instruction and enabled flag", "src/debugger/Native.h")], ["stop events, program text, final program result"], HOOK)

prop("P09", "Watchpoints fire on exactly the writes to their cells",
 "With a watchpoint on a memory cell, execution stops right after each instruction that writes that cell (by store, push or call), reports that cell, and does not stop for any other access, for squashed wrong-path writes, or for cells whose watchpoint was removed. Up to four watchpoints can be active at once, each can be removed and its place reused, and a fifth is refused without disturbing the others.",
 ["programs", "histories", "schedules"],
 "all programs, all sequences of setting and removing watchpoints combined with breakpoints, steps and continues, all latencies and guesses",
 "Tests set one watchpoint and hit it once; reuse after removal, several at once, stack writes and speculation are not covered.",
 ["src/t86/cpu.cpp", "src/debugger/Native.cpp", "src/debugger/Arch.h", "src/t86/debug.cpp"],
 [("write check at retirement", "src/t86/cpu.cpp: Cpu::checkWrite"), ("debug register allocation", "src/debugger/Native.cpp: SetWatchpointWrite, RemoveWatchpoint"), ("cause decoding", "src/debugger/Arch.h: GetResponsibleRegister")],
 [("debug registers", "four addresses and a control word", "src/t86/cpu.h: debug_registers_")], ["stop events"], HOOK)

prop("P10", "Debugger reads are accurate and debugger writes take effect",
 "At every stop other than an execution error, the registers, float registers, memory and code the debugger shows are those of sequential execution up to the stop point, and after the debugger changes a register (including the instruction and stack pointers), float register, memory cell or instruction, both later reads and the continued program see exactly the new value and nothing else changes. Reads and writes that are refused change nothing.",
 ["programs", "histories", "schedules", "inputs"],
 "all programs, all stop points of all kinds, all values and addresses, all sequences of reads and writes, all latencies and guesses",
 "Tests peek and poke one value at one quiet point; stale stores, lingering reads, renamed registers and saved instructions at other points are not covered.",
 ["src/t86/debug.cpp", "src/t86/cpu.cpp", "src/t86/ram.cpp", "src/debugger/T86Process.cpp", "src/debugger/Native.cpp"],
 [("peek/poke commands", "src/t86/debug.cpp: Debug::Work"), ("pipeline emptied before a stop", "src/t86/cpu.cpp: Cpu::unrollSpeculation"), ("wire encoding", "src/debugger/T86Process.cpp")],
 [], ["values returned by the debugger API, continued program behaviour"], HOOK)

prop("P11", "Step over and step out stop at the right place",
 "Stepping over a call runs the whole call (recursive calls included) and stops at the instruction after it in the same activation; stepping over anything else is a single step. Stepping out stops right after the return of the current activation. If a breakpoint, watchpoint, error or halt intervenes, that event is reported at its place instead, and in every case the set of breakpoints and the program code are the same afterwards as before.",
 ["programs", "histories", "schedules"],
 "all call structures whose functions keep the base pointer convention (including recursion), all breakpoint/watchpoint placements, latencies and guesses",
 "Tests step over one simple call and one recursion; combinations with breakpoints on the return address, disabled breakpoints, watchpoints on the stack or errors in the callee are not covered.",
 ["src/debugger/Native.cpp"], [("temporary breakpoint after the call and base pointer comparison", "src/debugger/Native.cpp: PerformStepOver"), ("step until return", "src/debugger/Native.cpp: PerformStepOut")],
 [], ["stop event, instruction pointer, stack pointer, breakpoint table, text"], HOOK)

prop("P12", "Debugging is transparent to the program",
 "A program that is stopped, stepped, inspected and given breakpoints and watchpoints in any pattern, but not modified, prints the same output, consumes the same input and ends in the same way (halt or error), with the same memory and, at a halt, the same registers, as when it runs without a debugger. Every session a debugger can drive therefore ends with the undisturbed result.",
 ["programs", "histories", "schedules"],
 "all programs, all non-modifying debug sessions, all latencies and guesses",
 "Tests compare one output of one scripted session; the property quantifies over every stop pattern.",
 ["src/t86/os.cpp", "src/t86/debug.cpp", "src/t86/cpu.cpp", "src/debugger/Native.cpp"],
 [("stop and resume", "src/t86/os.cpp: OS::Run, src/t86/debug.cpp: Debug::Work")], [], ["output, final memory and registers, end event"], HOOK)

prop("P13", "The TCP link delivers messages whole, once and in order",
 "Whatever is sent over the TCP link arrives at the peer as the same sequence of messages, byte for byte, however the network splits, delays or merges the byte stream and however often system calls are interrupted or transfer only part of the data. If the connection ends or fails, the receiver gets an end-of-stream or an error and never a truncated, merged or made-up message, the sender gets an error rather than looping or crashing, and bytes outside the message are never read or sent.",
 ["schedules", "fault_sequences", "inputs"],
 "all message sequences (any length and byte values), all splits, interruptions, failures and connection ends at any byte",
 "Tests use an in-memory stand-in for the link; the TCP code itself is never run by a test.",
 ["src/common/TCP.h"], [("length-prefixed framing", "src/common/TCP.h: Send, Receive, SendRaw")], [], ["messages delivered by the receiver, bytes handed to the network"], None)

prop("P14", "The in-process link delivers each message once, in order, without races",
 "Messages sent over the in-process link between debugger thread and machine thread are each received exactly once, in order and unaltered, in both directions, under every thread interleaving; a waiting receiver always wakes up when a message arrives. The link never deadlocks while a message is available and its shared state is never accessed by two threads at once.",
 ["schedules", "histories"],
 "all interleavings of the two threads at the granularity of lock, wait, notify and memory accesses, including spurious wake-ups",
 "A real run shows one interleaving; lost wake-ups and races need a preemption between two specific instructions.",
 ["src/common/threads_messenger.h"], [("mutex and condition variable around a queue", "src/common/threads_messenger.h")], [], ["received messages, thread states"], None)

prop("P15", "A debug server session survives any client",
 "The machine answers every well-formed request with exactly one reply, in order, answers requests it does not know or whose arguments are malformed or out of range with an error reply and changes nothing, and stays usable afterwards. When the client terminates the session or disconnects at any point, the machine ends the run promptly without crashing, without executing further than it was told and without waiting forever.",
 ["histories", "fault_sequences", "inputs", "schedules"],
 "all request sequences including malformed ones, disconnection after any message, at any stop of any program",
 "Tests send well-formed requests only and never disconnect.",
 ["src/t86/debug.cpp", "src/t86/os.cpp"], [("command loop", "src/t86/debug.cpp: Debug::Work"), ("stop handling", "src/t86/os.cpp: OS::Run")], [], ["replies, VM liveness, program output"], HOOK)

prop("P16", "Breakpoints and watchpoints survive a restart of the program",
 "When the program is run again in the same debugger session, exactly the breakpoints and watchpoints that existed before - with their enabled or disabled status - are in force in the new run, on the right addresses, and behave there as freshly set ones; later disabling, enabling or removing them restores the code of the new run exactly. Replacing the whole set of breakpoints or watchpoints leaves exactly the new set in force.",
 ["histories", "programs", "schedules"],
 "all histories of breakpoint and watchpoint operations across any number of restarts",
 "One scripted test reruns a program with one breakpoint; disabled ones, watchpoints and several restarts are not covered.",
 ["src/debugger/Native.cpp", "src/dbg-cli/CLI.h"], [("bulk replacement", "src/debugger/Native.cpp: SetAllBreakpoints, SetAllWatchpoints")], [], ["stop events and tables after the restart"], HOOK)

prop("P17", "Source-level stepping and line breakpoints follow the line table",
 "A source-line breakpoint stops exactly before the first instruction the line table gives for that line. A source-level step stops at the next executed instruction that begins a source line (a step over does so without stopping inside called functions), a step out stops after the current function returns, and breakpoints, watchpoints, errors and halt met on the way are reported where they happen.",
 ["programs", "histories", "schedules"],
 "all programs with all line tables, all sequences of source-level operations, all latencies and guesses",
 "Tests use two or three hand-written programs with one table each.",
 ["src/debugger/Source/Source.cpp", "src/debugger/Source/LineMapping.cpp", "src/debugger/Native.cpp"],
 [("line mapping", "src/debugger/Source/LineMapping.cpp"), ("source stepping", "src/debugger/Source/Source.cpp: StepIn, StepOver")], [], ["stop events, instruction pointer, line reported"], HOOK)

prop("P18", "A full debugger session neither hangs nor misreports under any schedule",
 "In the command-line debugger, with the machine on its own thread or, attached to over TCP, in a process of its own (of any register counts and memory size), every command of every session completes, restarting or leaving at any stop ends the machine, and no interleaving of the two and no split or interrupted transfer changes what a session reports: the same commands give the same replies as the program's sequential execution prescribes. A command that is mistyped or cannot be carried out (program file missing or broken, a machine that cannot be set up, nothing to attach to, connection to an attached machine lost) is answered, changes nothing else (the breakpoints and watchpoints stay as they were set, for the next run), and the session goes on.",
 ["schedules", "histories", "programs"],
 "all command sequences of the debugger shell over generated programs and all thread interleavings",
 "The scripted sessions run once under whatever schedule the host gives.",
 ["src/dbg-cli/CLI.h", "src/common/threads_messenger.h", "src/common/TCP.h", "src/debugger/Native.cpp", "src/debugger/T86Process.cpp", "src/t86/os.cpp", "src/t86-cli/main.cpp"],
 [("machine thread start and join", "src/dbg-cli/CLI.h: HandleRun, ExitProcess")], [], ["text the shell prints, thread states"], HOOK)

prop("P19", "Source variables and expressions show and change exactly what they name",
 "At every stop a source variable in scope (the innermost declaration wins) has the value that sequential execution has put at the location its debugging information gives - a register, a frame-relative or an absolute memory cell - in the current activation, also in recursion and after a restart. Expressions follow pointers, array elements, structure members and earlier results to the right cells, and their operators compute what C defines for the operands (with the precedence of the debugger's expression grammar). Assigning through such an expression changes exactly the named location, for later reads and for the continued program. An expression that cannot be evaluated is refused and changes nothing.",
 ["programs", "histories", "inputs"],
 "all programs, variable layouts, stops and expressions",
 "The tests evaluate a few expressions at one stop of a few fixed programs.",
 ["src/debugger/Source/Expression.cpp", "src/debugger/Source/ExpressionParser.cpp", "src/debugger/Source/ExpressionInterpreter.cpp", "src/debugger/Source/Source.cpp", "src/debugger/Native.cpp"],
 [("scopes and types", "src/debugger/Source/Source.cpp"), ("location programs", "src/debugger/Source/ExpressionInterpreter.cpp"), ("tree-walking evaluation", "src/debugger/Source/Expression.cpp")], [], ["values and types shown, registers and memory after assignments"], HOOK)

prop("P20", "Program files are loaded completely or refused, whatever the disk does",
 "A well-formed program file - text, data, line table, debug information, source and unknown sections in any order and layout, comments included - is read into exactly the instructions, data, line mapping, scopes, variables and types it describes, however the disk splits the reads. A malformed file (damaged, truncated, or with operands an instruction does not take) and one the disk fails to read to its end are refused with an error message: never a crash, a hang, or a program that is only partly what the file says. The same holds for a machine that cannot be set up for a loaded program (memory smaller than its data, impossible sizes, unusable options): t86-cli says so and ends with an error code.",
 ["inputs", "fault_sequences"], "all files, all ways of damaging them, all splits of reads and all points of failure",
 "The tests read a few dozen small texts from memory; none damages a file or fails a read.",
 ["src/common/parsing.cpp", "src/t86-parser/parser.cpp", "src/debugger/Source/Parser.cpp", "src/debugger/Source/Source.cpp", "src/t86-cli/main.cpp"],
 [("lexer over an input stream", "src/common/parsing.cpp"), ("operand grammar", "src/t86-parser/parser.cpp"), ("recursive descent parser", "src/debugger/Source/Parser.cpp"), ("taking up types", "src/debugger/Source/Source.cpp")])

prop("P21", "The line entered is the line executed",
 "Whatever keys are pressed at the debugger's prompts - characters, every editing and cursor key, recall from the history, in any order - Enter executes, once, exactly the line being edited, and while it is edited the screen shows the prompt, the line (the part around the cursor, if the window is narrower) and the cursor as they are, on terminals of any width, whether or not the system knows it. Recall gives the lines entered before, newest first, up to the history's limit. Interrupted reads have no effect. Where the input ends or fails in the middle of a line, nothing of that line is executed and the session ends in order (a last line of a pipe or file without a newline counts). The terminal is in its own mode whenever a command runs and when the session ends. From pipes, files and terminals that cannot edit each line is executed whole, once.",
 ["inputs", "fault_sequences", "histories", "configurations"], "all key sequences and histories of lines, window widths, kinds of input and points at which the input fails or is interrupted",
 "The tests never run the debugger on a terminal: every script is read from a pipe that does not fail.",
 ["src/dbg-cli/utility/linenoise.c", "src/dbg-cli/CLI.h"],
 [("line editing and refresh", "src/dbg-cli/utility/linenoise.c: linenoiseEdit, refreshSingleLine"), ("history", "src/dbg-cli/utility/linenoise.c: linenoiseHistoryAdd, linenoiseEditHistoryNext"), ("reading lines", "src/dbg-cli/CLI.h: Run, InteractiveAssemble")],
 [], ["lines executed, screen and cursor at each key, terminal modes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
